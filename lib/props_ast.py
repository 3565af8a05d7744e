"""Properties decided by rules over the syntax tree and control-flow graphs of every source file."""
import glob
import os
import re

import common
from common import Broken, REPO, VERIF

RES = "/usr/lib/llvm-18/lib/clang/18"
SKIP = re.compile(r"_test\.|_benchmark|test_util|_test_vectors|test_types|_gen\.cc$")
FLAGS = ["-x", "c++", "-std=c++20", "-w", "-fsyntax-only", "-isystem", os.path.join(VERIF, "stubs/absl20"), "-include", "vp_pre.h",
         "-iquote", REPO, "-iquote", os.path.join(VERIF, "stubs/gen"), "-resource-dir", RES]
NOTE = ("Every non-test source file of the repository is parsed by clang (Abseil, RE2 and generated headers are stand-ins from stubs/); "
        "templates are looked at in their instantiations, the digest and hash ones through harness/digest_api.cc. ")


def sources(suffix):
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "mbo")):
        out += [os.path.join(d, f) for f in fs if f.endswith(suffix) and not SKIP.search(f)]
    return sorted(out)


def collect(ctx, rules, keys, minimum, facts={}):
    heads, units = sources(".h"), sources(".cc")
    if len(heads) < 20 or len(units) < 5:
        raise Broken("the sources are not where they were: %d headers, %d source files" % (len(heads), len(units)))
    umbrella = os.path.join(ctx.tmp, "all_headers.cc")
    with open(umbrella, "w") as f:
        for h in heads:
            f.write('#include "%s"\n' % os.path.relpath(h, REPO))
    api = os.path.join(VERIF, "harness", "digest_api.cc")
    units = [umbrella, api] + units
    if ctx.tier == "thorough":
        units += heads

    def go(files):
        return ctx.jobs("vpast", [[REPO] + FLAGS + ["--", f] for f in files], timeout=400)
    res = go(units)
    broken = [a[-1] for a, r in res if r is None or r["rc"]]
    if umbrella in broken and ctx.tier != "thorough":
        res += go(heads)
    seen, found, parsed = {}, {}, 0
    for args, r in res:
        if r is None:
            continue
        if r["rc"]:
            if args[-1] != umbrella:
                ctx.undecided.append({"file": os.path.relpath(args[-1], REPO), "what": "does not parse with the stand-in headers"})
            continue
        parsed += 1
        for k, v in r["seen"].items():
            seen.setdefault(k, set()).update(v)
        for k, what in facts.items():
            ctx.undecided += [{"where": w, "what": what} for w in r["facts"].get(k, ())]
        for x in r["findings"]:
            if x["rule"] in rules:
                found[(x["rule"], x["where"], x["function"], x["what"])] = x
    for k in sorted(found):
        ctx.violation(**found[k])
    n = sum(len(seen.get(k, ())) for k in keys)
    if n < minimum and not found:
        raise Broken("only %d places to look at (%s); expected at least %d" % (n, ", ".join(keys), minimum))
    ctx.coverage.update(files_parsed=parsed, functions=len(seen.get("functions", ())), obligations=n,
                        **{"places_" + k.replace("-", "_"): len(seen.get(k, ())) for k in keys},
                        samples=[s for k in keys for s in sorted(seen.get(k, ()))[:4]])
    return n


def e01(ctx):
    collect(ctx, {"status-dropped", "status-lost", "unchecked-access"}, ["status", "status-var", "access"], 120)
    return (NOTE + "Rules: the result of every call that produces a Status or StatusOr is used by an expression (not a discarded "
            "statement, a cast to void or IgnoreError()); on every path of the control-flow graph a local outcome is read before it is overwritten or the "
            "function ends with success; *x, x-> on StatusOr/optional/expected only where a must-analysis knows that x holds a value, never "
            "on an unchecked call result.")


def e02(ctx):
    collect(ctx, {"read-end", "write-lost"}, ["stream"], 3)
    return (NOTE + "Rules (typestate over the control-flow graph, through calls that take a stream by reference, directly or by function "
            "pointer): once a read has come back short, no path ends in success without asking bad()/eof()/rdstate() (ferror/feof for "
            "FILE*); after a write to an owned file stream no path ends in success without flush or close followed by a test of the "
            "stream.")


def e03(ctx):
    collect(ctx, {"fs-throw", "fs-lost"}, ["fs"], 3)
    return (NOTE + "Rule: from a function that returns Status or StatusOr or that is noexcept, no std::filesystem operation is reached, "
            "directly or through functions that have no such result, in a form that throws where a form with std::error_code exists, "
            "including the increment hidden in a range-for over a directory, unless a handler catches it.")


def e04(ctx):
    collect(ctx, {"exit-status"}, ["exit"], 8, facts={"exits-undecided": "main: too many states"})
    return (NOTE + "Rule: abstract execution of every main of the repository, through the functions and lambdas of its file, over {zero, not zero, "
            "unknown} with what branches tell: no path on which an error was reported, ok() was false, the diff was not empty, a digest "
            "differed, a file was unreadable or a line malformed ends with a status known to be 0.")


def s01(ctx):
    collect(ctx, {"static-writable", "thread-local", "mutable-field"}, ["static", "field"], 200)
    return (NOTE + "Rules: every variable of static storage is const all the way down, a synchronisation object, a command-line flag, or is only "
            "used where a lock-set analysis of the control-flow graph finds one and the same mutex held; none is thread-local; no "
            "data member is mutable. Main programs' own variables are left out.")


def b01(ctx):
    collect(ctx, {"byte-sign"}, ["byte"], 15)
    return (NOTE + "Rule: a value of plain char type, or a local integer it was stored in, is not converted to a wider unsigned integer, "
            "shifted left, used as an index, handed to a <cctype> function or compared with a number above 127 without first going "
            "through an unsigned 8-bit type.")


PROPS = {"E01": e01, "E02": e02, "E03": e03, "E04": e04, "S01": s01, "B01": b01}
