"""Properties of the type utilities: an order abstraction over LLVM IR, and type-level witnesses that only compile if the property holds."""
import concurrent.futures
import os
import re
import subprocess
import sys

import common
from common import Broken, REPO, VERIF

COMPILERS = (("clang", ["clang++-18", "-fno-caret-diagnostics", "-ftemplate-backtrace-limit=0", "-ferror-limit=40"]),
             ("gcc", ["g++", "-fno-diagnostics-show-caret", "-fmax-errors=40"]))
WFLAGS = ["-std=c++20", "-fsyntax-only", "-w", "-ftemplate-depth=3000", "-iquote", REPO, "-iquote", os.path.join(VERIF, "stubs/gen")]


def compile_only(cc, src):
    return subprocess.run(cc + WFLAGS + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)


def witness(ctx, src, headers, what):
    """Compiles the witness with every compiler; a static_assert of the witness that fails is the violation."""
    plain = os.path.join(ctx.tmp, "headers_only.cc")
    with open(plain, "w") as f:
        f.write("".join('#include "%s"\n' % h for h in headers))
    with concurrent.futures.ThreadPoolExecutor() as ex:
        outs = list(ex.map(lambda c: compile_only(c[1], src), COMPILERS))
    for (name, cc), p in zip(COMPILERS, outs):
        if p.returncode == 0:
            continue
        lines = p.stdout.splitlines()
        hits = {}
        for i, line in enumerate(lines):
            m = re.search(r"VP-WITNESS ([^\"'\u2019]*)", line)
            if not m or "error" not in line:
                continue
            near = "\n".join(lines[max(0, i - 4):i + 4])
            inst = re.search(r"(?:template class |instantiation of 'struct )'?(?:vp::)?([A-Za-z_]+<false[^'>]*>)", near)
            if not inst:
                inst = re.search(r"(?:vp::)?([A-Za-z_]+<false[^'>]*>)", near)
            hits.setdefault(m.group(1).strip(), []).append(inst.group(1) if inst else "")
        for w, where in sorted(hits.items()):
            ctx.violation(rule="witness", where=headers[0], function=what,
                          what="does not hold with %s: %s (%s)" % (name, w, ", ".join(sorted(set(x for x in where if x)))[:300]))
        if hits:
            continue
        if compile_only(cc, plain).returncode:
            raise Broken("the headers do not compile with %s:\n%s" % (name, p.stdout[-2000:]))
        mine = [x for x in lines if ": error" in x and REPO + "/mbo/" in x]
        if not mine:
            raise Broken("the witness does not compile with %s:\n%s" % (name, p.stdout[-2000:]))
        ctx.violation(rule="witness", where=re.sub(r"^.*?(mbo/[^:]*:\d+).*", r"\1", mine[0]), function=what,
                      what="a use that has to compile does not with %s: %s" % (name, mine[0].split("error:", 1)[-1].strip()[:300]))


def t01(ctx):
    bc = ctx.ir("compare_api.cc", "compare.bc")
    r = ctx.tool("vpir", ["cells", bc])
    ctx.take(r)
    st = r["stats"]
    if st["functions"] < 500 and not ctx.violations:
        raise Broken("only %d comparison functions to look at" % st["functions"])
    ctx.coverage.update(functions=st["functions"], cells=st["cells"], cells_undecided=st["cells_undecided"],
                        obligations=st["cells"], pairs_without_the_entry=st["pairs_without_the_entry"])
    ctx.assumptions.append("x86 long double: every 64-bit integer is exact in it")
    return ("CompareScalar, CompareArithmetic, CompareIntegral, CompareFloat, CompareLess and WeakToStrong are instantiated for every pair of "
            "19 scalar types. The pairs of values are partitioned by the constants of the code and of the types (as points and open "
            "intervals, a NaN apart) and by the order of the two values; in each cell the result is evaluated abstractly and must be the "
            "order of the cell. CompareLess is checked where the language offers <=> for the pair and both are integers or both floats.")


def t02(ctx):
    top = 40
    src = os.path.join(ctx.tmp, "decompose.cc")
    with open(src, "w") as f:
        f.write(common.run([sys.executable, os.path.join(VERIF, "witness/gen_decompose.py"), str(top)]).stdout)
    witness(ctx, src, ["mbo/types/tuple_extras.h"], "mbo::types::StructToTuple")
    ctx.coverage.update(field_counts=top, obligations=2 * (4 * top + 8), compilers=[c for c, _ in COMPILERS])
    return ("For every field count 1..40 a struct whose fields all have different types is decomposed from an lvalue, a const value and an rvalue; "
            "the type of the resulting tuple is compared with the exact expected one, which fixes which field is in which place. Further "
            "witnesses fix what counts as decomposable. Compiled (never run) with clang and gcc, whose code differs.")


def t03(ctx):
    witness(ctx, os.path.join(VERIF, "witness/template_search.cc"), ["mbo/types/template_search.h", "mbo/types/cases.h"],
            "mbo::types searches and cases")
    ctx.coverage.update(obligations=2 * (64 * 49 * 3 + 10000), compilers=[c for c, _ in COMPILERS])
    return ("Type-level witness, compiled (never run) with clang and gcc: every predicate on [0, 6[ with every sub-range for the linear, reverse and "
            "maximum searches, every downward closed one for BinarySearch and every threshold in ranges up to 33 long; every combination of "
            "up to six conditions for Cases and CaseIndex.")


PROPS = {"T01": t01, "T02": t02, "T03": t03}
