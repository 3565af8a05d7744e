"""Shared driver code: builds the analysers, compiles /repo's current sources to IR, writes evidence, reports violations."""
import concurrent.futures
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "clang++-18"
IR_FLAGS = ["-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-g", "-Wno-everything",
            "-iquote", REPO, "-iquote", os.path.join(VERIF, "stubs/gen"), "-c", "-emit-llvm"]


class Broken(Exception):
    """The analysis itself could not be carried out (no answer)."""


def run(cmd, timeout=800, check=True, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)
    if check and p.returncode != 0:
        raise Broken("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd)[:300], p.stderr[-3000:]))
    return p


def tools(which):
    """Builds the analyser if it is missing or older than its sources; returns its path."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        run([os.path.join(VERIF, "build.sh"), which], timeout=880)
    return os.path.join(BUILD, which)


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
        self.violations, self.undecided = [], []
        self.coverage, self.assumptions = {}, []

    def ir(self, src, name, extra=()):
        out = os.path.join(self.tmp, name)
        run([CLANG] + IR_FLAGS + list(extra) + [os.path.join(VERIF, "harness", src), "-o", out])
        return out

    def tool(self, which, args, timeout=800):
        p = run([tools(which)] + args, timeout=timeout)
        try:
            return json.loads(p.stdout)
        except ValueError:
            raise Broken("unreadable analyser output: " + p.stdout[:500] + p.stderr[-500:])

    def jobs(self, which, lists, timeout=300):
        """Runs analyser jobs side by side; returns [(args, report or None)]. A job that runs out of time is recorded as undecided."""
        exe = tools(which)

        def one(args):
            try:
                p = run([exe] + args, timeout=timeout)
                return args, json.loads(p.stdout)
            except subprocess.TimeoutExpired:
                return args, "no answer in %d s" % timeout
            except (ValueError, Broken) as e:
                return args, str(e)[-600:]
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            out = list(ex.map(one, lists))
        res = []
        for args, r in out:
            if isinstance(r, str):
                self.undecided.append({"job": " ".join(os.path.basename(a) for a in args), "what": r})
                r = None
            res.append((args, r))
        if not any(r for _, r in res):
            raise Broken("no analysis job gave an answer: " + json.dumps(self.undecided)[:1000])
        return res

    def take(self, report, rules=None):
        """Adds a report's findings; with rules, only those under the named rules."""
        for key, to in (("violations", self.violations), ("undecided", self.undecided)):
            for v in report.get(key, []):
                if rules is None or rules(v.get("rule", "")):
                    to.append(v)

    def violation(self, **kw):
        self.violations.append(kw)


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    return json.load(open(path)) if os.path.exists(path) else {"findings": [], "fixed": []}


def matches(finding, viol):
    return all(re.search(pat, str(viol.get(k, ""))) for k, pat in finding["match"].items())


def finish(ctx, explanation):
    known = [f for f in known_findings()["findings"] if f["property"] == ctx.prop]
    fresh, hit = [], {}
    for v in ctx.violations:
        for i, f in enumerate(known):
            if matches(f, v):
                hit.setdefault(i, v)
                break
        else:
            fresh.append(v)
    for i in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, known[i]["what"]))
    cov = dict(ctx.coverage)
    cov["explanation"] = explanation
    cov["undecided"] = ctx.undecided[:50]
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "other", "coverage": cov,
          "assumptions": ctx.assumptions, "violations": len(fresh), "wall_s": round(time.time() - ctx.t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    shutil.rmtree(ctx.tmp, ignore_errors=True)
    for u in ctx.undecided[:20]:
        print("UNDECIDED: " + json.dumps(u))
    if fresh:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, ctx.prop + ".json")
        with open(rp, "w") as f:
            json.dump({"property": ctx.prop, "command": "bin/check %s" % ctx.prop, "violations": fresh}, f, indent=1)
            f.write("\n")
        for v in fresh[:20]:
            print("  " + " | ".join("%s: %s" % (k, v[k]) for k in ("rule", "where", "function", "entry", "what") if k in v))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, rp))
        return 1
    print("OK property=%s %s" % (ctx.prop, json.dumps({k: v for k, v in ctx.coverage.items() if isinstance(v, (int, float))})))
    return 0
