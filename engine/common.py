"""Shared plumbing: building the analysed program, reporting, evidence."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SPASM_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang"
CLANGXX = "/usr/lib/llvm-18/bin/clang++"

sys.path.insert(0, HERE)
import llir  # noqa: E402
from api import API  # noqa: E402

# public one-liners that are better seen through
SEE_THROUGH = {"spasm_get_prime", "spasm_max", "spasm_min", "spasm_row_weight", "spasm_nnz"}


class Broken(Exception):
    """The analysis itself cannot be carried out (not a verdict)."""


class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="spasm-sa-")
        self.t0 = time.time()
        self.units = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _cc(self, src, cxx=False, extra=(), omp=True):
        out = os.path.join(self.dir, os.path.basename(src) + (".bc" if omp else ".seq.bc"))
        base = [CLANGXX, "-std=gnu++11"] if cxx else [CLANG, "-std=gnu99"]
        cmd = base + ["-w", "-O1", "-Xclang", "-disable-llvm-passes", "-Xclang", "-disable-lifetime-markers", "-g", "-fno-discard-value-names", "-fopenmp" if omp else "-fno-openmp",
                      *([] if omp else ["-Wno-implicit-function-declaration"]),
                      "-D_FORTIFY_SOURCE=0", "-isystem", os.path.join(HERE, "stub"), "-I", os.path.join(REPO, "src"),
                      "-I", os.path.join(REPO, "tools")] + list(extra) + ["-emit-llvm", "-c", src, "-o", out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken("clang cannot compile %s:\n%s" % (src, r.stderr[:2000]))
        return out

    def sources(self):
        s = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
        if len(s) < 5:
            raise Broken("library sources not found under %s/src" % REPO)
        return s

    def lib(self, keep=None, passes=None, inline_also=(), raw=False, omp=True):
        """the library as one module; omp=False: its sequential reading (OpenMP pragmas ignored)"""
        srcs = self.sources()
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(lambda s: self._cc(s, omp=omp), srcs))
        self.units += [os.path.relpath(s, REPO) for s in srcs]
        ld = llir.Loader()
        for b in bcs:
            ld.add(b)
        if keep is None:
            keep = set(API) - SEE_THROUGH - set(inline_also)
        if passes:
            ld.normalise(keep, passes)
        else:
            ld.normalise(keep)
        return ld.load()

    def ffpack(self):
        src = os.path.join(REPO, "src", "spasm_ffpack.cpp")
        fl = subprocess.run(["pkg-config", "--cflags", "givaro", "fflas-ffpack"], capture_output=True, text=True)
        bc = self._cc(src, True, fl.stdout.split())
        self.units.append("src/spasm_ffpack.cpp")
        return bc

    def ffmod(self):
        """the functions of src/spasm_ffpack.cpp itself (its own helpers inlined, FFLAS/FFPACK left as calls)"""
        own = re.compile(r"_ZL?\d")
        ld = llir.Loader()
        ld.add(self.ffpack())

        class Keep:
            def __contains__(self, n):
                return n in API or not own.match(n)
        ld.normalise(Keep())
        return ld.load(only=lambda n: n in API or bool(own.match(n)))

    def tool_names(self):
        out = []
        for f in sorted(glob.glob(os.path.join(REPO, "tools", "*.c"))):
            n = os.path.basename(f)[:-2]
            if n != "common":
                out.append(n)
        return out

    def tool(self, name, keep=None, passes=None):
        srcs = [os.path.join(REPO, "tools", name + ".c")]
        c = os.path.join(REPO, "tools", "common.c")
        if os.path.exists(c) and "common.h" in open(srcs[0]).read():
            srcs.append(c)
        ld = llir.Loader()
        for s in srcs:
            ld.add(self._cc(s))
            r = os.path.relpath(s, REPO)
            if r not in self.units:
                self.units.append(r)
        k = {"main"} | (keep or set())
        if passes:
            ld.normalise(k, passes)
        else:
            ld.normalise(k)
        return ld.load()


KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, prop, build):
        self.prop = prop
        self.b = build
        self.obl = []          # (rule, where, text)
        self.viol = []         # (key, where, rule, message)
        self.notes = []
        self.assumptions = []
        self.expl = ""
        self.rules = {}
        self.extra = {}

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, where, text=""):
        self.obl.append((rule, where, text))

    def bad(self, rule, where, key, message):
        self.obl.append((rule, where, "VIOLATED: " + message))
        k = "%s/%s" % (rule, key)
        if not any(v[0] == k and v[1] == where for v in self.viol):
            self.viol.append((k, where, rule, message))

    def need(self, rule, least):
        n = sum(1 for o in self.obl if o[0] == rule)
        if n < least and not self.viol:
            raise Broken("rule %s matched %d sites, fewer than the %d confirmed by hand" % (rule, n, least))

    def finish(self):
        known = {}
        if os.path.exists(KNOWN_FILE):
            for ln in open(KNOWN_FILE):
                m = re.match(r"known: property=(\S+) key=(\S+)\s*(.*)", ln)
                if m and m.group(1) == self.prop:
                    known[m.group(2)] = m.group(3)
        fresh = [v for v in self.viol if v[0] not in known]
        for k, where, rule, msg in self.viol:
            if k in known:
                print("KNOWN-FINDING: property=%s %s (%s) %s" % (self.prop, where, k, known[k]))
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        counts = {}
        for r, w, t in self.obl:
            counts[r] = counts.get(r, 0) + 1
        cov = {
            "explanation": self.expl,
            "rules": self.rules,
            "instances_per_rule": counts,
            "obligations": len(self.obl),
            "discharged": len(self.obl) - len(self.viol),
            "units_analysed": sorted(set(self.b.units)),
            "samples": ["%s @ %s: %s" % o for o in self.obl[:60]],
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": os.environ.get("VERIF_TIER", "quick")
              if os.environ.get("VERIF_TIER", "quick") in ("quick", "thorough") else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.b.t0, 3), "violations": len(fresh)}
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations over %d rules, %d violated; units: %d; %.1fs" % (
            self.prop, len(self.obl), len(counts), len(self.viol), len(set(self.b.units)), time.time() - self.b.t0))
        for r in sorted(counts):
            print("   %-34s %4d instances" % (r, counts[r]))
        if fresh:
            rp = os.path.join(evd, self.prop + ".report.txt")
            with open(rp, "w") as f:
                for k, where, rule, msg in fresh:
                    f.write("%s: [%s] %s\n    key: %s\n    rule: %s\n" % (where, rule, msg, k, self.rules.get(rule, "")))
            for k, where, rule, msg in fresh:
                print("%s: [%s] %s   (key %s)" % (where, rule, msg, k))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def run(prop, check):
    b = Build()
    rc = 2
    try:
        rep = Report(prop, b)
        check(b, rep)
        rc = rep.finish()
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        rc = 3
    finally:
        b.close()
    return rc
