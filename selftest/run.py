#!/usr/bin/env python3
"""Self-test of the checks:  run.py [PID...]   every bad edit must be reported, every neutral edit must stay quiet.

Cases live in cases/*.txt :
   === bad P12 short title            (or: === ok P12,P14 title ; '=== ok ALL title')
   --- src/file.c
   <old text>
   ---- with
   <new text>
Several '---' hunks may follow one another.  Works on scratch copies of the sources only.
"""
import glob
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def parse(path):
    cases, cur, hunk, side = [], None, None, None
    for ln in open(path).read().split("\n"):
        if ln.startswith("=== "):
            kind, pids, title = (ln[4:].split(" ", 2) + [""])[:3]
            cur = {"kind": kind, "pids": pids.split(","), "title": title, "hunks": []}
            cases.append(cur)
            hunk = None
        elif ln.startswith("---- with"):
            side = 2
        elif ln.startswith("--- "):
            hunk = [ln[4:].strip(), [], []]
            cur["hunks"].append(hunk)
            side = 1
        elif hunk is not None:
            hunk[side].append(ln)
    for c in cases:
        for h in c["hunks"]:
            for k in (1, 2):
                while h[k] and h[k][-1].strip() == "":
                    h[k].pop()
                h[k] = "\n".join(h[k])
    return cases


def one(c, pids):
    d = tempfile.mkdtemp(prefix="spasm-st-")
    res = []
    try:
        for s in ("src", "tools"):
            shutil.copytree("/repo/" + s, d + "/" + s)
        for f, old, new in c["hunks"]:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) < 1:
                return [(c, "-", "DOES-NOT-APPLY " + f + ": " + old[:60])]
            open(p, "w").write(t.replace(old, new, 1))
        for pid in pids:
            r = subprocess.run([VERIF + "/check.sh", pid], capture_output=True, text=True,
                               env=dict(os.environ, SPASM_REPO=d))
            want = 1 if c["kind"] == "bad" else 0
            if r.returncode != want or (want and "VIOLATION property=" + pid not in r.stdout):
                res.append((c, pid, "rc=%d\n%s" % (r.returncode, "\n".join(
                    "      " + x for x in (r.stdout + r.stderr).split("\n")
                    if x and not x.startswith("   "))[-1500:])))
            elif os.environ.get("V"):
                print("ok", pid, c["title"], [x for x in r.stdout.split("\n") if "[" in x][:2])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    files = [a for a in sys.argv[1:] if a.endswith(".txt")]
    want = [a for a in sys.argv[1:] if not a.endswith(".txt")]
    allp = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(VERIF + "/checks/p*.py"))
    cases = []
    for f in files or sorted(glob.glob(HERE + "/cases/*.txt")):
        cases += parse(f)
    jobs = []
    for c in cases:
        ps = [p for p in allp if (c["pids"] == ["ALL"] or p in c["pids"]) and (not want or p in want)]
        if ps:
            jobs.append((c, ps))
    bad = n = 0
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: one(*j), jobs):
            for c, pid, msg in r:
                bad += 1
                print("FAIL [%s] %s %s: %s" % (c["kind"], pid, c["title"], msg))
    print("%d cases, %d runs, %d failures" % (len(jobs), sum(len(j[1]) for j in jobs), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
