"""Validate planted bugs and write them to seeded/.

python3 tools/seed.py SPECS.py [--only ID] [--nocheck] [--recheck]

SPECS.py defines BUGS = [dict(id=, property=, edits=[(file, old, new)], needs=, breaks=, demo=python source)].
Each bug is applied to a scratch copy of /repo; it is kept only when the stable tests pass with it, and its
demonstration succeeds without and fails with it.  Then the check of its property runs against the copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEED_REPO", "/repo")
BASE = "627582a"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
SH = """#!/bin/sh
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
PRE = "import os, sys\nsys.path.insert(0, os.getcwd())\n"


def run(cmd, cwd=None, env=ENV, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def tests(copy):
    """Baseline tests failing in the copy"""
    src = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {copy}")
    with tempfile.TemporaryDirectory() as d:
        open(f"{d}/test.sh", "w").write(src)
        rc, out = run(["bash", f"{d}/test.sh", f"{d}/out.json"], env=dict(ENV))
        res = json.load(open(f"{d}/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    return base, res


def passed(res):
    for k in ("passed", "pass"):
        if k in res:
            return set(res[k])
    raise SystemExit(f"unknown results format {list(res)[:5]}")


def original_lines(copy, file):
    rc, out = run(["git", "blame", "-s", "--abbrev=7", "HEAD", "--", file], cwd=REPO)
    return {i + 1 for i, l in enumerate(out.splitlines()) if l.lstrip("^").startswith(BASE[:7])}


def main():
    spec = sys.argv[1]
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1].split(",")
    ns = {}
    exec(open(spec).read(), ns)
    os.makedirs("/tmp/seed", exist_ok=True)
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        print("==", b["id"], b["property"], flush=True)
        copy = f"/tmp/seed/{b['id']}"
        shutil.rmtree(copy, ignore_errors=True)
        run(["cp", "-a", REPO, copy])
        try:
            bad = None
            for file, old, new in b["edits"]:
                s = open(f"{copy}/{file}").read()
                if s.count(old) != 1:
                    bad = f"edit text occurs {s.count(old)} times in {file}"
                    break
                open(f"{copy}/{file}", "w").write(s.replace(old, new))
            if bad:
                print("  REJECTED", bad)
                continue
            rc, diff = run(["git", "diff"], cwd=copy)
            rc, d0 = run(["git", "diff", "-U0"], cwd=copy)
            cur, removed = None, []
            for l in d0.splitlines():
                if l.startswith("--- a/"):
                    cur = l[6:]
                elif l.startswith("@@"):
                    a = l.split()[1][1:].split(",")
                    start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    removed += [(cur, start + i) for i in range(n)]
            orig = {f: original_lines(copy, f) for f in {r[0] for r in removed}}
            foreign = [r for r in removed if r[1] not in orig[r[0]]]
            if not removed or foreign:
                print("  REJECTED changes lines that are not of the original", foreign)
                continue
            d = tempfile.mkdtemp(prefix="demo")
            open(f"{d}/demo.sh", "w").write(SH)
            open(f"{d}/demo.py", "w").write(PRE + b["demo"])
            rc0, o0 = run(["sh", f"{d}/demo.sh"], cwd=REPO, timeout=300)
            rc1, o1 = run(["sh", f"{d}/demo.sh"], cwd=copy, timeout=300)
            shutil.rmtree(d)
            if rc0 != 0 or rc1 == 0:
                print(f"  REJECTED demo: clean {rc0}, patched {rc1}\n{o0[-600:]}\n{o1[-600:]}")
                continue
            base, res = tests(copy)
            lost = set(BASELINE(base)) - passed(res)
            if lost:
                print("  REJECTED tests fail:", len(lost), sorted(lost)[:5])
                continue
            out = f"{VERIF}/seeded/{b['id']}"
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            open(f"{out}/patch.diff", "w").write(diff)
            open(f"{out}/demo.sh", "w").write(SH)
            os.chmod(f"{out}/demo.sh", 0o755)
            open(f"{out}/demo.py", "w").write(PRE + b["demo"])
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{out}/meta.json", "w"), indent=1)
            if "--nocheck" in sys.argv:
                print("  KEPT")
                continue
            import time

            t = time.time()
            rc, o = run(["./check", b["property"]], cwd=VERIF, env=dict(ENV, VERIF_REPO=copy))
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            print(f"  KEPT; check {b['property']}: exit {rc} {'CAUGHT' if rc == 1 and v else 'MISSED'} {time.time() - t:.0f} s", flush=True)
            if rc == 1 and v:
                print("   ", "\n    ".join(o.splitlines()[:3])[:300])
            else:
                print(o[-500:])
        finally:
            shutil.rmtree(copy, ignore_errors=True)


def BASELINE(base):
    for k in ("stable",):
        if isinstance(base, dict) and k in base and isinstance(base[k], (list, dict)):
            return list(base[k])
    if isinstance(base, list):
        return base
    raise SystemExit(f"unknown baseline format {list(base)[:5]}")


if __name__ == "__main__":
    main()
