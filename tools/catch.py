"""Run checks against planted bugs (in scratch copies of /repo) and print what catches what.

python3 tools/catch.py [ID,ID,...] [--prop C01,C02 | --all-props]     default: every bug, the check of its property
"""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = args[0].split(",") if args else sorted(os.listdir(f"{VERIF}/seeded"))
    props = None
    if "--prop" in sys.argv:
        props = sys.argv[sys.argv.index("--prop") + 1].split(",")
        ids = [i for i in ids if i not in props]
    if "--all-props" in sys.argv:
        props = [f"C{i:02d}" for i in range(1, 31)]
    for b in ids:
        d = f"{VERIF}/seeded/{b}"
        meta = json.load(open(f"{d}/meta.json"))
        copy = f"/tmp/catch/{b}"
        subprocess.run(["rm", "-rf", copy], check=True)
        os.makedirs("/tmp/catch", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        subprocess.run(["git", "apply", f"{d}/patch.diff"], cwd=copy, check=True)
        for p in props or [meta["property"]]:
            t = time.time()
            r = subprocess.run([f"{VERIF}/check", p], env=dict(os.environ, VERIF_REPO=copy), cwd=VERIF,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode(errors="replace").splitlines()
            v = [x for x in out if x.startswith("VIOLATION")]
            verdict = "CAUGHT" if v and r.returncode == 1 else "missed" if r.returncode == 0 else f"rc {r.returncode}"
            print(f"{b:28s} {p} {verdict:7s} {time.time() - t:5.0f}s {(out[-1] if out else '')[:150] if not v else v[0][:60]}", flush=True)
        subprocess.run(["rm", "-rf", copy], check=True)


main()
