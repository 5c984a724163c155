"""python -m mc.main <PROPERTY> [--replay FILE] [--tier quick|thorough]"""
import os
import sys

for _k, _v in {
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "JAX_PLATFORMS": "cpu",
    "PYTHONDONTWRITEBYTECODE": "1",
}.items():
    os.environ[_k] = _v
sys.dont_write_bytecode = True

import argparse
import hashlib
import importlib
import json
import time
import traceback
import warnings

from . import engine
from .engine import REPO, VERIF, canon, explore, run_case

warnings.filterwarnings("ignore")


def load_code():
    sys.path.insert(0, REPO)
    import lie_nn

    root = os.path.realpath(REPO) + os.sep
    if not os.path.realpath(lie_nn.__file__).startswith(root):
        raise engine.HarnessError(f"lie_nn was imported from {lie_nn.__file__}, not from {REPO}")


def known_findings(prop):
    """Lines ``known: property=<id> space=<space> case=<canonical json> # <what fails>``"""
    res = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if not os.path.exists(path):
        return res
    for line in open(path):
        line = line.strip()
        if not line.startswith("known: "):
            continue
        head, _, what = line[len("known: ") :].partition(" # ")
        p, s, c = head.split(" ", 2)
        if p == f"property={prop}":
            res[(s[len("space=") :], canon(json.loads(c[len("case=") :])))] = what
    return res


def write_replay(prop, space, case, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b((space + canon(case)).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, f"{prop}-{h}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "space": space,
                "case": case,
                "message": msg,
                "replay": f"cd {VERIF} && ./check {prop} --replay {path}",
            },
            f,
            indent=1,
        )
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--space")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    prop = args.property
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 0)
    t0 = time.time()

    def import_violation():
        msg = traceback.format_exc()
        print(msg)
        path = write_replay(prop, "import", [], msg)
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)

    try:
        load_code()
    except engine.HarnessError:
        raise
    except Exception:
        import_violation()

    mod = importlib.import_module(f"mc.props.{prop.lower()}")
    if args.replay:
        rep = json.load(open(args.replay))
        tiers = [tier, "quick", "thorough"]
        for t in tiers:
            for sp in mod.spaces(t):
                if sp.name == rep["space"]:
                    _, _, msg = run_case(sp, rep["case"])
                    print(f"space {sp.name}: {sp.what}\ncase {canon(rep['case'])}")
                    print("-> " + ("holds" if msg is None else msg))
                    sys.exit(0 if msg is None else 1)
        sys.exit("unknown space " + rep["space"])

    spaces = mod.spaces(tier)
    if args.space:
        spaces = [s for s in spaces if s.name == args.space]
    known = known_findings(prop)
    out = explore(spaces, max_violations=3 + len(known))
    bad = []
    hit = []
    for s, c, msg in sorted(out["violations"]):
        key = (spaces[s].name, canon(spaces[s].cases[c]))
        if key in known:
            hit.append((key, msg))
            print(f"KNOWN-FINDING: property={prop} {known[key]}")
        else:
            bad.append((spaces[s].name, spaces[s].cases[c], msg))
    wall = time.time() - t0
    stride = max(1, sum(len(s.cases) for s in spaces) // 6)
    flat = [(s.name, c) for s in spaces for c in s.cases]
    samples = [{"space": n, "case": c} for n, c in flat[::stride]][:8]
    level = getattr(mod, "LEVEL", "model_checking")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "states": len(out["states"]),
            "transitions": out["transitions"],
            "traces_validated_against_impl": out["done"],
            "samples": samples,
            "exhaustive": bool(out["complete"]),
            "spaces": {
                s.name: {
                    "what": s.what,
                    "bound": s.bound,
                    "cases": len(s.cases),
                    "executed": out["per_space"][s.name],
                }
                for s in spaces
            },
            "rule": "every case of every space is executed on the code of /repo; a state is a "
            "distinct (space, state key) reached, a transition is one operation of the "
            "implementation whose result was compared with the reference model",
            "workers": engine.NPROC,
            "slowest_cases": [[t, n, c] for t, n, c in out["slow"][:3]],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    if not args.space:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{prop}.{os.getpid()}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))
    print(
        f"{prop} {tier}: {out['done']}/{out['total']} cases, {len(out['states'])} states, "
        f"{out['transitions']} transitions, {wall:.1f} s"
    )
    if args.v:
        for t in out["slow"]:
            print("   slow", str(t)[:200])
        for s in spaces:
            print("  ", s.name, out["per_space"][s.name], "/", len(s.cases))
    for name, case, msg in bad:
        print(f"  {name} {canon(case)}: {msg}")
    if bad:
        name, case, msg = bad[0]
        path = write_replay(prop, name, case, msg)
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    if not out["complete"]:
        print("exploration incomplete")
        sys.exit(2)


if __name__ == "__main__":
    main()
