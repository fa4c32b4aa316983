#!/usr/bin/env python3
"""Decide one property of /repo's current tree:  check.py <ID>   (exit 0: holds, 1: VIOLATION, 2: no answer)"""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"finding: property={pid} key="):
                rest = line.split(" key=", 1)[1]
                k, _, what = rest.partition(" :: ")
                out[k.strip()] = what.strip()
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    from sa import facts
    from sa.report import RULES, Report
    from sa.common import AnchorError
    import sa.rules  # noqa: F401  (registers every rule)

    if pid not in RULES:
        print(f"no rule {pid}")
        return 2
    title, fn = RULES[pid]
    try:
        P = facts.load()
    except facts.FactsError as e:
        print(f"cannot analyse /repo: {e}")
        return 2
    R = Report(pid)
    R.tier = tier
    try:
        fn(P, R)
    except AnchorError as e:
        R.violation("anchor", str(e))
    known = known_findings(pid)
    new = {k: v for k, v in R.violations.items() if k not in known}
    old = {k: v for k, v in R.violations.items() if k in known}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(VERIF, "evidence", f"{pid}.replay.txt")
    with open(replay, "w") as fh:
        fh.write(f"{pid}: {title}\nrerun: python3 {VERIF}/check.py {pid}\n\n")
        for k, (msg, chain) in sorted(R.violations.items()):
            fh.write(f"[{'known finding' if k in known else 'violation'}] {k}\n  {msg}\n" + "".join(f"    {c}\n" for c in chain) + "\n")
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the type-checked, monomorphised MIR of the current tree: " + title
            + ". Every feasible path (up to the abstraction) of the functions listed was explored; nothing was executed.",
            "program_functions": len(P.fns),
            "functions_analysed": len(R.analysed),
            "workspace_functions_analysed": sorted(d for d in R.analysed if "backpak" in d)[:400],
            "abstract_steps": R.paths,
            "event_call_sites": {d: len(s) for d, s in sorted(R.sites.items())},
            "obligations": [{"what": w, "instances": n} for w, n in R.obligations],
            "counts": R.counts,
            "known_findings_seen": sorted(old),
            "new_violations": [{"key": k, "message": m, "chain": c} for k, (m, c) in sorted(new.items())],
        },
        "assumptions": R.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    for k in sorted(old):
        print(f"KNOWN-FINDING: property={pid} {known[k]}")
    for k, (msg, chain) in sorted(new.items()):
        print(f"{k}: {msg}")
        for c in chain:
            print(f"    {c}")
    if new:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    print(f"{pid} holds: {len(R.analysed)} functions, {R.paths} abstract steps, {sum(n for _w, n in R.obligations)} obligations ({time.time()-t0:.1f} s)")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        tb = traceback.format_exc().splitlines()
        print("\n".join(tb[:6] + ["..."] + tb[-6:] if len(tb) > 14 else tb))
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
