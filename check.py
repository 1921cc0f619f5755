#!/usr/bin/env python3
"""python3 check.py <ID> : decides one property on /repo's current working tree."""
import importlib, json, os, re, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
sys.setrecursionlimit(20000)


def main(pid):
    import base
    tier = os.environ.get("VERIF_TIER", "quick")
    ck = base.Ctx(pid, tier)
    mod = importlib.import_module(pid.lower())
    info = {}
    try:
        ck.p
    except Exception as e:
        # the tree cannot be analysed at all (it does not compile): nothing can be said to hold
        print("cannot analyse the tree: %s" % e)
        ck.bad("analysis", "the tree cannot be type-checked: " + str(e)[-300:])
    if not ck.viol:
        try:
            info = mod.run(ck) or {}
            ck.join()
        except base.Missing:
            pass
        except Exception as e:
            import traceback
            ck.undecided("check", "internal: " + repr(e)[:200] + traceback.format_exc()[-600:])
    known = []
    kf = os.path.join(HERE, "known-findings.txt")
    for line in open(kf) if os.path.exists(kf) else ():
        m = re.match(r"^known: property=(\S+) key=(.+?) :: (.*)$", line.strip())
        if m and m.group(1) == pid:
            known.append((m.group(2), m.group(3)))
    new = dict(ck.viol)
    for key, what in known:
        if key in new:
            del new[key]
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    ev = evidence(ck, info, new, tier)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations proved (%d kinds), %d violated, %d undecided, %d functions, %.1f s" %
          (pid, sum(ck.proved.values()), len(ck.proved), len(new), len(ck.und), len(ck.fns), time.time() - ck.t0))
    for k, t in ck.und.items():
        print("  undecided %s: %s" % (k, t))
    for k, t in new.items():
        print("  violated %s: %s" % (k, t))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def evidence(ck, info, new, tier):
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = "other"
    for c in man["checks"]:
        if c["property"] == ck.pid:
            level = c["level"]
    total = sum(ck.proved.values())
    cov = {
        "rule": info.get("rule", ""),
        "obligations": total + len(new) + len(ck.und),
        "discharged": total,
        "proved": ck.proved,
        "undecided": ck.und,
        "functions_analysed": sorted(ck.fns),
        "counts": ck.counts,
        "entries": ck.entries,
        "loops_brought_to_fixpoint": ck.loops,
        "not_followed": ck.unmodelled,
        "checker_cmd": "python3 /verif/check.py " + ck.pid,
        "trusted_base": "rustc's MIR of the current tree; the abstract interpreter and standard library models in /verif/engine",
        "explanation": info.get("explanation", "static analysis of the type-checked program (MIR) of /repo's current tree; nothing is executed"),
    }
    cov.update(info.get("coverage", {}))
    r = {
        "property": ck.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": cov, "wall_s": round(time.time() - ck.t0, 2),
        "assumptions": info.get("assumptions", []),
    }
    if new:
        r["violations"] = [{"key": k, "what": t} for k, t in new.items()]
    return r


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
