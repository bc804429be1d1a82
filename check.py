#!/usr/bin/env python3
"""check.py ID [--thorough] : decide one property.  Exit 0: it held on everything
explored; 1: violated (one VIOLATION line); 2: the check could not run."""
import json, os, re, shutil, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
from vlib import Infra
import registry


def sample(trace, n=8):
    try:
        t = json.loads(trace)
        return [{k: v for k, v in s.items() if k not in ("o", "obs")} for s in t[:n]]
    except Exception:
        return trace[:400]


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    ck = registry.CHECKS[pid]
    t0 = time.time()
    scratch = vlib.scratch_root()
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "models": [], "replays": []}
    viol, known = [], []
    findings = [k for k in vlib.known_findings() if k["property"] == pid and k.get("status") == "finding"]
    try:
        for m in ck["models"]:
            consts = m.get(tier, m.get("quick"))
            if consts is None:
                continue
            g, d = vlib.tlc_check(scratch, m["spec"], m["module"], cfg=m.get("cfg"), consts=consts, timeout=m.get("timeout", 3000))
            cov["states"] += d
            cov["transitions"] += g
            cov["models"].append({"model": m["spec"] + "/" + m["module"], "constants": consts, "distinct": d, "generated": g})
        bins = {}
        for r in ck["replays"]:
            prof = r.get(tier, r.get("quick"))
            if prof is None:
                continue
            race = r.get("race", False)
            if (r["cmd"], race) not in bins:
                bins[r["cmd"], race] = vlib.build(scratch, r["cmd"], race)
            for p in prof:
                seeds = p.get("seeds", 1)
                for s in range(seeds):
                    seed = vlib.SEED + 7919 * s
                    traces = vlib.tlc_traces(scratch, r["spec"], r["module"], p["num"], p["depth"], seed, cfg=r.get("cfg"), consts=p.get("consts"), timeout=1500)
                    x = vlib.replay(scratch, bins[r["cmd"], race], traces, r["groups"], seed=seed, params=p.get("params", r.get("params", "")),
                                    idle=r.get("idle", 120), shards=r.get("shards", 8), procs=r.get("procs", 2), tries=r.get("tries", 4), total=p.get("total", 500 if tier == "quick" else 6000))
                    cov["traces_validated_against_impl"] += x["done"]
                    cov["replays"].append({"spec": r["spec"] + "/" + r["module"], "harness": r["cmd"], "groups": r["groups"], "profile": p, "seed": seed,
                                           "behaviours": x["done"], "steps": x["steps"], "comparisons": x["checks"], "actions": x["notes"],
                                           "unconfirmed": [str(f) for f in x["unconfirmed"]]})
                    if len(cov["samples"]) < 3:
                        cov["samples"].append(sample(traces[0]))
                    for f in x["fails"]:
                        txt = "%s: %s" % (f.group, f.msg)
                        k = next((k for k in findings if re.search(k["match"], txt)), None)
                        if k:
                            known.append((k, f))
                            continue
                        os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
                        rp = os.path.join(vlib.VERIF, "evidence", "%s-violation.json" % pid)
                        if not viol:
                            json.dump({"property": pid, "group": f.group, "step": f.step, "message": f.msg, "harness": r["cmd"], "seed": seed,
                                       "params": p.get("params", r.get("params", "")), "groups": r["groups"], "behaviour_index": f.trace,
                                       "behaviour": json.loads(traces[f.trace])}, open(rp, "w"), indent=1)
                        viol.append((f, rp))
                    shutil.rmtree(os.path.dirname(x["traces"]) + "/none", ignore_errors=True)
                    if viol:
                        break
                if viol:
                    break
            if viol:
                break
        vlib.write_evidence(pid, tier, ck["level"], cov, time.time() - t0, ck.get("assumptions", []), len(viol))
    except Infra as e:
        print("check could not run: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    seen = set()
    for k, f in known:
        if k["what"] not in seen:
            seen.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        for f, _ in viol[:5]:
            print("  " + str(f))
        print("VIOLATION property=%s replay=%s" % (pid, viol[0][1]))
        return 1
    print("%s holds: %d model states, %d behaviours replayed, %d comparisons, %.0f s" % (
        pid, cov["states"], cov["traces_validated_against_impl"], sum(x["comparisons"] for x in cov["replays"]), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
