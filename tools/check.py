#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Explores the specification of a property with TLC, replays every behaviour TLC
hands out against the library built from /repo's working tree (both matrix
back ends) and compares what is observed with what the specification demands.
Exit 0: held; 1: VIOLATION; 2: the machinery itself failed."""
import hashlib, json, os, shutil, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from props import PROPS


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]
    t0 = time.time()
    work = os.path.join(vlib.BUILD, "run", "%s-%s-%d" % (pid, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        rc = run(pid, tier, seed, P, work, t0)
    except vlib.MachineryError as e:
        print("MACHINERY: %s" % e)
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(pid, tier, seed, P, work, t0):
    vlib.build_java()
    jobs = []
    for r in P["runs"] + vlib.SELF:
        for s in range(r.get(tier, {}).get("shards", 1) if r["mode"] == "sim" else 1):
            jobs.append((r, s))
    stats, by_run = {}, {}
    with ThreadPoolExecutor(vlib.NPROC) as ex:
        futs = [(r, s, ex.submit(vlib.run_tlc, r, tier, seed, work, s)) for r, s in jobs]
        fams = sorted({r.get("fam", P["fam"]) for r in P["runs"]} | ({P["fam"]}))
        exes = {f: vlib.build_all(f) for f in fams}
        for r, s, f in futs:
            st, tr = f.result()
            by_run.setdefault(r["name"], []).extend(tr)
            o = stats.setdefault(r["name"], {"mode": r["mode"], "generated": 0, "distinct": 0, "wall_s": 0})
            for k in ("generated", "distinct"):
                o[k] += st.get(k) or 0
            o["wall_s"] = max(o["wall_s"], st["wall_s"])
    viol, ntr, nops = [], 0, 0
    samples = []
    for r in P["runs"]:
        if viol:
            break          # decided; a hang in one run would only repeat in the next
        fam = r.get("fam", P["fam"])
        tr = vlib.maximal(by_run.get(r["name"], []))
        if not tr:
            raise vlib.MachineryError("no behaviours came out of %s" % r["name"])
        stats[r["name"]]["traces"] = len(tr)
        stats[r["name"]]["ops"] = {}
        for t in tr:
            for s in t:
                stats[r["name"]]["ops"][s["op"]] = stats[r["name"]]["ops"].get(s["op"], 0) + 1
        smp = tr[len(tr) // 2]
        samples.append({"run": r["name"], "steps": [{"op": s["op"], "a": s["a"]} for s in smp][:6], "length": len(smp)})
        rtol, atol = r.get("tol", P.get("tol", (1e-8, 1e-10)))
        with ThreadPoolExecutor(2) as ex:
            futs = [(b, ex.submit(vlib.replay, exes[fam][b], fam, tr, rtol, atol)) for b in P.get("backends", vlib.BACKENDS)]
            for b, f in futs:
                n, bad = f.result()
                nops += n
                ntr += len(tr)
                for v in bad:
                    v.update(property=pid, backend=b, fam=fam, run=r["name"], tol=[rtol, atol])
                    viol.append(v)
    kf = vlib.known_findings(pid, P, exes)
    for line in kf["lines"]:
        print(line)
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": sum(s["distinct"] or s["generated"] for s in stats.values()),
                       "transitions": sum(s["generated"] for s in stats.values()),
                       "traces_validated_against_impl": ntr, "operations_replayed": nops,
                       "runs": stats, "samples": samples, "backends": list(P.get("backends", vlib.BACKENDS))},
          "assumptions": P.get("assumptions", []) + vlib.ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    json.dump(ev, open(os.path.join(vlib.VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if viol:
        os.makedirs(os.path.join(vlib.VERIF, "replays"), exist_ok=True)
        for v in viol:
            h = hashlib.md5(json.dumps(v["trace"], sort_keys=True).encode()).hexdigest()[:10]
            p = os.path.join(vlib.VERIF, "replays", "%s-%s-%s.json" % (pid, v["backend"], h))
            json.dump(v, open(p, "w"), indent=1)
            print("  %s [%s] step %d %s: %s" % (v["run"], v["backend"], v["step"], v["op"], v["why"]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    print("OK property=%s tier=%s traces=%d ops=%d wall=%.1fs" % (pid, tier, ntr, nops, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
