#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]: builds the harness of one property from
/repo's working tree, explores, and reports.  VERIF_TIER=quick|thorough."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import build as B

HARNESS_OF = {}
for h, ids in {
    "dist": "D01 D02 D03 D04",
    "crp": "C01 C02 D04 M01",
    "rel": "R01 R02 R03 N01 N02",
    "irm": "I01 I02 I03 N02",
    "hirm": "H01 H02 H03 I03 N02",
    "pclean": "V01 V02",
    "gendb": "V03 G01 G02 G03 G04",
    "io": "F01 F02 F03",
    "chain": "T01",
    "infer": "T02",
    "emis": "E01 E02 E03 E04 A01 D04 S01",
}.items():
    for i in ids.split():
        HARNESS_OF.setdefault(i, []).append(h)
# the depth (0, 1, 2) of the quick and thorough tier, where it is not (0, 1)
LEVELS = {p: (1, 2) for p in "D01 D03 D04 C02 S01 E01 E02 E03 A01 M01 I01 H02 H03 P03 P05 T01".split()}
PYTHON = {"B01": ["cli.py"], "M01": ["pymodel.py"], "Y01": ["viewer.py"], **{f"P0{i}": ["pymodel.py"] for i in range(1, 7)}}       # property -> script under /verif/pyharness

def load_known():
    p = os.path.join(V, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out

def run_harness(h, prop, tier, out, watchdog, shard=None, limit=840):
    exe = B.build(h)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:quarantine_size_mb=8")
    cmd = [exe, "--prop", prop, "--tier", tier, "--out", out, "--watchdog", str(watchdog)]
    if shard:
        cmd += ["--shard", shard]
    subprocess.run(cmd, env=env, timeout=limit, check=True, cwd=os.path.dirname(out))
    res = []
    for f in sorted(glob.glob(out + ".*.name")):
        r = json.loads(open(f[:-5], encoding="utf-8", errors="replace").read())
        r["shard"] = open(f).read()
        r["harness"] = h
        os.remove(f)
        res.append(r)
    return res

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vp_", dir="/tmp")
    try:
        results = []
        depth = ("quick", "thorough", "deep")[LEVELS.get(prop, (0, 1))[tier == "thorough"]]
        for h in HARNESS_OF.get(prop, []):
            out = os.path.join(tmp, h)
            res = run_harness(h, prop, depth, out, 60)
            for i, r in enumerate(res):
                if r["status"] == "hang":   # replay alone, with a longer limit
                    again = run_harness(h, prop, depth, out + "_again", 240, r["shard"])
                    res[i] = again[0]
            results += res
        if prop in PYTHON:
            out = os.path.join(tmp, "py.json")
            for script in PYTHON[prop]:
                subprocess.run([sys.executable, os.path.join(V, "pyharness", script), prop, depth, out, tmp], check=True, timeout=850)
                for r in json.load(open(out)):
                    results.append(r)
        return report(prop, tier, results, time.time() - t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def report(prop, tier, results, secs):
    known = [(k, t) for p, k, t in load_known() if p == prop]
    ev = {"states": 0, "transitions": 0, "traces": 0, "evaluations": 0}
    samples, caps, counters, viol, errors = [], [], {}, [], []
    exhaustive = True
    for r in results:
        for k in ev:
            ev[k] += r[k]
        samples += [f"[{r['shard']}] {s}" for s in r["samples"]]
        caps += [f"[{r['shard']}] {c}" for c in r["caps"]]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        exhaustive = exhaustive and r["exhaustive"]
        if r["status"].startswith("error"):
            errors.append(f"{r['shard']}: {r['status']}")
        for v in r["violations"]:
            v["shard"], v["harness"] = r["shard"], r.get("harness", "python")
            viol.append(v)
    new, hit = [], {}
    for v in viol:
        for k, t in known:
            if v["key"] == k:
                hit[k] = t
                break
        else:
            new.append(v)
    os.makedirs(os.path.join(V, "evidence", "replays"), exist_ok=True)
    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "wall_s": round(secs, 2),
        "violations": len(new),
        "coverage": {
            "states": ev["states"],
            "transitions": ev["transitions"],
            "traces_validated_against_impl": ev["traces"] or ev["transitions"],
            "evaluations": ev["evaluations"] + ev["transitions"],
            "samples": samples[:24],
            "exhaustive": exhaustive,
            "caps": caps[:24],
            "counters": counters,
            "shards": {f"{r.get('harness','python')}/{r['shard']}": {"states": r["states"], "transitions": r["transitions"], "traces": r["traces"]} for r in results},
        },
        "known_findings_reproduced": sorted(hit),
        "violation_list": new[:20],
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {hit[k]}")
    if errors and not new:
        print("ERROR: " + "; ".join(errors))
        return 2
    if new:
        rp = os.path.join(V, "evidence", "replays", prop + ".json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new[:8]:
            print(f"  {v['key']}: {v['detail'][:500]}\n     trace [{v['harness']}/{v['shard']}]: {v['trace'][:600]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"OK property={prop} tier={tier} states={ev['states']} transitions={ev['transitions']} traces={ev['traces']} wall={secs:.1f}s")
    return 0

if __name__ == "__main__":
    sys.exit(main())
