#!/usr/bin/env python3
"""run.py check PROP quick|thorough    decides one property, writes evidence/PROP.json
   run.py replay FILE                   executes a replay file against the current tree"""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build, props

def jlines(text):
    return [json.loads(l) for l in text.splitlines() if l.startswith("{")]

class Tool:
    def __init__(self, exe, scratch):
        self.exe, self.scratch, self.n = exe, scratch, 0
    def env(self):
        self.n += 1
        return dict(os.environ, VSIM_SCRATCH=os.path.join(self.scratch, "s%d" % self.n), LC_ALL="C")
    def start(self, *args):
        return subprocess.Popen([self.exe] + [str(a) for a in args], stdout=subprocess.PIPE, text=True, env=self.env())
    def run(self, *args):
        return self.start(*args).communicate()[0]

def one(tool, prop, seed, tier):
    r = jlines(tool.run("batch", prop, seed, 1, *(["thorough"] if tier == "thorough" else [])))
    return r[0] if r else {"cls": "harness", "msg": "no answer", "hash": ""}

def replay(path):
    text = open(path).read()
    prop = variant = None
    for l in text.splitlines():
        if l.startswith("% property "): prop = l.split()[2]
        if l.startswith("% variant "): variant = l.split()[2]
    scratch = tempfile.mkdtemp(prefix="vsim-")
    try:
        exe = build.build(variant or "float", os.path.join(scratch, "b"))
        if not exe: return 2
        r = jlines(Tool(exe, scratch).run("replay", path))[0]
        print(json.dumps(r))
        if r["cls"].startswith("harness"): return 2
        if r["cls"]:
            print("%s\nVIOLATION property=%s replay=%s" % (r["msg"], prop, path))
            return 1
        print("no violation")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def known(prop):
    """the findings listed for a property: (file of the history, classes it fails with, description)"""
    out = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        f = l.split(None, 4)
        if l.startswith("finding: ") and f[1] == "property=" + prop:
            out.append((os.path.join(HERE, f[2].split("=", 1)[1]), f[3].split("=", 1)[1].split(","), f[4].strip()))
    return out

def check(prop, tier):
    t0 = time.time()
    variants, nq, nt, real, stubs, rule = props.P[prop]
    total = nt if tier == "thorough" else nq
    if os.environ.get("VSIM_RUNS"): total = int(os.environ["VSIM_RUNS"])
    cap = 3000 if tier == "thorough" else 240            # wall limit of the search; the run counts are what normally ends it
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    base = 1 + (vseed - 1) * 10000000 + (5000000 if tier == "thorough" else 0)
    th = ["thorough"] if tier == "thorough" else []
    shards = os.cpu_count() or 4
    scratch = tempfile.mkdtemp(prefix="vsim-")
    try:
        rows, states, execs, search = [], set(), 0, 0.0
        bad, tools = [], {}
        for vi, variant in enumerate(variants):
            exe = build.build(variant, os.path.join(scratch, "b_" + variant))
            if not exe:
                print("the simulator cannot be built against the current tree (%s)" % variant)
                return 2
            tool = tools[variant] = Tool(exe, scratch)
            n = total // len(variants)
            first = base + vi * n
            per = (n + shards - 1) // shards
            ts = time.time()
            ps = [tool.start("batch", prop, first + k * per, max(0, min(per, n - k * per)), "wall=%d" % (cap // len(variants)), *th) for k in range(shards)]
            with cf.ThreadPoolExecutor(len(ps)) as ex:          # all shards are read at once: none may block on a full pipe
                outs = dict(zip(ps, ex.map(lambda p: p.communicate()[0], ps)))
            for p in ps:
                for j in jlines(outs[p]):
                    if j.get("summary"):
                        execs += j["executions"]; states.update(j["states"])
                    else:
                        j["variant"] = variant; rows.append(j)
                        if j["cls"]: bad.append(j)
                if p.returncode != 0:
                    print("the simulator ended with status %s" % p.returncode); return 2
            search += time.time() - ts
            # the same seed gives the same execution, in whatever process
            again = [r for r in rows if r["variant"] == variant and not r["cls"]][:3]
            for r in again:
                q = one(tool, prop, r["seed"], tier)
                if (q["cls"], q["hash"]) != (r["cls"], r["hash"]):
                    print("seed %d did not repeat exactly: %s" % (r["seed"], q)); return 2
        harness = [r for r in bad if r["cls"].startswith("harness")]
        real_bad = [r for r in bad if not r["cls"].startswith("harness")]
        faults = {}
        for r in rows:
            for k, v in r["faults"].items(): faults[k] = faults.get(k, 0) + v
        nontriv = [r for r in rows if (r["checks"] + r["checksB"] + r["nobs"] + r["steps"] > 0)
                   and (prop not in ("C05", "C09", "C15", "C16") or r["inits"] > 0) and (prop != "C18" or r["faults"].get("allocation_failure", r["faults"].get("alloc_failure", 0)) > 0)
                   and (prop not in ("C08", "C10", "C11", "C06") or r["checksB"] > 0)]
        some = sorted(nontriv, key=lambda r: r["seed"])[:2] or rows[:1]
        samples = []
        for r in some:
            plan = tools[r["variant"]].run("gen", prop, r["seed"], *th).splitlines()
            ops = [l for l in plan if not l.startswith("#")]
            samples.append({"seed": r["seed"], "parameters": " ".join(l[1:] for l in plan if l.startswith("#")), "operations": len(ops),
                            "some_operations": ops[len(ops) // 3:len(ops) // 3 + 8], "processing_calls": r["steps"], "updates": r["updates"], "faults": r["faults"], "execution_hash": r["hash"]})
        wall = time.time() - t0
        ev = {"property": prop, "tier": tier, "seed": vseed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(real_bad),
              "assumptions": ["the simulated world, the seams and the reference models of /verif/sim are right", "single-threaded use of each estimator, as the code base has no threads"],
              "coverage": {
                  "evaluations": len(rows), "distinct_nontrivial": len({r["hash"] for r in nontriv}), "rule": rule + " Distinct: by the hash over everything published and counted in the run.",
                  "samples": samples, "simulated_executions": execs, "runs_per_hour": int(len(rows) / max(search, 1e-6) * 3600), "seeds_per_hour": int(len(rows) / max(search, 1e-6) * 3600),
                  "simulated_seconds": round(sum(r["sim"] for r in rows), 3), "processing_calls": sum(r["steps"] for r in rows), "hand_overs": sum(r["pushes"] for r in rows),
                  "imu_samples_processed": sum(r["imu"] for r in rows), "camera_messages_processed": sum(r["cam"] for r in rows), "initialisations": sum(r["inits"] for r in rows),
                  "updates": sum(r["updates"] for r in rows), "failed_updates": sum(r["failures"] for r in rows),
                  "judgements": [sum(r[k] for r in rows) for k in ("checks", "checksB", "checksC")],
                  "faults_injected": faults, "distinct_states": len(states),
                  "state_measure": "status, availability, window fill, and the orders of magnitude of queue, feature and buffer sizes after each processing call",
                  "largest_deviations": [max(r["worst"][i] for r in rows) for i in range(8)] if rows else [],
                  "first_seed": base, "build_variants": variants, "real_components": real, "stub_components": stubs, "determinism_rechecks": 3 * len(variants)}}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        if real_bad:
            r = min(real_bad, key=lambda r: r["seed"])
            tool = tools[r["variant"]]
            print("seed %d: %s: %s" % (r["seed"], r["cls"], r["msg"]))
            q = one(tool, prop, r["seed"], tier)
            if q["cls"] != r["cls"]:
                print("seed %d did not repeat (%s)" % (r["seed"], q["cls"])); return 2
            rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
            full = os.path.join(scratch, "full"); small = os.path.join(scratch, "small")
            with open(full, "w") as f: f.write(tool.run("gen", prop, r["seed"], *th))
            tool.run("minimise", full, small, 40 if tier == "quick" else 240)
            best, res = full, None
            for cand in (small, full):
                if not os.path.exists(cand): continue
                a, b = (jlines(tool.run("replay", cand))[0] for _ in range(2))
                if a["cls"] == r["cls"] and (a["cls"], a["hash"]) == (b["cls"], b["hash"]):
                    best, res = cand, a; break
            if not res:
                print("the plan of seed %d does not repeat exactly" % r["seed"]); return 2
            path = os.path.join(rd, "%s-%d.txt" % (prop, r["seed"]))
            with open(path, "w") as f:
                f.write("%% property %s\n%% variant %s\n%% seed %d\n%% violation %s\n%% %s\n%% replay: python3 run.py replay FILE\n" % (prop, r["variant"], r["seed"], res["cls"], res["msg"].replace("\n", " ")))
                f.write(open(best).read())
            ops = [len([l for l in open(x).read().splitlines() if l and l[0] not in "#%"]) for x in (full, best)]
            print("minimised from %d to %d operations: %s: %s" % (ops[0], ops[1], res["cls"], res["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        for path, classes, what in known(prop):
            variant = [l.split()[2] for l in open(path) if l.startswith("% variant ")][0]
            if variant not in tools: continue
            k = jlines(tools[variant].run("replay", path))[0]
            if k["cls"].startswith("harness"): harness.append(dict(k, seed=-1))
            elif k["cls"] in classes: print("KNOWN-FINDING: property=%s %s" % (prop, what))
            elif k["cls"]:
                print("history of a known finding fails differently: %s: %s\nVIOLATION property=%s replay=%s" % (k["cls"], k["msg"], prop, path)); return 1
            else: print("the history %s of a known finding does not fail any more" % os.path.basename(path))
        if harness:
            print("error in the simulator, seed %d: %s" % (harness[0]["seed"], harness[0]["msg"])); return 2
        print("%s held: %d runs, %d executions, %.0f simulated seconds, %d distinct states, %.0f s" % (prop, len(rows), execs, ev["coverage"]["simulated_seconds"], len(states), wall))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    if len(sys.argv) == 4 and sys.argv[1] == "check" and sys.argv[2] in props.P and sys.argv[3] in ("quick", "thorough"):
        sys.exit(check(sys.argv[2], sys.argv[3]))
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    print(__doc__); sys.exit(2)
