#!/usr/bin/env python3
"""check.py PROP            explore (tier from VERIF_TIER, seed from VERIF_SEED)
   check.py --replay FILE   re-execute a replay file; exit 1 if it still violates"""
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
OUT = os.environ.get("SIM_SCRATCH_OUT") or HERE      # where replays/ and evidence/ go (self-tests only)
WORKERS = int(os.environ.get("SIM_WORKERS", 0)) or max(2, min(8, os.cpu_count() or 2))
HANG = 60


def env(hashseed):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1",
             PYTHONPATH=HERE)
    e.pop("PYTHONSTARTUP", None)
    return e


def worker(args, hashseed, **kw):
    return subprocess.Popen([sys.executable, "-B", "-m", "sim.worker"] + [str(a) for a in args],
                            cwd=HERE, env=env(hashseed), stdin=subprocess.DEVNULL,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def one(args, hashseed, timeout):
    p = worker(args, hashseed)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return "hang", None
    lines = [x for x in o.splitlines() if x.startswith("{")]
    if p.returncode != 0 or not lines:
        return "crash", f"rc={p.returncode} {e[-2000:]}"
    return "ok", [json.loads(x) for x in lines]


def do_replay(path):
    with open(path) as f:
        d = json.load(f)
    st, r = one(["replay", os.path.abspath(path)], d["hashseed"], 120)
    if st == "hang":
        if d["kind"] == "hang":
            print(f"reproduced: hang\nVIOLATION property={d['property']} replay={path}")
            return 1
        print("replay hung")
        return 2
    if st == "crash":
        print("replay crashed:", r)
        return 2
    r = r[-1]
    for line in r["history"]:
        print("   ", line)
    if r["harness"]:
        print("harness error:", r["harness"])
        return 2
    if r["kind"]:
        print(f"reproduced: {r['kind']}: {r['msg']}")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("no violation")
    return 0


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1") or "1"
    try:
        seed_int = int(seed)
    except ValueError:
        seed_int = 0
    mod = importlib.import_module("sim.props." + prop.lower())
    runs = mod.RUNS[tier]
    deadline = float(os.environ.get("SIM_DEADLINE", 0)) or {"quick": 75.0, "thorough": 600.0}[tier]
    t0 = time.monotonic()

    procs, beats, cur = [], {}, {}
    q = queue.Queue()

    def reader(k, p):
        for line in p.stdout:
            try:
                q.put((k, json.loads(line)))
            except ValueError:
                pass
        p.wait()
        q.put((k, {"t": "exit", "rc": p.returncode}))

    errs = {}

    def errreader(k, p):
        errs[k] = p.stderr.read()
    for k in range(WORKERS):
        hs = 100 + k
        p = worker(["explore", prop, tier, seed, k, WORKERS, runs, deadline], hs)
        procs.append(p)
        beats[k] = time.monotonic()
        threading.Thread(target=reader, args=(k, p), daemon=True).start()
        threading.Thread(target=errreader, args=(k, p), daemon=True).start()

    tot = {"runs": 0, "steps": 0, "preempt": 0, "events": 0}
    faults, probes, known, samples = {}, {}, {}, []
    hist, sched = set(), set()
    complete = True
    alive = set(range(WORKERS))
    finished = set()
    violations, harness = [], []
    while alive:
        try:
            k, m = q.get(timeout=1)
        except queue.Empty:
            m = None
        if m is not None:
            beats[k] = time.monotonic()
            t = m["t"]
            if t == "h":
                cur[k] = m["i"]
            elif t == "done":
                finished.add(k)
                s = m["stats"]
                for kk in tot:
                    tot[kk] += s[kk]
                merge(faults, s["faults"])
                merge(probes, s["probes"])
                merge(known, s["known"])
                samples += s["samples"]
                hist.update(m["hist"])
                sched.update(m["sched"])
                complete = complete and m["complete"]
            elif t == "v":
                finished.add(k)
                m["hashseed"] = 100 + k
                violations.append(m)
            elif t == "harness":
                finished.add(k)
                harness.append(m)
            elif t == "exit":
                alive.discard(k)
                if k not in finished:
                    harness.append({"i": cur.get(k), "error": f"worker died rc={m['rc']}: "
                                    + (errs.get(k) or "")[-1500:], "worker": k})
        now = time.monotonic()
        for k in list(alive):
            if k not in finished and now - beats[k] > HANG:
                procs[k].kill()
                finished.add(k)
                violations.append({"t": "hang", "i": cur.get(k), "kind": "hang", "hashseed": 100 + k,
                                   "msg": "a call did not return (stuck outside simulated steps)"})
        if violations and (len(violations) >= 3 or now - t0 > 20 or
                           any(v["kind"] != "hang" for v in violations)):
            for p in procs:
                if p.poll() is None:
                    p.kill()
            break
    explore_wall = time.monotonic() - t0

    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    rc = 0
    reported = None
    notes = []
    for v in violations:
        if v["kind"] == "hang":
            path = os.path.join(OUT, "replays", f"{prop}-hang-{v['i']}.json")
            # recover the choices by construction: same seed in a fresh process must hang again
            st, r = one(["audit", prop, seed, v["i"]], v["hashseed"], HANG)
            if st == "hang":
                with open(path, "w") as f:
                    json.dump({"property": prop, "kind": "hang", "msg": v["msg"], "seed": seed,
                               "run": v["i"], "hashseed": v["hashseed"], "choices": []}, f)
                reported = (path, v, "hang")
                break
            notes.append(f"run {v['i']} hung once and did not hang again")
            continue
        raw = os.path.join(OUT, "replays", f"{prop}-{v['i']}.raw.json")
        path = os.path.join(OUT, "replays", f"{prop}-{v['i']}.json")
        base = {"property": prop, "kind": v["kind"], "msg": v["msg"], "seed": seed, "run": v["i"],
                "hashseed": v["hashseed"], "choices": v["choices"]}
        with open(raw, "w") as f:
            json.dump(base, f)
        secs = 40 if tier == "quick" else 90
        st, r = one(["minimise", raw, path, secs], v["hashseed"], secs + 90)
        if not (st == "ok" and r[-1].get("ok")):
            with open(path, "w") as f:
                json.dump(base, f)
        st, r = one(["replay", path], v["hashseed"], 120)
        if st == "ok" and r[-1]["kind"] == v["kind"]:
            reported = (path, v, r[-1]["msg"])
            os.remove(raw)
            break
        with open(path, "w") as f:
            json.dump(base, f)
        st, r = one(["replay", path], v["hashseed"], 120)
        os.remove(raw)
        if st == "ok" and r[-1]["kind"] == v["kind"]:
            reported = (path, v, r[-1]["msg"])
            break
        notes.append(f"run {v['i']} ({v['kind']}: {v['msg']}) did not reproduce in a fresh process: {st}")

    # determinism audit: the same seeds, another process, another hash seed
    audit = None
    if not violations and not harness:
        idx = list(range(0, min(runs, 16)))
        arg = ",".join(map(str, idx))
        a, b = [one(["audit", prop, seed, arg], hs, 120) for hs in (7, 4242)]
        if a[0] == b[0] == "ok":
            bad = [x["i"] for x, y in zip(a[1], b[1]) if x["digest"] != y["digest"]]
            audit = {"runs_executed_twice_in_fresh_processes": len(idx), "diverging": bad,
                     "hash_seeds": [7, 4242]}
        else:
            audit = {"error": f"{a[0]} {b[0]}"}

    wall = time.monotonic() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed_int, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(hist),
            "rule": mod.RULE + " A run counts as distinct and non-trivial when its recorded history has at "
                    "least 3 events and its digest (history, outcome, step count, schedule) was not seen before.",
            "samples": samples[:4] or [{"note": "stopped at the first violation"}],
            "seeds": f"'{seed}:{prop}:i' for i in 0..{runs - 1} step 1 over {WORKERS} processes",
            "runs_per_hour": round(tot["runs"] / max(explore_wall, 1e-6) * 3600),
            "seeds_per_run": 1,
            "simulated_time_steps": tot["steps"],
            "simulated_time_unit": "executed source lines of pybgl (the simulator's clock)",
            "history_events": tot["events"],
            "thread_preemptions": tot["preempt"],
            "distinct_interleavings": len(sched),
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "planned_runs_completed": complete,
            "determinism_audit": audit,
            "real_components": mod.REAL,
            "stubbed_components": mod.STUB,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3),
        "violations": 1 if reported else 0,
    }
    if notes:
        ev["coverage"]["notes"] = notes
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")

    from sim.worker import known_findings
    for e in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    if reported:
        path, v, msg = reported
        rel = os.path.relpath(path, HERE)
        print(f"run {v['i']} seed {seed}:{prop}:{v['i']}: {v['kind']}: {msg}")
        print(f"VIOLATION property={prop} replay={rel}")
        return 1
    if harness:
        for h in harness[:3]:
            print(f"HARNESS ERROR run={h.get('i')}: {h['error']}")
        return 2
    if violations:
        for n in notes:
            print("UNCONFIRMED:", n)
        return 2
    if tot["runs"] == 0:
        print("no run was executed")
        return 2
    print(f"{prop} ok: {tot['runs']} runs, {tot['steps']} simulated steps, {len(hist)} distinct histories, "
          f"{sum(faults.values())} faults, {tot['preempt']} preemptions, {wall:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
