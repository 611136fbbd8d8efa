"""One simulation process.  Modes:
  explore  PROP TIER SEED K W N DEADLINE   runs k, k+W, ... and prints json lines
  audit    PROP SEED i,j,k                 prints run digests (determinism audit)
  replay   FILE                            executes the recorded choices
  minimise FILE OUT SECONDS                shrinks the recorded choices
"""
import gc
import importlib
import json
import os
import resource
import sys
import time

from . import kernel, loader

KNOWN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get("findings", []) if e["property"] == prop]


def match_known(known, violation):
    for e in known:
        if e["kind"] == violation[0] and e["match"] in violation[1]:
            return e
    return None


class Engine:
    def __init__(self, prop):
        loader.install()
        kernel.patch_locks()
        self.mod = importlib.import_module("sim.props." + prop.lower())
        if getattr(self.mod, "INSTRUCTIONS", False):
            kernel.install_monitor(loader.FINDER.all_codes)
        self.scen = self.mod.SCENARIOS
        self.max_steps = getattr(self.mod, "MAX_STEPS", 4000000)
        self.n = 0

    def scenario(self, c):
        name, fn = c.weighted([(w, (n, f)) for w, n, f in self.scen])
        c.scenario = name
        c.ev("scenario", name)
        c.probe("scenario:" + name)
        fn(c)

    def run(self, choices):
        self.n += 1
        if self.n % 200 == 0:
            gc.collect()
        return kernel.execute(self.scenario, choices, loader.Lib, loader.SRC, self.max_steps)

    def seeded(self, seed, prop, i):
        return self.run(kernel.Choices(seed=f"{seed}:{prop}:{i}"))


def out(d):
    sys.stdout.write(json.dumps(d, default=repr) + "\n")
    sys.stdout.flush()


def explore(prop, tier, seed, k, w, n, deadline):
    e = Engine(prop)
    known = known_findings(prop)
    st = {"runs": 0, "steps": 0, "faults": {}, "probes": {}, "preempt": 0, "events": 0,
          "samples": [], "known": {}}
    hist, sched = set(), set()
    t0 = time.monotonic()
    i = k
    while i < n and time.monotonic() - t0 < deadline:
        out({"t": "h", "i": i})
        o = e.seeded(seed, prop, i)
        st["runs"] += 1
        st["steps"] += o.steps
        st["preempt"] += o.preemptions
        st["events"] += len(o.events)
        for kk, v in o.faults.items():
            st["faults"][kk] = st["faults"].get(kk, 0) + v
        for kk, v in o.probes.items():
            st["probes"][kk] = st["probes"].get(kk, 0) + v
        if len(o.events) >= 3:
            hist.add(o.digest[:16])
        if o.sched:
            sched.add(o.sched[:16])
        if len(st["samples"]) < 2 and len(o.events) >= 4 and o.violation is None:
            st["samples"].append({"run": i, "seed": f"{seed}:{prop}:{i}", "steps": o.steps,
                                  "history": [" ".join(map(str, x))[:160] for x in o.events[:14]]})
        if o.harness:
            out({"t": "harness", "i": i, "error": o.harness, "choices": o.choices})
            return
        if o.violation:
            kf = match_known(known, o.violation)
            if kf:
                st["known"][kf["id"]] = st["known"].get(kf["id"], 0) + 1
            else:
                out({"t": "v", "i": i, "kind": o.violation[0], "msg": o.violation[1],
                     "choices": o.choices, "steps": o.steps})
                return
        i += w
    out({"t": "done", "stats": st, "hist": sorted(hist), "sched": sorted(sched),
         "complete": i >= n, "wall": time.monotonic() - t0})


def audit(prop, seed, idx):
    e = Engine(prop)
    for i in idx:
        o = e.seeded(seed, prop, i)
        out({"i": i, "digest": o.digest, "steps": o.steps})


def record(o, prop):
    return {"kind": o.violation[0] if o.violation else None,
            "msg": o.violation[1] if o.violation else None,
            "harness": o.harness, "digest": o.digest, "steps": o.steps,
            "history": [" ".join(map(str, x))[:300] for x in o.events],
            "faults": o.faults}


def replay(path):
    with open(path) as f:
        d = json.load(f)
    e = Engine(d["property"])
    if d["kind"] == "hang":       # the run never ended: replay it from its seed
        o = e.seeded(d["seed"], d["property"], d["run"])
    else:
        o = e.run(kernel.Choices(replay=d["choices"]))
    out(record(o, d["property"]))


def minimise(path, dest, seconds):
    with open(path) as f:
        d = json.load(f)
    e = Engine(d["property"])
    t0 = time.monotonic()
    trials = 0

    def fails(ch):
        nonlocal trials
        trials += 1
        o = e.run(kernel.Choices(replay=ch))
        if o.violation and o.violation[0] == d["kind"] and not o.harness:
            return o
        return None

    def left():
        return time.monotonic() - t0 < seconds

    cur = list(d["choices"])
    best = fails(cur)
    if best is None:
        out({"ok": False})
        return
    cur = list(best.choices)
    improved = True
    while improved and left():
        improved = False
        # truncate
        lo = 0
        size = max(1, len(cur) // 2)
        while size >= 1 and left():
            i = 0
            while i < len(cur) and left():
                cand = cur[:i] + cur[i + size:]
                o = fails(cand)
                if o is not None and len(o.choices) <= len(cur) and list(o.choices) != cur:
                    new = list(o.choices)
                    while new and new[-1] == 0:
                        new.pop()
                    if len(new) < len(cur) or sum(new) < sum(cur):
                        cur, best, improved = new, o, True
                        continue
                i += size
            size //= 2
        # zero, then lower
        for i in range(len(cur)):
            if not left():
                break
            if i >= len(cur) or cur[i] == 0:
                continue
            for v in (0, cur[i] // 2, cur[i] - 1):
                if v >= cur[i]:
                    continue
                cand = cur[:i] + [v] + cur[i + 1:]
                o = fails(cand)
                if o is not None and len(o.choices) <= len(cur) + 2:
                    new = cand
                    if new != cur:
                        cur, best, improved = new, o, True
                    break
    o = fails(cur)
    if o is None:
        out({"ok": False})
        return
    d2 = dict(d)
    d2.update(choices=cur, msg=o.violation[1], minimised=True, original_choices=len(d["choices"]),
              trials=trials, **{k: v for k, v in record(o, d["property"]).items() if k in ("history", "digest", "steps", "faults")})
    with open(dest, "w") as f:
        json.dump(d2, f, indent=1)
    out({"ok": True, "n": len(cur), "trials": trials})


def main():
    soft = 4 << 30
    resource.setrlimit(resource.RLIMIT_AS, (soft, soft))
    mode, a = sys.argv[1], sys.argv[2:]
    if mode == "explore":
        explore(a[0], a[1], a[2], int(a[3]), int(a[4]), int(a[5]), float(a[6]))
    elif mode == "audit":
        audit(a[0], a[1], [int(x) for x in a[2].split(",")])
    elif mode == "replay":
        replay(a[0])
    elif mode == "minimise":
        minimise(a[0], a[1], float(a[2]))


if __name__ == "__main__":
    main()
