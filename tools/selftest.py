#!/usr/bin/env python3
"""Determinism self-test: the same seeds executed in differently partitioned fresh processes under
different PYTHONHASHSEEDs must give identical digests (events, outcome, steps, schedule).
selftest.py [--props C01,C02] [--seeds 1,2,3] [--runs 64]"""
import argparse, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digests(prop, seed, idx, hs):
    e = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", PYTHONPATH=HERE)
    p = subprocess.run([sys.executable, "-B", "-m", "sim.worker", "audit", prop, seed, ",".join(map(str, idx))],
                       cwd=HERE, env=e, capture_output=True, text=True, timeout=900)
    out = {}
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            d = json.loads(line)
            out[d["i"]] = d["digest"]
    assert set(out) == set(idx), (prop, seed, p.stderr[-500:])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--props", default=",".join(f"C{i:02d}" for i in range(1, 25)))
    ap.add_argument("--seeds", default="1,2,3,17,99,2024")
    ap.add_argument("--runs", type=int, default=96)
    a = ap.parse_args()
    pool = ThreadPoolExecutor(8)
    bad = total = 0
    for prop in a.props.split(","):
        jobs = []
        for seed in a.seeds.split(","):
            idx = list(range(a.runs))
            parts = [(0, [idx]), (7, [idx[::-1]]), (4242, [idx[k::3] for k in range(3)]), (31, [idx[k::8] for k in range(8)])]
            jobs.append((seed, [(hs, [pool.submit(digests, prop, seed, p, hs) for p in ps]) for hs, ps in parts]))
        for seed, groups in jobs:
            res = []
            for hs, fs in groups:
                d = {}
                for f in fs:
                    d.update(f.result())
                res.append(d)
            div = [i for i in res[0] if any(r[i] != res[0][i] for r in res)]
            total += len(res[0])
            bad += len(div)
            if div:
                print("DIVERGE", prop, seed, div[:10], flush=True)
        print(prop, "done", flush=True)
    print(f"{total} seeds x 4 executions (1, 1 reversed, 3 and 8 processes; 4 hash seeds): {bad} divergences")
    return 1 if bad else 0


sys.exit(main())
