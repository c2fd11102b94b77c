"""Command line entry: run all scenarios of one property and write its evidence."""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import pickle
import sys
import time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MAX_REPORTED = 5
OUTPUT = os.environ.get("VERIF_OUT", VERIF)


def load_known():
    """known_findings.txt: 'known: property=<id> key=<key> <what fails>' and 'fixed: property=<id> <commit> <what failed>'."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                _, p, k, what = line.split(" ", 3)
                known.setdefault(p.split("=", 1)[1], {})[k.split("=", 1)[1]] = what
    return known


def prepare():
    sys.dont_write_bytecode = True
    from . import source

    source.install(os.path.join(REPO, "src"))
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.INFO)
    import torch

    torch.set_num_threads(1)
    import evotorch

    got = os.path.realpath(evotorch.__file__)
    want = os.path.realpath(os.path.join(REPO, "src"))
    if not got.startswith(want + os.sep):
        print(f"ERROR: evotorch was imported from {got}, expected it under {want}")
        sys.exit(3)


def worker(jobs, tier, conn, use_ray):
    """Runs in a forked process: executes its jobs and sends one aggregated result per scenario."""
    from . import engine

    out = {}
    try:
        if use_ray:
            from . import rayenv

            # the processes of ray write their names to the output
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            rayenv.start(use_ray)
        for scen, idx, cseed in jobs:
            agg = out.setdefault(
                scen.name, {"cases": 0, "events": Counter(), "states": set(), "sigs": set(), "samples": [], "violations": [], "inconclusive": []}
            )
            if use_ray:
                rayenv.scheduler.seed(cseed)
            r = engine.run_case(scen, cseed, idx, tier)
            agg["cases"] += 1
            agg["events"].update(r["events"])
            agg["states"] |= r["states"]
            if r["sig"] is not None:
                agg["sigs"].add(r["sig"])
            if len(agg["samples"]) < 3:
                agg["samples"].extend(r["samples"])
            if r["violation"] is not None:
                if len(agg["violations"]) < 40:
                    agg["violations"].append((cseed, idx) + r["violation"] + (r["trace"],))
                if r["violation"][0] == "hang":
                    break
            if r["inconclusive"]:
                agg["inconclusive"].append(r["inconclusive"])
        if use_ray:
            rayenv.stop()
        conn.send_bytes(pickle.dumps(("ok", out)))
    except BaseException as e:  # noqa: B902 - reported to the parent
        import traceback

        conn.send_bytes(pickle.dumps(("error", f"{type(e).__name__}: {e}\n{traceback.format_exc()}", out)))
    finally:
        conn.close()
        sys.stdout.flush()
        os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    prepare()
    from . import engine

    importlib.import_module(f"checks.{a.prop.lower()}")
    scens = engine.REGISTRY[a.prop]
    if a.only:
        scens = [s for s in scens if s.name in a.only.split(",")]

    if a.replay:
        d = json.load(open(a.replay))
        scen = next(s for s in scens if s.name == d["scenario"])
        if scen.ray:
            from . import rayenv

            rayenv.start(scen.ray)
            rayenv.scheduler.seed(d["case_seed"])
        r = engine.run_case(scen, d["case_seed"], d["index"], d["tier"])
        if scen.ray:
            rayenv.stop()
        for line in r["trace"]:
            print("  trace:", line)
        if r["violation"]:
            print(r["violation"][0], r["violation"][1])
            print(r["violation"][2])
            print(f"VIOLATION property={a.prop} replay={a.replay}")
            sys.exit(1)
        print("replayed case shows no violation")
        sys.exit(0)

    njobs = a.jobs or max(1, min(8, os.cpu_count() or 1))
    plain, rayjobs, localjobs = [], [], []
    for s in scens:
        n = s.quick if a.tier == "quick" else s.thorough
        n = max(1, int(n * a.scale))
        for i in range(n):
            (localjobs if s.ray == "local" else rayjobs if s.ray else plain).append((s, i, engine.case_seed(a.prop, s.name, seed, i)))
    groups = [(plain[k::njobs], False) for k in range(njobs)]
    groups = [g for g in groups if g[0]]
    if rayjobs:
        groups.append((rayjobs, True))
    groups.extend((localjobs[k::3], "local") for k in range(3) if localjobs[k::3])

    ctxm = mp.get_context("fork")
    procs = []
    sys.stdout.flush()
    for jobs, use_ray in groups:
        r, w = ctxm.Pipe(duplex=False)
        p = ctxm.Process(target=worker, args=(jobs, a.tier, w, use_ray))
        p.start()
        w.close()
        procs.append((p, r, jobs, use_ray))

    total = {}
    errors = []
    for p, r, jobs, use_ray in procs:
        try:
            msg = pickle.loads(r.recv_bytes())
        except (EOFError, OSError):
            p.join()
            errors.append(f"a worker process ended without a result (exit code {p.exitcode})")
            continue
        p.join()
        if msg[0] == "error":
            errors.append(msg[1])
        for name, agg in (msg[1] if msg[0] == "ok" else msg[2]).items():
            t = total.setdefault(
                name, {"cases": 0, "events": Counter(), "states": set(), "sigs": set(), "samples": [], "violations": [], "inconclusive": []}
            )
            t["cases"] += agg["cases"]
            t["events"].update(agg["events"])
            t["states"] |= agg["states"]
            t["sigs"] |= agg["sigs"]
            t["samples"].extend(agg["samples"])
            t["violations"].extend(agg["violations"])
            t["inconclusive"].extend(agg["inconclusive"])

    known = load_known().get(a.prop, {})
    seen_known = Counter()
    violations = []
    for name in total:
        for v in sorted(total[name]["violations"]):
            if v[2] in known:
                seen_known[v[2]] += 1
            else:
                violations.append((name,) + v)

    for k, what in known.items():
        print(f"KNOWN-FINDING: property={a.prop} {what} (observed {seen_known[k]} times in this run)")

    outdir = os.path.join(OUTPUT, "out")
    os.makedirs(outdir, exist_ok=True)
    by_key = Counter(v[3] for v in violations)
    reported = set()
    for name, cseed, idx, key, message, tb, trace in violations:
        if (name, key) in reported or len(reported) >= MAX_REPORTED:
            continue
        reported.add((name, key))
        path = os.path.join(outdir, f"{a.prop}-{name}-{len(reported)}.json")
        json.dump(
            dict(
                property=a.prop, scenario=name, case_seed=cseed, index=idx, tier=a.tier, key=key, message=message, traceback=tb, trace=trace
            ),
            open(path, "w"),
            indent=1,
        )
        print(f"--- {name}: {key} ({by_key[key]} cases)")
        print("    " + message[:600].replace("\n", "\n    "))
        for line in trace[-12:]:
            print("    trace: " + line)
        print("    " + tb[-1200:].replace("\n", "\n    "))
        print(f"VIOLATION property={a.prop} replay={path}")

    events = Counter()
    states = 0
    distinct = 0
    samples = []
    cases = 0
    per = {}
    for s in scens:
        t = total.get(s.name)
        if t is None:
            continue
        events.update(t["events"])
        states += len(t["states"])
        distinct += len(t["sigs"])
        samples.extend(t["samples"][:2])
        cases += t["cases"]
        per[s.name] = dict(cases=t["cases"], distinct_states=len(t["states"]), events=dict(t["events"]))

    missing = []
    for s in scens:
        t = total.get(s.name)
        for need in s.needs:
            if t is None or t["events"].get(need, 0) == 0:
                missing.append(f"{s.name}: {need}")
        if t is None:
            missing.append(f"{s.name}: did not run")
    incon = [m for t in total.values() for m in t["inconclusive"]]

    evidence = {
        "property": a.prop,
        "tier": a.tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": distinct,
            "rule": engine.RULES.get(a.prop, "")
            + " Each case is generated from the seed; it is non-trivial if its monitors recorded at least one abstract state,"
            + " and two cases are the same if they recorded the same set of abstract states.",
            "samples": samples[:12],
            "distinct_states": states,
            "events": dict(events),
            "scenarios": per,
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
        "assumptions": getattr(sys.modules[f"checks.{a.prop.lower()}"], "ASSUMPTIONS", []),
    }
    os.makedirs(os.path.join(OUTPUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUTPUT, "evidence", f"{a.prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print(
        f"{a.prop} {a.tier} seed={seed}: {cases} cases, {events.get('oracle_evaluations', 0)} oracle evaluations,"
        f" {states} distinct states, {len(violations)} violations, {time.time() - t0:.1f} s"
    )
    print("  events: " + ", ".join(f"{k}={v}" for k, v in sorted(events.items())))
    if violations:
        sys.exit(1)
    if errors or missing or incon:
        for e in errors[:3] + missing[:10] + incon[:3]:
            print("INCONCLUSIVE:", e)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
