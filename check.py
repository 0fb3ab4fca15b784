#!/usr/bin/env python3
"""Decide one property of semiwaker/TTGraph by deterministic simulation.

  check.py PROP quick|thorough     decide property PROP (exit 0 held, 1 violated, 2 no answer)
  check.py build                   build the simulators
  check.py replay FILE             reproduce a replay file, with its trace

Everything is rebuilt from /repo's working tree.  VERIF_SEED (default 1) decides every run.
"""
import json, os, resource, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, "sim")
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
CONC = os.path.join(VERIF, "conc")
BIN = {"d": os.path.join(SIM, "target/b-release/release/ttsim"), "r": os.path.join(SIM, "target/b-nodebug/nodebug/ttsim"),
       "t": os.path.join(CONC, "target/release/ttconc")}
PROFILE = {"d": "optimised, debug assertions and overflow checks on", "r": "optimised, debug assertions off",
           "t": "simulated threads, library instrumented at every memory access and edge, debug assertions on"}
PROPS = ["C%02d" % i for i in range(1, 14)] + ["C16"]
# tier -> profile -> (first run index, runs, wall cap in seconds)
PLAN = {
    "quick": {"d": (0, 120_000, 100), "r": (1 << 32, 50_000, 50)},
    "thorough": {"d": (0, 2_000_000_000, 420), "r": (1 << 32, 2_000_000_000, 180)},
}
# seconds of threaded simulation (engine B) per tier; C12 compares whole executions and is decided by engine A alone
THREADS_ONLY = {"C16"}  # simulated time inside the library exists in engine B only
THREADS = {"quick": {"C16": 40, "C01": 20, "C02": 10, "C03": 12, "C04": 12, "C08": 10, "C10": 15}, "thorough": {"C01": 400, "C16": 700}}
THREADS_ELSE = {"quick": 10, "thorough": 150}
C12_DIV = 2  # every run of C12 is two executions


def env():
    e = dict(os.environ)
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUST_BACKTRACE"):
        e.pop(k, None)
    return e


def stop(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def build_sim():
    # separate target directories: the builds run side by side
    jobs = [("release", SIM, ["--profile", "release", "--target-dir", os.path.join(SIM, "target", "b-release")], {}),
            ("nodebug", SIM, ["--profile", "nodebug", "--target-dir", os.path.join(SIM, "target", "b-nodebug")], {}),
            ("threads", CONC, ["--profile", "release", "--target-dir", os.path.join(CONC, "target")], {"RUSTC_WRAPPER": os.path.join(CONC, "wrap.sh")})]
    ps = []
    for prof, cwd, args, extra in jobs:
        e = env()
        e.update(extra)
        ps.append((prof, subprocess.Popen(["cargo", "build", "--offline", "--quiet"] + args, cwd=cwd, env=e,
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bad = None
    for prof, p in ps:
        out, _ = p.communicate()
        if p.returncode != 0:
            print(out[-6000:])
            bad = prof
    if bad:
        stop("the simulator does not build against /repo (profile %s)" % bad)


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(cmd, timeout):
    try:
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout, preexec_fn=limit)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def class_of(rc):
    if rc == 1:
        return "violation"
    if rc == 3:
        return "hang"
    if rc is not None and rc < 0:
        return "crash"
    return None


def search(prop, prof, base, first, runs, wall, work):
    """one worker process; returns (summary or None, violation or None, error or None)"""
    out = os.path.join(work, "%s-%s.json" % (prop, prof))
    for sfx in ("", ".status", ".hang"):
        if os.path.exists(out + sfx):
            os.remove(out + sfx)
    rc, log = run([BIN[prof], "worker", prop, str(base), str(first), str(runs), str(wall), out, REPLAYS], wall + 400)
    if rc in (0, 1):
        s = json.load(open(out))
        if rc == 0:
            return s, None, None
        path = s["replay"]["path"]
        rc2, _ = run([BIN[prof], "replay", path, "quiet"], 120)
        if rc2 != 1:
            return s, None, "replay of %s in a fresh process gives %s" % (path, rc2)
        return s, {"path": path, "what": s["replay"]["violation"]}, None
    # the process died or a run did not end: find the run, write its replay file
    cand = []
    if rc == 3 and os.path.exists(out + ".hang"):
        h = json.load(open(out + ".hang"))["hang"]
        cand = [(h["idx"], h["step"])]
    elif os.path.exists(out + ".status"):
        raw = open(out + ".status", "rb").read()
        ids = [int.from_bytes(raw[i:i + 8], "little") for i in range(0, len(raw) - 7, 8)]
        cand = [(i - 1, None) for i in ids if i]
    for idx, step in cand:
        rc2, log2 = run([BIN[prof], "one", prop, str(base), str(idx)], 300)
        c = class_of(rc2)
        if c is None:
            continue
        path = os.path.join(REPLAYS, "%s-run%d-%s-%s.json" % (prop, idx, prof, c))
        lo, hi = 0, 100_000
        what = {"hang": "a run does not end", "crash": "the process dies (signal %s)" % (-rc2 if rc2 < 0 else 0), "violation": "violation"}[c]

        def bad(n):
            run([BIN[prof], "emit", prop, str(base), str(idx), str(n), c, what, path], 60)
            return class_of(run([BIN[prof], "replay", path, "quiet"], 120)[0]) == c

        if not bad(hi):
            continue
        # minimise: the shortest prefix of the schedule that still fails (its clean-up tail included)
        t0, n = time.time(), json.load(open(path))["original_steps"]
        lo, hi = 0, n
        while lo < hi and time.time() - t0 < 120:
            mid = (lo + hi) // 2
            if bad(mid):
                hi = mid
            else:
                lo = mid + 1
        if not bad(hi):
            bad(100_000)
        return None, {"path": path, "what": what}, None
    return None, None, "worker ended with %s and no in-flight run reproduces it: %s" % (rc, log[-2000:])


def search_threads(prop, base, wall, work):
    """engine B: one worker process per core; returns (summaries, violation or None, error or None)"""
    n = max(1, min(8, os.cpu_count() or 1))
    ps = []
    for k in range(n):
        out = os.path.join(work, "%s-t%d.json" % (prop, k))
        if os.path.exists(out):
            os.remove(out)
        cmd = [BIN["t"], "worker", prop, str(base), str(k), str(n), "1000000000", str(wall), out, REPLAYS]
        ps.append((out, subprocess.Popen(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=limit)))
    sums, hit, err = [], None, None
    for out, p in ps:
        try:
            log, _ = p.communicate(timeout=wall + 300)
        except subprocess.TimeoutExpired:
            p.kill()
            log, _ = p.communicate()
        if p.returncode not in (0, 1):
            err = "threaded worker ended with %s: %s" % (p.returncode, log[-2000:])
            continue
        s = json.load(open(out))
        sums.append(s)
        if p.returncode == 1:
            path = s["replay"]["path"]
            rc, _ = run([BIN["t"], "replay", path, "quiet"], 200)
            if rc == 1:
                hit = hit or {"path": path, "what": s["replay"]["violation"]}
            else:
                err = "replay of %s in a fresh process gives %s" % (path, rc)
    return sums, hit, err


def merge(ss):
    t = {}
    for s in ss:
        for k, v in s.items():
            if isinstance(v, bool):
                continue
            if isinstance(v, (int, float)):
                t[k] = max(t.get(k, 0), v) if k in ("max_nodes", "threads") else t.get(k, 0) + v
            elif isinstance(v, dict) and k != "replay":
                d = t.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif isinstance(v, list):
                t.setdefault(k, []).extend(v)
    return t


LEVEL = "exploration"
RULE = ("One case is one simulated run: a configuration (schema, clients, graphs, contexts, swarm weights) and a schedule of "
        "operations and faults, all derived from VERIF_SEED, the property id and the run index. A run counts as non-trivial if its "
        "event log differs from that of every earlier run, at least two transactions were committed in it, and the oracle of this "
        "property was evaluated in it at least once. A threaded run (engine B) counts if its schedule is new and at least two threads made "
        "steps and were preempted.")


def decide(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    base = seed & ((1 << 64) - 1)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    work = os.path.join(SIM, "target", "work")
    os.makedirs(work, exist_ok=True)
    print("property %s tier %s VERIF_SEED %d" % (prop, tier, seed), flush=True)
    build_sim()
    tb = time.time() - t0
    sums, hit, errors, per = [], None, [], {}
    for prof, (first, runs, wall) in ({} if prop in THREADS_ONLY else PLAN[tier]).items():
        if prop == "C12":
            runs //= C12_DIV
        s, v, e = search(prop, prof, base, first, runs, wall, work)
        if s:
            sums.append(s)
            per[PROFILE[prof]] = {k: s[k] for k in ("runs", "steps", "commits", "search_s", "distinct_logs", "distinct_states", "complete")}
        if e:
            errors.append(e)
        if v:
            hit = v
            break
        if s and s["determinism_bad"]:
            errors.append("%d of %d re-executed runs differ from their first execution" % (s["determinism_bad"], s["determinism_pairs"]))
        if s and s["harness"]:
            errors.append("harness error: " + s["harness"][0])
    thr, tsec = {}, THREADS[tier].get(prop, THREADS_ELSE[tier])
    if prop != "C12" and not hit:
        ss, v, e = search_threads(prop, base, tsec, work)
        thr = merge(ss)
        hit = hit or v
        if e:
            errors.append(e)
        if thr.get("determinism_bad"):
            errors.append("%d of %d re-executed threaded runs differ from their first execution" % (thr["determinism_bad"], thr["determinism_pairs"]))
        if thr.get("harness"):
            errors.append("harness error: " + thr["harness"][0])
    t = merge(sums)
    wall = time.time() - t0
    for k in ("foreign", "evals", "faults"):
        t.setdefault(k, {})
        for a, b in thr.get(k, {}).items():
            t[k][a] = t[k].get(a, 0) + b
    if prop in THREADS_ONLY:
        t.update({k: thr.get(k, 0) for k in ("search_s", "steps", "commits")})
        t["search_s"] /= max(1, len(ss))
        t["samples"] = thr.get("samples", [])
    ss = max(t.get("search_s", 0), 1e-9)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL, "wall_s": round(wall, 2),
        "violations": 1 if hit else 0,
        "coverage": {
            "evaluations": t.get("runs", 0) + thr.get("runs", 0),
            "distinct_nontrivial": t.get("nontrivial", 0) + thr.get("nontrivial", 0),
            "rule": RULE,
            "samples": t.get("samples", [])[:4] or ["no run completed"],
            "seeds_per_hour": int((thr if prop in THREADS_ONLY else t).get("runs", 0) / ss * 3600),
            "search_seconds": round(ss, 2),
            "build_seconds": round(tb, 2),
            "simulated_time": {"unit": "schedule steps (the library reads no clock, so steps are the only time); engine B: instrumented events",
                               "instrumented_events": thr.get("events", 0),
                               "steps": t.get("steps", 0), "commits": t.get("commits", 0)},
            "oracle_evaluations": t.get("evals", {}).get(prop, 0),
            "oracle_evaluations_of_all_properties": t.get("evals", {}),
            "faults_injected": t.get("faults", {}),
            "refused_commits": t.get("refused", {}),
            "operations": t.get("kinds", {}),
            "reached": t.get("probes", {}),
            "distinct_interleavings": {"measure": "distinct event logs (operation, indices handed out, outcome and graph contents after every step)",
                                       "count": t.get("distinct_logs", 0)},
            "distinct_states": {"measure": "graph shapes after a commit up to renaming of indices, data ignored, per profile", "count": t.get("distinct_states", 0)},
            "largest_graph": t.get("max_nodes", 0),
            "transactions_given_up_by_clients": t.get("given_up", 0),
            "determinism": {"runs_executed_twice": t.get("determinism_pairs", 0), "differing": t.get("determinism_bad", 0)},
            "runs_stopped_by_another_property": t.get("foreign", {}),
            "per_profile": per,
            "threads": {"what": PROFILE["t"], "runs": thr.get("runs", 0), "nontrivial": thr.get("nontrivial", 0),
                        "steps": thr.get("steps", 0), "commits": thr.get("commits", 0), "scheduling_points": thr.get("events", 0),
                        "preemptions": thr.get("preemptions", 0), "accesses_to_shared_memory": thr.get("shared_accesses", 0),
                        "blocked_waits": thr.get("blocked_waits", 0), "indices_compared_across_threads": thr.get("indices_compared_across_threads", 0),
                        "context_pairs_compared": thr.get("context_pairs", 0), "distinct_schedules": thr.get("distinct_schedules", 0),
                        "runs_executed_twice": thr.get("determinism_pairs", 0), "differing": thr.get("determinism_bad", 0),
                        "seconds_on_each_core": tsec if thr else 0, "samples": thr.get("samples", [])[:2]},
            "components": {"real": ["ttgraph (graph, transaction, arenas, contexts, checks, serialization) from /repo's working tree",
                                    "ttgraph_macros (derive and declaration macros) from /repo's working tree", "serde_json", "ordermap, indexmap, uuid"],
                           "simulated": ["clients and their schedule", "storage device under serde_json (short, failing and torn writes and reads, lost writes at crash)",
                                         "process crash and restart", "process randomness (getrandom)", "thread scheduling, futex waits, yields and sleeps", "a second, positional serde format that can fail at any call"]},
        },
        "assumptions": ["the reference model in sim/src/model.rs states the documented behaviour",
                        "sampled search: a clean batch is evidence, not proof"],
    }
    if hit:
        ev["coverage"]["violation"] = hit
    if errors:
        ev["coverage"]["errors"] = errors
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%d runs and %d threaded runs, %d non-trivial, %d steps, %.0f s (build %.0f s)" % (t.get("runs", 0), thr.get("runs", 0), t.get("nontrivial", 0), t.get("steps", 0), wall, tb))
    if hit:
        print("found: " + hit["what"])
        print("VIOLATION property=%s replay=%s" % (prop, hit["path"]), flush=True)
        sys.exit(1)
    if errors:
        stop("; ".join(errors))
    if not (t.get("nontrivial") or prop in THREADS_ONLY and thr.get("nontrivial") and t["evals"].get(prop)):
        stop("no non-trivial run")
    print("OK property=%s held on everything explored" % prop)
    sys.exit(0)


def main():
    a = sys.argv[1:]
    if a[:1] == ["build"]:
        build_sim()
        return
    if a[:1] == ["replay"] and len(a) == 2:
        build_sim()
        j = json.load(open(a[1]))
        prof = "t" if j["engine"] == "B" else "d" if "debug" in j["profile"] else "r"
        rc, out = run([BIN[prof], "replay", a[1]], 300)
        print(out)
        print({1: "reproduced", 0: "not reproduced"}.get(rc, "ended with %s" % rc))
        sys.exit(0 if rc == 0 else 1)
    if len(a) == 2 and a[0] in PROPS and a[1] in PLAN:
        decide(*a)
    print(__doc__)
    sys.exit(2)


if __name__ == "__main__":
    main()
