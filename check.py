#!/usr/bin/env python3
"""check.py PROPERTY: simulate /repo's working tree and decide one property.

Builds the simulator around /repo's current sources, explores a fixed number of
seeded cases (VERIF_SEED, VERIF_TIER) on all cores, writes
evidence/<PROPERTY>.json and exits 0 (held), 1 (VIOLATION line) or 2 (error).
check.py --replay FILE executes a replay file.
"""
import json, os, re, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B  # noqa: E402
from catalog import CATALOG, ASSUMPTIONS  # noqa: E402

procs = []


def stop(*_):
    for p in procs:
        if p.poll() is None:
            p.terminate()


def on_term(*_):
    stop()
    sys.exit(2)


def replay(path):
    variant = "plain"
    with open(path) as f:
        for l in f:
            if l.startswith("variant "):
                variant = l.split()[1]
                break
    exe = B.build(variant)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    return subprocess.call([exe, "--replay", path], env=env)


def known_for(prop):
    r = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) match=(.*?) \| (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return r


def merge(stats):
    out = {}
    for s in stats:
        for k, v in s.items():
            if k in ("traces", "nontrivial", "interleavings", "scripts"):
                out.setdefault(k, set()).update(v)
            elif k == "fired":
                d = out.setdefault(k, {})
                for n, (a, b) in v.items():
                    x = d.setdefault(n, [0, 0])
                    x[0] += a
                    x[1] += b
            elif k in ("probes", "known"):
                d = out.setdefault(k, {})
                for n, a in v.items():
                    d[n] = d.get(n, 0) + a
            elif k in ("samples", "violations"):
                out.setdefault(k, []).extend(v)
            elif isinstance(v, bool):
                out[k] = out.get(k, False) or v
            elif k == "wall":
                out[k] = max(out.get(k, 0), v)
            else:
                out[k] = out.get(k, 0) + v
    return out


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    info = CATALOG[prop]
    t0 = time.time()
    signal.signal(signal.SIGTERM, on_term)
    signal.signal(signal.SIGINT, on_term)
    cores = max(1, len(os.sched_getaffinity(0)))
    known = known_for(prop)
    rdir = os.path.join(B.OUT, "replay")
    tmp = os.path.join(B.OUT, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(tmp, exist_ok=True)
    variants = [(v, n) for v, n in info[tier]]
    exes = {v: B.build(v) for v, _ in variants}
    built = time.time() - t0
    cap = float(os.environ.get("SIM_CAP") or (420 if tier == "quick" else 3000))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    merged, err, per, found = [], "", {}, None
    for v, n in variants:
        if found:
            break
        procs.clear()
        jobs = []
        left = max(20.0, cap - (time.time() - t0 - built)) / 1.0
        for i in range(cores):
            cnt = (n - i + cores - 1) // cores
            if cnt <= 0:
                continue
            j = os.path.join(tmp, "%s-%d.json" % (v, i))
            o = open(os.path.join(tmp, "%s-%d.out" % (v, i)), "w+")
            cmd = [exes[v], "--prop", prop, "--seed", str(seed), "--start", str(i), "--step", str(cores), "--count", str(cnt),
                   "--cap", str(left), "--json", j, "--replays", rdir, "--minimise", "40" if tier == "quick" else "120"]
            if tier == "thorough":
                cmd.append("--thorough")
            for m, _ in known:
                cmd += ["--known", m]
            p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT, env=env, stdin=subprocess.DEVNULL)
            procs.append(p)
            jobs.append((p, j, o))
        while any(p.poll() is None for p, _, _ in jobs):
            if any(p.poll() == 1 for p, _, _ in jobs):
                time.sleep(0.5)
                stop()
            time.sleep(0.05)
        here = []
        for p, j, o in jobs:
            o.seek(0)
            text = o.read()
            o.close()
            if os.path.exists(j):
                here.append(json.load(open(j)))
            if p.returncode == 1 and not found:
                for l in text.splitlines():
                    if l.startswith("FOUND "):
                        found = l.split(" ", 3)[2:]
            elif p.returncode not in (0, 1, 3):
                err += "worker ended with %s: %s\n" % (p.returncode, text[-2000:])
        m = merge(here) if here else {}
        per[v] = {"cases": m.get("cases", 0), "wall_s": round(m.get("wall", 0), 2)}
        merged.append(m)
    s = merge(merged)
    wall = time.time() - t0
    sim_wall = max(1e-6, sum(p["wall_s"] for p in per.values()))
    fired = {k: {"times": a, "runs": b} for k, (a, b) in s.get("fired", {}).items() if a or b}
    cov = {
        "evaluations": s.get("runs", 0),
        "seeds": s.get("cases", 0),
        "distinct_nontrivial": len(s.get("nontrivial", ())),
        "rule": info["rule"] + " Evaluations are simulated runs.",
        "samples": [dict(x, replay="simrun --show %s %d %d" % (prop, x["seed"], x["case"])) for x in s.get("samples", [])[:6]],
        "simulated_runs_per_hour": int(s.get("runs", 0) / sim_wall * 3600),
        "seeds_per_hour": int(s.get("cases", 0) / sim_wall * 3600),
        "simulated_seconds": round(s.get("virtual_seconds", 0), 3),
        "faults_fired": fired,
        "distinct_event_traces": len(s.get("traces", ())),
        "distinct_interleavings": len(s.get("interleavings", ())),
        "distinct_scripts": len(s.get("scripts", ())),
        "measure": "a trace is the sequence of all intercepted operations (operation, path, error, length, offset, thread) together with the"
                   " number of basic blocks executed, the exit status and the diagnostics; an interleaving is the sequence of (basic block, task) switches",
        "basic_blocks_simulated": s.get("steps", 0),
        "io_operations": s.get("ops", 0),
        "bytes_read": s.get("bytes_in", 0),
        "bytes_written": s.get("bytes_out", 0),
        "clock_readings": s.get("clock_reads", 0),
        "allocations": s.get("allocs", 0),
        "task_switches": s.get("switches", 0),
        "run_endings": {"exit 0": s.get("exit0", 0), "exit with failure": s.get("exit_fail", 0), "killed by a signal": s.get("killed", 0), "crashed by the simulator": s.get("crashes", 0)},
        "conditions_hit": s.get("probes", {}),
        "determinism": {"cases_executed_twice": s.get("rechecked", 0), "with_a_different_trace": s.get("differing", 0)},
        "stopped_by_time": bool(s.get("capped", False)),
        "variants": per,
        "build_s": round(built, 2),
        "cores": cores,
        "real_components": ["every .cc of /repo/stl-to-ps, main() included", "the bison and flex generated parser and lexer", "libstdc++ iostreams, glibc stdio and conversions", "abseil flags, strings and time", "RE2", "Eigen"],
        "stubbed_components": ["absl/log (CHECK aborts, LOG goes to standard error): not installed here", "parser/parser_support.h (from @bazel_rules): not available offline",
                               "the kernel's file, clock, memory, random and identity calls: simulated"],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": info["level"], "coverage": cov,
          "assumptions": ASSUMPTIONS + info.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if found else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    subprocess.call(["rm", "-rf", tmp])
    for m, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if found:
        print(found[1])
        print("VIOLATION property=%s replay=%s" % (prop, found[0]))
        return 1
    if err:
        print(err)
        print("ERROR: no verdict")
        return 2
    print("property %s held: %d cases, %d simulated runs, %d distinct non-trivial, %.1f s (seed %d, %s)" %
          (prop, cov["seeds"], cov["evaluations"], cov["distinct_nontrivial"], wall, seed, tier))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        print("BUILD FAILED:", e)
        sys.exit(2)
