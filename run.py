#!/usr/bin/env python3
"""Deterministic-simulation checks for PDAAAL.

  run.py check <property> [quick|thorough]   build the harness from /repo, search, write evidence/<property>.json
  run.py replay <file>                       rebuild and replay a violation exactly
  run.py determinism [property...]           many seeds, twice, under several worker counts; event hashes must agree
  run.py build [property...]                 only build
Environment: VERIF_SEED (default 1), VERIF_TIER, REPO (default /repo), SIM_JOBS, SIM_RUNS, SIM_CAP
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
OUT = os.path.join(HERE, ".build")
sys.path.insert(0, os.path.join(HERE, "sim"))
from props import PROPS, COMMON_ASSUMPTIONS, REAL, STUB   # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("SIM_JOBS", "0")) or max(1, min(8, len(os.sched_getaffinity(0))))
FLAGS = ["-std=gnu++20", "-O1", "-w", "-fno-omit-frame-pointer", "-fno-pie", "-ftrivial-auto-var-init=pattern", "-DPDAAAL_SIMULATION", "-D_GLIBCXX_ASSERTIONS",
         "-I" + os.path.join(HERE, "sim/include"), "-I" + os.path.join(HERE, "stubs"),
         "-I" + os.path.join(REPO, "src/include"), "-I" + os.path.join(REPO, "src/pdaaal-bin")]
LIBS = ["-labsl_hash", "-labsl_city", "-labsl_low_level_hash", "-lboost_program_options"]


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def tree_hash(paths):
    h = hashlib.sha256()
    for top in paths:
        files = [top] if os.path.isfile(top) else sorted(os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs)
        for f in files:
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def build(pid):
    p = PROPS[pid]
    os.makedirs(OUT, exist_ok=True)
    lib = [os.path.join(REPO, "src/include/pdaaal", f) for f in ("internal/PDA.cpp", "internal/Reducer.cpp", "parsing/NfaParser.cpp")]
    lib += [os.path.join(REPO, "src/pdaaal-bin", f) for f in p.get("bin_src", [])]
    mine = [os.path.join(HERE, "sim/sim.cpp")] + [os.path.join(HERE, "sim/scen", s) for s in p["src"]]
    key = tree_hash([os.path.join(REPO, "src"), os.path.join(HERE, "stubs"), os.path.join(HERE, "sim")] ) + hashlib.sha256(repr((FLAGS, p.get("flags"), LIBS)).encode()).hexdigest()[:8]
    binary = os.path.join(OUT, "%s-%s" % (pid, key))
    if os.path.exists(binary):
        return binary, 0.0
    for f in os.listdir(OUT):
        if f.startswith(pid + "-"):
            fp = os.path.join(OUT, f)
            shutil.rmtree(fp, ignore_errors=True) if os.path.isdir(fp) else os.unlink(fp)
    d = binary + ".d"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t0 = time.time()

    def cc(src):
        obj = os.path.join(d, os.path.basename(os.path.dirname(src)) + "_" + os.path.basename(src) + ".o")
        flags = FLAGS + p.get("flags", [])
        if src.startswith(os.path.join(REPO, "src/pdaaal-bin")):
            flags = flags + p.get("bin_flags", [])
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", obj], capture_output=True, text=True)
        return obj, src, r
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(cc, mine + lib))
    for obj, src, r in res:
        if r.returncode:
            err = [l for l in r.stderr.splitlines() if "error" in l or "required from here" in l][:20]
            print("\n".join(err)); die("harness for %s does not compile against the current tree (%s)" % (pid, src))
    r = subprocess.run(["g++", "-no-pie", "-Wl,--allow-multiple-definition"] + [o for o, _, _ in res] + p.get("libs", []) + LIBS + ["-o", binary + ".tmp"], capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-3000:]); die("harness for %s does not link" % pid)
    os.rename(binary + ".tmp", binary)
    shutil.rmtree(d, ignore_errors=True)
    return binary, time.time() - t0


def env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "TMPDIR")}
    return e


def search(binary, tag, seed, runs, cap, jobs, shrink, stop_on_fail=True):
    procs = []
    for w in range(jobs):
        out = os.path.join(OUT, "%s.%d" % (tag, w))
        for ext in (".stats.json", ".sigs", ".replay.json"):
            if os.path.exists(out + ext): os.unlink(out + ext)
        procs.append((out, subprocess.Popen([binary, "search", str(seed), str(w), str(jobs), str(runs), str(cap), out, str(shrink)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env(), cwd=OUT)))
    failed, err = [], []
    pending = list(procs)
    first = None
    while pending:
        for it in list(pending):
            out, pr = it
            if pr.poll() is None: continue
            pending.remove(it)
            e = pr.stderr.read().decode(errors="replace")
            if pr.returncode == 1: failed.append(out); first = first or time.time()
            elif pr.returncode != 0 and not (first and pr.returncode < 0): err.append((pr.returncode, e[-500:]))
        if stop_on_fail and first and time.time() - first > 2:
            for _, pr in pending: pr.kill()
        time.sleep(0.02)
    stats = {"runs": 0, "events": 0, "steps": 0, "choices": 0, "allocs": 0, "nontrivial_runs": 0, "failed": 0, "counters": {}}
    sigs = set()
    for out, _ in procs:
        if os.path.exists(out + ".stats.json"):
            s = json.load(open(out + ".stats.json"))
            for k in stats:
                if k != "counters": stats[k] += s.get(k, 0)
            for k, v in s["counters"].items(): stats["counters"][k] = stats["counters"].get(k, 0) + v
        if os.path.exists(out + ".sigs"):
            b = open(out + ".sigs", "rb").read()
            sigs.update(b[i:i + 8] for i in range(0, len(b), 8))
            os.unlink(out + ".sigs")
    return stats, len(sigs), failed, err


def replay_bin(binary, f):
    r = subprocess.run([binary, "replay", f, "quiet"], capture_output=True, text=True, env=env(), cwd=OUT)
    m = re.search(r"RESULT status=(\d+) class=(.*?) hash=([0-9a-f]+)", r.stdout)
    return (r.returncode, m.group(2), m.group(3)) if m else (r.returncode, None, None)


def known_classes(pid):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f): return {}
    return {k["class"]: k for k in json.load(open(f)).get("known", []) if k["property"] == pid}


def check(pid, tier):
    p = PROPS[pid]
    t0 = time.time()
    binary, bt = build(pid)
    runs = int(os.environ.get("SIM_RUNS", 0)) or p.get("runs", 150000) * (40 if tier == "thorough" else 1)
    cap = float(os.environ.get("SIM_CAP", 0)) or (1500 if tier == "thorough" else p.get("cap", 60))
    ts = time.time()
    stats, distinct, failed, err = search(binary, pid, SEED, runs, cap, JOBS, 20 if tier == "quick" else 60)
    wall = time.time() - ts
    violations = 0
    unreproduced = 0
    for out in failed:
        rep = out + ".replay.json"
        if not os.path.exists(rep): continue
        want = json.load(open(rep))
        a, b = replay_bin(binary, rep), replay_bin(binary, rep)      # fresh processes
        if a == b and a[0] == 1 and a[1] == want["class"] and a[2] == want["event_hash"]:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            dst = os.path.join(HERE, "replays", "%s-%d-%d.json" % (pid, want["seed"], want["run_index"]))
            shutil.copy(rep, dst)
            print("%s: %s (run %d of seed %d, %d -> %d choices)" % (want["class"], want["message"], want["run_index"], want["seed"], want["original_choices"], len(want["choices"])))
            print(want["history"])
            print("VIOLATION property=%s replay=%s" % (pid, dst), flush=True)
            violations += 1
            break
        unreproduced += 1
        print("not reproduced exactly: %s %s; got %s / %s" % (want["class"], want["message"], a, b)); shutil.copy(rep, os.path.join(OUT, "%s-unreproduced.json" % pid))
    # same seeds again, another process layout: event hashes must agree
    d = 0
    if not failed:
        n = min(runs, 96)
        h1 = hashes(binary, pid, SEED, n, 1)
        h2 = hashes(binary, pid, SEED, n, 3)
        d = sum(1 for i in h1 if h1[i] != h2.get(i))
    samples = []
    for i in (0, 1, 2):
        r = subprocess.run([binary, "one", str(SEED), str(i)], capture_output=True, text=True, env=env(), cwd=OUT, errors="replace")
        samples.append({"seed": SEED, "run": i, "history": r.stdout[:1500]})
    cnt = stats["counters"]
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": p.get("level", "exploration"),
          "coverage": {"evaluations": stats["runs"], "distinct_nontrivial": distinct,
                       "rule": p["rule"] + " A run is non-trivial when at least one scheduling or fault decision had more than one outcome; distinct = distinct (interleaving signature, event-history hash) pairs.",
                       "samples": samples, "nontrivial_runs": stats["nontrivial_runs"], "simulated_steps": stats["steps"], "history_events": stats["events"],
                       "choices_drawn": stats["choices"], "allocations_of_code_under_test": stats["allocs"],
                       "runs_per_hour": int(stats["runs"] / max(wall, 1e-3) * 3600), "search_wall_s": round(wall, 2), "build_wall_s": round(bt, 2),
                       "simulated_time_ns": cnt.get("time.simulated_ns", 0),
                       "faults_injected": {k: v for k, v in sorted(cnt.items()) if k.startswith("fault.")},
                       "environment": {k: v for k, v in sorted(cnt.items()) if k.startswith("env.")},
                       "probes": {k: v for k, v in sorted(cnt.items()) if k.startswith("probe.")},
                       "determinism_rerun_mismatches": d, "components_real": p.get("real", REAL), "components_stubbed": p.get("stub", STUB)},
          "assumptions": COMMON_ASSUMPTIONS + p.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d runs, %d distinct non-trivial, %.0f runs/s, build %.1f s, search %.1f s, violations %d" % (pid, tier, stats["runs"], distinct, stats["runs"] / max(wall, 1e-3), bt, wall, violations))
    if violations: sys.exit(1)
    if unreproduced: die("a failing run did not replay identically")
    if err: die("search process failed: %r" % (err[0],))
    if d: die("%d runs were not deterministic" % d)
    if stats["runs"] == 0: die("no run completed")
    dead = [k for k in p.get("must_hit", []) if not cnt.get(k)]
    if dead: print("note: probes never hit: %s" % ", ".join(dead))
    sys.exit(0)


def hashes(binary, tag, seed, n, jobs):
    ps = []
    for w in range(jobs):
        out = os.path.join(OUT, "%s.h%d" % (tag, w))
        ps.append((out, subprocess.Popen([binary, "search", str(seed), str(w), str(jobs), str(n), "600", out, "0", "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env(), cwd=OUT)))
    h = {}
    for out, pr in ps:
        for l in pr.communicate()[0].splitlines():
            if l.startswith("H "):
                _, i, x = l.split(" ", 2); h[int(i)] = x
        for ext in (".stats.json", ".sigs", ".replay.json"):
            if os.path.exists(out + ext): os.unlink(out + ext)
    return h


def main():
    if len(sys.argv) < 2: print(__doc__); sys.exit(2)
    cmd = sys.argv[1]
    if cmd == "check":
        check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick"))
    elif cmd == "selftest":
        r = subprocess.run(["g++", "--version"], capture_output=True, text=True)
        if r.returncode: die("no g++")
        print("simulator: %d properties, %s" % (len(PROPS), r.stdout.splitlines()[0]))
    elif cmd == "build":
        for pid in sys.argv[2:] or PROPS: print(build(pid))
    elif cmd == "replay":
        want = json.load(open(sys.argv[2])); binary, _ = build(want["property"])
        r = subprocess.run([binary, "replay", os.path.abspath(sys.argv[2])], env=env(), cwd=OUT)
        sys.exit(r.returncode)
    elif cmd == "determinism":
        bad = 0
        for pid in sys.argv[2:] or PROPS:
            binary, _ = build(pid); m = 0; tot = 0
            for seed in range(1, 9):
                hs = [hashes(binary, pid, seed, 400, j) for j in (1, 8, 5)]
                tot += len(hs[0]); m += sum(1 for i in hs[0] if any(h.get(i) != hs[0][i] for h in hs[1:]))
            print("%s: %d seeds x runs executed three times under 1, 5 and 8 workers, %d mismatches" % (pid, tot, m), flush=True); bad += m
        sys.exit(1 if bad else 0)
    else: die("unknown command")


if __name__ == "__main__":
    main()
