#!/usr/bin/env python3
"""Decides one property by seeded simulation: check.py PROPERTY [--tier quick|thorough] [--secs N]
exit 0: held on everything explored; 1: a VIOLATION line was printed; 2: no answer."""
import json, os, shutil, subprocess, sys, tempfile, threading, time, queue, re, collections

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
T0 = time.time()

def args():
    prop = None; tier = os.environ.get("VERIF_TIER", "quick"); secs = None; i = 1
    while i < len(sys.argv):
        a = sys.argv[i]
        if a == "--tier": i += 1; tier = sys.argv[i]
        elif a == "--secs": i += 1; secs = float(sys.argv[i])
        else: prop = a
        i += 1
    if tier not in ("quick", "thorough"): tier = "quick"
    return prop, tier, secs

def known(prop):
    """Findings recorded in KNOWN_FINDINGS.txt that still stand: 'known: property=C01 sig=<class|op|function> <what fails>'."""
    out = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out

def replay(sim, path):
    """Replays in a fresh process: (class, op, events) or None."""
    try:
        r = subprocess.run([sim, "replay", path], capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return None
    m = re.search(r"^RESULT (.*)$", r.stdout, re.M)
    if r.returncode != 1 or not m: return None
    f = m.group(1).split("|")
    return f[0], f[1], f[-1]

def main():
    prop, tier, secs = args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = secs or (float(os.environ.get("VERIF_SECS", 0)) or (36 if tier == "quick" else 780))
    ncpu = os.cpu_count() or 4
    work = tempfile.mkdtemp(prefix="vsim-")
    try:
        return run(prop, tier, seed, secs, ncpu, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(prop, tier, seed, secs, ncpu, work):
    env = dict(os.environ, OUT=work, REPO=REPO)
    print(f"{prop}: tier {tier}, VERIF_SEED {seed}, {ncpu} workers, {secs:.0f} s of search", flush=True)
    b = subprocess.run([os.path.join(HERE, "tools", "build.sh"), "all"], env=env, capture_output=True, text=True)
    if b.returncode != 0:
        sys.stdout.write(b.stdout[-4000:] + b.stderr[-4000:]); print("the simulator does not build against this tree"); return 2
    sim = os.path.join(work, "sim")
    rdir = os.path.join(HERE, "replays", prop); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    variants = 3 if tier == "quick" else 6
    end = time.time() + secs
    q = queue.Queue(); procs = []
    def reader(i, p):
        for l in p.stdout: q.put((i, l))
        q.put((i, None))
    DIG = 12
    for i in range(ncpu):
        cmd = [sim, "search", f"--prop={prop}", f"--seed={seed}", f"--secs={secs}", f"--dir={rdir}", f"--worker={i}", f"--workers={ncpu}", f"--tier={tier}", f"--variants={variants}", f"--digest={DIG}", f"--cover={work}/cover{i}", "--shrink=5"]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True); procs.append(p)
        threading.Thread(target=reader, args=(i, p), daemon=True).start()
    live = set(range(ncpu)); stats = []; bad = []; nondet = []; digests = {}; skipped = 0; confirmed = []; unconfirmed = []; kf = known(prop); kf_seen = {}
    hard = end + 60
    control = None
    while live and time.time() < hard:
        try: i, l = q.get(timeout=1)
        except queue.Empty: continue
        if l is None: live.discard(i); continue
        try: d = json.loads(l)
        except ValueError: continue
        t = d.get("type")
        if t == "stats": stats.append(d)
        elif t == "digest":
            digests[i] = d["value"]
            if control is None:
                control = (i, subprocess.Popen([sim, "search", f"--prop={prop}", f"--seed={seed}", "--secs=100", f"--dir={work}", f"--worker={i}", f"--workers={ncpu}", f"--tier={tier}", f"--variants={variants}", f"--digest={DIG}", "--digest-only"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
        elif t == "nondeterminism": nondet.append(d)
        elif t == "skipped": skipped += d["n"]
        elif t == "violation":
            hit = [k for k in kf if k[0] == d["sig"]]
            if hit: kf_seen[hit[0]] = d; continue
            ok = None
            for suffix in ("", ".full", ".regen"):
                r = replay(sim, d["replay"] + suffix); r2 = replay(sim, d["replay"] + suffix) if r else None
                if r and r2 == r and r[0] == d["cls"]: ok = d["replay"] + suffix; break
            (confirmed if ok else unconfirmed).append((d, ok))
            if ok: break
    if confirmed or time.time() >= hard:
        for p in procs:
            if p.poll() is None: p.kill()
    for p in procs:
        try: p.wait(timeout=10)
        except subprocess.TimeoutExpired: p.kill()
    crashed = []
    for i, p in enumerate(procs):
        if p.returncode != 0 and not confirmed: crashed.append((i, p.returncode, (p.stderr.read() or "")[-500:]))
    cross = None
    if control:
        try: out = control[1].communicate(timeout=60)[0]
        except subprocess.TimeoutExpired: control[1].kill(); out = ""
        for l in out.splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            if d.get("type") == "digest": cross = d["value"] == digests[control[0]]
    wall = time.time() - T0
    # ---- evidence ----
    tot = collections.Counter(); faults = collections.Counter()
    for s in stats:
        for k, v in s.items():
            if isinstance(v, (int, float)) and k != "wall": tot[k] += v
        for k, v in s["faults"].items(): faults[k] += v
    cover = set()
    for i in range(ncpu):
        try:
            data = open(f"{work}/cover{i}", "rb").read(); cover.update(data[k:k + 8] for k in range(0, len(data), 8))
        except FileNotFoundError: pass
    swall = max([s["wall"] for s in stats] or [wall])
    samples = []
    for k in range(2):
        g = subprocess.run([sim, "gen", f"--prop={prop}", f"--seed={seed * 1000003 + k}", f"--tier={tier}", "--variant=1"], capture_output=True, text=True)
        lines = [l for l in g.stdout.splitlines() if not l.startswith("n ")]
        samples.append({"seed": seed * 1000003 + k, "variant": 1, "scenario": lines[:25], "lines_in_full": len(g.stdout.splitlines())})
    prof = json.loads(subprocess.run([sim, "describe", f"--prop={prop}"], capture_output=True, text=True).stdout or "{}")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(tot["runs"]), "distinct_nontrivial": int(tot["histories"]),
            "rule": "One evaluation is one simulated run: images, call sequence per thread, schedule and fault sequence are all drawn from the seed; variant 0 of a seed is fault-free, the others put faults at points the fault-free run passed or change the schedule. Counted as distinct and non-trivial: runs whose recorded history (every call with its result, every fault and scheduling decision, hashed) differs from all others of the same worker; workers have disjoint seeds.",
            "samples": samples,
            "seeds": int(tot["seeds"]), "seeds_per_hour": int(tot["seeds"] / max(swall, .001) * 3600), "runs_per_hour": int(tot["runs"] / max(swall, .001) * 3600),
            "simulated_seconds": round(tot["simtime_us"] / 1e6, 3), "process_lifetimes": int(tot["lives"]), "crashes_injected": int(tot["crashes"]),
            "calls_into_the_library": int(tot["ops"]), "memory_accesses_scheduled_over": int(tot["steps"]), "context_switches": int(tot["switches"]), "waits_for_a_lock": int(tot["lock_waits"]),
            "distinct_schedules": int(tot["schedules"]), "distinct_conflicting_access_pairs_reordered": len(cover),
            "faults_fired": {k: int(v) for k, v in sorted(faults.items()) if v}, "resource_limits_hit": int(tot["natural"]), "allocations": int(tot["allocs"]), "blocks_decoded": int(tot["decodes"]),
            "same_seed_twice_in_process": int(tot["determinism_checks"]), "same_seed_twice_differing": int(tot["determinism_failures"]), "same_seeds_in_second_process_agree": cross,
            "profile": prof,
            "components": {"real code": "all of src/*.c and sample/enclose_io_unix.c compiled from the working tree, zlib", "simulated": "threads, mutexes, scheduler, heap, C strings/stdio, file system, descriptors, clock, pid, random numbers, environment, exit handlers, process crash and restart", "image": "generated SquashFS 4.0 zlib images built by the harness, with a reference model"},
        },
        "assumptions": ["images are well-formed unless an unreadable block is injected", "sequentially consistent memory; scheduling points at every instrumented memory access and service call", "Linux code paths; Windows sources are not compiled"],
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{prop}: {tot['seeds']} seeds, {tot['runs']} runs, {tot['histories']} distinct histories, {tot['schedules']} schedules, {tot['ops']} calls, faults {dict((k, v) for k, v in faults.items() if v)}, {wall:.1f} s", flush=True)
    for k in kf: print(f"KNOWN-FINDING: property={prop} {k[1]}")
    if confirmed:
        for d, path in confirmed[:1]:
            print(f"{d['cls']} in {d['op']}: {d['msg']}\n  at {d['where']}\n  seed {d['seed']} variant {d['variant']}; {d['ops']} operations, {d['switches']} context switches, {d['faults']} faults; replay with: tools/replay.sh {path}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if unconfirmed:
        print("violations that a fresh process does not reproduce:", [(d["cls"], d["msg"], d["seed"], d["variant"]) for d, _ in unconfirmed]); return 2
    if nondet or cross is False: print("the simulation is not deterministic:", nondet[:3], cross); return 2
    if crashed: print("workers died:", crashed); return 2
    if not stats: print("no results"); return 2
    return 0

if __name__ == "__main__":
    try: rc = main()
    except Exception as e:
        import traceback; traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc)
