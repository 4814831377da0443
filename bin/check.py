#!/usr/bin/env python3
"""Checks of the properties of ekiwi/baa by deterministic simulation.

  check.py setup            build everything
  check.py run ID           decide property ID (tier and seed from VERIF_TIER, VERIF_SEED)
  check.py replay FILE      execute a replay file again; exit 1 if the violation occurs
  check.py selftest [ID..]  every seed executed twice must be observed to be the same

Exit status: 0 held, 1 violated, 2 the check could not be carried out.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")
JOBS = max(2, min(16, os.cpu_count() or 8))

# runs per build profile: quick, thorough
RUNS = {
    "C01": (40000, 400000), "C02": (32000, 320000), "C03": (50000, 500000), "C04": (32000, 320000),
    "C05": (40000, 400000), "C06": (28000, 280000), "C07": (80000, 1000000), "C08": (80000, 1000000),
    "C09": (32000, 320000), "C10": (12000, 140000), "C11": (80000, 1000000), "C12": (60000, 700000),
    "C13": (7000, 70000), "C14": (60000, 700000),
}
# no more runs are started after so many seconds (quick, thorough)
SECS = (330, 680)
SHRINK_SECS = 60

REAL = {
    "default": ["the whole library crate baa (debug and release builds, with and without debug assertions)",
                "std collections, smallvec, num-bigint, fraction as used by the library"],
    "C09": ["serde implementations derived by the library", "serde_json, ciborium and bincode encoders and decoders"],
}
STUB = {
    "default": ["global allocator (fault plan, ledger, poisoned memory)", "source of hash keys (getrandom)", "clock (never read by the library)"],
    "C07": ["owner of the shared word store"],
    "C08": ["owner of the shared word store"],
    "C09": ["disk with two slots (short, interrupted, failing and torn writes and reads; only synced data survives a crash)",
            "process restart (new hash keys, all volatile state lost)"],
    "C10": ["thread scheduler (baton passing; every instrumented edge, load, store and allocation is a pre-emption point)", "futex waits"],
    "C11": ["storage of text and bytes (truncation, flips, duplication, loss, reordering)"],
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def die(msg):
    log("ERROR:", msg)
    sys.exit(2)


def build(inst):
    """Builds the simulator with the library from /repo's working tree, in both profiles."""
    target = os.path.join(SIM, "target-inst" if inst else "target")
    # do not trust time stamps: always compile the library from the current sources
    for p in ("debug", "release"):
        for d in glob.glob(os.path.join(target, p, ".fingerprint", "baa-*")):
            shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ, RUSTC_BOOTSTRAP="simrt", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    if inst:
        env["RUSTC_WRAPPER"] = os.path.join(VERIF, "bin", "rustc-sancov")

    def one(extra, tdir):
        return subprocess.Popen(["cargo", "build", "--offline", "--locked", "--target-dir", tdir] + extra,
                                cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    # cargo serialises builds that share a directory
    ps = [one([], target), one(["--release"], target + "-rel")]
    outs = [p.communicate()[0] for p in ps]
    for p, o in zip(ps, outs):
        if p.returncode != 0:
            log(o[-6000:])
            die("the simulator does not build against /repo")
    return {"debug": os.path.join(target, "debug", "sim"), "release": os.path.join(target + "-rel", "release", "sim")}


def findings(prop):
    known = {}
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return known


def sim_env(prop):
    return dict(os.environ, SIM_KNOWN=",".join(["-"] + sorted(findings(prop))))


def replay_once(bins, path):
    j = json.load(open(path))
    p = subprocess.run([bins[j["profile"]], "replay", "--in", path], env=sim_env(j["property"]),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if p.returncode not in (0, 1):
        return None
    return json.loads(p.stdout)


def report(prop, bins, profile, viol, tier, seed):
    """Minimises the violating execution and writes it as replay file, which must reproduce it."""
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    viol.update(profile=profile, base_seed=seed, tier=tier, format=1)
    path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, viol["seed"]))

    def put(j):
        with open(path, "w") as f:
            json.dump(j, f, indent=1)
            f.write("\n")

    def good(need_trace):
        rs = [replay_once(bins, path) for _ in range(2)]
        return all(r and r["violation"] and (r["same_trace"] or not need_trace) for r in rs) and rs[0]

    full = dict(viol)
    put(full)
    p = subprocess.run([bins[profile], "shrink", "--in", path, "--secs", str(SHRINK_SECS)], env=sim_env(prop),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode == 0:
        try:
            put(json.loads(p.stdout))
            r = good(True)
            if r:
                return path, r["violation"], True
        except ValueError:
            pass
    put(full)
    for _ in range(3):
        r = good(False)
        if r:
            return path, r["violation"], True
    return path, viol["violation"], False


def run(prop, tier, seed):
    t0 = time.time()
    if prop not in RUNS:
        die("no check for " + prop)
    thorough = tier == "thorough"
    bins = build(prop == "C10")
    t_build = time.time() - t0
    listed = findings(prop)
    total = RUNS[prop][thorough]
    if os.environ.get("SIM_RUNS"):
        total = int(os.environ["SIM_RUNS"])
    secs = SECS[thorough]
    half = JOBS // 2
    work = os.path.join(VERIF, "work")
    os.makedirs(work, exist_ok=True)
    procs = []
    t1 = time.time()
    for b, (profile, base) in enumerate((("debug", 0), ("release", 10 ** 9))):
        for k in range(half):
            n = (total - k + half - 1) // half
            out = os.path.join(work, "%s-%s-%d.json" % (prop, profile, k))
            cmd = [bins[profile], "worker", "--prop", prop, "--seed", str(seed), "--from", str(base + k), "--stride", str(half),
                   "--count", str(n), "--long", "1" if thorough and k % 2 else "0", "--secs", str(secs)]
            f = open(out, "w")
            e = open(out + ".err", "w")
            procs.append((profile, out, subprocess.Popen(cmd, stdout=f, stderr=e, env=sim_env(prop), start_new_session=True)))
            f.close()
            e.close()
    res, errors, first = [], [], None
    todo = list(procs)
    while todo:
        time.sleep(0.05)
        for it in list(todo):
            profile, out, p = it
            if p.poll() is None:
                continue
            todo.remove(it)
            try:
                d = json.load(open(out))
            except ValueError:
                if first is None:
                    errors.append("worker of %s ended with status %s: %s" % (profile, p.returncode, open(out + ".err").read()[-500:]))
                continue
            d["profile"] = profile
            res.append(d)
            if d["error"]:
                errors.append(d["error"] + " " + open(out + ".err").read()[-500:])
            if d["violation"] and first is None:
                first = (profile, d["violation"])
                for _, _, q in todo:
                    try:
                        os.killpg(q.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
    t_explore = time.time() - t1
    for profile, out, p in procs:
        for x in (out, out + ".err"):
            os.path.exists(x) and os.remove(x)

    verdict, path, msg, repro = "held", None, None, None
    if first:
        path, v, repro = report(prop, bins, first[0], first[1], tier, seed)
        msg = v
        verdict = "violated" if repro else "not reproducible"

    runs = sum(d["runs"] for d in res)
    sigs = set()
    for d in res:
        sigs.update(d["sigs"])
    nontrivial = len(set().union(*[set(d["nontrivial_sigs"]) for d in res])) if res else 0
    counts, known = {}, {}
    for d in res:
        for k, n in d["counts"].items():
            counts[k] = counts.get(k, 0) + n
        known.update(d["known"])
    faults = {k[6:]: n for k, n in sorted(counts.items()) if k.startswith("fault:")}
    other = {k: n for k, n in sorted(counts.items()) if not k.startswith("fault:")}
    samples = [s for d in res for s in d["samples"]][:4]
    prop_text = next((json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl")) if json.loads(l)["id"] == prop), {})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontrivial,
            "rule": "One evaluation is one simulated run: its seed generates a scenario (operands, operations of one or more clients or threads, "
                    "schedule, hash keys, contents of fresh memory, fault plan), which the simulator executes in a process of its own while an "
                    "independent reference model follows. Distinct: different abstract histories (kinds of operations, their outcomes, shapes, fault "
                    "positions and schedule, hashed). Non-trivial: at least three operations of the library were executed and checked.",
            "samples": samples,
            "title": prop_text.get("title"),
            "runs_planned": 2 * total, "runs_skipped_for_time": sum(d["skipped"] for d in res),
            "operations_executed_and_checked": sum(d["ops"] for d in res),
            "distinct_histories_or_interleavings": len(sigs),
            "runs_per_hour": int(runs / max(t_explore, 0.001) * 3600), "seeds_per_hour": int(runs / max(t_explore, 0.001) * 3600),
            "runs_with_faults": sum(d["faulty_runs"] for d in res), "faults_fired": sum(d["fired"] for d in res),
            "faults_injected_by_kind": faults, "other_counts": other,
            "simulated_time": "none: the library reads no clock and arms no timer (clock reads are interposed and would be simulated); progress is counted in operations"
            if not sum(d["sim_nanos"] for d in res) else "%d ns" % sum(d["sim_nanos"] for d in res),
            "runs_by_build": {pr: sum(d["runs"] for d in res if d["profile"] == pr) for pr in ("debug", "release")},
            "instrumented_edges": max([d["edges_total"] for d in res] or [0]),
            "real_components": REAL["default"] + REAL.get(prop, []),
            "stubbed_components": STUB["default"] + STUB.get(prop, []),
            "known_findings_reproduced": known,
            "verdict": verdict, "violation": msg, "replay": path,
            "errors": errors,
            "build_s": round(t_build, 1), "explore_s": round(t_explore, 1), "workers": 2 * half,
        },
        "wall_s": round(time.time() - t0, 1),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))

    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s (key %s)" % (prop, listed.get(k, known[k]), k))
    if verdict == "violated":
        print("%s: %s" % (msg["class"], msg["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors or verdict != "held":
        log("\n".join(errors) or "a violation was seen that its replay does not reproduce: %s %s" % (path, msg))
        return 2
    print("%s held in %d runs (%d distinct histories, %d faults), %.0f s" % (prop, runs, len(sigs), ev["coverage"]["faults_fired"], time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED") or 1)
    if a[0] == "setup":
        build(False)
        build(True)
        return 0
    if a[0] == "run":
        tier = os.environ.get("VERIF_TIER") or "quick"
        if len(a) > 2:
            tier = a[2]
        return run(a[1], tier, seed)
    if a[0] == "replay":
        j = json.load(open(a[1]))
        bins = build(j["property"] == "C10")
        r = replay_once(bins, os.path.abspath(a[1]))
        if r is None:
            die("cannot replay")
        print(json.dumps(r, indent=1))
        if r["violation"]:
            print("VIOLATION property=%s replay=%s" % (j["property"], os.path.abspath(a[1])))
            return 1
        return 0
    if a[0] == "selftest":
        bad = 0
        for p in a[1:] or sorted(RUNS):
            bins = build(p == "C10")
            ps = [(b, subprocess.Popen([bins[b], "selftest", "--prop", p, "--seed", str(seed), "--count", os.environ.get("SIM_RUNS", "300")],
                                       stdout=subprocess.PIPE, text=True)) for b in bins]
            for b, q in ps:
                o = q.communicate()[0]
                print(p, b, o.strip())
                bad |= q.returncode != 0
        return int(bad)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
