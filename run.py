#!/usr/bin/env python3
"""Deterministic-simulation check driver.

  run.py ID [--tier quick|thorough]     decide property ID on /repo's working tree
  run.py --replay FILE [--verbose]      re-execute a replay file (ID is in its first line)
  run.py --build ID                     only build; prints the binary's path

Exit 0: held on everything explored. Exit 1 + 'VIOLATION property=<id> replay=<path>': broken. Anything else: check error.
"""
import json, os, re, subprocess, sys, time, shutil, hashlib, struct

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
CPUS = sorted(os.sched_getaffinity(0))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def die(msg, code=2):
    print("CHECK-ERROR: " + msg)
    sys.exit(code)


def directives(src):
    d = {"cxxflags": [], "libs": [], "pkg": [], "real": [], "stub": [], "extra": []}
    for line in open(src):
        m = re.match(r"//\s*(CXXFLAGS|LIBS|PKG|REAL|STUB|EXTRA):\s*(.*)", line)
        if m:
            v = m.group(2).strip()
            k = m.group(1)
            if k == "EXTRA":
                d["extra"] += v.split()
            elif k == "CXXFLAGS":
                d["cxxflags"] += v.split()
            elif k == "LIBS":
                d["libs"] += v.split()
            elif k == "PKG":
                d["pkg"] += v.split()
            else:
                d[k.lower()].append(v)
    return d


def build(prop):
    bdir = os.path.join(V, ".build", prop)
    os.makedirs(bdir, exist_ok=True)
    src = os.path.join(V, "harness", prop + ".cpp")
    if not os.path.exists(src):
        die("no harness for " + prop)
    d = directives(src)
    extra = []
    if d["pkg"]:
        p = sh(["pkg-config", "--cflags"] + d["pkg"])
        extra += [x.replace("-I", "-isystem") if x.startswith("-I") else x for x in p.stdout.split()]
        d["libs"] += sh(["pkg-config", "--libs"] + d["pkg"]).stdout.split()
    inc = ["-I" + os.path.join(V, "sim"), "-I" + os.path.join(V, "harness"), "-I" + REPO + "/src/rpp"]
    for e in ("rppasio", "rppgrpc", "rppqt"):
        inc.append("-I" + REPO + "/src/extensions/" + e)
    rt, ho, bin_ = (os.path.join(bdir, x) for x in ("rt.o", "h.o", "sim"))
    jobs = [
        ["g++", "-std=c++20", "-O2", "-g1", "-I" + os.path.join(V, "sim"), "-c", os.path.join(V, "sim", "rt.cpp"), "-o", rt],
    ]
    objs = []
    for f in [src] + [os.path.join(V, "harness", x) for x in d["extra"]]:
        o = ho if f == src else os.path.join(bdir, os.path.basename(f) + ".o")
        objs.append(o)
        jobs.append(["g++", "-std=c++20", "-O1", "-g1", "-w", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"] + inc + extra + d["cxxflags"] + ["-c", f, "-o", o])
    ps = [subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for j in jobs]
    for j, p in zip(jobs, ps):
        out = p.communicate()[0]
        if p.returncode:
            print(out[-6000:])
            die("build failed: " + " ".join(j))
    p = sh(["g++", "-no-pie", "-rdynamic" if d["libs"] else "-g1", *objs, rt, "-o", bin_] + d["libs"] + ["-ldl", "-lpthread"])
    if p.returncode:
        print(p.stderr[-6000:])
        die("link failed")
    return bin_, d


def jline(out):
    for l in out.splitlines():
        if l.startswith("{"):
            return json.loads(l)
    return None


def one(bin_, seed, verbose=False):
    p = sh([bin_, "one", "--seed", str(seed), "--verbose", "1" if verbose else "0"])
    r = jline(p.stdout)
    return r, p.stdout


def replay(bin_, path, verbose=False):
    p = sh([bin_, "replay", "--file", path, "--verbose", "1" if verbose else "0"])
    return jline(p.stdout), p.stdout


def frames(bin_, pcs, maxn=14):
    if not pcs:
        return []
    adj = [hex(int(x, 16) - 1) for x in pcs]
    p = sh(["addr2line", "-e", bin_, "-f", "-C", "-i", "-a"] + adj)
    out, lines = [], p.stdout.splitlines()
    i = 0
    while i < len(lines):
        if lines[i].startswith("0x"):
            i += 1
            continue
        fn, loc = lines[i], lines[i + 1] if i + 1 < len(lines) else ""
        i += 2
        fn = re.sub(r"<.*", "<...>", fn) if len(fn) > 160 else fn
        out.append("%s at %s" % (fn, re.sub(r" \(discriminator.*", "", loc)))
    return out[:maxn]


def repo_frames(fr):
    return [f for f in fr if "/src/rpp/" in f or "/src/extensions/" in f]


def describe(bin_, r):
    s = []
    for k, title in (("pcs0", "at"), ("pcs1", "other access")):
        fr = frames(bin_, r.get(k))
        if fr:
            s.append(title + ":")
            s += ["    " + f for f in fr]
    return s


def known(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def matches(k, r, bin_):
    if k["cls"] != r["cls"] or not re.search(k.get("scenario", ""), r["scenario"]):
        return False
    if "msg" in k and not re.search(k["msg"], r["msg"]):
        return False
    for key, pcs in (("frames", "pcs0"), ("other_frames", "pcs1")):
        if key in k:
            fr = "\n".join(frames(bin_, r.get(pcs), 40))
            if not all(re.search(x, fr) for x in k[key]):
                return False
    return True


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 64
    if a[0] == "--replay":
        prop = None
        for l in open(a[1]):
            m = re.match(r"# property (\S+)", l)
            if m:
                prop = m.group(1)
        if not prop:
            die("replay file names no property")
        bin_, _ = build(prop)
        r, out = replay(bin_, a[1], "--verbose" in a)
        if "--verbose" in a:
            print(out)
        print("status=%s class=%s scenario=%s hash=%s\n%s" % (r["status"], r["cls"], r["scenario"], r["hash"], r["msg"]))
        print("\n".join(describe(bin_, r)))
        if r["status"] == 2 or r["status"] == 5:
            print("VIOLATION property=%s replay=%s" % (prop, a[1]))
            return 1
        return 0
    if a[0] == "--build":
        print(build(a[1])[0])
        return 0

    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    seconds = float(os.environ.get("SIM_SECONDS", "15" if tier == "quick" else "400"))
    nw = int(os.environ.get("SIM_WORKERS", str(len(CPUS))))
    t0 = time.time()
    print("seed %d tier %s property %s" % (seed, tier, prop))
    bin_, d = build(prop)
    tb = time.time()
    bdir = os.path.dirname(bin_)

    # determinism proof on a sample: two fresh processes, same event-log hashes
    nh = "60" if tier == "quick" else "1500"
    def hashes():
        hp = [subprocess.Popen([bin_, "hashes", "--base", str(seed), "--runs", nh, "--cpu", str(CPUS[i % len(CPUS)])], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for i in range(2)]
        return [p.communicate()[0] for p in hp]

    h = hashes()
    if h[0] != h[1]:  # a machine stall may have cut one run: once more
        h = hashes()
    if h[0] != h[1]:
        x = [(p, q) for p, q in zip(h[0].splitlines(), h[1].splitlines()) if p != q][:3]
        die("simulation is not deterministic: %s" % x)

    outs, ps = [], []
    for w in range(nw):
        o = os.path.join(bdir, "out.%d" % w)
        outs.append(o)
        ps.append(subprocess.Popen([bin_, "batch", "--base", str(seed), "--start", str(w), "--stride", str(nw), "--seconds", str(seconds), "--out", o, "--cpu", str(CPUS[w % len(CPUS)])], stderr=subprocess.DEVNULL))
    for p in ps:
        if p.wait():
            die("worker failed with %s" % p.returncode)
    viol, summ, il = [], [], set()
    for o in outs:
        for l in open(o):
            j = json.loads(l)
            (summ if j.get("summary") else viol).append(j)
        b = open(o + ".il", "rb").read()
        il.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    viol.sort(key=lambda v: v["index"])

    kf = known(prop)
    known_hit, fresh, errors, stalled = {}, [], [], []
    for v in viol:
        if v["status"] == 4:
            errors.append(v)
            continue
        if v["status"] == 5:
            r, _ = one(bin_, v["seed"])
            if r["status"] == 1:  # this machine was stalled for 20 s: the run itself is fine
                stalled.append(v["msg"])
                print("note: seed %d took 20 s of wall time but passes alone (%s)" % (v["seed"], v["msg"]))
                continue
        k = next((k for k in kf if matches(k, v, bin_)), None)
        if k:
            known_hit[k["id"]] = known_hit.get(k["id"], 0) + 1
        else:
            fresh.append(v)

    def tot(f):
        return sum(s[f] for s in summ)

    def merge(f):
        r = {}
        for s in summ:
            for k, n in s[f].items():
                r[k] = r.get(k, 0) + n
        return dict(sorted(r.items()))

    samples = []
    sseed = sample_seeds(seed, 2)
    for s in sseed:
        r, out = one(bin_, s, True)
        tr = [l for l in out.splitlines() if not l.startswith("{")]
        samples.append({"seed": s, "scenario": r["scenario"], "params": r["params"][:40], "decisions": len(r["decisions"]), "faults": r["faults"], "steps": r["steps"], "hash": r["hash"],
                        "history": [l.strip() for l in tr if " | " in l or "FAULT" in l][:40]})
    wall_search = max(s["wall"] for s in summ)
    runs = tot("runs")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(il),
            "rule": "one evaluation = one simulated run = one seed (workload parameters, every scheduling decision, every fault drawn from it); two runs count as distinct when their sequences of (thread, synchronisation operation, object) differ; runs that end by exceeding MAXT threads are counted in aborted",
            "runs_per_hour": int(runs / max(wall_search, 1e-3) * 3600), "seeds_per_hour": int(runs / max(wall_search, 1e-3) * 3600),
            "scheduling_points": tot("steps"), "context_switches": tot("switches"), "instrumented_memory_accesses": tot("accesses"),
            "simulated_seconds": round(tot("simtime"), 3), "aborted": tot("aborted"),
            "scheduler_strategies": {"random_walk": sum(s["strat"][0] for s in summ), "pct_priorities": sum(s["strat"][1] for s in summ), "run_to_block_with_thread_stalls": sum(s["strat"][2] for s in summ)},
            "faults_injected": merge("faults"), "runs_with_fault": merge("fault_runs"), "probes": merge("probes"), "scenarios": merge("scenarios"),
            "real_components": d["real"] or ["all rpp headers used by the harness, libstdc++ threads/mutex/condvar/shared_ptr/exception code"],
            "stubbed_components": d["stub"] or ["kernel scheduler, futexes, clocks and sleeps (simulator)", "heap (simulator bump allocator)"],
            "determinism_sample": {"seeds": int(nh), "processes": 2, "identical": True},
            "samples": samples,
        },
        "assumptions": ["sequentially consistent interleaving of atomics; weaker orders are covered by the happens-before race detector only", "threads pre-empted at synchronisation operations and harness yields; code between them is race-checked"],
    }
    rc = 0
    for k in kf:
        rep = os.path.join(V, k["replay"]) if k.get("replay") else None
        still = k["id"] in known_hit
        if not still and rep and os.path.exists(rep):
            r, _ = replay(bin_, rep)
            still = r["status"] == 2 and matches(k, r, bin_)
        if still:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ev["coverage"]["known_findings_hit"] = known_hit
    ev["coverage"]["machine_stalls"] = len(stalled)
    if errors and not fresh:
        die("%d runs ended without a verdict: %s" % (len(errors), errors[0]["cls"]))
    if fresh:
        done, tries = set(), {}
        reported = False
        for v in fresh:
            key = v["cls"]
            if key in done or len(done) >= 3 or tries.get(key, 0) >= 4:
                continue
            tries[key] = tries.get(key, 0) + 1
            # gate 1: same seed, fresh process, identical hash
            r1, _ = one(bin_, v["seed"])
            if r1["hash"] != v["hash"] or r1["cls"] != v["cls"]:
                print("GATE: seed %d does not reproduce (%s/%s vs %s/%s)" % (v["seed"], v["cls"], v["hash"], r1["cls"], r1["hash"]))
                continue
            rdir = os.path.join(V, "replays", prop)
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s-%s-%d.replay" % (v["scenario"], re.sub(r"\W+", "_", v["cls"]), v["seed"]))
            p = sh([bin_, "minimize", "--seed", str(v["seed"]), "--out", rp, "--seconds", "15" if tier == "quick" else "60"])
            m = jline(p.stdout) or {"error": "minimiser died"}
            if m.get("error"):
                print("note: seed %d not minimised (%s)" % (v["seed"], m["error"]))
                if tries[key] < 4 and any(x["cls"] == key and x["seed"] != v["seed"] for x in fresh[fresh.index(v) + 1:]):
                    continue
                # the whole seed is the replay: everything is drawn from it again
                with open(rp, "w") as f:
                    f.write("seed %d\n" % v["seed"])
                m = {"hash": r1["hash"], "orig_decisions": len(r1["decisions"]), "decisions": len(r1["decisions"])}
            r2, _ = replay(bin_, rp)
            r3, _ = replay(bin_, rp)
            if r2["hash"] != r3["hash"] or r2["cls"] != v["cls"] or r2["hash"] != m["hash"]:
                print("GATE: minimised replay is not stable")
                continue
            k = next((k for k in kf if matches(k, r2, bin_)), None)
            if k:
                continue
            txt = open(rp).read()
            with open(rp, "w") as f:
                f.write("# property %s\n# scenario %s class %s\n# %s\n" % (prop, r2["scenario"], r2["cls"], r2["msg"].replace("\n", "\n# ")))
                for l in describe(bin_, r2):
                    f.write("# " + l + "\n")
                f.write(txt)
            print("seed %d scenario %s class %s: %s" % (v["seed"], r2["scenario"], r2["cls"], r2["msg"]))
            print("  decisions %d -> %d" % (m["orig_decisions"], m["decisions"]))
            for l in describe(bin_, r2):
                print("  " + l)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            reported = True
            done.add(key)
            rc = 1
        if not reported:
            die("violations were seen but none passed the reproduction gate")
    ev["violations"] = 0 if rc == 0 else len(fresh)
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["coverage"]["build_s"] = round(tb - t0, 2)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs, %d distinct interleavings, %.0f runs/s, %.1f simulated s, %d wall s: %s" % (prop, runs, len(il), runs / wall_search, tot("simtime"), time.time() - t0, "VIOLATED" if rc else "held"))
    if os.environ.get("SIM_VERBOSE"):
        print(json.dumps({k: ev["coverage"][k] for k in ("faults_injected", "probes", "scenarios")}, indent=1))
    return rc


def sample_seeds(base, n):
    M = (1 << 64) - 1

    def mixer(st):
        st = (st + 0x9E3779B97F4A7C15) & M
        z = st
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M
        return st, z ^ (z >> 31)

    r = []
    for i in range(n):
        st = (base * 0x2545F4914F6CDD1D + i * 0x9E3779B97F4A7C15) & M
        st, _ = mixer(st)
        st, z = mixer(st)
        r.append(z | 1)
    return r


if __name__ == "__main__":
    sys.exit(main())
