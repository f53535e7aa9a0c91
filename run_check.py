#!/usr/bin/env python3
"""Build the simulator of one property from /repo's working tree, search, and report.

  run_check.py P01 [--tier quick|thorough] [--seconds N] [--keep]
exit 0: the property held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: the check itself failed (build error, nondeterminism, unreproducible report).
"""
import argparse, collections, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import checks  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(HERE, "build", "obj") if not os.environ.get("VERIF_DEV") else "/tmp/b/obj"
NW = max(2, min(8, os.cpu_count() or 2))
CXX = ["g++", "-std=c++14", "-g1", "-O1", "-DNDEBUG", "-fno-omit-frame-pointer", "-w"]


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def headers():
    """Names of everything an include of ours can resolve to (a new file may shadow another)."""
    out = []
    for r in (os.path.join(HERE, "sim"), REPO + "/include", REPO + "/src"):
        for d, _, fs in os.walk(r):
            out += [os.path.join(d, f) for f in fs if f.endswith((".hpp", ".hxx", ".h", ".hh", ".cxx", ".cpp"))]
    return hashlib.sha256("\n".join(sorted(out)).encode()).hexdigest()


HASHES = {}


def digest(f):
    if f not in HASHES:
        try:
            HASHES[f] = hashlib.sha256(open(f, "rb").read()).hexdigest()
        except OSError:
            HASHES[f] = None
    return HASHES[f]


def jobs_of(c):
    """(command, object, label) of every object of a check. The object's name is the hash of its command; it is
    reused only while the content of every file it was compiled from (system headers included) is unchanged."""
    san = c.get("sanitize", "address")
    flags = CXX + ["-I%s/include" % REPO, "-I%s/src" % REPO, "-I/usr/include/hdf5/serial", "-DWITH_HDF5", "-DWITH_BOOST"] + c.get("flags", [])
    if san:
        flags.append("-fsanitize=" + san)
    jobs = []
    for s, defs in [(s, c.get("file_flags", {}).get(s, [])) for s in c["sources"]] + c.get("variants", []):
        src = os.path.join(HERE, "sim", s) if not s.startswith("@") else s.replace("@", REPO + "/")
        cmd = flags + defs + ["-c", src]
        obj = os.path.join(CACHE, hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:24] + ".o")
        jobs.append((cmd, obj, " ".join([s] + defs)))
    return jobs


def fresh(obj, names):
    try:
        m = json.load(open(obj + ".json"))
    except (OSError, ValueError):
        return False
    return m["names"] == names and digest(obj) == m["self"] and all(digest(f) == h for f, h in m["deps"])


def compile_all(jobs):
    os.makedirs(CACHE, exist_ok=True)
    names = headers()
    todo = [j for j in jobs if not fresh(j[1], names)]
    run, i = [], 0
    while i < len(todo) or run:
        while i < len(todo) and len(run) < NW:
            cmd, obj, label = todo[i]
            log = open(obj + ".log", "w")
            run.append((subprocess.Popen(cmd + ["-MD", "-MF", obj + ".d", "-o", obj], stdout=log, stderr=subprocess.STDOUT, cwd=HERE), todo[i], time.time()))
            i += 1
        for r in list(run):
            if r[0].poll() is not None:
                run.remove(r)
                cmd, obj, label = r[1]
                if os.environ.get("VERIF_VERBOSE"):
                    print("compiled %s in %.1fs" % (label, time.time() - r[2]), flush=True)
                if r[0].returncode:
                    for q in run:
                        q[0].kill()
                    print(open(obj + ".log").read()[-6000:])
                    die("cannot compile %s" % label)
                HASHES.pop(obj, None)
                deps = sorted(set(x for x in open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()))
                json.dump({"names": names, "self": digest(obj), "deps": [(f, digest(f)) for f in deps]}, open(obj + ".json", "w"))
        time.sleep(0.02)
    return len(todo)


def build(c, bdir):
    san = c.get("sanitize", "address")
    jobs = jobs_of(c)
    n = compile_all(jobs)
    print("compiled %d of %d objects" % (n, len(jobs)), flush=True)
    exe = os.path.join(bdir, "sim-run")
    cmd = ["g++"] + (["-fsanitize=" + san] if san else []) + [j[1] for j in jobs] + ["-o", exe, "-Wl,--wrap=malloc,--wrap=free"]
    cmd += ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial"] + (["-lhdf5"] if c.get("hdf5") else []) + ["-lpthread", "-ldl"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HERE)
    if r.returncode:
        print(r.stdout[-6000:])
        die("cannot link")
    return exe


def replay(exe, pid, path):
    r = subprocess.run([exe, "replay", "--prop", pid, "--file", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300)
    m = re.search(r"\{.*\}", r.stdout)
    return json.loads(m.group(0)) if m else None


def load_known():
    k = collections.defaultdict(list)
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", l.strip())
        if m:
            k[m[1]].append((m[2], m[3]))
    return k


def survey(exe, pid, seed, secs, bdir, tier, known):
    ps = []
    for w in range(NW):
        out = os.path.join(bdir, "out%d.json" % w)
        if os.path.exists(out):
            os.remove(out)
        ps.append(subprocess.Popen([exe, "explore", "--prop", pid, "--seed", str(seed), "--worker", str(w), "--workers", str(NW), "--runs", "1000000000",
                                    "--budget", str(secs), "--out", out, "--replaydir", bdir, "--known", ",".join(k[0] for k in known), "--tier", tier, "--keepgoing", "1"],
                                   stdout=subprocess.DEVNULL, stderr=open(os.path.join(bdir, "err%d.txt" % w), "w"), cwd=bdir))
    for p in ps:
        p.wait()
    t, ex, cn, R, D, I = collections.Counter(), collections.defaultdict(list), collections.Counter(), 0, 0, 0
    for w in range(NW):
        L = open(os.path.join(bdir, "err%d.txt" % w)).read().split("\n")
        for i, l in enumerate(L):
            m = re.match(r"TOTAL (.*) (\d+)$", l)
            if m:
                t[m[1]] += int(m[2])
            m = re.match(r"run (\d+) \[(.*?)\] (.*)", l)
            if m:
                ex[m[2]].append((int(m[1]), m[3][:400], (L[i + 1] if i + 1 < len(L) else "")[:600]))
            elif l and not l.startswith(("TOTAL", "   case")):
                print(l[:300])
        d = json.load(open(os.path.join(bdir, "out%d.json" % w)))
        R += d["runs"]
        D += d["distinct_nontrivial"]
        I += len(d["interleavings"])
        cn.update(d["counters"])
    print("runs", R, "nontrivial", D, "interleavings", I)
    print(json.dumps(dict(sorted(cn.items()))))
    for k, v in t.most_common():
        print(v, k)
        for x in sorted(ex.get(k, []), key=lambda x: len(x[2]))[:2]:
            print("     ", x)
    sys.exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="compile the objects of every check (an optimisation: a check compiles what is missing or out of date)")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--survey", action="store_true", help="development: list every violation signature instead of stopping")
    ap.add_argument("--replay", help="only build and replay this file")
    a = ap.parse_args()
    if a.setup:
        jobs = {j[1]: j for c in checks.CHECKS.values() for j in jobs_of(c)}
        print("compiled %d of %d objects" % (compile_all(list(jobs.values())), len(jobs)))
        return
    pid, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = checks.CHECKS[pid]
    t0 = time.time()
    bdir = os.path.join(HERE, "build", pid)
    if os.environ.get("VERIF_DEV"):
        bdir = "/tmp/b/dev"
    else:
        shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir, exist_ok=True)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    exe = build(c, bdir)
    tb = time.time() - t0
    if a.replay:
        r = subprocess.run([exe, "replay", "--prop", pid, "--verbose", "1", "--file", a.replay])
        sys.exit(r.returncode)
    secs = a.seconds or (c.get("quick_s", 30) if tier == "quick" else c.get("thorough_s", 900))
    known = load_known().get(pid, [])
    if a.survey:
        survey(exe, pid, seed, secs, bdir, tier, known)
    procs = []
    for w in range(NW):
        out = os.path.join(bdir, "out%d.json" % w)
        procs.append((subprocess.Popen([exe, "explore", "--prop", pid, "--seed", str(seed), "--worker", str(w), "--workers", str(NW), "--runs", "1000000000",
                      "--budget", str(secs), "--out", out, "--replaydir", bdir, "--known", ",".join(k[0] for k in known), "--tier", tier],
                      stdout=subprocess.DEVNULL, stderr=open(os.path.join(bdir, "err%d.txt" % w), "w"), cwd=bdir), out, w))
    for p, _, _ in procs:
        p.wait()
    tot = collections.Counter()
    cn, kn = collections.Counter(), collections.Counter()
    traces, inter, samples, vios, nondet, broken = set(), set(), [], [], [], 0
    simns = 0
    for p, out, w in procs:
        if not os.path.exists(out):
            print(open(os.path.join(bdir, "err%d.txt" % w)).read()[-3000:])
            die("worker %d gave no result (exit %s)" % (w, p.returncode))
        d = json.load(open(out))
        tot["runs"] += d["runs"]
        simns += d["sim_ns"]
        broken += d["broken"]
        cn.update(d["counters"])
        kn.update(d["known"])
        traces.update(d["trace_hashes"])
        inter.update(d["interleavings"])
        samples += d["samples"][:1] if w else d["samples"][:3]
        if d["violation"] == "NONDET":
            nondet.append(w)
        elif d["violation"]:
            vios.append(d["violation"])
    search_s = time.time() - t0 - tb
    # determinism sample: the same runs again, in other processes, spread over another number of workers
    det = 0
    if not vios and not nondet:
        n = c.get("det_runs", 48)
        def hashes(W):
            ps = [subprocess.Popen([exe, "hashes", "--prop", pid, "--seed", str(seed), "--worker", str(w), "--workers", str(W), "--runs", str(n), "--tier", tier],
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for w in range(W)]
            return sorted(l for p in ps for l in p.communicate()[0].split("\n") if l)
        h1, h2 = hashes(NW), hashes(3)
        det = len(h1)
        if h1 != h2:
            print("\n".join(sorted(set(h1) ^ set(h2))[:10]))
            die("the simulation of %s is not deterministic" % pid)
    final = []
    for v in vios:
        meta = json.load(open(v))
        r1, r2 = replay(exe, pid, v), replay(exe, pid, v)
        good = r1 and r1 == r2 and r1["status"] == 2 and r1["signature"] == meta["signature"] and r1["hash"] == meta["hash"]
        if good:
            final.append((len(meta["tape"]), meta["signature"], v, meta))
        else:
            print("not reproduced in a fresh process: %s %s vs %s" % (v, meta["signature"], r1))
    final.sort(key=lambda x: x[:3])
    faults = {k[6:]: v for k, v in cn.items() if k.startswith("fault.")}
    probes = {k: v for k, v in cn.items() if not k.startswith("fault.")}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": tot["runs"], "distinct_nontrivial": len(traces), "rule": c["rule"], "samples": samples[:8],
                       "runs_per_hour": int(tot["runs"] / max(search_s, 1e-3) * 3600), "seeds": "every run has a seed of its own, derived from VERIF_SEED, the property and the run number",
                       "simulated_time_s": simns / 1e9, "faults_fired": faults, "probes": probes,
                       "distinct_interleavings": len(inter), "interleaving_measure": c.get("measure", "distinct event-trace hashes of non-trivial runs"),
                       "real_components": c["real"], "stub_components": c["stub"],
                       "determinism_sample_runs": det, "build_s": round(tb, 1), "search_s": round(search_s, 1), "workers": NW,
                       "known_findings_hit": dict(kn), "broken_runs": broken},
          "assumptions": c["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": []}
    for n, sig, v, meta in final:
        dst = os.path.join(rdir, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", sig)[:80]))
        shutil.copy(v, dst)
        ev["violations"].append({"signature": sig, "message": meta["message"], "replay": dst, "case": meta["case"], "choices": n})
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: built in %.0fs; %d runs (%d distinct non-trivial) in %.0fs; %d fault kinds fired %d times; simulated %.1fs; determinism sample %d"
          % (pid, tier, tb, tot["runs"], len(traces), search_s, len(faults), sum(faults.values()), simns / 1e9, det), flush=True)
    for sig, txt in known:
        print("KNOWN-FINDING: property=%s %s (signature %s, seen %d times in this run)" % (pid, txt, sig, kn.get(sig, 0)))
    if ev["violations"]:
        v = ev["violations"][0]
        for x in ev["violations"][:4]:
            print("violated: [%s] %s\n  case: %s" % (x["signature"], x["message"], x["case"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]), flush=True)
        sys.exit(1)
    if nondet or vios:
        for w in range(NW):
            print(open(os.path.join(bdir, "err%d.txt" % w)).read()[-800:])
        die("a violation could not be reproduced")
    if broken:
        print("note: %d runs were killed from outside and gave no verdict" % broken)
        if broken * 20 > tot["runs"]:
            die("too many runs without a verdict")
    if len(traces) < 10:
        die("the search reached almost nothing")
    sys.exit(0)


main()
