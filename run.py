#!/usr/bin/env python3
"""Runs one property's checks: builds the harnesses from /repo's working tree, runs the
generated-case workers in parallel, merges the evidence, reports violations.

usage: run.py ID [--tier quick|thorough] [--seed N] | run.py replay FILE | run.py build ID
"""
import sys, os, json, subprocess, hashlib, time, shutil, signal, tempfile, threading, re
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from specs import SPECS, BASE_FLAGS
NCPU = max(2, min(os.cpu_count() or 8, 8))
BUILD = os.path.join(HERE, "build")


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(HERE, "harness")):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def build_one(name, b, th, log):
    cc = b.get("cxx", "g++")
    srcs = [os.path.join(HERE, "harness", s) for s in b["src"]]
    flags = b.get("base", BASE_FLAGS) + b.get("flags", [])
    libs = b.get("libs", [])
    inc = ["-I" + os.path.join(REPO, b.get("include", "src/include")), "-I" + os.path.join(HERE, "harness")]
    dist = None
    if b.get("dist"):           # the single header that distribute.sh makes of the sources
        dist = tempfile.mkdtemp(prefix="fnlv-dist-", dir="/tmp")
        inc[0] = "-I" + os.path.join(dist, "dist/include/fn-log")
        th += open(os.path.join(REPO, "distribute.sh")).read()
    key = hashlib.sha256((th + cc + repr(srcs) + repr(flags) + repr(libs) + repr(inc[1:] if dist else inc) + repr(b.get("parts"))).encode()).hexdigest()[:20]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s" % (name, key))
    if os.path.exists(out):
        if dist: shutil.rmtree(dist)
        return out
    try:
        if dist: make_dist(dist)
        compile_one(name, b, cc, srcs, flags, libs, inc, out)
    finally:
        if dist: shutil.rmtree(dist)
    return out


def make_dist(d):               # distribute.sh works on a copy
    for n in ("src", "dist"): shutil.copytree(os.path.join(REPO, n), os.path.join(d, n))
    for n in ("README.md", "LICENSE", "distribute.sh"): shutil.copy(os.path.join(REPO, n), d)
    subprocess.run(["bash", os.path.join(d, "distribute.sh")], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, GIT_CEILING_DIRECTORIES="/tmp"))


def compile_one(name, b, cc, srcs, flags, libs, inc, out):
    tmp = out + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    cmds = []
    if b.get("parts"):          # separately compiled parts: [(src, flags)], linked with flags
        objs = []
        for s, fl in b["parts"]:
            o = tmp + "." + s.replace("/", "_") + ".o"
            cmds.append([cc] + BASE_FLAGS + fl + inc + ["-c", os.path.join(HERE, "harness", s), "-o", o])
            objs.append(o)
        cmds.append([cc] + objs + b.get("link", []) + ["-o", tmp] + libs + ["-pthread", "-ldl"])
    else:
        objs = []
        cmds.append([cc] + flags + inc + srcs + ["-o", tmp] + libs + ["-pthread", "-ldl"])
    for c in cmds:
        p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise RuntimeError("build of %s failed:\n%s\n%s" % (name, " ".join(c), p.stdout.decode(errors="replace")[-6000:]))
    os.rename(tmp, out)
    for o in objs:
        os.unlink(o)


def build_all(builds, decide=(), failed=None):
    th = tree_hash(); res = {}; errs = []; lock = threading.Lock(); todo = list(builds.items())
    def work():
        while True:
            with lock:
                if not todo: return
                n, b = todo.pop(0)
            try:
                p = build_one(n, b, th, None)
                with lock: res[n] = p
            except Exception as e:
                with lock:
                    if n in decide and failed is not None: failed[n] = str(e)
                    else: errs.append(str(e))
    ts = [threading.Thread(target=work) for _ in range(NCPU)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if failed and not any(n in res for n in decide): errs += failed.values()
    if errs:
        print("\n".join(errs)); sys.exit(2)
    return res


def scratch_dir(tag):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    d = tempfile.mkdtemp(prefix="fnlv-%s-" % tag, dir=base); os.chmod(d, 0o711)   # cases run as an unprivileged user below it
    return d


def env_for(b, scratch, bins={}):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=98"
    e["TZ"] = "UTC"; e["LC_ALL"] = "C"
    e.update(b.get("env", {}))
    if b.get("bins"):           # other builds of the same check, started by the harness
        e["VERIF_BINS"] = ";".join("%s=%s" % (n, same_name(bins[n])) for n in b["bins"] if n in bins)
    return e


def same_name(path):            # a link whose file name does not tell the build
    d = path + ".d"; os.makedirs(d, exist_ok=True); l = os.path.join(d, "worker")
    if not os.path.exists(l):
        try: os.link(path, l)
        except FileExistsError: pass
    return l


def run_check(pid, tier, seed):
    spec = SPECS[pid]; t0 = time.time()
    builds = {n: b for n, b in spec["builds"].items() if tier == "thorough" or not b.get("thorough_only")}
    failed = {}; bins = build_all(builds, spec.get("builds_decide", ()), failed)
    tb = time.time() - t0
    scratch = scratch_dir(pid)
    replay_dir = os.path.join(HERE, "replays"); os.makedirs(replay_dir, exist_ok=True)
    jobs = []
    cap = float(os.environ.get("VERIF_TIME_SCALE", "1"))
    for ri, r in enumerate(spec["runs"]):
        if r["build"] not in bins: continue
        q = r.get(tier) or r.get("quick")
        salt = sum(1 for x in spec["runs"][:ri] if x["prop"] == r["prop"])   # another build of the same check: other cases
        cases, secs = q
        shards = r.get("shards", NCPU)
        for w in range(shards):
            jobs.append((ri, dict(r, seed=seed + 1000003 * salt), w, shards, (cases + shards - 1) // shards, secs * cap))
    results = []; errors = []; lock = threading.Lock(); stop = threading.Event(); procs = set()
    def work(slot):
        while not stop.is_set():
            with lock:
                if not jobs: return
                ri, r, w, shards, n, secs = jobs.pop(0)
            sd = os.path.join(scratch, "w%d" % slot); os.makedirs(sd, exist_ok=True)
            out = os.path.join(scratch, "out-%d-%d.json" % (ri, w))
            cmd = [bins[r["build"]], "run", "--prop", r["prop"], "--seed", str(r["seed"]), "--start", str(w), "--stride", str(shards),
                   "--cases", str(n), "--time", str(secs), "--out", out, "--replay-dir", replay_dir, "--scratch", sd,
                   "--tag", pid, "--build", r["build"], "--shrink-ms", str(r.get("shrink_ms", 30000))]
            cmd += r.get("args", [])
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_for(spec["builds"][r["build"]], sd, bins), start_new_session=True)
            with lock: procs.add(p)
            so, se = p.communicate()
            with lock:
                procs.discard(p)
                if stop.is_set() and p.returncode not in (0, 1): return
                if p.returncode not in (0, 1) or not os.path.exists(out):
                    errors.append("worker %s/%s exit %s\n%s" % (r["build"], r["prop"], p.returncode, (so + se).decode(errors="replace")[-3000:])); stop.set(); return
                j = json.load(open(out)); j["build"] = r["build"]; results.append(j)
                if j["violated"]:
                    stop.set()
                    for q in list(procs):
                        try: os.killpg(q.pid, signal.SIGTERM)
                        except OSError: pass
    ts = [threading.Thread(target=work, args=(i,)) for i in range(spec.get("parallel", NCPU))]
    def cleanup(*_):
        stop.set()
        for q in list(procs):
            try: os.killpg(q.pid, signal.SIGKILL)
            except OSError: pass
        shutil.rmtree(scratch, ignore_errors=True)
    def on_term(*_):
        cleanup(); os._exit(3)
    signal.signal(signal.SIGTERM, on_term); signal.signal(signal.SIGINT, on_term)
    [t.start() for t in ts]; [t.join() for t in ts]
    vio = [j for j in results if j["violated"]]
    findings = []
    # merge evidence
    ev = sum(j["evals"] for j in results); dist = set(); labels = {}; per = {}; samples = []; unrepro = 0; umsgs = []
    for j in results:
        k = j["build"] + "/" + j["prop"]
        pp = per.setdefault(k, {"evaluations": 0, "nontrivial": 0, "discarded": 0, "labels": {}})
        pp["evaluations"] += j["evals"]; pp["nontrivial"] += j["nontrivial"]; pp["discarded"] += j["discarded"]
        for l, n in j["labels"].items(): pp["labels"][l] = pp["labels"].get(l, 0) + n
        for h in j["hashes"]: dist.add((j["prop"], h))
        unrepro += j["unreproduced"]; umsgs += j["unreproduced_msgs"][:3]
        if j["samples"] and sum(1 for s in samples if s["prop"] == k) < 2:
            samples.append({"prop": k, "case": j["samples"][0][:1200]})
    coverage = {"evaluations": ev, "distinct_nontrivial": len(dist), "rule": spec["rule"], "samples": samples[:12], "per_run": per,
                "unreproduced_failures": unrepro, "build_seconds": round(tb, 1)}
    if umsgs: coverage["unreproduced_messages"] = umsgs[:6]
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": coverage,
                "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(vio) + len(failed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp%d" % (pid, os.getpid()))
    json.dump(evidence, open(tmp, "w"), indent=1); os.rename(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    shutil.rmtree(scratch, ignore_errors=True)
    for p in glob_shm(pid): pass
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)%s" % (pid, tier, seed, ev, len(dist), time.time() - t0, tb, ", %d unreproduced" % unrepro if unrepro else ""))
    for k, pp in sorted(per.items()):
        print("  %-40s %8d cases %8d nontrivial  %s" % (k, pp["evaluations"], pp["nontrivial"], " ".join("%s=%d" % (l, n) for l, n in sorted(pp["labels"].items()))[:600]))
    for m in umsgs[:5]: print("  NOTE unreproduced: " + m.replace("\n", " | ")[:300])
    for n, e in sorted(failed.items()):
        path = os.path.join(replay_dir, "%s-build-%s.txt" % (pid, n))
        with open(path, "w") as f: f.write("prop: build\nbuild: %s\n%s\n" % (n, e))
        print("violation: this build fails while others do not: %s" % e[:3000]); print("VIOLATION property=%s replay=%s" % (pid, path))
    if failed: return 1
    if vio:
        for j in vio:
            print("violation in %s/%s: %s" % (j["build"], j["prop"], j["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, j["replay"]))
        return 1
    if errors:
        print("\n".join(errors)); return 2
    return 0


def glob_shm(pid): return []


def replay(path):
    t = open(path).read()
    m = re.search(r"^build: (\S+)", t, re.M); pid = os.path.basename(path).split("-")[0]
    b = m.group(1); all_ = SPECS[pid]["builds"]
    if re.search(r"^prop: build$", t, re.M):
        try: build_one(b, all_[b], tree_hash(), None); print("PASS"); return 0
        except RuntimeError as e: print("FAIL %s" % e); return 1
    bins = build_all({n: all_[n] for n in [b] + list(all_[b].get("bins", []))})
    sd = scratch_dir("replay")
    try:
        return subprocess.run([bins[b], "replay", path, "--scratch", sd], env=env_for(SPECS[pid]["builds"][b], sd, bins)).returncode
    finally:
        shutil.rmtree(sd, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "replay": return replay(a[1])
    if a[0] == "build":
        ids = a[1:] or sorted(SPECS)
        allb = {}
        for i in ids:
            allb.update(SPECS[i]["builds"])
        build_all(allb, [n for i in ids for n in SPECS[i].get("builds_decide", ())], {}); return 0
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--seed": seed = int(a[i + 1]); i += 2
        else: print("unknown argument", a[i]); return 2
    if tier not in ("quick", "thorough"): tier = "quick"
    return run_check(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
