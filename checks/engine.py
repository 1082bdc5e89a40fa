import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
T0 = time.time()
HARD_DEADLINE = T0 + 840          # leave before anyone kills us
HANG_SECONDS = 10                 # all tasks asleep, and nothing at all happened, for this long
CPU_LIMIT = 150                   # CPU seconds spent in a single case (normal: under a few)

CONFIGS = {
    # the last toolchain which supports the trait detection trick on stable, as in the repository's own build
    "stable": dict(toolchain="1.81.0", features="", rustflags="", target=None),
    "nightly": dict(toolchain="nightly-2024-09-06", features="nightly", rustflags="", target=None),
    "asan": dict(toolchain="nightly-2024-09-06", features="nightly", rustflags="-Zsanitizer=address",
                 target="x86_64-unknown-linux-gnu"),
    # crossmist without some of its features, for generated programs
    "bare": dict(toolchain="1.81.0", features="", rustflags="", target=None, api=[], dir="stable"),
    "onlytokio": dict(toolchain="1.81.0", features="", rustflags="", target=None, api=["tokio"], dir="stable"),
    "onlysmol": dict(toolchain="1.81.0", features="", rustflags="", target=None, api=["smol"], dir="stable"),
}
def target_dir(cfg):
    return os.path.join(TARGET, CONFIGS[cfg].get("dir", cfg))

class HarnessError(Exception):
    pass

def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)

# ---------------------------------------------------------------------------------------------- build

def build_env(cfg):
    c = CONFIGS[cfg]
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTC", "RUSTFLAGS", "RUSTC_WRAPPER"):
            env.pop(k)
    env["RUSTUP_TOOLCHAIN"] = c["toolchain"]
    env["CARGO_TARGET_DIR"] = target_dir(cfg)
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTFLAGS"] = c["rustflags"]
    return env

def run_build(cmd, cwd, env):
    """Run cargo; again if it failed because the machine was short of something for a moment."""
    for attempt in range(4):
        left = HARD_DEADLINE - time.time() - 30
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=max(10, left))
        if p.returncode == 0 or not re.search(r"os error (11|12|24)|Resource temporarily unavailable|Cannot allocate memory|signal: (9|7)\b|LLVM ERROR: (out of memory|pthread)", p.stdout):
            break
        log("the build failed for lack of resources, trying again")
        time.sleep(5 + 10 * attempt)
    return p

def build(cfg, bins):
    """Build the given bins; returns {bin: path}."""
    c = CONFIGS[cfg]
    cmd = ["cargo", "build", "--offline", "--quiet"]
    for b in bins:
        cmd += ["--bin", b]
    if c["features"]:
        cmd += ["--features", c["features"]]
    if c["target"]:
        cmd += ["--target", c["target"]]
    t = time.time()
    try:
        p = run_build(cmd, HARNESS, build_env(cfg))
    except subprocess.TimeoutExpired:
        raise HarnessError("building the harness (%s) took too long" % cfg)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:] + "\n")
        raise HarnessError("building the harness (%s) failed" % cfg)
    log("built %s for %s in %.1f s" % (",".join(bins), cfg, time.time() - t))
    d = os.path.join(TARGET, cfg, c["target"] or "", "debug")
    return {b: os.path.join(d, b) for b in bins}

# ---------------------------------------------------------------------------------------------- processes

def session_tasks(sid):
    """[(pid, tid, state, switches, cpu)] of all tasks in a session."""
    out = []
    for e in os.listdir("/proc"):
        if not e.isdigit():
            continue
        try:
            with open("/proc/%s/stat" % e) as f:
                s = f.read()
            rest = s[s.rindex(")") + 2:].split()
            if int(rest[3]) != sid:
                continue
            for t in os.listdir("/proc/%s/task" % e):
                with open("/proc/%s/task/%s/stat" % (e, t)) as f:
                    s = f.read()
                r = s[s.rindex(")") + 2:].split()
                sw = []
                with open("/proc/%s/task/%s/status" % (e, t)) as f:
                    for line in f:
                        if "ctxt_switches" in line:
                            sw.append(int(line.split()[1]))
                out.append((int(e), int(t), r[0], tuple(sw), int(r[11]) + int(r[12]) + int(r[13]) + int(r[14])))
        except (FileNotFoundError, ProcessLookupError, ValueError):
            continue
    return out

def kill_session(sid):
    for _ in range(50):
        pids = {t[0] for t in session_tasks(sid) if t[2] != "Z"}
        if not pids:
            return
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
        time.sleep(0.02)

MIRROR_WORDS = 1 << 20

def read_mirror(path):
    import struct
    try:
        with open(path, "rb") as f:
            h = f.read(16)
            if len(h) < 16:
                return 0, []
            case, n = struct.unpack("<QQ", h)
            d = f.read(8 * n)
            return case, list(struct.unpack("<%dQ" % (len(d) // 8), d))
    except FileNotFoundError:
        return 0, []

def limits(asan):
    def f():
        import resource
        if not asan:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
        resource.setrlimit(resource.RLIMIT_NOFILE, (hard if hard != resource.RLIM_INFINITY and hard < 16384 else 16384, hard))
    return f

def monitored(cmd, cfg, work, tag, mirror, deadline, extra_env=None, stop=None):
    """Run a worker. Returns (kind, detail): kind in exit, signal, hang, livelock, timeout."""
    env = dict(os.environ)
    env["RUST_BACKTRACE"] = "0"
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0"
    if extra_env:
        env.update(extra_env)
    errf = os.path.join(work, tag + ".err")
    outf = os.path.join(work, tag + ".stdout")
    with open(errf, "wb") as ef, open(outf, "wb") as of:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=of, stderr=ef, start_new_session=True, env=env,
                             cwd=work, preexec_fn=limits(cfg == "asan"))
    sid = p.pid
    last_sig, since = None, time.time()
    case, case_cpu = None, 0
    next_poll = time.time() + 1
    stopped = None
    try:
        while True:
            try:
                rc = p.wait(timeout=0.05 if time.time() - T0 < 5 else 0.2)
                kill_session(sid)
                if rc < 0:
                    return "signal", -rc
                return "exit", rc
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            if now > deadline:
                return "timeout", None
            if stop is not None and stop.is_set():
                # Something was found elsewhere: little use in going on
                stopped = stopped or now
                if now - stopped > 5:
                    return "stopped", None
            if now < next_poll:
                continue
            next_poll = now + 1
            c = read_mirror_case(mirror)
            tasks = session_tasks(sid)
            cpu = sum(t[4] for t in tasks if t[0] == t[1]) / os.sysconf("SC_CLK_TCK")
            if c != case:
                case, case_cpu = c, cpu
            elif cpu - case_cpu > CPU_LIMIT:
                return "livelock", None
            sig = (c, tuple(sorted(tasks)))
            if sig != last_sig or any(t[2] not in "SZT" for t in tasks):
                last_sig, since = sig, now
            elif now - since >= HANG_SECONDS:
                return "hang", None
    finally:
        kill_session(sid)
        try:
            p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            pass

def read_mirror_case(path):
    import struct
    try:
        with open(path, "rb") as f:
            h = f.read(8)
            return struct.unpack("<Q", h)[0] if len(h) == 8 else 0
    except FileNotFoundError:
        return 0

# ---------------------------------------------------------------------------------------------- running

class Job:
    def __init__(self, bin, prop, cfg="stable", shards=8, quick=100, thorough=1000, args=()):
        self.bin, self.prop, self.cfg, self.shards = bin, prop, cfg, shards
        self.cases = dict(quick=quick, thorough=thorough)
        self.args = list(args)

def tail(path, n=800):
    try:
        with open(path, "rb") as f:
            return f.read()[-n:].decode(errors="replace")
    except FileNotFoundError:
        return ""

class Runner:
    def __init__(self, pid, tier, seed, scale):
        self.pid, self.tier, self.seed, self.scale = pid, tier, seed, scale
        self.work = tempfile.mkdtemp(prefix="vh-%s-" % pid)
        os.chmod(self.work, 0o755)
        self.stop = threading.Event()
        self.evals, self.nontrivial, self.labels, self.samples = 0, set(), {}, []
        self.failures, self.errors = [], []
        self.lock = threading.Lock()
        self.per_job = []

    def run_shard(self, job, exe, shard):
        if self.stop.is_set():
            return
        cases = max(1, int(job.cases[self.tier] * self.scale))
        tag = "%s-%s-%d" % (job.prop, job.cfg, shard)
        mirror = os.path.join(self.work, tag + ".mirror")
        out = os.path.join(self.work, tag + ".json")
        cmd = [exe, "run", job.prop, "--seed", str(self.seed), "--shard", str(shard), "--cases", str(cases), "--out", out,
               "--mirror", mirror, "--tier", self.tier] + job.args
        kind, detail = monitored(cmd, job.cfg, self.work, tag, mirror, HARD_DEADLINE, stop=self.stop)
        if self.stop.is_set() and kind != "exit":
            return
        res = None
        if kind == "exit" and detail in (0, 1, 3) and os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
        with self.lock:
            if res:
                self.evals += res["evaluations"]
                self.nontrivial |= {(job.prop, job.cfg, h) for h in res["nontrivial"]}
                for k, v in res["labels"].items():
                    self.labels[k] = self.labels.get(k, 0) + v
                self.samples += [s for s in res["samples"] if s]
                fl = res["failure"]
                if fl and fl["kind"] == "violation":
                    self.failures.append(dict(job=job, exe=exe, tape=fl["tape"], message=fl["message"], log=fl["log"], kind="violation",
                                              shard=shard, case=fl["case"]))
                    self.stop.set()
                elif fl:
                    self.errors.append("%s: %s" % (tag, fl["message"]))
                    self.stop.set()
            elif kind in ("signal", "hang", "livelock") and detail != signal.SIGKILL or (kind == "exit" and detail not in (0, 3)):
                case, tape = read_mirror(mirror)
                what = {"signal": "the process died of signal %s" % detail, "exit": "the process exited with code %s" % detail,
                        "hang": "deadlock: every thread and process of the case sleeps and nothing happens any more",
                        "livelock": "the case does not terminate (%d s of CPU time)" % CPU_LIMIT}[kind]
                self.failures.append(dict(job=job, exe=exe, tape=tape, message=what + ". " + tail(os.path.join(self.work, tag + ".err"), 300),
                                          log=[], kind=kind, shard=shard, case=case))
                self.stop.set()
            else:
                self.errors.append("%s: %s %s %s" % (tag, kind, detail, tail(os.path.join(self.work, tag + ".err"))))
                self.stop.set()

    _n = 0
    def replay(self, job, exe, tape, deadline):
        with self.lock:
            Runner._n += 1
            n = Runner._n
        tag = "replay%d" % n
        tp = os.path.join(self.work, tag + ".tape")
        with open(tp, "w") as f:
            f.write(" ".join(map(str, tape)))
        mirror = os.path.join(self.work, tag + ".mirror")
        cmd = [exe, "replay", job.prop, "--tape", tp, "--mirror", mirror, "--tier", self.tier] + job.args
        kind, detail = monitored(cmd, job.cfg, self.work, tag, mirror, deadline)
        r = dict(kind=kind, tape=list(tape), message="", log=[])
        if kind == "exit":
            try:
                o = json.loads(tail(os.path.join(self.work, tag + ".stdout"), 1 << 26).strip().split("\n")[-1])
                r.update(kind=o["result"], message=o["message"], log=o["log"], tape=o["tape"])
            except (ValueError, KeyError):
                r.update(kind="crash" if detail not in (0, 3) else "error", message="exited with code %s" % detail)
        elif kind == "signal":
            if detail == signal.SIGKILL:
                r["kind"] = "error"
            r["message"] = "the process died of signal %s. %s" % (detail, tail(os.path.join(self.work, tag + ".err"), 300))
            r["tape"] = read_mirror(mirror)[1] or list(tape)
        elif kind in ("hang", "livelock"):
            r["message"] = kind
            r["tape"] = read_mirror(mirror)[1] or list(tape)
        for x in (tp, mirror):
            if os.path.exists(x):
                os.unlink(x)
        return r

    BAD = ("violation", "signal", "crash", "hang", "livelock")

    def confirm_and_shrink(self, f):
        job, exe = f["job"], f["exe"]
        slow = f["kind"] in ("hang", "livelock")
        end = min(time.time() + (60 if self.tier == "quick" else 150), HARD_DEADLINE - 20)
        tries, hits, best = (3 if slow else 5), 0, None
        with ThreadPoolExecutor(4) as ex:
            rs = list(ex.map(lambda _: self.replay(job, exe, f["tape"], HARD_DEADLINE - 20), range(tries)))
        for r in rs:
            if r["kind"] in self.BAD:
                hits += 1
                best = best or r
        f["reproduced"] = "%d/%d" % (hits, tries)
        if not hits:
            return f
        if f["kind"] != "violation":
            f["message"] = best["message"] or f["message"]
        cur = best["tape"]
        f.update(message=best["message"] or f["message"], log=best["log"] or f["log"], tape=cur)
        if hits < tries:
            return f
        key = lambda t: (len(t), sum(min(x, 1 << 20) for x in t), t)
        def attempts(t):
            n = len(t)
            k = n // 2
            while k >= 1:
                for i in range(0, n - k + 1, max(1, k)):
                    yield t[:i] + t[i + k:]
                k //= 2
            k = n // 2
            while k >= 1:
                for i in range(0, n - k + 1, max(1, k)):
                    if any(t[i:i + k]):
                        yield t[:i] + [0] * k + t[i + k:]
                k //= 2
            for i in range(n):
                for v in (t[i] // 2, t[i] - 1):
                    if 0 <= v < t[i]:
                        yield t[:i] + [v] + t[i + 1:]
        steps = 0
        improved = True
        with ThreadPoolExecutor(8) as ex:
            while improved and time.time() < end:
                improved = False
                batch = []
                gen = attempts(cur)
                done = False
                while not done and time.time() < end:
                    batch = []
                    for t in gen:
                        if key(t) < key(cur):
                            batch.append(t)
                        if len(batch) == 8:
                            break
                    if not batch:
                        break
                    rs = list(ex.map(lambda t: self.replay(job, exe, t, min(end + 15, HARD_DEADLINE - 10)), batch))
                    steps += len(batch)
                    good = [r for r in rs if r["kind"] in self.BAD and key(r["tape"]) < key(cur)]
                    if good:
                        r = min(good, key=lambda r: key(r["tape"]))
                        cur = r["tape"]
                        f.update(message=r["message"], log=r["log"] or f["log"], tape=cur)
                        improved = True
                        done = True
        f["shrink_steps"] = steps
        return f

    def run(self, jobs):
        exes = {}
        need = {}
        for j in jobs:
            need.setdefault(j.cfg, set()).add(j.bin)
        with ThreadPoolExecutor(4) as ex:
            fs = {cfg: ex.submit(build, cfg, sorted(bins)) for cfg, bins in need.items()}
            for cfg, f in fs.items():
                exes[cfg] = f.result()
        items = []
        for j in jobs:
            for s in range(j.shards):
                items.append((j, exes[j.cfg][j.bin], s))
        with ThreadPoolExecutor(8) as ex:
            for fut in [ex.submit(self.run_shard, *i) for i in items]:
                fut.result()

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

# ---------------------------------------------------------------------------------------------- findings, evidence

def findings(pid):
    """Open findings: lines 'finding: property=<id> signature=<regex> :: <what fails>'."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) signature=(.*?) :: (.*)", line)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out

def write_evidence(pid, tier, seed, level, coverage, assumptions, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage, assumptions=assumptions,
              wall_s=round(time.time() - T0, 1), violations=violations)
    tmp = os.path.join(d, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(d, pid + ".json"))

def save_replay(pid, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    return p

def opt(args, name, default=None):
    return args[args.index(name) + 1] if name in args else default

def main(args):
    import plan
    pid = args[0]
    if pid not in plan.PLAN:
        print("unknown property", pid)
        return 2
    entry = plan.PLAN[pid]
    tier = opt(args, "--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(opt(args, "--seed") or os.environ.get("VERIF_SEED") or "1")
    scale = float(opt(args, "--scale") or "1")
    try:
        if "--replay" in args:
            return do_replay(pid, entry, opt(args, "--replay"), tier)
        if "custom" in entry:
            import importlib
            m = importlib.import_module(entry["custom"])
            cov, viol, err = m.run(pid, entry, tier, seed, scale)
        else:
            cov, viol, err = run_jobs(pid, entry, tier, seed, scale)
    except HarnessError as e:
        print("ERROR:", e)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        print("ERROR: the check failed")
        return 2
    known, fresh = [], []
    for v in viol:
        hit = [d for sig, d in findings(pid) if sig.search(v["message"])]
        (known if hit else fresh).append((v, hit))
    write_evidence(pid, tier, seed, entry["level"], cov, entry["assumptions"], len(viol))
    for _, d in findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    for v, _ in fresh[:1]:
        print(v["message"])
        for l in v.get("log", [])[-40:]:
            print("   ", l)
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        return 1
    if err:
        print("ERROR:", "; ".join(err)[:4000])
        return 2
    log("held: %d cases, %d distinct non-trivial" % (cov["evaluations"], cov["distinct_nontrivial"]))
    return 0

def run_jobs(pid, entry, tier, seed, scale):
    r = Runner(pid, tier, seed, scale)
    try:
        jobs = [j for j in entry["jobs"] if j.cases[tier] > 0]
        r.run(jobs)
        viol = []
        for f in r.failures[:1]:
            log("failure in %s/%s case %s.%s: %s" % (f["job"].prop, f["job"].cfg, f["shard"], f["case"], f["message"][:500]))
            if f["kind"] in ("hang", "livelock", "signal", "exit"):
                f2 = r.confirm_and_shrink(f)
                if f2["reproduced"].startswith("0/"):
                    # not seen again: no answer rather than an alarm for hangs; a crash is a fact
                    if f["kind"] in ("hang", "livelock"):
                        r.errors.append("a %s was not reproduced" % f["kind"])
                        continue
            else:
                f2 = r.confirm_and_shrink(f)
            p = save_replay(pid, dict(property=pid, bin=f2["job"].bin, config=f2["job"].cfg, prop=f2["job"].prop, args=f2["job"].args,
                                      tape=f2["tape"], message=f2["message"], log=f2["log"], reproduced=f2["reproduced"],
                                      found=dict(seed=seed, shard=f["shard"], case=f["case"], tier=tier)))
            log("reproduced %s, shrunk to %d choices in %d steps" % (f2["reproduced"], len(f2["tape"]), f2.get("shrink_steps", 0)))
            viol.append(dict(message=f2["message"], log=f2["log"], replay=p))
        order = sorted(r.samples, key=lambda s: hashlib.sha256(s.encode()).hexdigest())
        cov = dict(evaluations=r.evals, distinct_nontrivial=len(r.nontrivial), rule=entry["rule"], samples=order[:6] or ["(none)"],
                   classes=dict(sorted(r.labels.items())),
                   jobs=["%s/%s: %d shards x %d cases" % (j.prop, j.cfg, j.shards, max(1, int(j.cases[tier] * scale))) for j in jobs])
        return cov, viol, r.errors
    finally:
        r.cleanup()

def do_replay(pid, entry, path, tier):
    with open(path) as f:
        d = json.load(f)
    if "custom" in entry and ("program" in d or "tape" not in d):
        import importlib
        return importlib.import_module(entry["custom"]).replay(pid, d)
    exe = build(d["config"], [d["bin"]])[d["bin"]]
    r = Runner(pid, d.get("found", {}).get("tier", tier), 0, 1)
    try:
        job = Job(d["bin"], d["prop"], d["config"], args=d["args"])
        res = r.replay(job, exe, d["tape"], HARD_DEADLINE)
        for l in res["log"]:
            print("   ", l)
        print(res["kind"], res["message"])
        if res["kind"] in Runner.BAD:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0 if res["kind"] == "held" else 2
    finally:
        r.cleanup()
