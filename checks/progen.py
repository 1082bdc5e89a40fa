"""Checks which generate programs: each round writes a scratch crate of several programs (with path dependencies on the
harness, and thereby on /repo), builds it, and runs its programs as workers of the property. A program which does not compile
is a violation, because the generator only writes definitions the property promises to support."""
import json, os, random, re, shutil, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
import engine
from engine import Job, Runner, HarnessError, log, TARGET, HARNESS, CONFIGS, build_env, save_replay, target_dir

CARGO = '''[package]
name = "%(name)s"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[features]
default = []
nightly = ["vh/nightly", "crossmist/nightly"]

[dependencies]
vh = { path = "%(harness)s", default-features = false, features = %(api)s }
crossmist = { path = "/repo", features = %(api)s }
libc = "0.2.158"
%(deps)s
[profile.dev]
opt-level = 1
debug = 0
incremental = false
overflow-checks = true
debug-assertions = true

[profile.dev.package.%(name)s]
opt-level = 0
'''

class LibFails(HarnessError):
    """The library crate with the checks' own functions and types does not compile, though crossmist does."""

def lib_error(out):
    """Whether it is something written by the macros that does not compile -> the first such error."""
    for e in re.split(r"\n(?=error)", out):
        if re.search(r"in the (attribute|derive) macro `", e):
            return e.split("\n")[0]
    return None

# without a feature, what the macros write must do without the library, too
DEPS = dict(tokio='tokio = { version = "1", features = ["rt", "macros", "net", "time", "fs", "sync"] }\n', smol='smol = "2"\n')

def api(cfg):
    """The asynchronous features of crossmist in the configuration."""
    return list(CONFIGS[cfg].get("api", ["tokio", "smol"]))

class Crate:
    """A scratch crate. `programs`: {bin: source}."""
    def __init__(self, name, cfg, programs):
        feats = api(cfg)
        if "api" in CONFIGS[cfg]:
            name += "_" + cfg
        self.name, self.cfg, self.programs = name, cfg, programs
        self.dir = os.path.join(TARGET, "gen", "%s-%s" % (name, cfg))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, "src", "bin"))
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write(CARGO % dict(name=name, harness=HARNESS, api=json.dumps(feats), deps="".join(DEPS[a] for a in feats)))
        shutil.copy(os.path.join(HARNESS, "Cargo.lock"), os.path.join(self.dir, "Cargo.lock"))
        for b, src in programs.items():
            with open(os.path.join(self.dir, "src", "bin", b + ".rs"), "w") as f:
                f.write(src)
    def build(self):
        """Returns ({bin: exe}, {bin: output}) of the programs which compiled, and which did not."""
        c = CONFIGS[self.cfg]
        cmd = ["cargo", "build", "--offline", "--quiet", "--keep-going", "--bins"]
        if c["features"]:
            cmd += ["--features", c["features"]]
        if c["target"]:
            cmd += ["--target", c["target"]]
        t = time.time()
        env = build_env(self.cfg)
        try:
            p = engine.run_build(cmd, self.dir, env)
        except subprocess.TimeoutExpired:
            raise HarnessError("building the generated programs took too long")
        d = os.path.join(target_dir(self.cfg), c["target"] or "", "debug")
        if p.returncode == 0:
            log("built %d programs for %s in %.1f s" % (len(self.programs), self.cfg, time.time() - t))
            return {b: os.path.join(d, b) for b in self.programs}, {}
        bad = {}
        for b in self.programs:
            if re.search(r"could not compile `%s` \(bin \"%s\"\)" % (self.name, b), p.stdout):
                bad[b] = p.stdout
        if re.search(r"could not compile `vh` \(lib\)", p.stdout) and "could not compile `crossmist" not in p.stdout:
            raise LibFails(p.stdout)
        other = re.search(r"could not compile `(?!%s`)|linking with|error: linker|signal: |out of memory|No space left" % self.name, p.stdout)
        if not bad or other:
            print(p.stdout[-4000:])
            raise HarnessError("building the generated programs failed")
        return {b: os.path.join(d, b) for b in self.programs if b not in bad}, bad
    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        d = os.path.join(target_dir(self.cfg), CONFIGS[self.cfg]["target"] or "", "debug")
        for b in self.programs:
            for p in (os.path.join(d, b), os.path.join(d, b + ".d")):
                if os.path.exists(p):
                    os.unlink(p)
        deps = os.path.join(d, "deps")
        for f in os.listdir(deps) if os.path.isdir(deps) else []:
            if any(f.startswith(b + "-") for b in self.programs):
                os.unlink(os.path.join(deps, f))

def errors_of(output, b):
    """[(line, first line of the error)] in the source of program b."""
    out, cur = [], None
    for l in output.split("\n"):
        m = re.match(r"error(\[E\d+\])?: (.*)", l)
        if m:
            cur = l
        m = re.match(r"\s*--> src/bin/%s\.rs:(\d+):" % re.escape(b), l)
        if m and cur:
            out.append((int(m.group(1)), cur))
            cur = None
    return out

def minimal(gen, name, cfg, b, prog, output):
    """Reduce a program which does not compile to one of its items with what that needs. -> (source, message) or None"""
    errs = errors_of(output, b)
    names = []
    for line, e in errs:
        n = prog.item_at(line)
        if n is not None and n not in [x for x, _ in names]:
            names.append((n, e))
    for n, e in names[:3]:
        src = prog.subset([n]).source()
        c = Crate(name, cfg, {b: src})
        try:
            _, bad = c.build()
        finally:
            c.remove()
        if bad:
            es = errors_of(bad[b], b)
            return src, "%s does not compile: %s" % (prog.describe(n), es[0][1] if es else e)
    if errs:
        return prog.source(), "a generated program does not compile: %s" % errs[0][1]
    return prog.source(), "a generated program does not compile: %s" % output[:300]

def attempt(c):
    try:
        return c[2].build()
    except LibFails as e:
        return e

def run(pid, entry, tier, seed, scale, make, name, configs, cases):
    """make(rng) -> program with source(), item_at(line), subset(names), describe(name), items.
    configs: [(cfg, number of programs per round)]; cases: per program."""
    r = Runner(pid, tier, seed, scale)
    rounds = 0
    programs = items = 0
    viol, samples = [], []
    kinds = {}
    # the harness itself must compile
    try:
        t_round = 0
        while True:
            started = time.time()
            left = engine.HARD_DEADLINE - started
            if rounds and (tier == "quick" or left < 2 * t_round + 60 or scale < 1):
                break
            crates = []
            for cfg, n in configs:
                progs = {}
                for i in range(n):
                    rng = random.Random("%s/%d/%d/%s/%d" % (pid, seed, rounds, cfg, i))
                    progs["%s_%s%d" % (name, cfg + "_" if "api" in CONFIGS[cfg] else "", i)] = make(rng, cfg)
                crates.append((cfg, progs, Crate(name, cfg, {b: p.source() for b, p in progs.items()})))
            try:
                with ThreadPoolExecutor(3) as ex:
                    built = list(ex.map(attempt, crates))
                for (cfg, progs, crate), b in zip(crates, built):
                    if not isinstance(b, LibFails):
                        continue
                    # The same source compiles with other features, or what does not compile was written by a macro
                    first = lib_error(str(b))
                    if not first and any(c[0] == "stable" and isinstance(x, tuple) for c, x in zip(crates, built)) and "api" in CONFIGS[cfg]:
                        first = re.search(r"^error.*", str(b), re.M).group(0)
                    if not first:
                        print(str(b)[-4000:])
                        raise HarnessError("building the harness failed")
                    name0, prog = next(iter(progs.items()))
                    msg = "with the features %s, functions and types of a library do not compile: %s" % (api(cfg), first)
                    p = save_replay(pid, dict(property=pid, program=prog.source(), bin=name0, config=cfg, kind="compile", message=msg,
                                              found=dict(seed=seed, round=rounds, tier=tier)))
                    viol.append(dict(message=msg, log=str(b).split("\n")[:40], replay=p))
                    break
                if viol:
                    break
                todo = []
                for (cfg, progs, crate), (exes, bad) in zip(crates, built):
                    for b, out in bad.items():
                        src, msg = minimal(None, name, cfg, b, progs[b], out)
                        p = save_replay(pid, dict(property=pid, program=src, bin=b, config=cfg, kind="compile", message=msg,
                                                  found=dict(seed=seed, round=rounds, tier=tier)))
                        viol.append(dict(message=msg, log=src.split("\n")[:40], replay=p))
                        break
                    if viol:
                        break
                    for b, exe in exes.items():
                        programs += 1
                        items += len(progs[b].items)
                        for k in progs[b].kinds():
                            kinds[k] = kinds.get(k, 0) + 1
                        if len(samples) < 4:
                            samples.append(progs[b].sample())
                        todo.append((Job(b, pid, cfg, 1, cases["quick"], cases["thorough"]), exe, rounds * 100 + len(todo), progs[b]))
                if viol:
                    break
                with ThreadPoolExecutor(8) as ex:
                    for f in [ex.submit(r.run_shard, j, exe, s) for j, exe, s, _ in todo]:
                        f.result()
                for f in r.failures[:1]:
                    log("failure in %s/%s case %s: %s" % (f["job"].bin, f["job"].cfg, f["case"], f["message"][:500]))
                    f = r.confirm_and_shrink(f)
                    if f["reproduced"].startswith("0/") and f["kind"] in ("hang", "livelock"):
                        r.errors.append("a %s was not reproduced" % f["kind"])
                        continue
                    prog = [t[3] for t in todo if t[0] is f["job"]][0]
                    p = save_replay(pid, dict(property=pid, program=prog.source(), bin=f["job"].bin, config=f["job"].cfg, prop=pid, kind="run", args=[],
                                              tape=f["tape"], message=f["message"], log=f["log"], reproduced=f["reproduced"],
                                              found=dict(seed=seed, round=rounds, case=f["case"], tier=tier)))
                    log("reproduced %s, shrunk to %d choices in %d steps" % (f["reproduced"], len(f["tape"]), f.get("shrink_steps", 0)))
                    viol.append(dict(message=f["message"], log=f["log"], replay=p))
            finally:
                for _, _, c in crates:
                    c.remove()
            rounds += 1
            t_round = time.time() - started
            if viol or r.errors:
                break
        order = sorted(set(r.samples), key=lambda s: hash(s))
        labels = {k: v for k, v in r.labels.items() if not k.startswith("type ")}
        cov = dict(evaluations=r.evals, distinct_nontrivial=len(r.nontrivial), rule=entry["rule"],
                   samples=(samples[:3] + r.samples[:4]) or ["(none)"],
                   classes=dict(sorted(labels.items())), programs=programs, definitions=items, definition_kinds=dict(sorted(kinds.items())),
                   rounds=rounds, jobs=["%s: %d programs per round" % c for c in configs])
        return cov, viol, r.errors
    finally:
        r.cleanup()

def replay(pid, d, name):
    c = Crate(name, d["config"], {d["bin"]: d["program"]})
    try:
        try:
            exes, bad = c.build()
        except LibFails as e:
            exes, bad = {}, {d["bin"]: str(e)}
        if bad:
            print(bad[d["bin"]][:3000])
            print("VIOLATION property=%s replay" % pid)
            return 1
        if d["kind"] == "compile":
            print("held: it compiles")
            return 0
        r = Runner(pid, d["found"].get("tier", "quick"), 0, 1)
        try:
            res = r.replay(Job(d["bin"], d["prop"], d["config"]), exes[d["bin"]], d["tape"], engine.HARD_DEADLINE)
        finally:
            r.cleanup()
        for l in res["log"]:
            print("   ", l)
        print(res["kind"], res["message"])
        if res["kind"] in Runner.BAD:
            print("VIOLATION property=%s replay" % pid)
            return 1
        return 0 if res["kind"] == "held" else 2
    finally:
        c.remove()
