"""Building the harness, running it, running TLC."""
import fcntl, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- builds

# name -> (features, rustc flags, cargo profile)
VARIANTS = {
    "core-checked": ("", "-C target-cpu=x86-64", "checked"),
    "simd-shipped": ("simd", "-C target-cpu=x86-64-v3", "shipped"),
    "core-shipped": ("", "-C target-cpu=x86-64", "shipped"),
    "simd-checked": ("simd", "-C target-cpu=x86-64-v3", "checked"),
}
# the code for machines that are not here, compiled against emulated intrinsics (harness/arch)
ARCH = {"neon-emulated": "aarch64", "wasm-emulated": "wasm32"}
EMULATED = {v: ("simd", "-C target-cpu=x86-64", "checked") for v in ARCH}
# every access to memory watched (C15)
ASAN = {"simd-asan": ("simd", "-C target-cpu=x86-64-v3 -Zsanitizer=address", "checked")}
HOST = "x86_64-unknown-linux-gnu"
# properties of the source that are visible to a compiler only
SYNC_ERR = re.compile(r"cannot be (shared|sent) between threads safely")


def source_hash():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src"), os.path.join(VERIF, "harness", "arch")):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    for f in ("Cargo.toml", "build.rs"):
        files.append(os.path.join(REPO, f))
    files += [os.path.join(VERIF, "harness", f) for f in ("Cargo.toml", "Cargo.lock")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def build(variants, bins=("conform",)):
    """Build the named variants from /repo's working tree. Returns {variant: {bin: path}} and
    {(variant, bin): compiler output} for the bins that do not compile."""
    os.makedirs(BUILD, exist_ok=True)
    want = source_hash()
    paths, failed = {}, {}
    locks, jobs = [], []
    for v in sorted(variants):
        feat, flags, prof = {**VARIANTS, **EMULATED, **ASAN}[v]
        tdir = os.path.join(BUILD, "target-" + v)
        os.makedirs(tdir, exist_ok=True)
        lk = open(os.path.join(tdir, ".lock"), "w")
        fcntl.flock(lk, fcntl.LOCK_EX)
        locks.append(lk)
        stamp = os.path.join(tdir, ".source")
        env = dict(os.environ, CARGO_TARGET_DIR=tdir, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true",
                   CARGO_INCREMENTAL="0")
        env.pop("CARGO_ENCODED_RUSTFLAGS", None)
        if v in ARCH:
            arch = os.path.join(VERIF, "harness", "arch")
            lib = os.path.join(tdir, "libarchstd.rlib")
            if not os.path.exists(stamp) or open(stamp).read() != want:
                r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "archstd", "-O",
                                    "-A", "warnings", os.path.join(arch, "std.rs"), "-o", lib], capture_output=True, text=True)
                if r.returncode:
                    raise ToolError("harness/arch/std.rs: " + r.stderr[-2000:])
            env.update(RUSTC_WRAPPER=os.path.join(arch, "rustc.sh"), YASAI_ARCH=ARCH[v], YASAI_STD=lib,
                       RUSTFLAGS=flags + " -L " + tdir)
        man = os.path.join(VERIF, "harness", "Cargo.toml")
        cargo, target = (["cargo", "+nightly"], ["--target", HOST]) if v in ASAN else (["cargo"], [])
        if not os.path.exists(stamp) or open(stamp).read() != want:
            # never trust time stamps: rebuild whenever the contents differ
            for p in ("yasai", "conform"):
                subprocess.run([*cargo, "clean", "--offline", "--quiet", "--manifest-path", man, "-p", p,
                                "--profile", prof, *target], env=env, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL)
            try:
                os.unlink(stamp)
            except FileNotFoundError:
                pass
        for b in bins:
            cmd = [*cargo, "build", "--offline", "--quiet", "--locked", "--manifest-path", man, "--profile", prof,
                   "--bin", b, *target]
            if feat:
                cmd += ["--features", feat]
            jobs.append((v, b, stamp, subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE,
                                                       stderr=subprocess.STDOUT, text=True)))
            paths.setdefault(v, {})[b] = os.path.join(tdir, *target[1:], prof, b)
    bad = []
    for v, b, stamp, p in jobs:
        out, _ = p.communicate()
        if p.returncode != 0:
            failed[(v, b)] = out
            bad.append(v)
        elif v not in bad:
            open(stamp, "w").write(want)
    for lk in locks:
        lk.close()
    for v in ASAN:
        # a place where it cannot start (without arguments: exit 2)
        if v in paths and (v, "conform") not in failed and run([paths[v]["conform"]], 60)[0] != 2:
            failed[(v, "conform")] = "error: does not start here"
    for (v, b), out in failed.items():
        if v in ARCH or v in ASAN:
            log(f"{v}: not built, so not run: " + " / ".join(re.findall(r"^error.*", out, re.M)[:3]))
        elif b == "conform":
            raise ToolError(f"building {v}/{b} failed:\n{out[-4000:]}")
    return paths, failed


# ---------------------------------------------------------------- running the harness

def _limits():
    """For every process that runs the code under test. (The watched build maps more than it uses.)"""
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _no_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Died(Exception):
    """The code under test ended the process, or did not come back."""

    def __init__(self, how, chunks, rec):
        self.how, self.chunks, self.rec = how, chunks, rec


def run(cmd, timeout=600):
    watched = any("target-" + v in cmd[0] for v in ASAN)
    env = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1") if watched else None
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env,
                         preexec_fn=_no_core if watched else _limits)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "", "timeout"
    return p.returncode, out, err


def conform(exe, args, tmp, rec=False, timeout=600):
    """Run the harness; its last line of output is a summary in JSON."""
    d = tempfile.mkdtemp(dir=tmp)
    rc, out, err = run([exe] + args + ["--dir", d], timeout)
    if rc == 0:
        return json.loads(out.strip().splitlines()[-1]), d
    if rc == -9:
        raise ToolError(f"{exe} {' '.join(args)}: killed")
    if rc is None or rc == 3 or rc < 0:
        chunks = []
        for f in glob.glob(d + "/cur*"):
            try:
                chunks.append(int(open(f).read().strip()))
            except ValueError:
                pass
        how = "hang" if rc in (None, 3) else "crash"
        raise Died(how, sorted(set(chunks)), rec)
    raise ToolError(f"{exe} {' '.join(args)}: exit {rc}\n{out[-2000:]}{err[-2000:]}")


def died_trace(exe, prop, seed, died, tmp):
    """Repeat the chunks that were running, one at a time, noting each call before it is made."""
    res = []
    for idx in died.chunks:
        d = tempfile.mkdtemp(dir=tmp)
        lg = os.path.join(d, "ops")
        cmd = [exe, "chunk", "--prop", str(prop), "--seed", str(seed), "--idx", str(idx), "--log", lg, "--dir", d]
        if died.rec:
            cmd.append("--rec")
        rc, out, err = run(cmd, 90)
        if rc is None or rc == 3 or (rc < 0 and rc != -9):
            if os.path.getsize(lg) > 40 << 20:
                raise ToolError(f"chunk {idx} of seed {seed} is too long to judge")
            evs = [json.loads(x) for x in open(lg)]
            if evs:
                how = "hang" if rc in (None, 3) else "crash"
                evs[-1]["at"] = how
                evs[-1]["panic"] = f"{how} (exit {rc})"
                res.append({"id": f"s{seed}c{idx}{how}", "ev": evs})
                break
    return res


# ---------------------------------------------------------------- TLC

class Tlc:
    def __init__(self):
        self.states = 0       # distinct
        self.generated = 0
        self.status = "ok"
        self.invariant = None
        self.t = self.l = None
        self.out = ""


def tlc(module, cfg, tmp, env=None, workers=CPUS, timeout=800, extra=(), heap="8g", edit=None):
    """Run TLC on a module of spec/ with the given configuration text. edit: (module, old, new), for tests of
    the checks themselves."""
    d = tempfile.mkdtemp(dir=tmp, prefix="tlc-")
    for f in glob.glob(SPEC + "/*.tla"):
        shutil.copy(f, d)
    if edit:
        p = os.path.join(d, edit[0] + ".tla")
        text = open(p).read()
        if edit[1] not in text:
            raise ToolError(f"not in {edit[0]}: {edit[1]}")
        open(p, "w").write(text.replace(edit[1], edit[2], 1))
    open(os.path.join(d, "run.cfg"), "w").write(cfg)
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Dtlc2.TLC.stopAfter=100000", "-Djava.io.tmpdir=" + d,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-config", "run.cfg", *extra, module + ".tla"]
    p = subprocess.Popen(cmd, cwd=d, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise ToolError(f"TLC on {module} took more than {timeout} s")
    r = Tlc()
    r.out = out
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        r.generated, r.states = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"Invariant (\S+) is violated", out)
    if m:
        r.status, r.invariant = "violated", m.group(1)
        # initial states are printed without a number
        ts = re.findall(r"^/\\ t = (\d+)$", out, re.M)
        ls = re.findall(r"^/\\ l = (\d+)$", out, re.M)
        if ts and ls:
            r.t, r.l = int(ts[-1]), int(ls[-1])
    elif "Deadlock reached" in out:
        r.status = "deadlock"
        ts = re.findall(r"^/\\ t = (\d+)$", out, re.M)
        ls = re.findall(r"^/\\ l = (\d+)$", out, re.M)
        if ts and ls:
            r.t, r.l = int(ts[-1]), int(ls[-1])
    elif "No error has been found" not in out and "-simulate" not in extra:
        r.status = "error"
    shutil.rmtree(d, ignore_errors=True)
    return r


GEN_CFG = """SPECIFICATION Spec
CONSTANTS
  NF = 9
  NR = 9
  ZONE = 3
  MAXOBJ = 2
  LEN = %d
CHECK_DEADLOCK FALSE
"""


def generate(seed, walks, length, tmp, procs=CPUS):
    """Behaviours of Shogi.tla (ShogiGen, tlc -simulate), as a script for `conform replay`.
    TLC's random choices are the same in all of its workers: one process per worker."""
    import concurrent.futures as cf
    outs = [os.path.join(tmp, f"gen-{seed}-{i}") for i in range(procs)]

    def one(i):
        r = tlc("ShogiGen", GEN_CFG % length, tmp, {"OUT": outs[i]}, workers=1, heap="1g",
                extra=("-seed", str(seed * 1000 + i), "-simulate", f"num={walks}", "-depth", str(length + 2)))
        if r.status != "ok" or not os.path.exists(outs[i]):
            raise ToolError("generating behaviours: " + r.out[-3000:])
    with cf.ThreadPoolExecutor(procs) as ex:
        list(ex.map(one, range(procs)))
    lines, n = [], 0
    for i, f in enumerate(outs):
        for j, x in enumerate(open(f)):
            h = json.loads(x)
            h = json.loads(h) if isinstance(h, str) else h
            lines.append(f"T g{seed}-{i}-{j}")
            for e in h:
                if e["op"] == "N":
                    lines.append(f"N {e['o']} 0 " + " ".join(map(str, e["a"])))
                else:
                    lines.append(" ".join(map(str, [e["op"], e["o"], *e["a"]])))
                if e["x"]:
                    c, k = e["x"][0], e["x"][1]
                    leg, gc = sorted(e["x"][2:2 + k]), sorted(e["x"][3 + k:])
                    lines.append(" ".join(map(str, ["E", c, k, *leg, len(gc), *gc])))
                n += 1
        os.unlink(f)
    return lines, n


TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANTS
  NF = 9
  NR = 9
  ZONE = 3
  MAXOBJ = 6
VIEW TraceView
ALIAS Where
INVARIANTS
  %s
"""


def read_traces(path):
    return [json.loads(x) for x in open(path) if x.strip()]


def write_traces(path, ts):
    with open(path, "w") as f:
        for t in ts:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")


def validate(invs, path, tmp, twin=None, workers=CPUS, timeout=800):
    """Let TLC judge the recorded executions. Returns the Tlc result; complete runs are counted."""
    n = sum(len(t["ev"]) + 1 for t in read_traces(path))
    if n == 0:
        r = Tlc()
        return r
    r = tlc("ShogiTrace", TRACE_CFG % "\n  ".join(invs), tmp, {"TRACE": path, "TWIN": twin or path},
            workers=workers, timeout=timeout)
    if r.status == "ok" and r.states != n:
        raise ToolError(f"TLC accepted {path} but saw {r.states} states, not {n}\n{r.out[-3000:]}")
    if r.status in ("error", "deadlock"):
        raise ToolError(f"TLC on {path}: {r.status} at trace {r.t} event {r.l}\n{r.out[-6000:]}")
    return r
