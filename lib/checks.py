"""One property's check: record, validate, search, confirm."""
import json, os, shutil, sys, tempfile, time, glob, hashlib
from core import *
import models

INVS = {f"C{i:02d}": [f"C{i:02d}"] for i in range(1, 23)}

# what is recorded for TLC: (costly answers, events) for the quick tier
BUDGET = {
    "C01": (1800, 9000), "C02": (1500, 8000), "C03": (1200, 8000), "C04": (1200, 8000), "C05": (900, 6000),
    "C06": (1500, 8000), "C07": (1 << 30, 9000), "C08": (900, 6000), "C09": (1 << 30, 8000),
    "C10": (1 << 30, 3500), "C11": (1 << 30, 3000), "C12": (1 << 30, 7000), "C13": (1 << 30, 6000),
    "C14": (1 << 30, 2500), "C15": (1 << 30, 2500), "C16": (1 << 30, 2500), "C17": (1 << 30, 3000),
    "C18": (1 << 30, 6000), "C19": (600, 2500), "C20": (1 << 30, 2500), "C21": (1 << 30, 2500),
    "C22": (1 << 30, 6000),
}
SYSTEMATIC = {"C13": "singles,hands,replaced", "C12": "hands", "C18": "singles"}

RULES = {
    "C01": "a state whose list of legal moves was asked for",
    "C02": "a state in which some move that is otherwise possible would expose the mover's king",
    "C03": "a state in check or without legal moves",
    "C04": "a state with a piece in the mover's hand",
    "C05": "a state in which some pawn drop gives check",
    "C06": "a state in which some legal move may promote",
    "C08": "a state in which some legal move gives check",
}


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.n = int(prop[1:])
        self.quick = tier == "quick"
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = tempfile.mkdtemp(dir=BUILD, prefix=f"run-{prop}-")
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "evaluations": 0, "distinct_nontrivial": 0,
                    "rule": "generated use of the library, a deterministic function of VERIF_SEED; an event counts as "
                            "non-trivial when it reaches " + RULES.get(prop, "a state at which this property's answers are compared"),
                    "stages": []}
        self.violations = []
        self.variants = ["core-checked", "simd-shipped"] if self.quick else list(VARIANTS)

    # ------------------------------------------------------------ reporting
    def violation(self, trace, why):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        body = json.dumps(trace, separators=(",", ":"))
        path = os.path.join(d, f"{self.prop}-{hashlib.sha256(body.encode()).hexdigest()[:10]}.ndjson")
        open(path, "w").write(body + "\n")
        self.violations.append((path, why))
        log(f"{self.prop}: {why}")

    def stage(self, **kw):
        self.cov["stages"].append(kw)
        log(f"{self.prop}: {kw}")

    # ------------------------------------------------------------ stages
    def judge(self, path, name, twin=None, invs=None, confirm=False):
        """TLC decides. True if it accepts everything in the file."""
        t0 = time.time()
        r = validate(invs or INVS[self.prop], path, self.tmp, twin)
        ts = read_traces(path)
        self.cov["states"] += r.states
        self.cov["transitions"] += r.generated
        if r.status == "violated":
            t = ts[r.t - 1]
            cut = dict(t, ev=t["ev"][: r.l - 1])
            if twin:
                tw = read_traces(twin)[r.t - 1]
                cut["twin"] = tw["ev"][: r.l - 1]
            ev = cut["ev"][-1]
            what = {k: v for k, v in ev.items() if k not in ("ob", "fr", "src", "div")}
            self.violation(cut, f"{name}: TLC: {r.invariant} is violated by trace {t['id']} at event {r.l - 1}: {json.dumps(what)}")
            return False
        if not confirm:
            self.cov["traces_validated_against_impl"] += len(ts)
            if ts and len(self.cov["samples"]) < 2:
                t = ts[len(ts) // 2]
                self.cov["samples"].append({"stage": name, "id": t["id"], "events": t["ev"][:2]})
        self.stage(stage=name, traces=len(ts), states=r.states, s=round(time.time() - t0, 1))
        return True

    def record(self, var, seed, heavy, events, extra=()):
        out = os.path.join(self.tmp, f"rec-{var}-{seed}.ndjson")
        args = ["record", "--prop", str(self.n), "--seed", str(seed), "--heavy", str(heavy), "--events", str(events),
                "--out", out, *extra]
        try:
            s, _ = conform(self.exe[var]["conform"], args, self.tmp, rec=True)
        except Died as d:
            self.dead(var, seed, d)
            return None
        s["variant"] = var
        self.stage(stage="record", **s)
        return out

    def dead(self, var, seed, d):
        ts = died_trace(self.exe[var]["conform"], self.n, seed, d, self.tmp)
        if not ts:
            raise ToolError(f"{var}: the harness died ({d.how}) and it did not happen again in chunks {d.chunks}")
        p = os.path.join(self.tmp, f"dead-{var}.ndjson")
        write_traces(p, ts)
        self.judge(p, f"{d.how} in {var}", invs=["C15"] if self.prop == "C14" else None, confirm=True)

    def record_and_judge(self):
        heavy, events = BUDGET[self.prop]
        if self.quick:
            plan = [("core-checked", self.seed, 0.6), ("simd-shipped", self.seed + 1, 0.4)]
        else:
            plan = [(v, self.seed + 10 * k + i, 2.0) for k in range(3) for i, v in enumerate(self.variants)]
        if self.quick:
            # one run of TLC for both
            files = []
            for v, s, f in plan:
                ex = ()
                if v == "core-checked" and self.prop in SYSTEMATIC:
                    ex = ("--base", SYSTEMATIC[self.prop])
                p = self.record(v, s, int(heavy * f), int(events * f), ex)
                if self.violations:
                    return
                files.append(p)
            both = os.path.join(self.tmp, "recorded.ndjson")
            with open(both, "w") as o:
                for p in files:
                    o.write(open(p).read())
            self.judge(both, "recorded executions")
        else:
            for i, (v, s, f) in enumerate(plan):
                ex = ("--base", SYSTEMATIC[self.prop]) if i < 4 and self.prop in SYSTEMATIC else ()
                p = self.record(v, s, int(heavy * f), int(events * f), ex)
                if p:
                    self.judge(p, f"recorded executions {v} seed {s}")
                    os.unlink(p)
                if self.violations:
                    return

    def scout(self):
        # (variant, seconds, families of positions or generated use)
        if self.quick:
            plan = [("core-checked", 9, ""), ("simd-shipped", 7, ""), ("simd-shipped", 6, "--families"), ("core-checked", 5, "--long")]
        else:
            plan = [(v, 60, "") for v in self.variants]
            plan += [("simd-shipped", 150, "--families"), ("core-checked", 60, "--families")]
            plan += [("simd-shipped", 60, "--long"), ("core-checked", 60, "--long")]
        if self.prop == "C13":
            plan = [(v, 8 if self.quick else 60, "collide") for v in self.variants] + plan
        for v in ASAN:
            if v in self.exe and (v, "conform") not in self.failed:
                plan += [(v, 6 if self.quick else 90, ""), (v, 3 if self.quick else 60, "--families")]
        if self.prop == "C18":
            plan = [x for x in plan if x[2] != "--long"]
        for i, (v, secs, fam) in enumerate(plan):
            args = ["scout", "--prop", str(self.n), "--seed", str(self.seed + 100 + i), "--time", str(secs),
                    "--threads", str(CPUS)] + ([fam] if fam else [])
            if fam == "collide":
                args[0] = args.pop()
            try:
                s, d = conform(self.exe[v]["conform"], args, self.tmp)
            except Died as e:
                self.dead(v, self.seed + 100 + i, e)
                return
            if not s["chunks"]:
                continue
            self.cov["evaluations"] += s["events"]
            self.cov["distinct_nontrivial"] += min(s["nontrivial"], s["distinct"])
            self.stage(stage="search", variant=v, **s)
            if s["candidates"]:
                ts = []
                for f in sorted(glob.glob(d + "/cand*.ndjson")):
                    ts += read_traces(f)
                    log("candidate:", open(f.replace(".ndjson", ".why")).read()[:300])
                p = os.path.join(self.tmp, f"cands-{v}.ndjson")
                write_traces(p, ts)
                ok = self.judge(p, f"search in {v}", confirm=True)
                if ok:
                    # perhaps the answers left out of long executions were needed
                    write_traces(p, [t for f in sorted(glob.glob(d + "/cand*.full")) for t in read_traces(f)])
                    ok = self.judge(p, f"search in {v}, in full", confirm=True)
                if ok:
                    log(f"{self.prop}: note: the search flagged executions that the specification accepts")
                else:
                    return

    def model(self):
        """The specification itself."""
        t0 = time.time()
        for s in (models.quick if self.quick else models.thorough)(self.prop, self.seed, self.tmp):
            self.cov["states"] += s["states"]
            self.cov["transitions"] += s.get("transitions", s["states"])
            self.stage(**s, s=round(time.time() - t0, 1))
            t0 = time.time()

    def behaviours(self):
        """Behaviours of the specification, repeated by the code."""
        for k in range(1 if self.quick else 3):
            t0 = time.time()
            lines, n = generate(self.seed + 31 * k, 5 if self.quick else 60, 20, self.tmp)
            sc = os.path.join(self.tmp, "behaviours")
            open(sc, "w").write("\n".join(lines) + "\n")
            for v in self.variants:
                out, lg = os.path.join(self.tmp, f"replayed-{v}"), os.path.join(self.tmp, f"replayed-{v}.log")
                args = [self.exe[v]["conform"], "replay", "--script", sc, "--prop", str(self.n), "--out", out, "--only-bad",
                        "--limit", "6"]
                rc, o, err = run(args, 120)
                if rc is None or rc < 0:
                    rc, o, err = run(args + ["--log", lg], 120)
                    if not (rc is None or rc < 0):
                        raise ToolError("replay died and then did not")
                    evs = [json.loads(x) for x in open(lg)]
                    how = "hang" if rc is None else "crash"
                    evs[-1].update(at=how, panic=f"{how} (exit {rc})")
                    write_traces(out, [{"id": "replay", "ev": evs}])
                elif rc != 0:
                    raise ToolError(f"replay: exit {rc} {err[-2000:]}")
                else:
                    s = json.loads(o.splitlines()[-1])
                    self.cov["evaluations"] += s["events"]
                    self.cov["traces_validated_against_impl"] += s["traces"]
                    self.stage(stage="behaviours of the specification", variant=v, **s, s=round(time.time() - t0, 1))
                    if not s["wrong"]:
                        continue
                if not self.judge(out, f"behaviour of the specification in {v}", confirm=True):
                    return

    # ------------------------------------------------------------ particular properties
    def builds_agree(self):
        """C14: the same calls in every build, and twice in one of them."""
        vs = self.variants + self.emulated
        n, per = (6000, 2500) if self.quick else (120000, 8000)
        heavy = 1 << 30
        base = None
        runs = [(v, "") for v in (self.variants if self.quick else vs)] + [(vs[0], "again")]
        # recorded executions, compared by TLC
        for v, again in runs:
            out = os.path.join(self.tmp, f"c14-{v}{again}.ndjson")
            try:
                s, _ = conform(self.exe[v]["conform"],
                               ["record", "--prop", "14", "--seed", str(self.seed), "--heavy", str(heavy), "--events",
                                str(per), "--out", out], self.tmp, rec=True)
            except Died as d:
                self.dead(v, self.seed, d)
                return
            if base is None:
                base = out
                self.stage(stage="record", variant=v, **s)
            else:
                self.pair(base, out, f"{vs[0]} against {v} {again}".strip())
                if self.violations:
                    return
        # digests of many more; only chunks that differ are recorded
        th = max(1, CPUS // len(vs)) if self.quick else CPUS
        import concurrent.futures as cf
        for seed, chunks, fam in ((self.seed + 7, n, []), (self.seed, n // 2, ["--families"]), (self.seed, n // 100, ["--long"])):
            def one(v):
                out = os.path.join(self.tmp, f"dig-{v}")
                conform(self.exe[v]["conform"], ["digest", "--prop", "14", "--seed", str(seed), "--chunks", str(chunks),
                                                 "--threads", str(th), "--out", out, *fam], self.tmp, rec=True)
                return [x.split() for x in open(out)]

            res = []
            with cf.ThreadPoolExecutor(4 if self.quick else 2) as ex:
                fs = {v: ex.submit(one, v) for v in vs}
                for v in vs:
                    try:
                        res.append(fs[v].result())
                    except Died as d:
                        self.dead(v, seed, d)
                        return
            self.cov["evaluations"] += sum(len(r) for r in res)
            self.cov["distinct_nontrivial"] += len(res[0])
            self.stage(stage="digests", chunks=len(res[0]), builds=len(vs), of=(fam or [""])[0])
            for v, r in zip(vs[1:], res[1:]):
                diff = [a[0] for a, b in zip(res[0], r) if a[1] != b[1]][:4]
                for idx in diff:
                    files = []
                    for w in (vs[0], v):
                        out = os.path.join(self.tmp, f"c14-{idx}-{w}.ndjson")
                        conform(self.exe[w]["conform"], ["record", "--prop", "14", "--seed", str(seed), "--from", idx,
                                                         "--chunks", "1", "--out", out, "--heavy", str(heavy), "--events",
                                                         str(heavy)], self.tmp, rec=True)
                        files.append(out)
                    self.pair(files[0], files[1], f"chunk {idx}: {vs[0]} against {v}")
                    if self.violations:
                        return

    def pair(self, a, b, name):
        """Recordings of the same calls. Executions that ended early in one are cut to the same length."""
        ta, tb = read_traces(a), read_traces(b)
        if [t["id"] for t in ta] != [t["id"] for t in tb]:
            # a panic can end the recording of one build only
            n = min(len(ta), len(tb))
            ta, tb = ta[:n], tb[:n]
        for x, y in zip(ta, tb):
            n = min(len(x["ev"]), len(y["ev"]))
            x["ev"], y["ev"] = x["ev"][:n], y["ev"][:n]
        write_traces(a + ".l", ta)
        write_traces(b + ".r", tb)
        return self.judge(a + ".l", name, twin=b + ".r", invs=["C14"] if self.prop == "C14" else ["C20", "C20T"])

    def threads(self):
        """C20: the same calls made by several threads and by one."""
        for (v, b), out in self.failed.items():
            if b == "threads":
                if SYNC_ERR.search(out):
                    self.violation({"id": "compile", "ev": [{"op": "compile", "panic": out[-3000:]}]},
                                   f"{v}: Position can no longer be used from several threads")
                    return
                raise ToolError(f"building {v}/threads failed:\n{out[-3000:]}")
        runs, hammers = (10, 12) if self.quick else (150, 60)
        for v in self.variants[:2] if self.quick else self.variants:
            exe = self.exe[v]["threads"]
            many, one = os.path.join(self.tmp, f"many-{v}"), os.path.join(self.tmp, f"one-{v}")
            ids = 0
            with open(many, "w") as fm, open(one, "w") as fo:
                for k in range(runs + hammers):
                    seed = str(self.seed * 1000 + k)
                    ham = [] if k < runs else ["--millis", "600" if self.quick else "3000"]
                    for f, ex in ((fo, ["--single"] + ham), (fm, ham)):
                        out = os.path.join(self.tmp, "th")
                        rc, _, err = run([exe, "--seed", seed, "--threads", str(CPUS * (1 if k % 2 else 2)), "--out", out] + ex, 60)
                        if rc != 0:
                            if rc is None or rc < 0:
                                how = "hang" if rc is None else "crash"
                                t = {"id": f"{v}-threads{seed}", "ev": [{"op": "query", "o": 1, "at": how, "panic": f"threads --seed {seed} {' '.join(ex)}: exit {rc}", "ob": {}}]}
                                self.violation(t, f"{v}: {how} with several threads, seed {seed}")
                                return
                            raise ToolError(f"threads: exit {rc} {err[-2000:]}")
                        f.write(open(out).read())
                        ids += 1
            self.cov["evaluations"] += sum(len(t["ev"]) for t in read_traces(many))
            self.pair(many, one, f"several threads against one, {v}")
            if self.violations:
                return

    # ------------------------------------------------------------ all of it
    def run(self):
        t0 = time.time()
        bins = ("conform", "threads") if self.prop == "C20" else ("conform",)
        more = {"C14": list(EMULATED), "C15": list(ASAN)}.get(self.prop, [])
        self.exe, self.failed = build(self.variants + more, bins)
        # machines whose code compiles against the emulated intrinsics; the build in which accesses to memory are watched
        self.emulated = [v for v in more if (v, "conform") not in self.failed]
        if len(self.emulated) < len(more):
            self.stage(stage="build", not_built=[v for v in more if v not in self.emulated])
        self.stage(stage="build", variants=self.variants, s=round(time.time() - t0, 1))
        try:
            steps = []
            if self.prop == "C14":
                steps = [self.builds_agree]
            else:
                steps = [self.record_and_judge, self.behaviours, self.scout]
                if self.prop in ("C13", "C17", "C18", "C21"):
                    steps.remove(self.behaviours)   # nothing there for them
                if self.prop == "C20":
                    steps.insert(0, self.threads)
            for s in [self.model] + steps:
                s()
                if self.violations:
                    break
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        self.evidence(time.time() - t0)

    def evidence(self, wall):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
             "coverage": self.cov,
             "assumptions": ["the 9x9 specification in spec/ShogiRules.tla states the rules of shogi",
                             "TLC, rustc and the recording harness work as documented",
                             "the code is deterministic up to threads: what was recorded is what users get"],
             "wall_s": round(wall, 1), "violations": len(self.violations)}
        p = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        open(p + ".tmp", "w").write(json.dumps(e, indent=1))
        os.replace(p + ".tmp", p)


def known_findings(prop):
    """Lines `finding: property=<id> match=<sha of the trace's calls> <what fails>`."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=" + prop + " "):
                res.append(line.strip()[len("finding: "):])
    return res
