"""Building the harness, running it, and having TLC judge what it recorded."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
OUT = os.path.join(ROOT, "out")
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
CLASSES = os.path.join(BUILD, "classes")
TLA = "/opt/veriftools/tla"
JARS = [TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]
CORES = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Stop(Exception):
    """A stage has found a violation: the stages after it are not needed for the answer"""


def log(*a):
    print(*a, flush=True)


def src_hash():
    h = hashlib.sha256()
    for base in ("src",):
        for dp, dn, fn in os.walk(os.path.join(REPO, base)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update(os.path.relpath(p, REPO).encode())
                h.update(open(p, "rb").read())
    for f in ("Cargo.toml",):
        h.update(open(os.path.join(REPO, f), "rb").read())
    return h.hexdigest()[:16]


def build_harness():
    """Returns (path of the harness binary, whether it has access to internals)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = src_hash()
        errs = []
        for full in (True, False):
            env = dict(os.environ)
            # The hash makes cargo rebuild whenever the sources differ, whatever their mtimes say
            env["RUSTFLAGS"] = "-Awarnings --cfg uflow_verif --cfg uflow_src=\"%s\"%s" % (h, "" if full else " --cfg uflow_verif_min")
            env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
            env["CARGO_NET_OFFLINE"] = "true"
            cmd = ["cargo", "build", "--offline", "--locked", "-q"] + ([] if full else ["--no-default-features"])
            r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, capture_output=True, text=True)
            if r.returncode == 0:
                b = os.path.join(BUILD, "uvh-%s-%d" % (h, full))
                for old in glob.glob(os.path.join(BUILD, "uvh-*")):
                    if old != b:
                        os.unlink(old)
                shutil.copy2(os.path.join(BUILD, "target/debug/uvh"), b)
                return b, full
            errs.append(r.stderr[-3000:])
        raise ToolError("harness does not build:\n" + "\n----\n".join(errs))


def build_classes():
    srcs = sorted(glob.glob(os.path.join(SPEC, "java", "*.java")))
    if not srcs:
        return
    os.makedirs(CLASSES, exist_ok=True)
    stamp = os.path.join(CLASSES, "stamp")
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == h:
        return
    r = subprocess.run(["javac", "-cp", ":".join(JARS), "-d", CLASSES] + srcs, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("javac: " + r.stderr[-2000:])
    open(stamp, "w").write(h)


def java_cmd(mem, props=()):
    return ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx%dm" % mem] + list(props) + ["-cp", ":".join([CLASSES] + JARS), "tlc2.TLC"]


class Tlc:
    """One TLC process"""

    def __init__(self, name, module, cfg, env, workers, mem, args=()):
        self.name = name
        self.meta = os.path.join(OUT, "tlc", "%s-%d" % (name.replace("/", "_").replace(" ", "_"), os.getpid()))
        shutil.rmtree(self.meta, ignore_errors=True)
        os.makedirs(self.meta)
        self.outf = os.path.join(self.meta, "out.txt")
        cmd = java_cmd(mem, ["-Djava.io.tmpdir=" + self.meta]) + ["-workers", str(workers), "-metadir", self.meta + "/m", "-noGenerateSpecTE", "-lncheck", "final",
                               "-config", cfg] + list(args) + [module]
        e = dict(os.environ)
        e.update(env)
        self.t0 = time.time()
        self.p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=open(self.outf, "w"), stderr=subprocess.STDOUT)

    def wait(self, timeout):
        try:
            self.p.wait(timeout=max(1, timeout))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise ToolError("TLC timed out: " + self.name)
        self.wall = time.time() - self.t0
        self.text = open(self.outf, errors="replace").read()
        m = re.search(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found, (\d[\d,]*) states left", self.text)
        ms = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", self.text)
        self.generated, self.distinct, self.left = (int(x) for x in ms[-1]) if ms else (0, 0, -1)
        self.ok = "Model checking completed. No error has been found." in self.text
        self.invariant = None
        m = re.search(r"Error: Invariant (\S+) is violated", self.text)
        if m:
            self.invariant = m.group(1)
        if re.search(r"Error: (Temporal properties were violated|Action property .* is violated)", self.text):
            self.invariant = "temporal"
        shutil.rmtree(self.meta + "/m", ignore_errors=True)
        return self

    def last_state(self):
        """The final state of the error trace, as text"""
        i = max(self.text.rfind("\nState "), self.text.find("is violated by the initial state"))
        j = self.text.find("states generated", i)
        s = self.text[i:j if j > 0 else None]
        return s.strip().rsplit("\n\n", 1)[0].strip()

    def tail(self):
        k = self.text.find("Error:")
        return self.text[k:k + 3000] if k >= 0 else self.text[-3000:]


def cleanup():
    shutil.rmtree(os.path.join(OUT, "tlc"), ignore_errors=True)
    shutil.rmtree(os.path.join(OUT, "traces"), ignore_errors=True)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.deadline = self.t0 + (600 if tier == "quick" else 850)
        self.states = self.transitions = self.traces = self.events = 0
        self.cov = {"stages": [], "events": {}}
        self.samples = []
        self.known = []
        self.violations = []
        self.bin, self.full = build_harness()
        build_classes()
        self.build_s = time.time() - self.t0
        os.makedirs(os.path.join(OUT, "traces"), exist_ok=True)
        os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)

    def left(self):
        return self.deadline - time.time()

    def tmp(self, name):
        return os.path.join(OUT, "traces", "%s-%s-%d.ndjson" % (self.prop, name, os.getpid()))

    def harness(self, name, args, timeout=300):
        """Runs the harness; returns (lines, None) or (None, how it died)"""
        out = self.tmp(name)
        cmd = [self.bin] + args + ["--seed", str(self.seed), "--threads", str(CORES), "--out", out]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=min(timeout, self.left()))
        except subprocess.TimeoutExpired:
            raise ToolError("harness timed out: " + " ".join(cmd))
        if r.returncode != 0:
            if r.returncode == 2:
                raise ToolError("harness: " + r.stderr[-2000:])
            return None, "exit %d: %s" % (r.returncode, r.stderr[-1500:])
        lines = [l for l in open(out, errors="replace").read().split("\n") if l]
        os.unlink(out)
        return lines, None

    def judge(self, name, lines, module, cfg=None, shards=4, env=None, prop=None):
        """Has TLC judge recorded traces; returns the list of (line, alias text) which violate"""
        if not lines:
            raise ToolError("no traces recorded by stage " + name)
        cfg = cfg or module
        shards = max(1, min(shards, len(lines), CORES))
        # balance by size
        order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
        groups = [[] for _ in range(shards)]
        size = [0] * shards
        for i in order:
            k = size.index(min(size))
            groups[k].append(i)
            size[k] += len(lines[i])
        procs = []
        for k, g in enumerate(groups):
            f = self.tmp("%s-%d" % (name, k))
            open(f, "w").write("".join(lines[i] + "\n" for i in g))
            e = {"TRACES": f, "PROP": prop or self.prop}
            e.update(env or {})
            procs.append((Tlc("%s-%s-%d" % (self.prop, name, k), module + ".tla", cfg + ".cfg", e, max(1, CORES // shards), 24000 // shards), g, f))
        bad, errs = [], []
        for t, g, f in procs:
            # Once a violation is known, the other shards only add to it
            try:
                t.wait(min(self.left(), 60) if bad else self.left())
            except ToolError as e:
                errs.append(e)
                continue
            finally:
                os.unlink(f)
            self.states += t.distinct
            self.transitions += max(0, t.generated - len(g))
            if t.invariant:
                st = t.last_state()
                m = re.search(r"tid\w* = (\d+)", st)
                idx = g[int(m.group(1)) - 1] if m else None
                bad.append((lines[idx] if idx is not None else "", st))
            elif not t.ok:
                errs.append(ToolError("TLC failed on stage %s:\n%s" % (name, t.tail())))
            else:
                # every event of every trace must have been consumed
                want = sum(n_events(lines[i]) + 1 for i in g)
                if t.distinct != want:
                    errs.append(ToolError("stage %s: %d states, expected %d" % (name, t.distinct, want)))
        if errs and not bad:
            raise errs[0]
        return bad

    def trace_stage(self, name, args, module, cfg=None, shards=4, sample=True, env=None, crash_is_violation=True):
        t0 = time.time()
        lines, died = self.harness(name, args)
        if died:
            if crash_is_violation:
                self.violation(name, {"harness": args, "died": died}, "the process running the code under test died: " + died[:300])
                raise Stop()
            raise ToolError("harness died: " + died)
        t1 = time.time()
        kinds = {}
        for l in lines:
            for k in re.findall(r'"e":"(\w+)"', l):
                kinds[k] = kinds.get(k, 0) + 1
        bad = self.judge(name, lines, module, cfg, shards, env)
        self.traces += len(lines)
        for k, n in kinds.items():
            self.cov["events"][k] = self.cov["events"].get(k, 0) + n
        self.events += sum(kinds.values())
        self.cov["stages"].append({"stage": name, "kind": "trace validation", "module": module, "harness": " ".join(args), "traces": len(lines),
                                   "events": sum(kinds.values()), "record_s": round(t1 - t0, 1), "judge_s": round(time.time() - t1, 1)})
        if sample and lines:
            self.samples.append("%s: %s" % (name, shorten(lines[len(lines) // 2])))
        for line, st in bad:
            self.violation(name, {"harness": args, "trace": line, "state": st}, st.replace("\n", " ")[-400:])
        if bad:
            raise Stop()

    def known_stage(self, key, name, args, module, prop):
        """Traces of a recorded finding: its violations (property name `prop` in the observer) are reported as known, if listed"""
        listed = None
        for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=%s key=%s (.*)" % (self.prop, key), l.strip())
            if m:
                listed = m.group(1)
        t0 = time.time()
        lines, died = self.harness(name, args)
        if died:
            self.violation(name, {"harness": args, "died": died}, "the process running the code under test died: " + died[:300])
            return
        bad = self.judge(name, lines, module, shards=1, prop=prop)
        self.traces += len(lines)
        self.cov["stages"].append({"stage": name, "kind": "recorded finding", "module": module, "harness": " ".join(args), "traces": len(lines),
                                   "failing": len(bad), "wall_s": round(time.time() - t0, 1)})
        if bad and listed:
            self.known.append(listed)
        elif bad:
            for line, st in bad:
                self.violation(name, {"harness": args, "trace": line, "state": st}, st.replace("\n", " ")[-400:])

    def model_stage(self, name, module, cfg=None, workers=CORES, env=None, args=(), mem=12000):
        """Exhaustive check of a design specification (independent of the code)"""
        t = Tlc("%s-%s" % (self.prop, name), module + ".tla", (cfg or module) + ".cfg", env or {}, workers, mem, args).wait(self.left())
        if not t.ok:
            raise ToolError("design specification %s fails:\n%s" % (cfg or module, t.tail()))
        self.states += t.distinct
        self.transitions += t.generated
        self.cov["stages"].append({"stage": name, "kind": "model checking", "module": module, "cfg": cfg or module, "states": t.distinct,
                                   "transitions": t.generated, "wall_s": round(t.wall, 1)})

    def export(self, name, module, cfg, simulate=None, depth=100):
        """Behaviours of a specification, printed by its Export operator; they are replayed into the code"""
        # The workers of a simulation draw from generators of their own: the behaviours depend on the seed only
        args = ["-simulate", "num=%d" % -(-simulate // 8), "-depth", str(depth), "-seed", str(self.seed)] if simulate else []
        t = Tlc("%s-%s" % (self.prop, name), module + ".tla", cfg + ".cfg", {}, 8 if simulate else 1, 8000, args).wait(self.left())
        if t.invariant or not (t.ok or (simulate and "Finished in" in t.text and "Error:" not in t.text)):
            raise ToolError("exporting behaviours of %s failed:\n%s" % (cfg, t.tail()))
        b = sorted(l[4:-1].replace('\\"', '') for l in t.text.split("\n") if l.startswith('"@@ '))
        ms = re.search(r"The number of states generated: (\d+)", t.text)
        if simulate and ms:
            t.generated = t.distinct = int(ms.group(1))
        if not b:
            raise ToolError("%s exported no behaviour" % cfg)
        self.states += t.distinct
        self.transitions += t.generated
        self.cov["stages"].append({"stage": name, "kind": "behaviours of the specification", "module": module, "cfg": cfg, "behaviours": len(b),
                                   "states": t.distinct, "wall_s": round(t.wall, 1)})
        return b

    def replay_stage(self, name, sub, behaviours, module, first=0, shards=4):
        """Replays behaviours of a specification into the real code; the recorded traces are judged"""
        f = self.tmp(name + "-in")
        open(f, "w").write("".join(b + "\n" for b in behaviours))
        self.trace_stage(name, [sub, "--in", f, "--first", str(first)], module, shards=shards)
        os.unlink(f)

    def violation(self, stage, detail, text):
        path = os.path.join(OUT, "replay", "%s-%s-%d.json" % (self.prop, stage, len(self.violations)))
        detail["property"] = self.prop
        detail["stage"] = stage
        detail["seed"] = self.seed
        json.dump(detail, open(path, "w"), indent=1)
        self.violations.append((path, text))

    def finish(self):
        wall = time.time() - self.t0
        self.cov["build_s"] = round(self.build_s, 1)
        self.cov["internals_reachable"] = self.full
        self.cov.update({"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                         "samples": self.samples[:8] or ["none"]})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov,
              "wall_s": round(wall, 2), "known_findings": self.known, "violations": len(self.violations),
              "violation_details": [v[1][:300] for v in self.violations]}
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1)
        for k in self.known:
            log("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            for path, text in self.violations[:5]:
                log("  " + text)
            log("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][0]))
            return 1
        log("%s %s: held on everything explored (%d states, %d traces of the real code, %d events, %.1f s)" %
            (self.prop, self.tier, self.states, self.traces, self.events, wall))
        return 0


def n_events(line):
    return line.count('{"e":"')


def shorten(line):
    d = json.loads(line)
    ev = d.get("ev", [])
    head = {k: v for k, v in d.items() if k not in ("ev", "pk")}
    return json.dumps({"header": head, "events": len(ev), "first": ev[:6], "last": ev[-2:]})[:900]
