"""Shared machinery of all checks: building the drivers from /repo's working
tree, running TLC (exhaustive, generating, trace validating), evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Violation(Exception):
    """The code under test did something the specification does not allow."""

    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay          # dict, written to the replay file


def cargo_env():
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTC_WRAPPER", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_TARGET_DIR"] = TARGET
    return e


def build(crate):
    """Build a driver crate against /repo's working tree."""
    d = os.path.join(VERIF, "harness", crate)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--bins"], cwd=d,
                       env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise ToolError(f"driver crate {crate} does not build")
    return os.path.join(TARGET, "debug")


def _limit():
    """A driver that eats all memory is the code's fault, not the sandbox's."""
    import resource
    resource.setrlimit(resource.RLIMIT_DATA, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = 0
        self.distinct = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.parts = []
        self.assumptions = []
        self.known = []
        self.n = 0
        self.lock = threading.Lock()

    @property
    def quick(self):
        return self.tier == "quick"

    def q(self, quick, thorough):
        return quick if self.quick else thorough

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, name):
        with self.lock:
            self.n += 1
            n = self.n
        return os.path.join(self.tmp, f"{n:03d}-{name}")

    # ---- TLC -------------------------------------------------------------
    def _tlc(self, module, cfg, args, env=None, timeout=840, heap="4g", workers=1, jvm=()):
        meta = self.path("meta")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-Dfile.encoding=UTF-8",
               f"-Djava.io.tmpdir={self.tmp}", *jvm,
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
               "-workers", str(workers), "-config", cfg, *args, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    def cfg(self, template, subst=None):
        src = open(os.path.join(SPEC, template)).read()
        for k, v in (subst or {}).items():
            src = src.replace(f"@{k}@", str(v))
        p = self.path(os.path.basename(template))
        open(p, "w").write(src)
        return p

    def model_check(self, module, cfg, subst=None, expect_violation=False, timeout=840, workers=8, args=()):
        """Exhaustive run. The specification must satisfy its properties; if it
        does not, the check itself is wrong (the code is not involved)."""
        if expect_violation:
            workers = 1     # what is found first then does not depend on timing
        rc, out = self._tlc(module, self.cfg(cfg, subst), list(args), workers=workers, heap="12g", timeout=timeout)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out)
        if expect_violation:
            if "is violated" not in out and "was violated" not in out and "violated" not in out:
                sys.stdout.write(out[-4000:])
                raise ToolError(f"{module}/{cfg}: the broken variant is not refuted")
            self.parts.append(dict(kind="refuted-variant", module=module, cfg=cfg))
            return
        if rc != 0 or not m or "No error has been found" not in out:
            sys.stdout.write(out[-6000:])
            raise ToolError(f"model checking {module}/{cfg} failed")
        gen, dist, left = (int(x.replace(",", "")) for x in m.groups())
        if left:
            raise ToolError(f"{module}/{cfg}: {left} states left")
        self.states += dist
        self.distinct += dist
        self.transitions += gen
        self.parts.append(dict(kind="exhaustive", module=module, cfg=cfg, distinct_states=dist, transitions=gen))

    def generate_all(self, specs):
        """Several generation runs side by side: a list of argument dicts."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(lambda kw: self.generate(**kw), kw) for kw in specs]
            return [x for f in fs for x in f.result()]

    def generate(self, module, cfg, subst=None, num=100, depth=2000, seed=None, timeout=600, simulate=True):
        """Behaviours of the specification, as the JSON the Gen module prints."""
        args = []
        if simulate:
            args = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed if seed is None else seed)]
        rc, out = self._tlc(module, self.cfg(cfg, subst), args, timeout=timeout)
        res = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                res.append(json.loads(json.loads(line)[2:]))
        if not res or "Error:" in out:
            sys.stdout.write(out[-4000:])
            raise ToolError(f"generation from {module}/{cfg} failed")
        self.parts.append(dict(kind="generated-behaviours", module=module, cfg=cfg, behaviours=len(res)))
        return res

    def validate(self, module, cfg, trace, subst=None, timeout=840, what="", dfs=True, heap="6g"):
        """Is the recorded trace a behaviour of the specification?"""
        try:
            events = [json.loads(x) for x in open(trace, encoding="utf-8")]
        except ValueError as e:     # the drivers write nothing else unless their memory was overwritten
            raise Violation(f"{what or module}: the recording of the code under test is corrupt: {e}", dict(module=module))
        if not events:
            raise ToolError("empty trace")
        jvm = ["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []
        rc, out = self._tlc(module, self.cfg(cfg, subst), [], env={"TRACE": trace}, timeout=timeout, jvm=jvm, heap=heap)
        m = re.search(r'<<"FURTHEST", (\d+), (\d+)>>', out)
        if not m or "Error:" in out:
            sys.stdout.write(out[-6000:])
            raise ToolError(f"trace validation with {module} did not finish")
        far, last = int(m.group(1)), int(m.group(2))
        g = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", out)
        if g:
            self.states += int(g.group(2).replace(",", ""))
            self.transitions += int(g.group(1).replace(",", ""))
        if far != last + 1:
            i = far - 1     # 0-based index of the event that has no explanation
            lo = i
            while lo > 0 and events[lo].get("e") not in ("new", "reset"):
                lo -= 1
            raise Violation(f"{what or module}: event {far} of {last} cannot be explained by the specification: "
                            + json.dumps(events[min(i, last - 1)])[:600],
                            dict(module=module, cfg=cfg, event_index=far, event=events[min(i, last - 1)],
                                 history=events[lo:i + 1][-400:]))
        n = sum(1 for e in events if e.get("e") in ("new", "reset")) or 1
        self.traces += n
        self.events += len(events)
        self.parts.append(dict(kind="trace-validation", module=module, events=len(events), histories=n))
        if len(self.samples) < 4:
            self.samples.append(dict(module=module, first_events=events[:6]))
        return events

    def must_reject(self, module, cfg, events, subst=None, what="", dfs=True):
        """Self-test of the binding: a doctored trace has to be rejected."""
        p = self.write("doctored", events)
        jvm = ["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []
        rc, out = self._tlc(module, self.cfg(cfg, subst), [], env={"TRACE": p}, jvm=jvm)
        m = re.search(r'<<"FURTHEST", (\d+), (\d+)>>', out)
        if not m or "Error:" in out:
            sys.stdout.write(out[-6000:])
            raise ToolError(f"self-test with {module} did not finish")
        if int(m.group(1)) == int(m.group(2)) + 1:
            raise ToolError(f"self-test: {module} accepts a doctored trace ({what})")
        self.parts.append(dict(kind="doctored-trace-rejected", module=module, what=what))

    # ---- drivers ---------------------------------------------------------
    def drive(self, exe, args, timeout=600, env=None, what=""):
        """Run a driver. It reports panics of the code under test as events; dying
        or hanging is a violation by the code under test (the drivers catch
        everything else), except for exit code 3: a bug of the driver."""
        e = dict(os.environ)
        e["RUST_BACKTRACE"] = "0"
        e.update(env or {})
        err = self.path("stderr")
        try:
            with open(err, "w") as f:
                r = subprocess.run([exe, *map(str, args)], stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e,
                                   preexec_fn=_limit)
        except subprocess.TimeoutExpired:
            raise Violation(f"{what}: the code under test did not finish within {timeout}s",
                            dict(cmd=[exe, *map(str, args)], stderr=open(err, errors="replace").read()[-3000:]))
        if r.returncode == 3:
            sys.stdout.write(open(err, errors="replace").read()[-3000:])
            raise ToolError(f"driver failed: {exe} {args}")
        if r.returncode != 0:
            raise Violation(f"{what}: the process running the code under test died (status {r.returncode})",
                            dict(cmd=[exe, *map(str, args)], status=r.returncode,
                                 stderr=open(err, errors="replace").read()[-3000:]))

    def drive_sharded(self, exe, sub, scenarios, shards=4, what="", timeout=600, extra=()):
        """Run the scenarios in several processes side by side; the traces are
        concatenated (every history starts from scratch)."""
        from concurrent.futures import ThreadPoolExecutor
        parts = [scenarios[i::shards] for i in range(shards)]
        jobs = [(self.write("scen", p), self.path("trace")) for p in parts if p]
        with ThreadPoolExecutor(len(jobs)) as ex:
            for f in [ex.submit(self.drive, exe, [*([sub] if sub else []), a, b, *extra], timeout, None, what) for a, b in jobs]:
                f.result()
        out = self.path("trace")
        with open(out, "wb") as o:
            for _, b in jobs:
                o.write(open(b, "rb").read())
        return out

    def write(self, name, lines):
        p = self.path(name)
        with open(p, "w") as f:
            for x in lines:
                f.write(json.dumps(x) + "\n")
        return p

    # ---- result ----------------------------------------------------------
    def evidence(self, level, violations, note=""):
        os.makedirs(EVID, exist_ok=True)
        kinds = {}
        for p in self.parts:
            kinds.setdefault(p["kind"], []).append({k: v for k, v in p.items() if k != "kind"})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, events_validated=self.events,
                                samples=self.samples or [dict(note="no trace was accepted in this run")], parts=kinds),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        json.dump(ev, open(os.path.join(EVID, f"{self.prop}.json"), "w"), indent=1)


def known_findings():
    """The committed list. Lines: 'finding: property=<id> key=<key> <what fails>'
    and 'fixed: property=<id> <commit> <what failed>' (the latter suppress nothing)."""
    res = {}
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m:
            res[(m.group(1), m.group(2))] = m.group(3).strip()
    return res


def to_word(n):
    n %= 1 << 64
    return [(n >> (16 * i)) & 0xFFFF for i in range(4)]


def from_word(w):
    return sum(x << (16 * i) for i, x in enumerate(w))
