"""Shared machinery: build the harness, run TLC, replay behaviours, report."""
import json, os, random, re, resource, selectors, shutil, subprocess, sys, tempfile, threading, time, fcntl, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")
NPROC = os.cpu_count() or 4


class ToolError(Exception):
    """The check itself could not run (never a verdict on the code)."""


# ----------------------------------------------------------------- building
def build(crate="harness", binary="vh"):
    target = os.path.join(VERIF, "target")
    os.makedirs(target, exist_ok=True)
    cdir = os.path.join(VERIF, crate)
    with open(os.path.join(target, ".vlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=cdir, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise ToolError("harness build failed:\n" + p.stdout[-6000:])
    return os.path.join(target, "debug", binary)


def build_tool(package, binary):
    """One of the repository's own tools, as its own workspace builds it."""
    target = os.path.join(VERIF, "target")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".vlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet", "--manifest-path", "/repo/Cargo.toml", "-p", package],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise ToolError(package + " build failed:\n" + p.stdout[-6000:])
    return os.path.join(target, "debug", binary)


def build_dmdoc():
    return build_tool("dmdoc", "dmdoc")


def build_mtool():
    return build_tool("dmm-tools-cli", "dmm-tools")


# ------------------------------------------------------------------ replays
def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Worker:
    """One harness process; restarted when the code under test kills it."""

    def __init__(self, binary, timeout, tmp=None):
        self.binary, self.timeout, self.p = binary, timeout, None
        self.env = dict(os.environ, TMPDIR=tmp) if tmp else None

    def start(self):
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, preexec_fn=_limits, env=self.env)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close(); self.p.stdout.close()
            self.p = None

    def run(self, lines):
        """lines: list of bytes; returns list of parsed results, same length."""
        out = []
        i = 0
        while i < len(lines):
            if self.p is None:
                self.start()
            batch = lines[i:i + 256]
            t = threading.Thread(target=self._feed, args=(self.p, batch), daemon=True)
            t.start()
            got = 0
            fd = self.p.stdout.fileno()
            sel = selectors.DefaultSelector(); sel.register(fd, selectors.EVENT_READ)
            failed = None
            while got < len(batch):
                nl = self.buf.find(b"\n")
                if nl >= 0:
                    out.append(json.loads(self.buf[:nl])); self.buf = self.buf[nl + 1:]
                    got += 1
                    continue
                if not sel.select(self.timeout):
                    failed = {"hang": f"no answer within {self.timeout}s"}; break
                data = os.read(fd, 1 << 20)
                if not data:
                    failed = {"crash": "process died (abort, stack overflow or out of memory)"}; break
                self.buf += data
            sel.close()
            i += got
            if failed:
                self.stop(); t.join()
                out.append(failed); i += 1
            else:
                t.join()
        return out

    @staticmethod
    def _feed(p, batch):
        try:
            p.stdin.write(b"".join(batch)); p.stdin.flush()
        except (OSError, ValueError):
            pass


def replay(binary, cases, timeout=20, workers=NPROC):
    """Run every case in the harness; returns the list of observations."""
    if not cases:
        return []
    lines = [json.dumps(c, separators=(",", ":")).encode() + b"\n" for c in cases]
    n = max(1, min(workers, (len(lines) + 63) // 64))
    res = [None] * n
    err = []
    step = (len(lines) + n - 1) // n
    tmp = tempfile.mkdtemp(prefix="vh-run-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)

    def go(k):
        w = Worker(binary, timeout, tmp)
        try:
            res[k] = w.run(lines[k * step:(k + 1) * step])
        except Exception as e:  # noqa
            err.append(e)
        finally:
            w.stop()
    ts = [threading.Thread(target=go, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(tmp, ignore_errors=True)
    if err:
        raise ToolError(f"harness driver failed: {err[0]!r}")
    out = [r for part in res for r in part]
    if len(out) != len(cases):
        raise ToolError("harness answered a different number of cases")
    for r in out:
        if isinstance(r, dict) and "harness_error" in r:
            raise ToolError("harness: " + str(r["harness_error"]))
    return out


# ---------------------------------------------------------------------- TLC
def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_value(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_value(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla_value(x)}" for k, x in v.items()) + "]"
    raise TypeError(v)


class Tlc:
    def __init__(self):
        self.states = self.transitions = 0
        self.runs = []


def run_tlc(module, constants, cases=None, init="Init", next_="Next", invariants=("Inv",), properties=(),
            timeout=840, workers=NPROC, heap="10g", constraint=None, simulate=None, depth=None, seed=None,
            spec=None, view=None, coverage=False):
    """Run TLC on spec/<module>.tla; returns (emitted objects, stats).

    A generated wrapper module MC_<module> binds constants; `cases` (list of
    JSON values) is written as ndjson and reaches the spec through IOEnv.CASES.
    """
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    wd = tempfile.mkdtemp(prefix=f"tlc-{module}-", dir=os.path.join(VERIF, "work"))
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), wd)
        mc = f"MC_{module}"
        with open(os.path.join(wd, mc + ".tla"), "w") as f:
            f.write(f"---- MODULE {mc} ----\nEXTENDS {module}\n")
            for k, v in constants.items():
                f.write(f"const_{k} == {v if isinstance(v, Raw) else tla_value(v)}\n")
            f.write("====\n")
        with open(os.path.join(wd, mc + ".cfg"), "w") as f:
            if spec:
                f.write(f"SPECIFICATION {spec}\n")
            else:
                f.write(f"INIT {init}\nNEXT {next_}\n")
            if constants:
                f.write("CONSTANTS\n")
                for k in constants:
                    f.write(f"  {k} <- const_{k}\n")
            for i in invariants:
                f.write(f"INVARIANT {i}\n")
            for i in properties:
                f.write(f"PROPERTY {i}\n")
            if constraint:
                f.write(f"CONSTRAINT {constraint}\n")
            if view:
                f.write(f"VIEW {view}\n")
            f.write("CHECK_DEADLOCK FALSE\n")
        env = dict(os.environ)
        env.pop("JAVA_TOOL_OPTIONS", None)
        if cases is not None:
            cp = os.path.join(wd, "cases.ndjson")
            with open(cp, "w") as f:
                for c in cases:
                    f.write(json.dumps(c) + "\n")
            env["CASES"] = cp
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={wd}", "-cp", TLA_CP, "tlc2.TLC",
               "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(wd, "meta"),
               "-config", mc + ".cfg"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 50), "-seed", str(seed or 1)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += [mc + ".tla"]
        outp = os.path.join(wd, "out.txt")
        with open(outp, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=wd, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC timed out on {module}")
        emitted, rest = [], []
        with open(outp) as f:
            for line in f:
                if line.startswith('"@@'):
                    emitted.append(json.loads(json.loads(line.strip())[2:]))
                else:
                    rest.append(line)
        text = "".join(rest)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        if p.returncode != 0 or ("No error has been found" not in text and not simulate):
            raise ToolError(f"TLC failed on {module} (exit {p.returncode}):\n" + text[-5000:])
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if simulate:
            m = re.search(r"The number of states generated: (\d+)", text)
            gen = dist = int(m.group(1)) if m else len(emitted)
        return emitted, {"module": module, "states": dist, "transitions": gen, "emitted": len(emitted), "text": text}
    finally:
        shutil.rmtree(wd, ignore_errors=True)


class Raw(str):
    """A constant given as TLA+ text rather than a Python value."""


# ------------------------------------------------------------------ reporting
class Check:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(f"{pid}-{seed}")
        self.t0 = time.time()
        self.states = self.transitions = self.replayed = 0
        self.violations = []
        self.known_hits = {}
        self.samples = []
        self.shapes = set()
        self.nontrivial = 0
        self.groups = {}
        self.assumptions = []
        self.notes = {}
        self.known = load_known(pid)
        self.quick = tier == "quick"
        self._bin = {}
        shutil.rmtree(os.path.join(VERIF, "replays", pid), ignore_errors=True)

    def binary(self, crate="harness", binary="vh"):
        key = (crate, binary)
        if key not in self._bin:
            self._bin[key] = build(crate, binary)
        return self._bin[key]

    def dmdoc(self):
        return build_dmdoc()

    def mtool(self):
        return build_mtool()

    def tlc(self, module, constants, **kw):
        em, st = run_tlc(module, constants, **kw)
        self.states += st["states"]; self.transitions += st["transitions"]
        self.groups.setdefault("tlc_runs", []).append(
            {k: st[k] for k in ("module", "states", "transitions", "emitted")})
        return em

    def replay(self, cases, **kw):
        crate = kw.pop("crate", "harness"); binary = kw.pop("bin", "vh")
        return replay(self.binary(crate, binary), cases, **kw)

    def sample(self, case, expected, observed):
        if len(self.samples) < 3:
            s = json.dumps({"case": case, "expected": expected, "observed": observed})
            if len(s) < 6000:
                self.samples.append(json.loads(s))

    def count(self, group, nontrivial, key=None):
        """Account one replayed behaviour; `key` identifies it for distinctness."""
        self.replayed += 1
        g = self.groups.setdefault("replayed", {})
        g[group] = g.get(group, 0) + 1
        if nontrivial:
            h = hashlib.blake2b(json.dumps([group, key], sort_keys=True).encode(), digest_size=8).digest()
            self.shapes.add(h)

    def fail(self, what, case, expected, observed, known_key=None):
        """Report one violation (or a listed known finding)."""
        if known_key is not None and known_key in self.known:
            self.known_hits.setdefault(known_key, 0)
            self.known_hits[known_key] += 1
            return
        d = os.path.join(VERIF, "replays", self.id)
        if len(self.violations) < 20:
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.tier}-{len(self.violations)}.json")
            with open(path, "w") as f:
                json.dump({"property": self.id, "what": what, "case": case, "expected": expected,
                           "observed": observed, "seed": self.seed}, f, indent=1)
            print(f"VIOLATION property={self.id} replay={path}  {what}"[:600], flush=True)
        self.violations.append(what)

    def finish(self, rule, exhaustive=None):
        for k, line in self.known.items():
            if self.known_hits.get(k):
                print(f"KNOWN-FINDING: property={self.id} {line}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.replayed,
               "distinct_nontrivial": len(self.shapes), "rule": rule,
               "samples": self.samples, **self.groups, **self.notes}
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            print(f"{self.id}: {len(self.violations)} violation(s), {self.replayed} behaviours replayed, "
                  f"{ev['wall_s']}s")
            return 1
        if not self.replayed:
            raise ToolError("nothing was replayed")
        print(f"{self.id}: held on {self.replayed} behaviours ({self.states} model states, {ev['wall_s']}s)")
        return 0


def load_known(pid):
    """known_findings.txt: 'known: property=<id> key=<key> <what fails>' lines."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def died(obs):
    """A crash, hang or panic of the code under test, as a short text, or None."""
    if isinstance(obs, dict):
        for k in ("panic", "crash", "hang"):
            if k in obs:
                return f"{k}: {obs[k]}"
    return None
