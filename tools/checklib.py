"""Shared machinery of all checks: build a driver against /repo, run it, run TLC, write evidence, report.

Exit codes of a check: 0 property held on everything explored, 1 VIOLATION, 2 the check itself could not decide.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
SPECS = os.path.join(VERIF, "specs")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CRATES = ["flarch", "flcrypto", "flmacro", "flmodules", "flnode"]


class CheckError(Exception):
    """The check could not reach a verdict (exit 2)."""


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=TARGET)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


def repo_hash():
    h = hashlib.sha256()
    for c in CRATES:
        for root, dirs, files in os.walk(os.path.join(REPO, c)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build(bin_name):
    """Build one driver binary against /repo's current working tree and return its path."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        e = env()
        h, stamp = repo_hash(), os.path.join(BUILD, "repo.sha256")
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old != h:
            # cargo goes by mtimes, which copies of /repo do not have to respect: drop what was built from it
            subprocess.run(["cargo", "clean", "--offline"] + sum([["-p", c] for c in CRATES], []),
                           cwd=os.path.join(VERIF, "harness"), env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = ["cargo", "build", "--offline", "--locked"] + (["--bin", bin_name] if bin_name else ["--bins"])
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            raise CheckError("the driver does not build against /repo")
        with open(stamp, "w") as f:
            f.write(h)
    return os.path.join(TARGET, "debug", bin_name) if bin_name else None


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", f"{prop}-{self.tier}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], parts=[])
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = set()
        self.assumptions = []

    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick() else thorough

    def path(self, name):
        return os.path.join(self.dir, name)

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ---- running things -------------------------------------------------------------------------
    def write(self, name, values):
        with open(self.path(name), "w") as f:
            for x in values:
                f.write(json.dumps(x) + "\n")
        return self.path(name)

    def drive(self, bin_name, args, timeout=600, must=True):
        exe = build(bin_name)
        self.log("built", bin_name)
        try:
            r = subprocess.run([exe] + [str(a) for a in args], cwd=self.dir, env=dict(env(), RUST_BACKTRACE="0"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired as ex:
            # ten times and more what it takes: the code under test hangs
            self.violation(bin_name, {"driver": bin_name, "args": [str(a) for a in args], "timeout": timeout, "output": str(ex.stdout)[-4000:]},
                           text=f"driver {bin_name} did not end within {timeout} s")
            self.finish()
        with open(self.path(f"{bin_name}.log"), "a") as f:
            f.write(r.stdout)
        if must and r.returncode in (-6, -11, -4, -8):
            # aborted (a stack overflow of the code under test, say): nothing a driver does by itself
            self.violation(bin_name, {"driver": bin_name, "args": [str(a) for a in args], "signal": -r.returncode, "output": r.stdout[-4000:]},
                           text=f"driver {bin_name} was ended by signal {-r.returncode}")
            self.finish()
        if must and r.returncode == 101:
            # a panic that reached the driver's main task: the code under test did not come up, or answered with nonsense
            self.violation(bin_name, {"driver": bin_name, "args": [str(a) for a in args], "output": r.stdout[-4000:]},
                           text=f"driver {bin_name} panicked: {r.stdout[-400:]}")
            self.finish()
        if must and r.returncode != 0:
            sys.stdout.write(r.stdout[-4000:])
            raise CheckError(f"driver {bin_name} ended with {r.returncode}")
        self.log("driver", bin_name, "done", r.returncode)
        return r

    def tlc(self, module, cfg, name, workers=8, args=(), envs=None, timeout=800, heap="6g"):
        """Run TLC; returns dict(rc, out, states, distinct, depth). rc: 0 fine, 11 deadlock, 12/13 violated."""
        work = self.path("tlc-" + name)
        os.makedirs(work, exist_ok=True)
        e = env()
        e.update(envs or {})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", work, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
        try:
            r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC {module} timed out")
        finally:
            shutil.rmtree(work, ignore_errors=True)
        with open(self.path(f"tlc-{name}.log"), "w") as f:
            f.write(r.stdout)
        m = None
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", r.stdout):
            pass
        gen = int(m.group(1).replace(",", "")) if m else 0
        dist = int(m.group(2).replace(",", "")) if m else 0
        if "-simulate" in args:
            m = None
            for m in re.finditer(r"The number of states generated: ([\d,]+)", r.stdout):
                pass
            gen = int(m.group(1).replace(",", "")) if m else 0
        self.log(f"TLC {name}: rc={r.returncode} generated={gen} distinct={dist}")
        return dict(rc=r.returncode, out=r.stdout, generated=gen, distinct=dist)

    def model_check(self, module, cfg, name, **kw):
        """Exhaustive check of the specification itself. A failure here is a defect of the model, not of the code."""
        r = self.tlc(module, cfg, name, **kw)
        if r["rc"] != 0:
            sys.stdout.write(r["out"][-3000:])
            raise CheckError(f"the specification {module} does not satisfy its own properties")
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["parts"].append(dict(part="model " + name, distinct_states=r["distinct"], generated=r["generated"], exhaustive="-simulate" not in kw.get("args", ())))
        return r

    def generate(self, module, cfg, name, num, depth, workers=1, seed_add=0, **kw):
        """Behaviours of the specification, printed by TLC as JSON lines; returns a list of behaviours."""
        r = self.tlc(module, cfg, name, workers=workers, args=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed * 1000 + seed_add)], **kw)
        if r["rc"] != 0:
            sys.stdout.write(r["out"][-3000:])
            raise CheckError(f"generating behaviours from {module} failed")
        return self.behaviours(r, name)

    def enumerate(self, module, cfg, name, **kw):
        """As generate, but all behaviours, breadth first."""
        r = self.tlc(module, cfg, name, workers=1, **kw)
        if r["rc"] != 0:
            sys.stdout.write(r["out"][-3000:])
            raise CheckError(f"enumerating behaviours from {module} failed")
        return self.behaviours(r, name)

    def behaviours(self, r, name):
        out, seen = [], set()
        for line in r["out"].splitlines():
            if line.startswith('"{') or line.startswith('"['):
                if line not in seen:
                    seen.add(line)
                    out.append(json.loads(json.loads(line)))
        if not out:
            raise CheckError("no behaviours generated")
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["parts"].append(dict(part="behaviours " + name, distinct=len(out)))
        self.log(f"{len(out)} behaviours from {name}")
        return out

    # ---- verdict --------------------------------------------------------------------------------
    def validate(self, module, cfg, traces_file, name, key=None, describe=None, workers=8, max_report=2, heap="8g", defs=None):
        """Check recorded traces (ndjson: one {"cfg":..,"steps":[..]} per line) against a trace specification.

        The trace specification has variables t (trace) and k (steps accepted), one initial state per trace, and
        deadlocks exactly when no action of the specification explains the next step. Traces that are rejected are
        removed and the rest is validated again, so that all are looked at."""
        traces = [plain(json.loads(l)) for l in open(traces_file)]
        todo = list(range(len(traces)))
        total_steps = sum(len(t["steps"]) for t in traces)
        rejected = []
        round_ = 0
        while todo:
            round_ += 1
            f = self.path(f"{name}-{round_}.ndjson")
            with open(f, "w") as fh:
                for i in todo:
                    fh.write(json.dumps(traces[i], separators=(",", ":")) + "\n")
            envs = dict(TRACES=f)
            envs.update(defs or {})
            envs.update({"KNOWN_" + k: "1" for k in self.known})
            r = self.tlc(module, cfg, f"{name}-{round_}", workers=workers, envs=envs, heap=heap)
            self.cov["transitions"] += r["generated"]
            self.cov["states"] += r["distinct"]
            self.known_hit.update(re.findall(r'^"KNOWN-HIT ([\w-]+)"', r["out"], re.M))
            if r["rc"] == 0:
                break
            ts = re.findall(r"^/\\ t = (\d+)", r["out"], re.M)
            ks = re.findall(r"^/\\ k = (\d+)", r["out"], re.M)
            if r["rc"] not in (11, 12) and not ("The error occurred when TLC was evaluating" in r["out"] and (ts or len(todo) > 1)):
                sys.stdout.write(r["out"][-3000:])
                raise CheckError(f"TLC could not evaluate the traces of {name} (rc {r['rc']})")
            if not ts and r["rc"] in (11, 12):
                sys.stdout.write(r["out"][-3000:])
                raise CheckError("TLC rejected a trace but the trace could not be identified")
            if ts:
                i, k = todo[int(ts[-1]) - 1], int(ks[-1])
            else:
                # values that the specification cannot even evaluate, and TLC did not get as far as a state: find them
                i, k = self.unreadable(module, cfg, name, traces, todo, envs, heap), 0
            why = re.findall(r'^"?WHY (.*)$', r["out"], re.M)
            # a deadlock means step k+1 is rejected, a violated invariant that step k led to a bad state
            # (and an error in the evaluation that step k+1 holds values that no step of the specification can have)
            at = k - 1 if r["rc"] == 12 else k
            rejected.append((i, at, r))
            todo.remove(i)
            if len(rejected) >= max_report:
                self.log("more than", max_report, "rejected traces, not looking at the remaining ones")
                break
        ok = len(traces) - len(rejected)
        self.cov["traces_validated_against_impl"] += ok
        distinct = len({json.dumps(t, sort_keys=True) for t in traces})
        self.cov["parts"].append(dict(part="traces " + name, traces=len(traces), distinct=distinct, steps=total_steps, accepted=ok))
        if len(self.cov["samples"]) < 6 and traces:
            self.cov["samples"].append(shorten(dict(part=name, trace=traces[0])))
        for i, at, r in rejected:
            steps = traces[i]["steps"]
            step = steps[at] if 0 <= at < len(steps) else None
            rec = dict(property=self.prop, part=name, trace_spec=module, step_index=at,
                       rejected_step=step, before=steps[at - 1] if at > 0 else None, trace=traces[i],
                       tlc_tail=r["out"][-2500:])
            self.violation(name, rec, key(step, traces[i]) if key else None,
                           describe(step, traces[i]) if describe else json.dumps(step)[:600])
        return ok, rejected

    def unreadable(self, module, cfg, name, traces, todo, envs, heap):
        """The index of a trace on which the evaluation fails by itself."""
        while len(todo) > 1:
            half = todo[:len(todo) // 2]
            f = self.path(f"{name}-half.ndjson")
            with open(f, "w") as fh:
                for i in half:
                    fh.write(json.dumps(traces[i], separators=(",", ":")) + "\n")
            r = self.tlc(module, cfg, f"{name}-half", workers=2, envs=dict(envs, TRACES=f), heap=heap)
            todo = half if r["rc"] != 0 else todo[len(half):]
        return todo[0]

    def violation(self, name, rec, key=None, text=""):
        """Report one violation, unless the known-findings file lists exactly this key."""
        if key and key in self.known:
            self.known_hit.add(key)
            return
        n = len(self.violations) + 1
        d = os.path.join(VERIF, ".build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}-{self.tier}-{name}-{n}.json")
        with open(p, "w") as f:
            json.dump(rec, f, indent=1)
        self.violations.append(p)
        self.log("VIOLATED:", text)
        print(f"VIOLATION property={self.prop} replay={p}", flush=True)

    def finish(self):
        for k in self.known:
            if k in self.known_hit:
                print(f"KNOWN-FINDING: property={self.prop} {self.known[k]}", flush=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.violations:
            self.log("OK", "states", self.cov["states"], "traces", self.cov["traces_validated_against_impl"])
            shutil.rmtree(self.dir, ignore_errors=True)
        sys.exit(1 if self.violations else 0)


def plain(o):
    """A recorded value as TLC can read it: no null, no integers beyond 32 bits (neither occurs where the code is right)."""
    if o is None:
        return "none"
    if isinstance(o, bool):
        return o
    if isinstance(o, int):
        return max(-2147483647, min(2147483647, o))
    if isinstance(o, float):
        return int(max(-2147483647, min(2147483647, o))) if o == int(o) else repr(o)
    if isinstance(o, list):
        return [plain(x) for x in o]
    if isinstance(o, dict):
        return {k: plain(v) for k, v in o.items()}
    return o


def shorten(o, n=12):
    if isinstance(o, list):
        return [shorten(x, n) for x in o[:n]] + ([f"... {len(o) - n} more"] if len(o) > n else [])
    if isinstance(o, dict):
        return {k: shorten(v, n) for k, v in o.items()}
    if isinstance(o, str) and len(o) > 200:
        return o[:200] + "..."
    return o


def load_known(prop):
    """known_findings.txt: 'KNOWN property=<id> key=<key> <text>' lines suppress exactly that key; 'fixed:' lines nothing."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def main(prop, level, body):
    c = None
    try:
        c = Check(prop, level)
        body(c)
        c.finish()
    except CheckError as e:
        print(f"CHECK-ERROR {prop}: {e}", flush=True)
        if c and c.violations:
            sys.exit(1)
        sys.exit(2)
