"""Shared machinery of the checks: build, run sessions on the real code, run TLC, report."""
from concurrent.futures import ThreadPoolExecutor
import json, os, random, re, shutil, subprocess, sys, tempfile, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The machinery failed: no verdict (exit 2)."""


def dumps(o):
    return json.dumps(o, separators=(",", ":"))


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
        self.nrng = 0
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"uwh-{pid}-")
        self.states = self.transitions = self.traces = 0
        self.models, self.samples, self.kinds = [], [], {}
        self.violations = []
        self.assumptions = []
        self.extra = {}
        self.known = load_known(pid)
        self.known_seen = []
        self.uwh = None
        self.nfile = 0

    @property
    def rng(self):
        """A new generator at each use, so that no group of sessions depends on the size of another one."""
        self.nrng += 1
        return random.Random(f"{self.pid}/{self.seed}/{self.nrng}")

    def quick(self):
        return self.tier == "quick"

    def pick(self, q, t):
        return q if self.tier == "quick" else t

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def path(self, name):
        self.nfile += 1
        return os.path.join(self.work, f"{self.nfile:03d}-{name}")

    # ---- real code ---------------------------------------------------------------------------
    def build(self, *features):
        os.makedirs(TARGET, exist_ok=True)
        with open(os.path.join(TARGET, ".uwh-lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
            env.pop("RUSTFLAGS", None)
            manifest = os.path.join(VERIF, "harness", "Cargo.toml")
            if os.path.isdir(os.path.join(TARGET, "debug")):
                # Never trust time stamps for the code under test.
                subprocess.run(["cargo", "clean", "--offline", "--manifest-path", manifest, "-p", "uwuhi", "-p",
                                "uwuhi-async", "-p", "uwh"], env=env, capture_output=True)
            r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", manifest,
                                "--features", ",".join(features)], env=env,
                               capture_output=True, text=True)
            if r.returncode != 0:
                raise ToolError("harness does not build:\n" + r.stderr[-4000:])
            self.uwh = os.path.join(self.work, "uwh")
            shutil.copy2(os.path.join(TARGET, "debug", "uwh"), self.uwh)
        self.log("built harness from", REPO)

    def run_sessions(self, sessions, label, shards=1):
        """Executes sessions on the real code; returns the sessions with their events."""
        if shards > 1:
            n = -(-len(sessions) // shards)
            parts = [sessions[i:i + n] for i in range(0, len(sessions), n)]
            with ThreadPoolExecutor(len(parts)) as ex:
                res = list(ex.map(lambda a: self.run_sessions(a[1], f"{label}.{a[0]}"), enumerate(parts)))
            trace = self.path(label + ".trace")
            with open(trace, "w") as f:
                for _, p in res:
                    f.write(open(p).read())
            return sum((o for o, _ in res), []), trace
        label = label.replace(" ", "_").replace("^", "")
        script, trace, progress = (self.path(label + x) for x in (".script", ".trace", ".progress"))
        with open(script, "w") as f:
            for s in sessions:
                f.write(dumps(s) + "\n")
        first, lost = 0, 0
        while True:
            try:
                r = subprocess.run([self.uwh, "run", script, trace, progress, str(first)], capture_output=True,
                                   text=True, timeout=600)
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                rc, err = 77, "timeout"
            if rc == 0:
                break
            if rc == 2:
                raise ToolError("harness: " + err[-2000:])
            # abort, stack overflow, out of memory, hang: an observation about the session that was running
            k = open(progress).read().strip()
            if not k.isdigit():
                raise ToolError(f"harness ended with {rc} outside a session: {err[-2000:]}")
            k = int(k)
            with open(trace, "a") as f:
                f.write(dumps(dict(sessions[k], ev=[{"op": "hang" if rc == 77 else "abort", "m": err[-300:]}])) + "\n")
            first, lost = k + 1, lost + 1
            if lost >= 3:
                self.log(f"{label}: giving up after {lost} aborted sessions")
                break
        out = [json.loads(x) for x in open(trace)]
        if lost < 3 and len(out) != len(sessions):
            raise ToolError(f"{len(out)} of {len(sessions)} sessions recorded")
        return out, trace

    # ---- TLC ---------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, args=(), timeout=900, workers=8, heap="6g"):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", f"-Xmx{heap}", "-Xss512m", "-XX:+UseParallelGC", "-cp", JAVA_CP, "tlc2.TLC", "-workers",
               str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module]
        log = os.path.join(meta, "out")
        try:
            # A file, not a pipe: TLC prints much faster into it.
            with open(log, "wb") as f:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            return r.returncode, open(log, errors="replace").read()
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timeout on {module} {cfg}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)

    @staticmethod
    def stats(out):
        m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out[-20000:], re.M)
        if not m:
            return 0, 0
        return tuple(int(x.replace(",", "")) for x in m[-1])

    def model(self, module, cfg, env=None, args=(), timeout=900, note="", workers=8):
        """Model checks the specification itself. It does not depend on the code: a failure is ours."""
        t = time.time()
        rc, out = self.tlc(module, cfg, env, args, timeout, workers)
        if rc != 0:
            raise ToolError(f"model checking {module} with {cfg} failed (rc {rc}):\n" + out[-5000:])
        gen, dist = self.stats(out)
        if "-simulate" in args:
            m = re.findall(r"([\d,]+) states (?:checked|generated)", out[-5000:])
            gen = int(m[-1].replace(",", "")) if m else 0
            dist = 0
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": cfg, "states": dist, "transitions": gen, "note": note})
        self.log(f"model {module}/{cfg}: {dist} states, {gen} transitions, {time.time() - t:.1f}s")
        return out

    def generate(self, module, cfg, env=None, args=(), timeout=900, workers=8, note="", limit=None):
        """Runs a model with GEN=1; returns (a sample of) the JSON scripts it prints."""
        out = self.model(module, cfg, dict(env or {}, GEN=1), args, timeout, note or "generates scripts", workers)
        # Workers print concurrently: restore a fixed order and drop lines that ran into each other.
        lines = sorted(set(re.findall(r'^<<"SCRIPT", "(.*)">>$', out, re.M)))
        if limit and len(lines) > limit:
            lines = self.rng.sample(lines, limit)
        res, torn = [], 0
        for x in lines:
            try:
                res.append(json.loads(x.replace('\\"', '"').replace("\\\\", "\\")))
            except ValueError:
                torn += 1
        if torn * 100 > len(lines):
            raise ToolError(f"{torn} of {len(lines)} scripts of {module} are unreadable")
        return res

    PART = 48 << 20

    def parts(self, trace):
        """Splits a large trace file so that TLC can hold each part."""
        if os.path.getsize(trace) <= self.PART:
            return [trace]
        res, size, f = [], 0, None
        for line in open(trace):
            if f is None or size + len(line) > self.PART:
                if f:
                    f.close()
                res.append(f"{trace}.{len(res)}")
                f, size = open(res[-1], "w"), 0
            f.write(line)
            size += len(line)
        f.close()
        return res

    def validate(self, module, sessions, label, env=None, prop=None, cfg=None, shards=1):
        """Runs sessions on the code and validates the recorded traces against a trace specification."""
        if not sessions:
            return
        self.kinds[label] = self.kinds.get(label, 0) + len(sessions)
        t = time.time()
        out, trace = self.run_sessions(sessions, label, shards)
        t1 = time.time() - t
        e = dict(env or {}, PROP=prop or self.pid, DIAG="0")
        acc, gen, dist, base = set(), 0, 0, 0
        for part in self.parts(trace):
            rc, txt = self.tlc(module, cfg or module + ".cfg", dict(e, TRACE=part))
            if rc != 0:
                raise ToolError(f"trace validation {module} of {label} failed (rc {rc}):\n" + txt[-5000:])
            g, d = self.stats(txt)
            gen, dist = gen + g, dist + d
            acc |= {base + int(x) for x in re.findall(r'^<<"ACCEPT", (\d+)>>$', txt, re.M)}
            base += sum(1 for _ in open(part))
        rej = [i for i in range(len(out)) if i + 1 not in acc]
        self.states += dist
        self.transitions += gen
        self.traces += len(out) - len(rej)
        self.log(f"{label}: {len(out)} sessions run in {t1:.1f}s, validated in {time.time() - t - t1:.1f}s "
                 f"({dist} states), {len(rej)} rejected")
        if out and len(self.samples) < 6:
            self.samples.append(shorten(out[min(len(out) - 1, 1)], label))
        before = len(self.violations)
        for n, i in enumerate(rej):
            if len(self.violations) - before >= 5:
                self.log(f"{len(rej) - n} more rejected sessions of {label}")
                break
            self.reject(module, out[i], label, e, cfg)
        return out

    def reject(self, module, sess, label, env, cfg):
        f = self.path("reject.trace")
        with open(f, "w") as h:
            h.write(dumps(sess) + "\n")
        rc, txt = self.tlc(module, cfg or module + ".cfg", dict(env, TRACE=f, DIAG="1"), workers=1)
        if rc != 0:
            raise ToolError(f"trace validation {module} of one session of {label} failed (rc {rc}):\n" + txt[-5000:])
        if re.search(r'^<<"ACCEPT", 1>>$', txt, re.M):
            # Only the line that said so got lost among the output of eight workers.
            self.traces += 1
            return
        ls = [int(x) for x in re.findall(r'^<<"AT", 1, (\d+)>>', txt, re.M)]
        at = max(ls, default=0)  # events explained
        evs = sess.get("ev", [])
        bad = evs[at] if at < len(evs) else {"op": "end of session"}
        for k in self.known:
            if known_matches(k, sess, bad):
                if k["id"] not in self.known_seen:
                    self.known_seen.append(k["id"])
                return
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        p = os.path.join(VERIF, "replays", f"{self.pid}-{len(self.violations) + 1}.json")
        with open(p, "w") as h:
            json.dump({"property": self.pid, "group": label, "module": module, "unexplained_event": at + 1,
                       "event": bad, "session": sess}, h)
        self.violations.append({"replay": p, "group": label, "event": at + 1})
        print(f"{label}: event {at + 1} of the session is no behaviour of {module}: {dumps(bad)[:600]}")
        print(f"VIOLATION property={self.pid} replay={p}", flush=True)

    # ---- result ------------------------------------------------------------------------------
    def finish(self):
        for k in self.known:
            if k["id"] in self.known_seen:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": dict({
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples or ["none"],
                "models": self.models, "sessions_per_group": self.kinds,
            }, **self.extra),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.cleanup()
        self.log(f"{self.traces} traces validated, {len(self.violations)} violations")
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def shorten(s, label):
    t = dumps({k: v for k, v in s.items()})
    return {"group": label, "session": t if len(t) < 1500 else t[:1500] + "..."}


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def known_matches(k, sess, bad):
    """A finding is identified by the kind of session, the event and a text in it, and a predicate on the input."""
    m = k["match"]
    if sess.get("k") != m["kind"] or m["text"] not in dumps(bad):
        return False
    return INPUTS[m["input"]](sess)


def has_long_string(sess):
    """Some TXT character string handed to the encoder or advertiser exceeds 255 bytes."""
    for op in sess.get("ops", []):
        for x in op.get("fl", []) + op.get("x", []) + op.get("rec", {}).get("x", []):
            if len(x) > 255:
                return True
    return False


def has_long_data(sess):
    """Some record handed to the encoder has record data longer than 65535 bytes."""
    return any(sum(1 + len(x) for x in op.get("rec", {}).get("x", [])) > 65535 for op in sess.get("ops", []))


INPUTS = {"long_character_string": has_long_string, "long_record_data": has_long_data}
