"""Shared plumbing of the checks: build the harness, run it, run TLC, write evidence, report."""
import json, os, re, subprocess, sys, time, shutil, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
T0 = time.time()


def work(name):
    d = os.path.join(VERIF, "work", name)
    os.makedirs(d, exist_ok=True)
    return d


class ToolError(Exception):
    pass


def tool_fail(msg):
    print("TOOL ERROR: " + msg, flush=True)
    sys.exit(2)


def build_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], stdout=subprocess.PIPE).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode()] = v.decode(errors="replace")
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_INCREMENTAL"] = "0"
    return env


def build(binary="fallh"):
    """Builds the conformance driver against /repo's working tree; returns its path."""
    t = time.time()
    env = build_env()
    r = subprocess.run(["cargo", "build", "--offline", "--bin", binary], cwd=os.path.join(VERIF, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        out = r.stdout.decode(errors="replace")
        sys.stdout.write(out[max(0, out.find("\nerror")):][:6000])
        tool_fail("the conformance driver does not build")
    print("[build %.1fs]" % (time.time() - t), flush=True)
    return os.path.join(TARGET, "debug", binary)


def run_cases(binary, cmd, cases, workers=8, case_timeout=20, env=None):
    """Runs the driver over the cases (JSON values), several processes; returns results in order."""
    if not cases:
        return []
    workers = max(1, min(workers, len(cases)))
    e = dict(os.environ)
    e["CASE_TIMEOUT"] = str(case_timeout)
    e["RUST_BACKTRACE"] = "0"
    if env:
        e.update(env)
    chunks = [cases[i::workers] for i in range(workers)]
    import threading
    res = [None] * workers

    def go(w):
        todo = chunks[w]
        out = []
        # a driver that dies (stack overflow, abort) loses one case: record it and go on
        while len(out) < len(todo):
            data = "\n".join(json.dumps(c) for c in todo[len(out):]) + "\n"
            p = subprocess.Popen(["bash", "-c", 'ulimit -v 12000000; exec "$0" "$@"', binary, cmd],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)
            so, _ = p.communicate(data.encode())
            got = []
            for l in so.decode(errors="replace").split("\n"):
                if l.strip():
                    try:
                        got.append(json.loads(l))
                    except ValueError:
                        break
            out += got
            if len(out) < len(todo):
                out.append({"abort": p.returncode})
        res[w] = out[:len(todo)]
    ths = [threading.Thread(target=go, args=(w,)) for w in range(workers)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    out = [None] * len(cases)
    for w in range(workers):
        for k, v in enumerate(res[w]):
            out[w + k * workers] = v
    return out


CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Tlc:
    """Result of a TLC run."""
    def __init__(self, code, out, wall):
        self.code, self.out, self.wall = code, out, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.violated = None
        m = re.search(r"Invariant (\S+) is violated", out) or re.search(r"Action property (\S+) is violated", out) \
            or re.search(r"Temporal properties were violated", out)
        if m:
            self.violated = m.group(1) if m.groups() else "temporal"
        if "The following behavior constitutes a counter-example" in out and not self.violated:
            self.violated = "behavior"
        if "Deadlock reached" in out:
            self.violated = "deadlock"
        m = re.search(r"postcondition.*(violated|false)", out, re.I)
        if m and not self.violated:
            self.violated = "postcondition"
        self.ok = code == 0 and "Model checking completed. No error has been found." in out

    def last_state(self):
        """variables of the last state of the counterexample, as text"""
        parts = re.split(r"\nState \d+:|is violated by the initial state:", self.out)
        if len(parts) < 2:
            return {}
        s = parts[-1].split("\n\n")[0]
        return dict((a, b.strip()) for a, b in re.findall(r"/\\ (\w+) = ((?:.|\n(?!/\\))*)", s))

    def printed(self, tag):
        return [json.loads(json.loads('"' + x + '"')) for x in
                re.findall(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % tag, self.out)]


def tlc(module, cfg=None, env=None, workers=8, timeout=600, extra=(), heap="6g", stack="64m", simulate=None, dirname=None):
    d = dirname or work("tlc_" + module + "_" + str(os.getpid()))
    e = dict(os.environ)
    if env:
        e.update(env)
    meta = os.path.join(d, "meta_" + module + "_" + str(time.time_ns()))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg")]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, code = r.stdout.decode(errors="replace"), r.returncode
    except subprocess.TimeoutExpired as x:
        out, code = (x.stdout or b"").decode(errors="replace"), -1
    shutil.rmtree(meta, ignore_errors=True)
    res = Tlc(code, out, time.time() - t)
    return res


def tlc_or_die(res, what):
    """A TLC run that neither passed nor found a violation is an error of the check."""
    if not res.ok and not res.violated:
        sys.stdout.write(res.out[-5000:])
        tool_fail("TLC failed on %s (exit %s)" % (what, res.code))
    return res


def write_ndjson(path, items):
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x) + "\n")


class Report:
    """Collects what a check covered; writes the evidence and ends the process."""
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = load_known(prop)
        self.seen_known = []

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def tlc(self, res, traces=0):
        self.cov["states"] += res.distinct
        self.cov["transitions"] += max(0, res.generated)
        self.cov["traces_validated_against_impl"] += traces

    def sample(self, x, cap=4):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(x)

    def violation(self, what, replay):
        d = os.path.join(VERIF, "work", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as f:
            json.dump(replay, f, indent=1, ensure_ascii=False, default=str)
        self.violations.append(what)
        print(what)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def known_finding(self, what):
        if what not in self.seen_known:
            self.seen_known.append(what)
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        print("%s: %s, %d violation(s), %.1fs" % (self.prop, ev["tier"], len(self.violations), ev["wall_s"]), flush=True)
        sys.exit(1 if self.violations else 0)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("known", []) if k["property"] == prop]
