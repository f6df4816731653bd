"""Shared machinery of the checks: building harnesses, running TLC, reporting."""
import json, os, subprocess, sys, time, shutil, fcntl, hashlib, random, re, uuid
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NODE_PATH = "/opt/veriftools/node/node_modules"
os.makedirs(BUILD, exist_ok=True)


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def scratch(name):
    d = os.path.join(BUILD, "run", f"{name}-{os.getpid()}-{uuid.uuid4().hex[:6]}")
    os.makedirs(d)
    return d


def cargo_build(crate, target=None, extra=(), timeout=800):
    """Builds a harness crate against /repo's working tree; returns the target directory."""
    d = os.path.join(VERIF, "harness", crate) if not os.path.isabs(crate) else crate
    target = target or os.path.join(BUILD, os.path.basename(d))
    os.makedirs(target, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUST_BACKTRACE="0", CARGO_TERM_COLOR="never")
    with open(os.path.join(target, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", *extra], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p, target


class Tlc:
    def __init__(self, out, states, distinct, wall):
        self.out, self.states, self.distinct, self.wall = out, states, distinct, wall

    def lines(self):
        """what the specification printed with the prefix @@"""
        for l in self.out.splitlines():
            if l.startswith('"@@') and l.endswith('"'):
                yield l[3:-1].replace('\\"', '"').replace("\\\\", "\\")


def tlc(module, cfg, env=None, workers=4, args=(), timeout=600, ok=(0,), heap="3g"):
    """Runs TLC on an absolute module path; cfg is a path or the text of a configuration."""
    d = scratch("tlc")
    try:
        moddir, mod = os.path.split(module)
        if "\n" in cfg:
            p = os.path.join(d, "gen.cfg")
            open(p, "w").write(cfg)
            cfg = p
        t = time.time()
        cmd = ["timeout", str(timeout), "java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
               f"-Djava.io.tmpdir={d}", f"-DTLA-Library={moddir}:{os.path.join(SPEC, 'schema')}",
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "m"),
               "-noGenerateSpecTE", "-config", cfg, *args, mod]
        p = subprocess.run(cmd, cwd=moddir, env=dict(os.environ, **(env or {})),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode not in ok:
            raise ToolError(f"TLC exit {p.returncode} on {mod}\n" + "\n".join(
                l for l in p.stdout.splitlines() if not l.startswith('"@@'))[-6000:])
        m = None
        for m in re.finditer(r"([\d,]+) states generated(?:, ([\d,]+) distinct)?", p.stdout):
            pass
        g = lambda i: int(m.group(i).replace(",", "")) if m and m.group(i) else 0
        if not m:       # a simulation
            m = re.search(r"number of states generated: ([\d,]+)()", p.stdout)
        r = Tlc(p.stdout, g(1), g(2) or g(1), time.time() - t)
        r.rc = p.returncode
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cfg_text(spec="Spec", constants=None, invariants=(), view=None, extra=""):
    def v(x):
        if isinstance(x, bool):
            return "TRUE" if x else "FALSE"
        if isinstance(x, str):
            return f'"{x}"'
        if isinstance(x, (set, frozenset, list, tuple)):
            return "{" + ",".join(v(y) for y in (sorted(x, key=str))) + "}"
        return str(x)
    s = f"SPECIFICATION {spec}\n"
    if constants:
        s += "CONSTANTS\n" + "".join(f"  {k} = {v(x)}\n" for k, x in constants.items())
    if view:
        s += f"VIEW {view}\n"
    if invariants:
        s += "INVARIANTS " + " ".join(invariants) + "\n"
    return s + extra + "\nCHECK_DEADLOCK FALSE\n"


def parallel(fs, n=8):
    with ThreadPoolExecutor(n) as ex:
        futs = [ex.submit(f) for f in fs]
        return [f.result() for f in futs]


def maximal(hists):
    """histories (strings of ops) which are not proper prefixes of others"""
    hs = sorted(set(h.strip() for h in hists))
    pre = set()
    for h in hs:
        p = h.split()
        for i in range(len(p) - 1, 0, -1):
            q = " ".join(p[:i])
            if q in pre:
                break
            pre.add(q)
    return [h for h in hs if h not in pre]


def sample(xs, n, seed):
    xs = list(xs)
    if n is None or len(xs) <= n:
        return xs
    return random.Random(seed).sample(xs, n)


class Report:
    """Collects what a check covered and found; writes evidence and the verdict."""

    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.assumptions = []
        self.known_hit = []
        self.known = [k for k in load_known() if k["property"] == prop]

    def model(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states

    def violation(self, key, what, data):
        """key identifies the failing input, call site or history"""
        for k in self.known:
            if k["key"] == key:
                if key not in [x["key"] for x in self.known_hit]:
                    self.known_hit.append(k)
                return
        if key not in [v[0] for v in self.violations]:
            self.violations.append((key, what, data))

    def finish(self):
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        d = os.path.join(BUILD, "replays")
        os.makedirs(d, exist_ok=True)
        for i, (key, what, data) in enumerate(self.violations[:5]):
            p = os.path.join(d, f"{self.prop}-{i}.json")
            json.dump({"property": self.prop, "key": key, "what": what, "data": data},
                      open(p, "w"), indent=1, default=str)
            log(f"{self.prop}: {what} [{key}]")
            print(f"VIOLATION property={self.prop} replay={p}")
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1, default=str)
        sys.stdout.flush()
        return 1 if self.violations else 0


def load_known():
    """known_findings.txt: `finding: property=<id> key=<key> <what>` / `fixed: property=<id> <commit> <what>`"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out.append({"property": m.group(1), "key": m.group(2), "what": m.group(3).strip()})
    return out
