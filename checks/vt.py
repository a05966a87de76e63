"""Shared driver: build the harness from /repo, run TLC on the specifications, replay the generated
behaviours on the real code, compare, report."""
import fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
T0 = time.time()

class CheckError(Exception):
    pass

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ building
def harness_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". %s/harness/env.sh && env -0" % VERIF], capture_output=True, check=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode()] = v.decode()
    return env

def src_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            if "target" in ds: ds.remove("target")
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

SHADOW_OUT = ("crates/prover", "crates/cairo-m-ls", "crates/wasm")
def shadow_ws():
    """build/ws: symlinks to everything at the top of /repo and /repo's root manifest of this moment, less its
    [patch] tables and the members whose dependencies cannot be had offline; the git dependency stwo-prover is
    the field arithmetic of third_party/stwo-prover.  Lets cargo load the back-end crates of /repo."""
    ws = os.path.join(BUILD, "ws"); os.makedirs(ws, exist_ok=True)
    skip = {"Cargo.toml", "Cargo.lock", "target", ".git", ".cargo"}
    for n in os.listdir(ws):
        q = os.path.join(ws, n)
        if os.path.islink(q) and not os.path.lexists(os.path.join(REPO, n)): os.unlink(q)
    for n in os.listdir(REPO):
        q = os.path.join(ws, n)
        if n not in skip and not os.path.lexists(q): os.symlink(os.path.join(REPO, n), q)
    text = open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8").read()
    tables = re.split(r"(?m)^(?=\[[^\n]*\]\s*(?:#.*)?$)", text)
    out = "".join(t for t in tables if not re.match(r"\[+patch[.\]]", t))
    for m in SHADOW_OUT:
        out = re.sub(r'(?m)^[ \t]*"%s",?[ \t]*\n' % re.escape(m), "", out, count=1)
    out = re.sub(r'(?ms)^stwo-prover = \{.*?\}', 'stwo-prover = { path = "%s/third_party/stwo-prover" }' % VERIF, out, count=1)
    q = os.path.join(ws, "Cargo.toml")
    if not os.path.exists(q) or open(q, encoding="utf-8").read() != out:
        open(q, "w", encoding="utf-8").write(out)

def build(name, dirs=("crates",), pkgs="cairo-m"):
    """Build harness crate `name` against /repo's current tree and return its binary."""
    tdir = os.path.join(BUILD, name)
    os.makedirs(tdir, exist_ok=True)
    if name == "back": shadow_ws()
    with open(os.path.join(tdir, ".vt.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = src_hash([os.path.join(REPO, d) for d in dirs] + [os.path.join(VERIF, "harness", name)])
        stamp = os.path.join(tdir, ".vt.srchash")
        binp = os.path.join(tdir, "debug", name)
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old == h and os.path.exists(binp):
            return binp
        if old:
            # file times in a copied tree prove nothing: make cargo look at every crate of /repo again
            for p in glob.glob(os.path.join(tdir, "debug", ".fingerprint", "*")):
                b = os.path.basename(p)
                if b.startswith(("cairo-m", "cargo-cairo-m", name)):
                    shutil.rmtree(p, ignore_errors=True)
        env = harness_env()
        env["CARGO_TARGET_DIR"] = tdir
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "harness", name),
                           env=env, capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-6000:])
            raise CheckError("harness %s does not build against /repo" % name)
        open(stamp, "w").write(h)
        log("built", name)
        return binp

# ----------------------------------------------------------------------- TLC
class TlcRun:
    def __init__(self):
        self.cases = []; self.states = 0; self.transitions = 0; self.runs = []; self.actions = {}

def _tlc_start(module, cfg, args, heap, wd, tag):
    meta = os.path.join(wd, "meta-" + tag)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta,
           "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-metadir", meta, "-noTE", "-config", cfg] + args + [module]
    out = open(os.path.join(wd, tag + ".out"), "w+")
    return cmd, subprocess.Popen(cmd, cwd=SPEC, stdout=out, stderr=subprocess.STDOUT), out, meta

CASE_RE = re.compile(r'^"CASE (.*)"$')
def _tlc_collect(p, out, run, tag, cmd, timeout, dedup):
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait()
        raise CheckError("TLC timed out: " + tag)
    out.seek(0)
    ok = False; sim_states = 0; tail = []
    for line in out:
        if line.startswith('"CASE '):
            body = line.rstrip("\n")
            s = json.loads(body)[5:]
            k = hash(s)
            if k in dedup: continue
            dedup.add(k)
            run.cases.append(json.loads(s))
            continue
        tail.append(line)
        m = re.match(r"^([\d,]+) states generated, ([\d,]+) distinct states found", line)
        if m:
            run.transitions += int(m.group(1).replace(",", "")); run.states += int(m.group(2).replace(",", "")); ok = True
        m = re.match(r"^The number of states generated: ([\d,]+)", line)
        if m:
            n = int(m.group(1).replace(",", "")); run.transitions += n; run.states += n; ok = True
        m = re.match(r"^<(\w+) line .*>: (\d+):(\d+)", line)
        if m: run.actions[m.group(1)] = run.actions.get(m.group(1), 0) + int(m.group(3))
    bad = [l for l in tail if l.startswith("Error:") or "is violated" in l]
    if bad or not ok or p.returncode not in (0,):
        sys.stderr.write("".join(tail[-60:]))
        raise CheckError("TLC failed on %s (rc %s): %s" % (tag, p.returncode, (bad or ["?"])[0].strip()))
    run.runs.append({"run": tag})

def tlc(module, cfg, constants=None, mode="bfs", num=200, depth=60, procs=6, workers=4, seed=None, timeout=600, heap="3g", run=None, label=None):
    """Run TLC. mode 'bfs': exhaustive. mode 'sim': `procs` single-worker simulations (deterministic for a
    seed), `num` behaviours each."""
    run = run or TlcRun()
    wd = tempfile.mkdtemp(prefix="vt-tlc-", dir=_tmp())
    try:
        cfgp = os.path.join(SPEC, cfg)
        if constants:
            txt = open(cfgp).read()
            for k, v in constants.items():
                txt, n = re.subn(r"(?m)^(\s*%s\s*)=.*$" % re.escape(k), lambda m: m.group(1) + "= " + v, txt)
                if n != 1: raise CheckError("constant %s not in %s" % (k, cfg))
            cfgp = os.path.join(wd, "M.cfg"); open(cfgp, "w").write(txt)
        ps = []
        label = label or cfg
        if mode == "bfs":
            ps.append((label,) + _tlc_start(module, cfgp, ["-workers", str(workers)], heap, wd, "bfs"))
        else:
            for i in range(procs):
                s = (SEED if seed is None else seed) * 1000 + i
                ps.append(("%s#%d" % (label, i),) + _tlc_start(module, cfgp,
                          ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(s), "-workers", "1"], "1500m", wd, "sim%d" % i))
        ded = getattr(run, "_ded", None)
        if ded is None: ded = run._ded = set()
        for tag, cmd, p, out, meta in ps:
            _tlc_collect(p, out, run, tag, cmd, timeout, ded)
    finally:
        for x in ps if 'ps' in dir() else []:
            if x[2].poll() is None: x[2].kill()
        shutil.rmtree(wd, ignore_errors=True)
    log("TLC %s %s: %d states, %d cases so far" % (module, label, run.states, len(run.cases)))
    return run

def _tmp():
    d = os.path.join(BUILD, "tmp"); os.makedirs(d, exist_ok=True); return d

# ------------------------------------------------------------------- harness
def harness(binp, cmd, cases, timeout=600, args=(), env=None):
    inp = "\n".join(json.dumps(c) for c in cases) + "\n"
    e = dict(os.environ); e.update(env or {})
    r = None
    try:
        r = subprocess.run([binp, cmd, *args], input=inp, capture_output=True, text=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    res = [None] * len(cases)
    for l in r.stdout.splitlines():
        try: v = json.loads(l)
        except ValueError: continue
        if isinstance(v, dict) and "i" in v: res[v["i"]] = v
    if r.returncode != 0:
        return res, "exit %s: %s" % (r.returncode, r.stderr[-800:])
    return res, None

def run_cases(binp, cmd, cases, timeout=600, args=(), env=None):
    """All cases, isolating the ones that kill or hang the process: those become {'crash': why}."""
    if not cases: return []
    res, err = harness(binp, cmd, cases, timeout, args, env)
    if err is None: return res
    log("harness", cmd, err[:300])
    if res is None: res = [None] * len(cases)
    todo = [i for i, r in enumerate(res) if r is None]
    dead = [0]
    def solve(idx, tmo):
        if not idx: return
        if dead[0] >= 6:      # enough to report; do not spend the budget on more
            for i in idx: res[i] = {"crash": "the process died on an earlier case and was not restarted for this one", "i": i}
            return
        r2, e2 = harness(binp, cmd, [cases[i] for i in idx], tmo, args, env)
        if r2 is not None:
            for j, i in enumerate(idx):
                if r2[j] is not None: r2[j]["i"] = i; res[i] = r2[j]
        left = [i for i in idx if res[i] is None]
        if not left: return
        if len(idx) == 1:
            dead[0] += 1
            res[idx[0]] = {"crash": e2 or "no answer", "i": idx[0]}; return
        if len(left) < len(idx): return solve(left, tmo)
        solve(left[:len(left) // 2], max(10, tmo / 2)); solve(left[len(left) // 2:], max(10, tmo / 2))
    solve(todo, min(timeout, 60))
    return res

# ----------------------------------------------------------------- rendering
def render(toks, sep=" "):
    """Join tokens; returns the text and the start offset of each token (1-based list, index 0 unused)."""
    out = []; offs = [0]; pos = 0
    for t in toks:
        if out:
            s = "\n" if out[-1] in (";", "{", "}") else sep
            out.append(s); pos += len(s)
        offs.append(pos); out.append(t); pos += len(t.encode())
    out.append("\n")
    return "".join(out), offs

# ----------------------------------------------------------------- reporting
def known():
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p): return []
    return [json.loads(l) for l in open(p) if l.startswith("{")]

class Report:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid; self.level = level; self.viol = []; self.n = 0; self.samples = []; self.extra = {}; self.assumptions = []
        self.states = 0; self.transitions = 0; self.parts = {}
    def add_run(self, run):
        self.states += run.states; self.transitions += run.transitions
    def count(self, part, n=1):
        self.n += n; self.parts[part] = self.parts.get(part, 0) + n
    def sample(self, s, k=3):
        if len(self.samples) < k: self.samples.append(s)
    def bad(self, key, what, case, expected=None, observed=None):
        self.viol.append(dict(key=key, what=what, case=case, expected=expected, observed=observed))
    def finish(self):
        kn = [k for k in known() if k.get("property") == self.pid and "key" in k]
        hit = {}; new = []
        for v in self.viol:
            m = [k for k in kn if k["key"] == v["key"]]
            if m: hit[m[0]["key"]] = m[0]
            else: new.append(v)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.n,
                   samples=self.samples or ["(none)"], parts=self.parts, **self.extra)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1); f.write("\n")
        for k in kn:
            if k["key"] in hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        log("%s: %d cases validated, %d violations (%d known), states %d" % (self.pid, self.n, len(self.viol), len(self.viol) - len(new), self.states))
        if new:
            d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
            new.sort(key=lambda v: len(json.dumps(v["case"])))
            for i, v in enumerate(new[:5]):
                p = os.path.join(d, "%s-%d.json" % (self.pid, i)); json.dump(v, open(p, "w"), indent=1)
                log("violation:", v["key"], "|", v["what"]);
                log("   expected:", str(v["expected"])[:600]); log("   observed:", str(v["observed"])[:600])
                c = v["case"]
                for n, t in (c.get("mods") or []) if isinstance(c, dict) else []: log("   --- %s\n%s" % (n, t))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.join(d, "%s-0.json" % self.pid)))
            return 1
        if self.n == 0:
            raise CheckError("nothing was explored")
        return 0
