"""C16: Scaffold.tla against the scaffolding tool, run as an unprivileged user in a directory of its own."""
import concurrent.futures, os, random, re, shutil, subprocess, tempfile, tomllib
import vt
TOK = {"quote": "q\"t", "apos": "a'b", "backslash": "b\\s", "tab": "t\tb", "newline": "n\nl", "uni": "été", "sp ace": "sp ace"}
NEED = ["cairom.toml", "Cargo.toml", "README.md", ".gitignore", "rust-toolchain.toml", "src/lib.rs", "src/fibonacci.cm", "tests/integration_test.rs", ".cargo/config.toml"]
def join(p): return "/".join(TOK.get(x, x) for x in p)
def snap(base):
    "every entry below base that is not a directory, and the directories"
    r = {}
    for d, ds, fs in os.walk(base):
        for x in ds + fs:
            q = os.path.join(d, x); k = os.path.relpath(q, base)
            if os.path.islink(q): r[k] = ("link", os.readlink(q))
            elif os.path.isdir(q): r[k] = ("dir", oct(os.stat(q).st_mode))
            else: r[k] = ("file", open(q, "rb").read(), oct(os.stat(q).st_mode), os.stat(q).st_mtime_ns)
    return r
def show(r): return {k: (v[0], v[1][:200].decode("utf-8", "replace")) if v[0] == "file" else v for k, v in r.items()}
try: USER = {} if os.getuid() else {"user": 65534, "group": 65534, "extra_groups": []}
except Exception: USER = {}
def probe():
    global USER
    try: subprocess.run(["/bin/true"], **USER)
    except Exception: USER = {}
def play(binp, rng, log, base):
    """Run one history below base; returns (problems, created projects)."""
    bad, made = [], []; cwd = os.path.join(base, "p/q/w"); os.makedirs(cwd)
    if USER:
        for d in (base, base + "/p", base + "/p/q", cwd): os.chown(d, 65534, 65534)
    cmds = []
    for i, e in enumerate(log):
        if e["op"] == "put":
            q = os.path.join(base, join(e["p"])); k = e["v"]["k"]
            if k == "dir": os.mkdir(q)
            elif k == "file": open(q, "w").write("mine %d\n" % i)
            elif k == "dangling": os.symlink("nowhere%d" % i, q)
            else: os.symlink(os.path.join(base, join(e["v"]["to"])), q)
            if USER: os.lchown(q, 65534, 65534)
            cmds.append([k, join(e["p"])]); continue
        a = e["a"]; arg = join(a["c"])
        if a["abs"]: arg = base + "/" + arg
        if a["c"]:
            if rng.random() < 0.15: arg = arg.replace("/", "//") if not a["abs"] else arg
            if rng.random() < 0.2 and a["c"][-1] not in (".", ".."): arg += "/"
            if not a["abs"] and rng.random() < 0.15: arg = "./" + arg
        dash = ["--"] if arg.startswith("-") or rng.random() < 0.1 else []
        before = snap(base)
        r = subprocess.run([binp, "init"] + dash + [arg], cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, **USER)
        after = snap(base); cmds.append(["init", arg.replace(base, "@BASE@"), r.returncode]); o = e["o"]
        def no(key, what, exp=None, obs=None): bad.append((key, what, list(cmds), exp, obs))
        lost = {k: before[k] for k in before if after.get(k) != before[k]}
        if r.returncode < 0 or b"panicked" in r.stderr: no("panic", "the tool panics", None, r.stderr.decode("utf-8", "replace")[:500]); break
        if lost: no("lost", "files that were there are changed or gone", show(lost), show({k: after.get(k, ("gone", "")) for k in lost})); break
        new = {k: v for k, v in after.items() if k not in before}; files = [k for k in new if new[k][0] != "dir"]
        if o == "open": o = "create" if r.returncode == 0 else "refuse"
        if o == "refuse":
            if r.returncode == 0: no("accepted", "a command that has to be refused is not", "refused", r.stdout.decode()[:300]); break
            if files or (new and not e["loose"]): no("rest", "a refused command leaves something behind", [], sorted(new)); break
            continue
        if r.returncode != 0: no("refused", "a project that can be made is refused", "created", r.stderr.decode("utf-8", "replace")[:500]); break
        at = os.path.relpath(os.path.realpath(os.path.join(cwd, arg)), base); name = os.path.basename(at)
        if not e["loose"] and at != os.path.normpath(join(e["at"])): no("place", "the project is made in another place", join(e["at"]), at); break
        miss = [f for f in NEED if at + "/" + f not in new]; out = [k for k in files if not k.startswith(at + "/")]
        if miss or out: no("incomplete", "a new project is not complete", {"missing": [], "outside": []}, {"missing": miss, "outside": out}); break
        T = {f: new[at + "/" + f][1].decode() for f in NEED}
        try:
            m = tomllib.loads(T["cairom.toml"]); c = tomllib.loads(T["Cargo.toml"]); tomllib.loads(T["rust-toolchain.toml"]); tomllib.loads(T[".cargo/config.toml"])
            good = m["name"] == name and c["package"]["name"] == name and os.path.isfile(os.path.join(base, at, "src", m["entry_point"].removeprefix("src/"))) and re.fullmatch(r"[^\W\d][\w-]*", name) is not None
        except Exception as x: good = False; m = str(x)
        if not good: no("manifest", "the manifest of a new project is not that of a project with its name", name, [T["cairom.toml"], T["Cargo.toml"]]); break
        if "{{" in T["README.md"] or name not in T["README.md"]: no("readme", "the README of a new project is not about it", name, T["README.md"][:200]); break
        made.append((os.path.join(base, at), name, m["entry_point"], list(cmds)))
    return bad, made
def check(pid, rep):
    binp = vt.build("scaffold"); front = vt.build("front"); T = vt.THOROUGH; run = vt.TlcRun(); probe()
    vt.tlc("Scaffold", "Scaffold_bfs.cfg", {"MaxArg": "3" if T else "2"}, run=run, workers=8, timeout=2000)
    vt.tlc("Scaffold", "Scaffold_sim.cfg", {}, mode="sim", num=900 if T else 50, depth=60, run=run, procs=8, timeout=2000)
    rep.add_run(run); cases = run.cases; rng = random.Random(vt.SEED); rng.shuffle(cases)
    if not T: cases = [c for c in cases if len(c["log"]) != 2] + [c for c in cases if len(c["log"]) == 2][:3000]
    top = tempfile.mkdtemp(prefix="vt-scaffold-"); os.chmod(top, 0o755); tool = os.path.join(top, "tool"); shutil.copy(binp, tool); os.chmod(tool, 0o755)
    try:
        for lo in range(0, len(cases), 400):
            work = os.path.join(top, "w%d" % lo); os.mkdir(work)
            def one(i):
                base = os.path.join(work, "h%d" % i, "deep", "er"); os.makedirs(base)
                return play(tool, random.Random("%d %d" % (vt.SEED, i)), cases[i]["log"], base)
            with concurrent.futures.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, range(lo, min(lo + 400, len(cases)))))
            projs = []
            for i, (bad, made) in zip(range(lo, lo + 400), res):
                rep.count("histories"); rep.count("commands", sum(e["op"] == "init" for e in cases[i]["log"]))
                for key, what, cmds, exp, obs in bad: rep.bad(key, what, cmds, exp, obs)
                projs += made
                if len(made) > 2: rep.sample(made[-1][3])
            for (p, name, entry, cmds), r in zip(projs, vt.run_cases(front, "load", [{"load": x[0]} for x in projs], timeout=300)):
                rep.count("new projects analysed")
                if r is None or "name" not in r or r["name"] != name or os.path.realpath(r["root"]) != os.path.join(p, "src", entry) or "fibonacci" not in r["modules"] or r["main"] not in r["modules"] or r["diags"]:
                    rep.bad("load", "a new project does not load and analyse cleanly", cmds, {"name": name, "diags": []}, r)
            shutil.rmtree(work)
    finally: shutil.rmtree(top, ignore_errors=True)
