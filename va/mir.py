"""Loading of the MIR dump and the per-function facts every analysis needs (CFG, liveness)."""
import json, os, subprocess, sys, tempfile, hashlib, shutil, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


class AnalysisError(Exception):
    pass


def build_driver():
    """Compile the dump driver if this checkout has no current build of it."""
    src = os.path.join(VERIF, "driver", "mirdump.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    bdir = os.path.join(VERIF, ".build")
    os.makedirs(bdir, exist_ok=True)
    out = os.path.join(bdir, "mirdump-" + h)
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    env = clean_env()
    r = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp], env=env)
    if r.returncode != 0:
        raise AnalysisError("driver does not build:\n" + r.stderr[-4000:])
    os.replace(tmp, out)
    return out


def clean_env():
    env = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.setdefault("HOME", "/root")
    return env


def crate_root():
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        m = tomllib.load(f)
    ed = str(m.get("package", {}).get("edition", "2015"))
    bins = m.get("bin") or []
    path = bins[0].get("path") if bins else None
    for p in ([path] if path else []) + ["src/main.rs", "src/lib.rs"]:
        if os.path.exists(os.path.join(REPO, p)):
            return p, ed
    raise AnalysisError("no crate root found")


def rustc_args(root, ed, out):
    return ["--edition", ed, "--crate-type", "bin", "--crate-name", "python_core_rust", "-Awarnings",
            "-Cdebug-assertions=on", "-Coverflow-checks=on", "--emit=metadata", "-o", out, root]


def dump():
    drv = build_driver()
    env = clean_env()
    sysroot = sh(["rustc", "+nightly", "--print", "sysroot"], env=env).stdout.strip()
    root, ed = crate_root()
    d = tempfile.mkdtemp(prefix="mirdump.")
    try:
        env["LD_LIBRARY_PATH"] = sysroot + "/lib"
        env["MIRDUMP_OUT"] = d + "/m.json"
        r = sh([drv] + rustc_args(root, ed, d + "/o.rmeta") +
               ["--sysroot", sysroot, "--force-warn=unsafe_code", "--error-format=json", "-Zmir-opt-level=0", "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums"],
               cwd=REPO, env=env)
        if r.returncode != 0 or not os.path.exists(d + "/m.json"):
            raise AnalysisError("the crate does not compile:\n" + r.stderr[-4000:])
        with open(d + "/m.json") as f:
            p = Program(json.load(f))
        p.unsafe = []
        for line in r.stderr.splitlines():
            try: m = json.loads(line)
            except ValueError: continue
            if isinstance(m, dict) and (m.get("code") or {}).get("code") == "unsafe_code":
                for sp in m["spans"]:
                    if sp.get("is_primary"): p.unsafe.append((sp["file_name"], sp["line_start"]))
        return p
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Fn:
    __slots__ = ("id", "name", "path", "args", "local", "kind", "ty", "span", "argc", "locals", "names", "blocks", "has_body",
                 "preds", "joins", "live_in", "short", "loophead", "flags")

    def __init__(self, j):
        self.id = j["id"]; self.name = j["name"]; self.path = j["path"]; self.args = j["args"]
        self.local = j["local"]; self.kind = j["kind"]; self.ty = j["ty"]
        self.has_body = "blocks" in j
        self.span = j.get("span", "?")
        self.argc = j.get("argc", 0); self.locals = j.get("locals", []); self.names = dict(j.get("names", []))
        self.blocks = j.get("blocks", [])
        self.short = self.path.rsplit("::", 1)[-1]
        self.preds = None; self.joins = None; self.live_in = None

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch": return [x[1] for x in t[2]] + [t[3]]
        if k == "drop": return [t[2]]
        if k == "assert": return [t[4]]
        if k == "call": return [t[5]] if t[5] is not None else []
        return []

    def prepare(self):
        if self.joins is not None: return
        n = len(self.blocks)
        preds = [[] for _ in range(n)]
        for b in range(n):
            for s in set(self.succs(b)): preds[s].append(b)
        self.preds = preds
        self.joins = [len(p) >= 2 for p in preds]
        # loop heads always count as joins (their back edge gives the second predecessor already)
        use = [None] * n; deff = [None] * n
        for b in range(n):
            u, d = set(), set()

            def rd(l):
                if l not in d: u.add(l)

            def place_r(p):
                rd(p[0])
                for e in p[1]:
                    if isinstance(e, list) and e[0] == "i": rd(e[1])

            def op(o):
                if o[0] in ("c", "m"): place_r(o[1])

            def place_w(p):
                if not p[1]: d.add(p[0])
                else: place_r(p)
            for s in self.blocks[b]["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k in ("use", "rep"): op(r[1])
                    elif k in ("addr", "ref", "discr", "len"): place_r(r[1])
                    elif k in ("bin", "cbin"): op(r[2]); op(r[3])
                    elif k in ("un", "cast"): op(r[2])
                    elif k == "agg":
                        for o in r[2]: op(o)
                    place_w(s[1])
                elif s[0] == "sd": place_r(s[1])
                elif s[0] == "dead": d.add(s[1])
            t = self.blocks[b]["t"]
            if t[0] == "switch": op(t[1])
            elif t[0] == "assert": op(t[1])
            elif t[0] == "call":
                op(t[2])
                for a in t[3]: op(a)
                place_w(t[4])
            elif t[0] == "ret": rd(0)
            use[b] = u; deff[b] = d
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in self.succs(b): o |= live[s]
                i = use[b] | (o - deff[b])
                if i != live[b]:
                    live[b] = i; changed = True
        self.live_in = live
        # loop heads: targets of back edges of a depth-first search
        self.loophead = [False] * n
        color = [0] * n
        stack = [(0, iter(self.succs(0)))] if n else []
        if n: color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color[s] == 1: self.loophead[s] = True
                elif color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                color[b] = 2
                stack.pop()
        self.flags = self._drop_flags()

    def _drop_flags(self):
        """Locals that only decide whether a value still has to be dropped (drops have no effect in this analysis)."""
        cand = {}
        bad = set()
        for b in range(len(self.blocks)):
            for s in self.blocks[b]["s"]:
                if s[0] != "=": continue
                r = s[2]
                if not s[1][1] and r[0] == "use" and r[1][0] == "k" and isinstance(r[1][2], dict) and r[1][2].get("s") in (0, 1):
                    cand.setdefault(s[1][0], 0)
                else:
                    bad.add(s[1][0])
                for x in (r[1:] if r[0] != "agg" else r[2]):
                    if isinstance(x, list) and x and x[0] in ("c", "m") and isinstance(x[1], list): bad.add(x[1][0])
                if r[0] in ("ref", "addr", "discr", "len"): bad.add(r[1][0])
            t = self.blocks[b]["t"]
            if t[0] == "switch" and t[1][0] in ("c", "m"):
                l = t[1][1][0]
                tg = [x[1] for x in t[2]] + [t[3]]
                ok = len(tg) == 2
                if ok:
                    def chain(x):
                        out = [x]
                        while not self.blocks[x]["s"] and self.blocks[x]["t"][0] in ("drop", "goto") and len(out) < 12:
                            x = self.blocks[x]["t"][2 if self.blocks[x]["t"][0] == "drop" else 1]
                            out.append(x)
                        return out
                    ok = bool(set(chain(tg[0])) & set(chain(tg[1]))) and any(self.blocks[x]["t"][0] == "drop" for x in tg)
                if not ok: bad.add(l)
            elif t[0] == "call":
                for o in t[3] + [t[2]]:
                    if o[0] in ("c", "m"): bad.add(o[1][0])
                bad.add(t[4][0])
            elif t[0] == "assert" and t[1][0] in ("c", "m"): bad.add(t[1][1][0])
        return {l for l in cand if l not in bad and l not in self.names and l > self.argc}


class Program:
    def __init__(self, j):
        self.types = j["types"]
        self.fns = {f["id"]: Fn(f) for f in j["fns"]}
        self.roots = j["roots"]
        self.statics = j["statics"]
        self.generic = j["generic"]
        self.raw = j
        self.local = [f for f in self.fns.values() if f.local]

    def adt_name(self, t):
        x = self.types[t]
        return x["name"] if x["k"] == "adt" else None

    def local_type(self, suffix):
        return [i for i, t in enumerate(self.types) if t["k"] == "adt" and t["name"].endswith(suffix)]
