"""Extraction of the type-checked, monomorphic MIR program of /repo (see ../driver)."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
CACHE = os.environ.get("SA_CACHE", os.path.join(VERIF, ".cache"))


class FactsError(Exception):
    pass


def _sources(repo):
    out = []
    for base, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")) or base.endswith(".cargo"):
                out.append(os.path.join(base, f))
    return out


def tree_hash(repo=REPO):
    h = hashlib.sha256()
    for p in _sources(repo):
        h.update(os.path.relpath(p, repo).encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.join(VERIF, "driver/src/main.rs"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:24]


def _run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise FactsError(f"{what} failed:\n" + p.stdout[-3000:])
    return p.stdout


def build_driver():
    env = dict(os.environ)
    for k in ("RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    drv = os.path.join(VERIF, "driver")
    tgt = os.path.join(CACHE, "driver-target")
    env["CARGO_TARGET_DIR"] = tgt
    _run(["cargo", "+nightly", "build", "--offline", "-q"], drv, env, "building the MIR driver")
    return os.path.join(tgt, "debug", "mirdump")


def extract(repo=REPO):
    """Return the path of the facts file for the current tree, building it if needed."""
    os.makedirs(CACHE, exist_ok=True)
    key = tree_hash(repo)
    out = os.path.join(CACHE, f"facts-{key}.jsonl")
    if os.path.exists(out):
        return out
    import fcntl
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(out):
            return out
        drv = build_driver()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
        tgt = os.path.join(CACHE, "target")
        env = dict(os.environ)
        env.update(
            MIRDUMP_OUT=out + ".new",
            LD_LIBRARY_PATH=os.path.join(sysroot, "lib"),
            RUSTC_WORKSPACE_WRAPPER=drv,
            CARGO_TARGET_DIR=tgt,
            CARGO_PROFILE_DEV_DEBUG="0",
            CARGO_INCREMENTAL="0",
            RUSTFLAGS="-Zalways-encode-mir",
        )
        # cargo must not consider the workspace crates fresh: our wrapper has to see them.
        for sub in ("debug/build/backpak", "debug/build/backpak-b2", "debug/incremental"):
            shutil.rmtree(os.path.join(tgt, sub), ignore_errors=True)
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("backpak"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        if os.path.exists(out + ".new"):
            os.remove(out + ".new")
        log = _run(["cargo", "+nightly", "check", "--workspace", "--lib", "--bins", "--offline"], repo, env, "cargo check of /repo")
        if not os.path.exists(out + ".new"):
            raise FactsError("the driver produced no facts:\n" + log[-2000:])
        for f in os.listdir(CACHE):  # keep only a few
            if f.startswith("facts-") and f.endswith(".jsonl"):
                p = os.path.join(CACHE, f)
                if time.time() - os.path.getmtime(p) > 3600 * 3:
                    os.remove(p)
        os.rename(out + ".new", out)
        return out
    finally:
        lock.close()


class Fn:
    __slots__ = ("id", "name", "def_", "krate", "kind", "local", "ga", "span", "vidx", "body", "succ", "_live", "calls", "anc")

    def __repr__(self):
        return f"<{self.id} {self.name}>"


class Prog:
    def __init__(self, path):
        self.fns = {}
        meta = None
        with open(path) as fh:
            for line in fh:
                d = json.loads(line)
                if "meta" in d:
                    meta = d
                    continue
                f = Fn()
                f.id = d["id"]; f.name = d["name"]; f.def_ = d["def"]; f.krate = d["krate"]; f.kind = d["kind"]
                f.local = d["local"]; f.ga = d["ga"]; f.span = d.get("span"); f.vidx = d.get("vidx")
                f.body = d.get("body"); f.succ = None; f._live = None; f.calls = None
                self.fns[f.id] = f
        if meta is None:
            raise FactsError("truncated facts")
        self.types = meta["types"]; self.adts = meta["adts"]; self.files = meta["files"]; self.root = meta["root"]
        self.extra = meta["extra"]
        self.muts = {(a, f) for a, f in meta["muts"]}
        if meta["nfns"] != len(self.fns):
            raise FactsError("facts incomplete")
        self._build_edges()

    # ---- naming helpers
    def ts(self, t):
        return self.types[t]["s"]

    def loc(self, f, span=None):
        sp = span or f.span
        if not sp or sp[0] is None:
            return "?"
        p = self.files[sp[0]]
        for pre in (REPO + "/", "./"):
            if p.startswith(pre):
                p = p[len(pre):]
        return f"{p}:{sp[1]}"

    def find(self, pat, krate=None, body=None):
        r = re.compile(pat)
        return [f for f in self.fns.values() if r.search(f.def_) and (krate is None or f.krate == krate) and (body is None or (f.body is not None) == body)]

    def callee(self, f, term):
        """Resolved callee Fn of a call terminator, or None for an indirect call."""
        return self.fns.get(term[1]) if isinstance(term[1], int) else None

    def is_closure(self, f):
        return f.def_.rsplit("::", 1)[-1].startswith("{closure")

    # ---- edges
    def _build_edges(self):
        T = self.types
        # vtables: (dyn type, vidx) -> set of fns ; (dyn, concrete) -> {vidx: fn}
        self.vt = {}
        self.vtc = {}
        self.vt_trait = {}  # (trait name, vidx) -> fns, from constant vtables
        for f in self.fns.values():
            out = set()
            clos = set()
            if f.body is not None:
                for stmts, term, _sp in f.body["bl"]:
                    for s in stmts:
                        if s[0] == "=":
                            self._rv_edges(s[2], out)
                    self._term_edges(term, out)
            f.succ = out
        # virtual edges
        for f in self.fns.values():
            if f.kind == "virtual":
                f.succ = set(self.virtual_targets(f))
        self.pred = {}
        for f in self.fns.values():
            for g in f.succ:
                self.pred.setdefault(g, set()).add(f.id)

    def virtual_targets(self, f):
        dyn = self.virtual_dyn(f)
        out = set()
        if dyn is None:
            for (d, v), fs in self.vt.items():
                if v == f.vidx:
                    out |= fs
            return out
        out |= self.vt.get((dyn, f.vidx), set())
        # the same trait object with other auto traits / lifetimes has the same vtable methods
        tr = self.types[dyn]["d"]
        for (d, v), fs in self.vt.items():
            if v == f.vidx and d != dyn and self.types[d]["d"] == tr and self.types[d]["a"] == self.types[dyn]["a"]:
                out |= fs
        out |= self.vt_trait.get((tr, f.vidx), set())
        return out

    def virtual_dyn(self, f):
        """type id of the `dyn` a virtual method dispatches on (its Self)"""
        for g in f.ga:
            if self.types[g]["k"] == "dyn":
                return g
        return None

    def _op_edges(self, op, out):
        if op[0] == "k":
            c = op[1]
            if c.get("fn") is not None:
                out.add(c["fn"])
            self._const_ptrs(c.get("p"), out)
            t = self.types[c["t"]]
            self._ty_edges(t, out)

    def _const_ptrs(self, ps, out):
        for p in ps or ():
            if p[0] == "fn":
                out.add(p[1])
            elif p[0] == "vt":
                # a constant vtable: concrete type, trait name, methods
                for vidx, fn in p[3]:
                    self.vt_trait.setdefault((p[2], vidx), set()).add(fn)

    def _ty_edges(self, t, out):
        if t["k"] in ("closure", "fndef"):
            fid = t.get("fn")
            if fid is None and isinstance(t.get("d"), int):
                fid = t["d"]
            if fid is not None:
                out.add(fid)

    def _add_vt(self, conc, dyn, entries, out):
        m = self.vtc.setdefault((dyn, conc), {})
        for vidx, fn in entries:
            m[vidx] = fn
            self.vt.setdefault((dyn, vidx), set()).add(fn)

    def _rv_edges(self, rv, out):
        k = rv[0]
        if k == "use":
            self._op_edges(rv[1], out)
        elif k == "agg":
            if rv[1][0] == "closure":
                self._ty_edges(self.types[rv[1][1]], out)
            for o in rv[2]:
                self._op_edges(o, out)
        elif k in ("bin", "cbin"):
            for o in rv[2:]:
                if isinstance(o, list) and o and o[0] in ("c", "m", "k"):
                    self._op_edges(o, out)
        elif k in ("un",):
            for o in rv[1:]:
                if isinstance(o, list) and o and o[0] in ("c", "m", "k"):
                    self._op_edges(o, out)
        elif k == "cast":
            self._op_edges(rv[2], out)
            if rv[1] == "reify" and len(rv) > 4 and rv[4] is not None:
                out.add(rv[4])
            if rv[1] == "unsize" and len(rv) > 7 and rv[7]:
                self._add_vt(rv[5], rv[6], rv[7], out)
        elif k == "repeat":
            self._op_edges(rv[1], out)

    def _term_edges(self, t, out):
        k = t[0]
        if k == "call":
            if isinstance(t[1], int):
                out.add(t[1])
            for a in t[2]:
                self._op_edges(a, out)
        elif k == "drop":
            if t[4] is not None:
                out.add(t[4])

    # ---- reachability
    def reach(self, starts, stop=lambda f: False):
        seen = set(starts)
        todo = list(starts)
        while todo:
            f = self.fns[todo.pop()]
            if stop(f):
                continue
            for g in f.succ:
                if g not in seen:
                    seen.add(g)
                    todo.append(g)
        return seen

    def reaching(self, targets):
        seen = set(targets)
        todo = list(targets)
        while todo:
            for g in self.pred.get(todo.pop(), ()):
                if g not in seen:
                    seen.add(g)
                    todo.append(g)
        return seen

    def path(self, start, goal, stop=lambda f: False):
        """A shortest call path start -> member of goal."""
        from collections import deque
        prev = {start: None}
        dq = deque([start])
        while dq:
            x = dq.popleft()
            if x in goal and x != start:
                out = []
                while x is not None:
                    out.append(x)
                    x = prev[x]
                return out[::-1]
            if stop(self.fns[x]):
                continue
            for g in sorted(self.fns[x].succ):
                if g not in prev:
                    prev[g] = x
                    dq.append(g)
        return None


def load(repo=REPO):
    return Prog(extract(repo))
