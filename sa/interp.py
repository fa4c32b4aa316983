"""A path-sensitive, interprocedural abstract interpreter over MIR (property simulation).

Every function that can reach an event of the rule being decided is inlined virtually (with memoised
summaries); everything else returns an unknown value. The abstract state is a rule automaton's state
plus an abstract store; program points are partitioned by automaton state and by the tags (Ok/Err,
Some/None, true/false...) of live enum and bool locals, so a rule sees each feasible combination of
"what happened so far" and "what this value says" separately.

Values:  None                    unknown
         ('i', n)                integer / bool / char
         ('S', ((k, v), ...))    struct, tuple, closure (absent fields unknown)
         ('E', ((variant, ((k, v), ...)), ...))  enum: the variants it may hold
         ('R', frozenset((loc, path, concrete_type|None)))  reference / pointer / box
         ('F', fn)               function pointer
         ('B', str)              constant string / bytes
         ('A', v)                array; every element is covered by v
         ('L', (v, ...))         array literal whose elements are known one by one
         ('Y', tok)              rule-defined token
         ('D', loc, path, ty)    the discriminant of a place
         ('N', v)                boolean negation of a switchable value
         ('P',)                  an integer known to be positive
         ('T', labels)           unknown data that may derive from the labelled sources (rules with `taint`)
"""
import heapq
import re
import sys

sys.setrecursionlimit(200000)
TOP = None
MAXD = 7


# plumbing of iterators that carries results around: always looked into
# Iterator adapters whose fields are of their type arguments' types, in order (a `While` has a flag between)
WRAPS = re.compile(r"^std::iter::(adapters::\w+::|adapters::)?(Map|Filter|FilterMap|Inspect|MapWhile|TakeWhile|SkipWhile|GenericShunt|Rev|Cloned|Copied)$")
ADAPTERS = re.compile(r"^(std::convert::num::<impl std::convert::From<bool> for [a-z0-9]+>::from|anyhow::context::<impl anyhow::Context<.*>::(with_)?context|std::(option::Option|result::Result)::<.*>::[a-z_]+|std::iter::adapters::(map::map_try_fold|try_process)|<std::iter::adapters::GenericShunt<.*> as std::iter::Iterator>::(try_fold|next)|std::iter::Iterator::(try_for_each|try_fold|collect))(::call)?(::\{closure#0\})*$")


class Budget(Exception):
    pass


def S(d):
    return ("S", tuple(sorted(d.items())))


def E(var, d=None):
    return ("E", ((var, tuple(sorted((d or {}).items()))),))


UNIT = ("S", ())
TRUE = ("i", 1)
FALSE = ("i", 0)


def smash(v):
    """An array literal as an array of which every element is the same abstract value."""
    x = v[1][0]
    for y in v[1][1:]:
        x = join(x, y)
    return ("A", x)


def labels_of(v, depth=0):
    """Source labels in a value (not following references)."""
    if v is None or depth > 30:
        return frozenset()
    t = v[0]
    if t == "T":
        return v[1]
    if t == "S":
        vs = [x for _k, x in v[1]]
    elif t == "E":
        vs = [x for _var, fs in v[1] for _k, x in fs]
    elif t in ("A", "N"):
        vs = [v[1]]
    elif t == "L":
        vs = v[1]
    else:
        return frozenset()
    out = frozenset()
    for x in vs:
        out |= labels_of(x, depth + 1)
    return out


def join_fields(a, b, depth):
    if a == b:
        return a
    da, db = dict(a), dict(b)
    out = []
    for k in sorted(da.keys() ^ db.keys(), key=str):
        l = labels_of(da.get(k, db.get(k)))
        if l:
            out.append((k, ("T", l)))
    for k in sorted(da.keys() & db.keys(), key=str):
        v = join(da[k], db[k], depth + 1)
        if v is not None:
            out.append((k, v))
    out.sort(key=lambda kv: str(kv[0]))
    return tuple(out)


MIXED = [None]  # a label to mark what is one thing or another with, if a rule wants to know


def mixed(a, b):
    la, lb = labels_of(a), labels_of(b)
    l = la | lb
    if MIXED[0] is not None and la != lb:
        l |= {MIXED[0]}
    return ("T", l) if l else None


def join(a, b, depth=0):
    if a == b:
        return a
    if a is None or b is None or depth > MAXD or a[0] == "T" or b[0] == "T":
        return mixed(a, b)
    if a[0] == "L" and b[0] == "L" and len(a[1]) == len(b[1]):
        return ("L", tuple(join(x, y, depth + 1) for x, y in zip(a[1], b[1])))
    if a[0] == "L" and b[0] in ("A", "L"):
        a = smash(a)
    if b[0] == "L" and a[0] == "A":
        b = smash(b)
    if a[0] == b[0]:
        k = a[0]
        if k == "S":
            return ("S", join_fields(a[1], b[1], depth))
        if k == "E":
            da, db = dict(a[1]), dict(b[1])
            out = []
            for v in sorted(set(da) | set(db)):
                if v in da and v in db:
                    out.append((v, join_fields(da[v], db[v], depth)))
                else:
                    out.append((v, da.get(v, db.get(v))))
            return ("E", tuple(out))
        if k == "R":
            s = a[1] | b[1]
            return ("R", s) if len(s) <= 8 else None
        if k == "A":
            return ("A", join(a[1], b[1], depth + 1))
        if k == "Y" and a[1][0] == "set" and b[1][0] == "set":
            return ("Y", ("set", a[1][1] | b[1][1]))
    if positive(a) and positive(b):
        return ("P",)
    return mixed(a, b)


def positive(v):
    return v[0] == "P" or v[0] == "i" and isinstance(v[1], int) and 0 < v[1] < 1 << 31


def tag(v, depth=0):
    if v is None or v[0] == "P":
        return "?"
    if v[0] == "L":
        return ("it", 0)
    if v[0] == "S":
        for k, x in v[1]:
            if k == 77 and x[0] == "i":
                return ("it", x[1])
        return "?"
    if v[0] == "i":
        return v[1] if v[1] in (0, 1) else "?"
    if v[0] == "E":
        if len(v[1]) == 1:
            var, fs = v[1][0]
            if depth < 1 and fs:
                for k, fv in fs:
                    if k == 0 and fv is not None and fv[0] in ("E",):
                        return (var, tag(fv, depth + 1))
            return (var,)
        return "?"
    return "?"


def field(v, k):
    """Project field k of an S-like value."""
    if v is None:
        return None
    t = v[0]
    if t == "L":
        v = smash(v)
        t = "A"
    if t == "S":
        for kk, vv in v[1]:
            if kk == k:
                return vv
        return None
    if t in ("R", "B", "F", "T"):
        return v  # wrappers around pointers are transparent
    if t == "A":
        return field(v[1], k)
    return None


def read_path(v, path):
    for p in path:
        if v is None:
            return None
        if isinstance(p, int):
            v = field(v, p)
        elif p == "x":
            if v[0] == "L":
                v = smash(v)
            if v[0] == "A":
                v = v[1]
            elif v[0] == "T":
                pass
            elif v[0] == "S":
                vs = [x for _, x in v[1]]
                v = None if not vs else vs[0]
                for x in vs[1:]:
                    v = join(v, x)
        else:  # ('d', variant)
            if v[0] == "L":
                v = smash(v)
            if v[0] == "A":
                v = v[1]
                if v is None:
                    return None
            if v[0] == "E":
                for var, fs in v[1]:
                    if var == p[1]:
                        v = ("S", fs)
                        break
                else:
                    return None
            elif v[0] in ("S", "T"):
                pass
            else:
                return None
    return v


def write_path(v, path, nv, weak=False):
    if not path:
        return join(v, nv) if weak else nv
    if v is not None and v[0] == "T":
        return ("T", v[1] | labels_of(nv))
    if v is not None and v[0] == "L":
        v = smash(v)
    p = path[0]
    if isinstance(p, int):
        if v is not None and v[0] == "S":
            d = dict(v[1])
        elif v is not None and v[0] == "A":
            return ("A", write_path(v[1], path, nv, True))
        elif v is not None and v[0] in ("R", "B"):
            return nv if len(path) == 1 and not weak else None
        else:
            if weak:
                return None
            d = {}
        x = write_path(d.get(p), path[1:], nv, weak)
        if x is None:
            d.pop(p, None)
        else:
            d[p] = x
        return ("S", tuple(sorted(d.items())))
    if p == "x":
        if v is not None and v[0] == "A":
            return ("A", write_path(v[1], path[1:], nv, True))
        return v if v is None else write_path(v, path[1:], nv, True) if v[0] != "S" else None
    # variant
    if v is not None and v[0] == "E":
        out = []
        hit = False
        for var, fs in v[1]:
            if var == p[1]:
                x = write_path(("S", fs), path[1:], nv, weak)
                out.append((var, x[1] if x and x[0] == "S" else ()))
                hit = True
            else:
                out.append((var, fs))
        if not hit:
            x = write_path(("S", ()), path[1:], nv, weak)
            if not weak:
                return ("E", ((p[1], x[1] if x and x[0] == "S" else ()),))
            return None
        return ("E", tuple(out))
    if v is None and not weak:
        x = write_path(("S", ()), path[1:], nv, weak)
        return ("E", ((p[1], x[1] if x and x[0] == "S" else ()),))
    return None


def refs_in(v, out, paths=False):
    if v is None:
        return
    t = v[0]
    if t == "R":
        for loc, _p, _c in sorted(v[1], key=repr):
            out.append((loc, _p) if paths else loc)
    elif t == "S":
        for _k, x in v[1]:
            if x is not None and x[0] not in ("i", "B", "F", "Y"):
                refs_in(x, out, paths)
    elif t == "E":
        for _var, fs in v[1]:
            for _k, x in fs:
                if x is not None and x[0] not in ("i", "B", "F", "Y"):
                    refs_in(x, out, paths)
    elif t == "L":
        for x in v[1]:
            refs_in(x, out, paths)
    elif t in ("A", "N"):
        refs_in(v[1], out, paths)
    elif t == "D":
        out.append((v[1], ()) if paths else v[1])


def rename(v, m):
    if v is None:
        return None
    t = v[0]
    if t == "R":
        s = set()
        for loc, p, c in v[1]:
            n = m.get(loc)
            if n is None:
                return None
            s.add((n, p, c))
        return ("R", frozenset(s))
    if t == "S":
        return ("S", tuple((k, rename(x, m)) for k, x in v[1]))
    if t == "E":
        return ("E", tuple((var, tuple((k, rename(x, m)) for k, x in fs)) for var, fs in v[1]))
    if t == "A":
        return ("A", rename(v[1], m))
    if t == "L":
        return ("L", tuple(rename(x, m) for x in v[1]))
    if t == "N":
        x = rename(v[1], m)
        return None if x is None else ("N", x)
    if t == "D":
        n = m.get(v[1])
        return None if n is None else ("D", n, v[2], v[3])
    return v


class Body:
    """A function body compiled for interpretation."""

    def __init__(self, prog, fn):
        b = fn.body
        self.fn = fn
        self.argc = b["argc"]
        self.spread = b["spread"]
        self.lt = b["lt"]
        self.bl = b["bl"]
        T = prog.types
        self.tagged = set()
        for i, t in enumerate(self.lt):
            ty = T[t]
            if ty["k"] == "bool":
                self.tagged.add(i)
            elif ty["k"] == "adt" and ty["d"].startswith(("std::result::Result", "std::option::Option", "std::ops::ControlFlow", "std::array::IntoIter")):
                self.tagged.add(i)
            elif ty["k"] == "adt" and ty["d"].startswith("std::vec::IntoIter") and ("{closure@" in ty["s"] or "std::ops::Fn" in ty["s"]):
                self.tagged.add(i)  # see common._m_vec_next
        self._liveness()

    def _liveness(self):
        n = len(self.bl)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        succ = [[] for _ in range(n)]
        borrowed = set()
        for i, (stmts, term, _sp) in enumerate(self.bl):
            u, d = use[i], dfn[i]

            def r(l):
                if l not in d:
                    u.add(l)

            def rplace(p):
                r(p[0])
                for e in p[1:]:
                    if isinstance(e, list) and e[0] == "i":
                        r(e[1])

            def rop(o):
                if o and o[0] in ("c", "m"):
                    rplace(o[1])

            def w(p):
                if len(p) == 1:
                    d.add(p[0])
                else:
                    rplace(p)

            for s in stmts:
                if s[0] == "=":
                    rv = s[2]
                    k = rv[0]
                    if k == "ref":
                        rplace(rv[2])
                        if "*" not in rv[2]:
                            borrowed.add(rv[2][0])
                    elif k == "addr":
                        rplace(rv[1])
                        if "*" not in rv[1]:
                            borrowed.add(rv[1][0])
                    elif k == "agg":
                        for o in rv[2]:
                            rop(o)
                    elif k == "cast":
                        rop(rv[2])
                    elif k in ("discr", "len"):
                        rplace(rv[1])
                        if k == "discr":
                            # its refinement re-reads the place
                            rplace(rv[1])
                    else:
                        for o in rv[1:]:
                            if isinstance(o, list) and o and o[0] in ("c", "m"):
                                rop(o)
                    w(s[1])
                elif s[0] == "sd":
                    rplace(s[1])
                elif s[0] == "x":
                    d.add(s[1])
            k = term[0]
            if k == "goto":
                succ[i] = [term[1]]
            elif k == "sw":
                rop(term[1])
                succ[i] = [t for _v, t in term[2]] + [term[3]]
            elif k == "ret":
                r(0)
            elif k == "drop":
                rplace(term[1])
                succ[i] = [term[2]]
            elif k == "call":
                if not isinstance(term[1], int):
                    rop(term[1])
                for o in term[2]:
                    rop(o)
                w(term[3])
                if term[4] is not None:
                    succ[i] = [term[4]]
            elif k == "assert":
                rop(term[1])
                succ[i] = [term[3]]
            elif k == "asm":
                if term[1] is not None:
                    succ[i] = [term[1]]
        self.succ = succ
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                new = use[i] | (o - dfn[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        self.live = [frozenset(x | borrowed) for x in live]
        # join points: blocks with several predecessors
        preds = [0] * n
        for i in range(n):
            for s in succ[i]:
                preds[s] += 1
        self.preds = preds
        # reverse postorder, for the worklist
        order, seen = [], set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            x, itr = st[-1]
            for y in itr:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        self.rpo = {x: i for i, x in enumerate(reversed(order))}


class Frame:
    __slots__ = ("fn", "site", "parent", "args")

    def __init__(self, fn, site, parent):
        self.fn = fn
        self.site = site
        self.parent = parent


class Ctx:
    """What an event handler sees."""

    def __init__(self, it, fn, args, st, mem, frame, span, caller, argtypes):
        self.it = it
        self.fn = fn
        self.args = args
        self.st = st
        self.mem = mem
        self.frame = frame
        self.span = span
        self.caller = caller
        self.argtypes = argtypes

    def deref(self, v):
        return self.it.load_ref(self.mem, v)

    def store(self, ref, v):
        self.it.store_ref(self.mem, ref, (), v)

    def report(self, key, msg):
        self.it.report(key, msg, self.frame, self.caller, self.span)

    def site(self):
        return self.it.prog.loc(self.caller, self.span)

    def argty(self, i):
        t = self.argtypes[i] if i < len(self.argtypes) else None
        return self.it.prog.ts(t) if t is not None else ""


class Spec:
    """A rule. `events` are the functions (ids) whose calls drive the automaton."""

    length = None  # (it, mem, value) -> how long a list is
    inline_small = 40  # inline functions whose whole call closure has at most this many blocks
    max_steps = 3_000_000
    part_cap = 40

    def __init__(self, prog):
        self.prog = prog
        self.events = set()

    def on_call(self, ctx):
        """Return None (not handled) or a list of (state, value)."""
        return None

    def on_ret(self, ctx, fn, st, ret):
        pass

    def on_scope_end(self, ctx, st):
        """The state after thread::scope returns (every thread spawned in it has been joined)."""
        return st


class Interp:
    def __init__(self, prog, spec):
        self.prog = prog
        self.spec = spec
        self.bodies = {}
        self.memo = {}
        self.stack = []
        self.args_stack = []
        self.active = {}
        self.deps = []
        self.stamps = set()
        self.settled = {}
        self.nstamps = 0
        self.steps = 0
        self.reports = {}
        self.visited = set()
        self.event_sites = {}
        self.unknown_calls = {}
        self.relevant = prog.reaching(spec.events)
        self._small = {}
        self._mut = {}
        self.adt = {a["name"]: a for a in prog.adts}
        self.depth_limit = 400
        self.clo_env = {}

    # ------------------------------------------------------------ reporting
    def chain(self, frame, caller, span):
        out = [f"{caller.def_} ({self.prog.loc(caller, span)})"]
        f = frame
        while f is not None:
            if f.fn is not None and f.site is not None:
                c, sp = f.site
                if c.local:
                    out.append(f"{c.def_} ({self.prog.loc(c, sp)})")
            f = f.parent
        res = []
        for o in out:
            if not res or res[-1] != o:
                res.append(o)
        return res

    def report(self, key, msg, frame, caller, span):
        if key not in self.reports:
            self.reports[key] = (msg, self.chain(frame, caller, span))

    # ------------------------------------------------------------ helpers
    def body(self, fn):
        b = self.bodies.get(fn.id)
        if b is None:
            b = self.bodies[fn.id] = Body(self.prog, fn)
        return b

    def small(self, fid):
        r = self._small.get(fid)
        if r is None and ADAPTERS.match(self.prog.fns[fid].def_) and self.prog.fns[fid].body is not None:
            r = self._small[fid] = True
        if r is None:
            seen = {fid}
            todo = [fid]
            n = 0
            ok = True
            lim = self.spec.inline_small
            while todo:
                f = self.prog.fns[todo.pop()]
                if f.body is None:
                    if f.kind != "intrinsic" and f.id == fid:
                        ok = False
                        break
                    continue
                n += len(f.body["bl"])
                if n > lim:
                    ok = False
                    break
                for blk in f.body["bl"]:
                    t = blk[1]
                    if t[0] == "call" and isinstance(t[1], int) and t[1] not in seen and t[4] is not None:
                        seen.add(t[1])
                        todo.append(t[1])
            r = self._small[fid] = ok
        return r

    def unwrap_ptr(self, v):
        n = 0
        while v is not None and v[0] in ("S", "A", "L") and n < 8:
            if v[0] == "L":
                v = smash(v)
            if v[0] == "A":
                v = v[1]
            else:
                v = field(v, 0)
            n += 1
        return v

    # memory: dict loc -> value.  locs: local index (int) | ('c', k) inherited | ('h', ...) heap
    def place(self, mem, p):
        """Resolve a MIR place to a list of (loc, path), or None if unknown, or a direct value."""
        loc, path = p[0], []
        targets = None  # list of (loc, path)
        val = None  # direct value when we went through a constant
        direct = False
        for e in p[1:]:
            if e == "*":
                if direct:
                    if val is not None and val[0] == "R":
                        v = val
                        direct = False
                    else:
                        continue  # constants are transparent
                else:
                    if targets is None:
                        v = read_path(mem.get(loc), path)
                    else:
                        v = None
                        first = True
                        for l2, p2 in targets:
                            x = read_path(mem.get(l2), p2)
                            v = x if first else join(v, x)
                            first = False
                v = self.unwrap_ptr(v)
                if v is None:
                    return None
                if v[0] == "R":
                    targets = [(l, list(pp)) for l, pp, _c in v[1]]
                    direct = False
                else:
                    direct = True
                    val = v
                continue
            if e == "o":
                continue
            if isinstance(e, int):
                x = e
            elif e[0] == "d":
                x = ("d", e[1])
            elif e[0] == "s":
                continue  # a subslice: same smashed elements
            else:
                x = "x"
            if direct:
                val = read_path(val, [x])
            elif targets is None:
                path = path + [x]
            else:
                for t in targets:
                    t[1].append(x)
        if direct:
            return ("V", val)
        if targets is None:
            return [(loc, tuple(path))]
        return [(l, tuple(pp)) for l, pp in targets]

    def norm(self, mem, loc, path):
        """Drop projections that are transparent on the stored value (Box/NonNull wrappers)."""
        return loc, path

    def read(self, mem, p):
        if len(p) == 1:
            return mem.get(p[0])
        t = self.place(mem, p)
        if t is None:
            return None
        if t[0] == "V":
            return t[1]
        v = None
        first = True
        for loc, path in t:
            x = read_path(mem.get(loc), path)
            v = x if first else join(v, x)
            first = False
            if v is None:
                return None
        return v

    def write(self, mem, p, v):
        if len(p) == 1:
            mem[p[0]] = v
            return
        t = self.place(mem, p)
        if t is None or t[0] == "V":
            return
        weak = len(t) > 1
        for loc, path in t:
            w = weak or (isinstance(loc, tuple) and loc[0] == "h" and loc[1] and False)
            mem[loc] = write_path(mem.get(loc), path, v, w)

    def load_ref(self, mem, v):
        v = self.unwrap_ptr(v)
        if v is None:
            return None
        if v[0] != "R":
            return v if v[0] in ("B", "F", "Y", "E", "i", "T") else None
        out = None
        first = True
        for loc, path, _c in v[1]:
            x = read_path(mem.get(loc), path)
            out = x if first else join(out, x)
            first = False
        return out

    def store_ref(self, mem, ref, path, v):
        ref = self.unwrap_ptr(ref)
        if ref is None or ref[0] != "R":
            return
        weak = len(ref[1]) > 1
        for loc, p, _c in ref[1]:
            mem[loc] = write_path(mem.get(loc), p + tuple(path), v, weak)

    def const(self, c):
        if c.get("fn") is not None:
            return ("F", c["fn"])
        t = self.prog.types[c["t"]]
        k = t["k"]
        if k in ("bool", "int", "uint", "char") and "v" in c:
            return ("i", c["v"])
        if "p" in c:
            for p in c["p"]:
                if p[0] == "b":
                    b = p[1]
                    v = self.const_ref(t, b)
                    if v is not None:
                        return v
                    return ("B", b if isinstance(b, str) else bytes(b).decode("latin1"))
                if p[0] == "u":
                    v = self.const_tag(t, p[1])
                    if v is not None:
                        return v
                if p[0] == "fn" and k == "fnptr":
                    return ("F", p[1])
                if p[0] == "static":
                    return ("Y", ("static", p[1]))
            return None
        if k == "adt":
            a = self.adt.get(t["d"])
            if a and a["kind"] == "Enum":
                vs = a["variants"]
                if len(vs) == 1:
                    return E(0)
                if t["d"] == "std::option::Option" and "v" not in c and "tag" in c and c["tag"] == 0:
                    return E(0)
                if t["d"] == "std::option::Option" and c.get("v") == 0 and t.get("a") and isinstance(t["a"][0], int) and self.prog.types[t["a"][0]]["k"] in ("ref", "fnptr"):
                    return E(0)  # (a null pointer)
                if self.scalar_enum(t, a) and "v" in c:
                    for i, v in enumerate(vs):
                        if v[1] == c["v"]:
                            return E(i)
            if c.get("z"):
                return UNIT
            if t["d"] == "std::process::ExitCode" and "v" in c:
                return ("i", c["v"])
            if a and a["kind"] == "Struct" and len(a["variants"][0][2]) == 1 and "v" in c:
                return S({0: ("i", c["v"])})
            return None
        if c.get("z") or k == "tuple" and not t.get("a"):
            return UNIT
        return None

    def scalar_enum(self, t, a):
        """An enum whose value is its discriminant: no variant carries anything."""
        unit = lambda x: x["k"] == "never" or x["k"] == "tuple" and not x.get("a")
        return all(not v[2] for v in a["variants"]) or t["d"].startswith("std::") and all(unit(self.prog.types[x]) for x in t.get("a", ()))

    def const_ref(self, t, b):
        """A reference to a constant integer or field-less enum stands for the value itself."""
        if t["k"] != "ref" or len(t["a"]) != 1:
            return None
        u = self.prog.types[t["a"][0]]
        raw = b.encode("latin1", "replace") if isinstance(b, str) else bytes(b)
        if u["k"] in ("bool", "int", "uint") and len(raw) in (1, 2, 4, 8):
            return ("i", int.from_bytes(raw, "little"))
        if u["k"] == "adt" and u["d"] == "std::option::Option" and len(raw) in (2, 4, 8, 16) and u.get("a") and isinstance(u["a"][0], int) and self.prog.types[u["a"][0]]["k"] in ("int", "uint"):
            h = len(raw) // 2
            return E(1, {0: ("i", int.from_bytes(raw[h:], "little"))}) if raw[0] else E(0)
        if u["k"] == "adt":
            a = self.adt.get(u["d"])
            if a and a["kind"] == "Enum" and self.scalar_enum(u, a) and len(raw) in (1, 2, 4, 8):
                n = int.from_bytes(raw, "little")
                for i, v in enumerate(a["variants"]):
                    if v[1] == n:
                        return E(i)
        return None

    def const_tag(self, t, b):
        """A reference to a constant enum variant that carries nothing although others do: only its tag is initialised."""
        n = next((i for i, x in enumerate(b) if x < 0), len(b))
        if t["k"] != "ref" or n not in (1, 2, 4, 8) or any(x >= 0 for x in b[n:]):
            return None
        u = self.prog.types[t["a"][0]]
        a = self.adt.get(u["d"]) if u["k"] == "adt" else None
        if a and a["kind"] == "Enum":
            for i, v in enumerate(a["variants"]):
                if v[1] == int.from_bytes(bytes(b[:n]), "little") and not v[2]:
                    return E(i)
        return None

    def operand(self, mem, o):
        k = o[0]
        if k == "k":
            return self.const(o[1])
        if k == "rc":
            return FALSE
        p = o[1]
        v = self.read(mem, p)
        if k == "m" and len(p) == 1:
            mem.pop(p[0], None)
        return v

    def adt_of(self, ty):
        t = self.prog.types[ty]
        return self.adt.get(t["d"]) if t["k"] == "adt" else None

    WRAP = ("std::ptr::NonNull", "std::ptr::Unique", "std::boxed::Box", "std::boxed::BoxRaw", "std::pin::Pin", "core::ptr::unique::Unique")

    def rvalue(self, mem, rv, body, fr):
        k = rv[0]
        if k == "use":
            return self.operand(mem, rv[1])
        if k == "ref" or k == "addr":
            p = rv[2] if k == "ref" else rv[1]
            t = self.place(mem, p)
            if t is None:
                return None
            if t[0] == "V":
                return t[1] if t[1] is not None and t[1][0] in ("B", "Y", "E", "i", "T") else None
            # re-borrow keeps the concrete type of a trait object
            if p[-1] == "*":
                base = self.unwrap_ptr(self.read(mem, p[:-1]))
                if base is not None and base[0] == "R":
                    return base
            s = set()
            for loc, path in t:
                cut = []
                for e in path:
                    cut.append(e)
                s.add((loc, tuple(cut), None))
                if loc not in mem:
                    mem[loc] = None
            return ("R", frozenset(s))
        if k == "agg":
            kk = rv[1]
            vals = [self.operand(mem, o) for o in rv[2]]
            if kk[0] == "array":
                if not vals:
                    return ("A", None)
                if 2 <= len(vals) <= 8 and any(x is not None and x[0] == "S" for x in vals):
                    return ("L", tuple(vals))
                v = vals[0]
                for x in vals[1:]:
                    v = join(v, x)
                return ("A", v)
            d = {i: v for i, v in enumerate(vals) if v is not None}
            if kk[0] == "adt":
                a = self.adt_of(kk[1])
                if a and a["kind"] == "Enum":
                    return E(kk[2], d)
                if a and a["kind"] == "Union" and kk[3] is not None:
                    return S({kk[3]: vals[0]}) if vals and vals[0] is not None else UNIT
            if kk[0] == "closure":
                v = S(d)
                return v
            return S(d)
        if k == "cast":
            v = self.operand(mem, rv[2])
            ck = rv[1]
            if ck == "reify":
                return ("F", rv[4]) if len(rv) > 4 else None
            if ck == "unsize" and len(rv) > 6:
                return self.annotate(v, rv[5], 0)
            if ck == "int":
                return v if v is not None and v[0] in ("i", "P", "T") else None
            return v
        if k == "discr":
            t = self.place(mem, rv[1])
            if t is None:
                return None
            if t[0] == "V":
                v = t[1]
            else:
                v = self.read(mem, rv[1])
            if v is not None and v[0] == "L":
                v = smash(v)
            if v is not None and v[0] == "A":
                v = v[1]
            if self.spec.tokens and v is not None and v[0] == "Y":
                return v
            if v is not None and v[0] == "E" and len(v[1]) == 1:
                a = self.adt_of(rv[2]) if rv[2] is not None else None
                if a:
                    return ("i", a["variants"][v[1][0][0]][1])
                return ("i", v[1][0][0])
            if t[0] != "V" and len(t) == 1:
                return ("D", t[0][0], t[0][1], rv[2])
            return None
        if k == "len":
            v = self.read(mem, rv[1])
            if self.spec.length is not None:
                return self.spec.length(self, mem, v)
            return ("P",) if v is not None and v[0] == "Y" and v[1][0] == "nonempty" else None
        if k in ("bin", "cbin"):
            a = self.operand(mem, rv[2])
            b = self.operand(mem, rv[3])
            r = None
            if a is not None and a[0] == "T" or b is not None and b[0] == "T":
                r = ("T", labels_of(a) | labels_of(b))
            elif a is not None and b is not None and a[0] == "i" and b[0] == "i":
                r = self.fold(rv[1], a[1], b[1])
            elif self.spec.tokens and rv[1] in ("Eq", "Ne") and a is not None and b is not None and a[0] == "Y" and b[0] == "Y":
                r = ("i", int((a == b) == (rv[1] == "Eq")))
            elif (a is not None and a[0] == "P") or (b is not None and b[0] == "P"):
                r = self.fold_pos(rv[1], a, b)
            elif rv[1].startswith("Add") and (a is None and b is not None and positive(b) or b is None and a is not None and positive(a)):
                if any(o[0] == "k" and isinstance(o[1], dict) and self.prog.ts(o[1]["t"]) in ("u8", "u16", "u32", "u64", "u128", "usize") for o in rv[2:4]):
                    r = ("P",)
            elif rv[1] in ("Eq", "Ne") and a is not None and a[0] == "D" and b is not None and b[0] == "i":
                r = None
            elif rv[1] in ("Eq", "Ne") and b == FALSE and a is not None and a[0] == "N":
                r = None
            if k == "cbin" or rv[1].endswith("WithOverflow"):
                return S({0: r, 1: FALSE}) if r is not None else S({1: FALSE})
            return r
        if k == "un":
            a = self.operand(mem, rv[2])
            if rv[1] == "Not":
                if a is not None and a[0] == "i" and a[1] in (0, 1):
                    return ("i", 1 - a[1])
                return None
            if rv[1] == "PtrMetadata" and self.spec.length is not None:
                return self.spec.length(self, mem, a)
            if a is not None and a[0] == "T":
                return a
            if rv[1] == "PtrMetadata":
                return ("P",) if a is not None and a[0] == "Y" and a[1][0] == "nonempty" else None
            return None
        if k == "repeat":
            return ("A", self.operand(mem, rv[1]))
        return None

    def fold_pos(self, op, a, b):
        """Arithmetic and comparison of unsigned values of which one is known to be positive."""
        if op.startswith("Add"):
            return ("P",)
        if op in ("BitOr",):
            return ("P",)
        if a is not None and a[0] == "P" and b is not None and b[0] == "i":
            n = b[1]
            if n == 0:
                return {"Gt": TRUE, "Ne": TRUE, "Ge": TRUE, "Eq": FALSE, "Lt": FALSE, "Le": FALSE}.get(op)
            if n == 1:
                return {"Ge": TRUE, "Lt": FALSE}.get(op)
        if b is not None and b[0] == "P" and a is not None and a[0] == "i":
            n = a[1]
            if n == 0:
                return {"Lt": TRUE, "Ne": TRUE, "Le": TRUE, "Eq": FALSE, "Gt": FALSE, "Ge": FALSE}.get(op)
            if n == 1:
                return {"Le": TRUE, "Gt": FALSE}.get(op)
        return None

    def fold(self, op, a, b):
        try:
            if op == "Eq":
                return ("i", int(a == b))
            if op == "Ne":
                return ("i", int(a != b))
            if op.startswith("Add") and 0 <= a < 1 << 31 and 0 <= b < 1 << 31:
                return ("i", a + b) if not a or not b or self.spec.exact else ("P",)
            if op == "BitAnd":
                return ("i", a & b)
            if op == "BitOr":
                return ("i", a | b)
            if op == "BitXor":
                return ("i", a ^ b)
            if op == "Lt":
                return ("i", int(a < b))
            if op == "Gt":
                return ("i", int(a > b))
            if op == "Le":
                return ("i", int(a <= b))
            if op == "Ge":
                return ("i", int(a >= b))
        except TypeError:
            pass
        return None

    def annotate(self, v, conc, depth):
        if v is None or depth > 6:
            return v
        if v[0] == "R":
            return ("R", frozenset((l, p, conc) for l, p, _c in v[1]))
        if v[0] == "S" and v[1]:
            k, x = v[1][0]
            if k == 0:
                return ("S", ((k, self.annotate(x, conc, depth + 1)),) + v[1][1:])
        return v

    # ------------------------------------------------------------ functions
    def run(self, fn, args, st, mem=None, frame=None):
        """Analyse fn from a root. Returns {(state, tag): (ret, mem)}."""
        return self.call_body(fn, args, st, mem if mem is not None else {}, frame or Frame(fn, None, None))

    def labels(self, mem, v, out, seen, depth=0):
        """Source labels reachable from a value, through references too."""
        out |= labels_of(v)
        if depth > 6:
            return
        rs = []
        refs_in(v, rs, True)
        for loc, path in rs:
            if (loc, path) not in seen:
                seen.add((loc, path))
                self.labels(mem, read_path(mem.get(loc), path), out, seen, depth + 1)

    def unknown_result(self, mem, args, argtypes):
        """What a function we do not look into returns, having done what it may to its arguments."""
        if not self.spec.taint:
            self.havoc_args(mem, args, argtypes)
            return None
        ls = set()
        for v in args:
            self.labels(mem, v, ls, set())
        self.havoc_args(mem, args, argtypes)
        if not ls:
            return None
        ls = frozenset(ls)
        for i, v in enumerate(args):
            t = argtypes[i] if i < len(argtypes) else None
            if t is None or self.mutates(t):
                rs = []
                refs_in(v, rs)
                for loc in rs:
                    if loc in mem and (mem[loc] is None or mem[loc][0] == "T"):
                        mem[loc] = ("T", labels_of(mem[loc]) | ls)
        return ("T", ls)

    def mutates(self, t, seen=()):
        """May a value of this type give write access to other memory?"""
        r = self._mut.get(t)
        if r is None:
            if t in seen:
                return False
            ty = self.prog.types[t]
            k = ty["k"]
            a = [x for x in ty.get("a", ()) if isinstance(x, int)]
            sn = seen + (t,)
            if k in ("ref", "ptr"):
                r = ty["s"].startswith(("&mut ", "*mut ")) or re.match(r"^&'\w+ mut ", ty["s"]) is not None
                if not r and a:
                    r = False  # shared
            elif k == "closure":
                r = bool(a) and self.mutates(a[-1], sn)
            elif k in ("fndef", "fnptr", "int", "uint", "bool", "char", "float", "str", "never"):
                r = False
            elif k == "dyn":
                r = False
            else:
                r = "&mut " in ty["s"] or "*mut " in ty["s"] or " mut " in ty["s"] or any(self.mutates(x, sn) for x in a)
            if not seen:
                self._mut[t] = r
        return r

    def havoc_args(self, mem, args, argtypes):
        for i, v in enumerate(args):
            if v is None:
                continue
            t = argtypes[i] if i < len(argtypes) else None
            if t is None or self.mutates(t):
                self.havoc(mem, v, t)

    def havoc(self, mem, v, t, depth=0):
        if v is None:
            return
        if t is not None and v is not None and v[0] == "S" and depth < 6:
            ty = self.prog.types[t]
            parts = None
            if ty["k"] == "closure" and ty.get("a") and isinstance(ty["a"][-1], int):
                u = self.prog.types[ty["a"][-1]]
                parts = u.get("a") if u["k"] == "tuple" else None
            elif ty["k"] == "tuple":
                parts = ty.get("a")
            elif ty["k"] == "adt" and WRAPS.match(ty["d"]):
                parts = [x for x in ty.get("a", ()) if isinstance(x, int)]
                if ty["d"].endswith("GenericShunt"):
                    parts[1:] = [None]  # (where it leaves the first error)
                elif ty["d"].endswith(("TakeWhile", "SkipWhile")):
                    parts[1:1] = [None]
            if parts and all(isinstance(k, int) and k < len(parts) for k, _x in v[1]):
                for k, x in v[1]:
                    if x is not None and (not isinstance(parts[k], int) or self.mutates(parts[k])):
                        self.havoc(mem, x, parts[k] if isinstance(parts[k], int) else None, depth + 1)
                return
        deep = depth < 4 and t is not None and any(self.mutates(x) for x in self.prog.types[t].get("a", ()) if isinstance(x, int))
        keep = self.constant_fields(self.prog.types[t]["a"][0]) if t is not None and self.prog.types[t]["k"] == "ref" and v[0] == "R" else None
        if v[0] == "R":
            targets = [(l, p) for l, p, _c in sorted(v[1], key=repr)]
        else:
            out = []
            refs_in(v, out)
            targets = [(l, ()) for l in out]
        for loc, path in targets:
            if loc not in mem:
                continue
            if not all(isinstance(e, int) for e in path):
                path = ()
            old = read_path(mem[loc], path)
            new = self.havoc_value(old)
            if keep is not None and old is not None and old[0] == "S":
                d = dict(new[1]) if new is not None and new[0] == "S" else {}
                d.update({k: x for k, x in old[1] if isinstance(k, int) and keep(k)})
                new = S(d) if d else None
            mem[loc] = write_path(mem[loc], path, new) if path else new
            if deep and self.prog.types[t]["k"] in ("ref", "ptr"):
                self.havoc(mem, old, self.prog.types[t]["a"][0], depth + 1)

    def constant_fields(self, t):
        """For a workspace type no value of which is ever overwritten: which of its fields never change either."""
        ty = self.prog.types[t]
        if ty["k"] != "adt" or not ty["d"].startswith("backpak") or (ty["d"], "*") in self.prog.muts:
            return None
        return lambda k: (ty["d"], str(k)) not in self.prog.muts

    def havoc_value(self, v):
        """What may be left of v after a function that performs no event was given it mutably: data is
        forgotten; rule tokens, pointers and function values stay (such a function cannot make new ones)."""
        if v is None:
            return None
        if v[0] in ("Y", "F", "R", "T"):
            return v
        if v[0] == "S":
            d = tuple((k, x) for k, x in ((k, self.havoc_value(x)) for k, x in v[1]) if x is not None)
            return ("S", d) if d else None
        if v[0] == "L":
            v = smash(v)
        if v[0] == "A":
            x = self.havoc_value(v[1])
            return None if x is None else ("A", x)
        return None

    def call_body(self, fn, args, st, mem, frame):
        """args/mem in the *callee's canonical* naming. Memoised."""
        key = (fn.id, st, tuple(args), tuple(mem.items()))
        m = self._known(key)
        if m is not None:
            return m
        # bound recursion
        n = sum(1 for f in self.stack if f == fn.id)
        if 2 <= n < 7 and len(self.stack) <= self.depth_limit:
            # widen: what the enclosing call of the same function was given, joined with what this one is given
            prev = next((a for a in reversed(self.args_stack) if a[0] == fn.id and a[1] == st), None)
            if prev is not None and len(prev[2]) == len(args):
                jargs = [join(x, y) for x, y in zip(prev[2], args)]
                jmem = {l: (join(prev[3][l], mem[l]) if l in prev[3] and l in mem else mem.get(l, prev[3].get(l))) for l in sorted(set(prev[3]) | set(mem), key=repr)}
                key = (fn.id, st, tuple(jargs), tuple(jmem.items()))
                m = self._known(key)
                if m is not None:
                    return m
                return self._fix(key, fn, jargs, st, jmem, frame)
        if n >= 3 or len(self.stack) > self.depth_limit:
            wide = [None] * len(args)
            if self.spec.taint:
                ls = [set() for _a in args]
                for a, x in zip(args, ls):
                    self.labels(mem, a, x, set())
                wide = [("T", frozenset(x)) if x else None for x in ls]
            key2 = (fn.id, st, "widened", tuple(wide))
            m = self._known(key2)
            if m is None:
                m = self._fix(key2, fn, wide, st, {}, frame)
            # the callee may have changed anything it can write to
            after = dict(mem)
            self.unknown_result(after, args, fn.body["lt"][1:len(args) + 1])
            return {k: (None if self._has_ref(r) else r, dict(after)) for k, (r, _m) in m.items()}
        return self._fix(key, fn, list(args), st, mem, frame)

    def _known(self, key):
        """The result of a call analysed before, or the present assumption about one being analysed.
        Results resting on assumptions are kept for as long as those stand."""
        m = self.memo.get(key)
        if m is not None:
            if m[1] and not all(self._stands(d) for d in m[1]):
                del self.memo[key]
            else:
                if self.deps:
                    self.deps[-1] |= m[1]
                return m[0]
        rec = self.active.get(key)
        if rec is not None:
            rec[1] = True
            self.deps[-1].add(rec[2])
            return dict(rec[0])
        return None

    def _stands(self, d):
        if d in self.stamps:
            return True
        s = self.settled.get(d)
        if s is None:
            return False
        if all(self._stands(x) for x in s):
            return True
        del self.settled[d]
        return False

    def _stamp(self):
        self.nstamps += 1
        self.stamps.add(self.nstamps)
        return self.nstamps

    def _has_ref(self, v):
        o = []
        refs_in(v, o)
        return bool(o)

    def _fix(self, key, fn, args, st, mem, frame):
        rec = self.active[key] = [{}, False, self._stamp()]
        self.stack.append(fn.id)
        self.args_stack.append((fn.id, st, list(args), dict(mem)))
        self.deps.append(set())
        try:
            while True:
                res = self.exec(fn, args, st, dict(mem), frame)
                if not rec[1]:
                    break
                old = rec[0]
                if all(k in old and old[k] == res[k] for k in res):
                    break
                merged = dict(old)
                for k, (r, m) in res.items():
                    if k in merged:
                        r0, m0 = merged[k]
                        merged[k] = (join(r0, r), {l: join(m0.get(l), m.get(l)) for l in set(m0) & set(m)})
                    else:
                        merged[k] = (r, m)
                if merged == old:
                    res = merged
                    break
                rec[0] = merged
                rec[1] = False
                self.stamps.discard(rec[2])
                rec[2] = self._stamp()
        finally:
            self.stack.pop()
            self.args_stack.pop()
            self.active.pop(key)
            self.stamps.discard(rec[2])
            deps = self.deps.pop()
        deps = frozenset(d for d in deps if d in self.stamps or d in self.settled and self._stands(d))
        self.settled[rec[2]] = deps
        if self.deps:
            self.deps[-1] |= deps
        self.memo[key] = (res, deps)
        return res

    def exec(self, fn, args, st, mem, frame):
        b = self.body(fn)
        self.visited.add(fn.id)
        T = self.prog.types
        # bind arguments
        for i, v in enumerate(args):
            mem[i + 1] = v
        for i in range(len(args), b.argc):
            mem[i + 1] = None
        results = {}
        parts = {0: {(st, ()): mem}}
        seq = 0
        work = [(0, 0, 0, (st, ()))]
        queued = {(0, (st, ()))}
        rpo = b.rpo
        while work:
            _o, _s, blk, key = heapq.heappop(work)
            queued.discard((blk, key))
            m = parts[blk][key]
            self.steps += 1
            if self.steps > self.spec.max_steps:
                raise Budget(f"more than {self.spec.max_steps} steps")
            st0 = key[0]
            stmts, term, span = b.bl[blk]
            m = dict(m)
            dead = False
            for s in stmts:
                k = s[0]
                if k == "=":
                    v = self.rvalue(m, s[2], b, frame)
                    self.write(m, s[1], v)
                    if self.spec_assign is not None:
                        self.spec_assign(fn, s, m, v)
                elif k == "x":
                    m.pop(s[1], None)
                elif k == "sd":
                    old = self.read(m, s[1])
                    fs = ()
                    if old is not None and old[0] == "E":
                        for var, f in old[1]:
                            if var == s[2]:
                                fs = f
                    self.write(m, s[1], ("E", ((s[2], fs),)))
            k = term[0]
            nxt = []
            if k == "goto":
                nxt = [(term[1], st0, m)]
            elif k == "sw":
                nxt = [(t, st0, mm) for t, mm in self.switch(m, term)]
            elif k == "ret":
                ret = m.get(0)
                # drop own locals
                mm = {l: v for l, v in m.items() if not isinstance(l, int)}
                rk = (st0, tag(ret))
                if rk in results:
                    r0, m0 = results[rk]
                    # heap cells present on one side only are kept
                    jm = dict(m0)
                    for l, v in mm.items():
                        jm[l] = join(m0[l], v) if l in m0 else v
                    results[rk] = (join(r0, ret), jm)
                else:
                    results[rk] = (ret, mm)
            elif k == "drop":
                g = term[4]
                if g is not None and g in self.relevant and g not in self.spec.no_inline:
                    gf = self.prog.fns[g]
                    t = self.place(m, term[1])
                    if t is None or t[0] == "V":
                        ref = None
                    else:
                        ref = ("R", frozenset((l, p, None) for l, p in t))
                    for st1, _r, m1 in self.call(fn, b, gf, [ref], [None], st0, m, frame, span, blk):
                        nxt.append((term[2], st1, m1))
                else:
                    nxt = [(term[2], st0, m)]
            elif k == "call":
                if isinstance(term[1], int):
                    cf = self.prog.fns[term[1]]
                    fv = None
                else:
                    cf = None
                    fv = self.operand(m, term[1])
                argv = []
                argt = []
                for o in term[2]:
                    argt.append(self.op_type(b, o))
                    if not argv and cf is not None and cf.kind == "virtual" and o[0] in ("c", "m") and o[1][-1] == "*":
                        # an unsized `self` passed by value: hand the pointer on
                        argv.append(self.unwrap_ptr(self.read(m, o[1][:-1])))
                        continue
                    argv.append(self.operand(m, o))
                if cf is None:
                    fv = self.load_ref(m, fv) if fv is not None and fv[0] == "R" else fv
                    if fv is not None and fv[0] == "F":
                        cf = self.prog.fns[fv[1]]
                if cf is None:
                    self.havoc_args(m, argv, argt)
                    outs = [(st0, None, m)]
                else:
                    outs = self.call(fn, b, cf, argv, argt, st0, m, frame, span, blk)
                if term[4] is not None:
                    for i, (st1, r, m1) in enumerate(outs):
                        if len(outs) > 1:
                            m1 = dict(m1)  # (ways out may share their memory)
                        self.write(m1, term[3], r)
                        nxt.append((term[4], st1, m1))
            elif k == "assert":
                nxt = [(term[3], st0, m)]
            elif k == "asm":
                if term[1] is not None:
                    nxt = [(term[1], st0, m)]
            for tgt, st1, m1 in nxt:
                live = b.live[tgt]
                m2 = {l: v for l, v in m1.items() if not isinstance(l, int) or l in live}
                tags = []
                for l in sorted(b.tagged & live):
                    if l in m2:
                        tg = tag(m2[l])
                        if tg != "?":
                            tags.append((l, tg))
                tags += self.spec.part(self, st1, m2, b)
                pk = (st1, tuple(tags))
                ps = parts.setdefault(tgt, {})
                if pk not in ps and len(ps) >= self.spec.part_cap:
                    pk = (st1, "*")
                if pk in ps:
                    old = ps[pk]
                    new = self.join_mem(old, m2)
                    if new == old:
                        continue
                    ps[pk] = new
                else:
                    ps[pk] = m2
                if (tgt, pk) not in queued:
                    queued.add((tgt, pk))
                    seq += 1
                    heapq.heappush(work, (rpo[tgt], seq, tgt, pk))
        return results

    spec_assign = None

    def join_mem(self, a, b):
        out = {}
        for l in a.keys() | b.keys():
            if l in a and l in b:
                va, vb = a[l], b[l]
                out[l] = va if va == vb else join(va, vb)
            else:
                out[l] = a[l] if l in a else b[l]
        return out

    def op_type(self, b, o):
        if o[0] in ("c", "m"):
            return b.lt[o[1][0]] if len(o[1]) == 1 else None
        if o[0] == "k":
            return o[1]["t"]
        return None

    def switch(self, m, term):
        o = term[1]
        v = self.read(m, o[1]) if o[0] in ("c", "m") else self.operand(m, o)
        branches, other = term[2], term[3]
        if v is not None and v[0] == "i":
            for val, t in branches:
                if val == v[1]:
                    return [(t, m)]
            return [(other, m)]
        out = []
        if v is not None and v[0] == "D":
            _d, loc, path, ty = v
            cur = read_path(m.get(loc), path)
            a = self.adt_of(ty) if ty is not None else None
            vs = a["variants"] if a else None
            if vs is None:
                return [(t, dict(m)) for _val, t in branches] + [(other, dict(m))]
            poss = {var: fs for var, fs in cur[1]} if cur is not None and cur[0] == "E" else {i: (((0, cur), (1, cur)) if cur is not None and cur[0] == "T" and x[2] else ()) for i, x in enumerate(vs)}
            left = dict(poss)
            for val, t in branches:
                for i, x in enumerate(vs):
                    if x[1] == val and i in poss:
                        mm = dict(m)
                        mm[loc] = write_path(m.get(loc), path, ("E", ((i, poss[i]),)))
                        out.append((t, mm))
                        left.pop(i, None)
            if left:
                mm = dict(m)
                mm[loc] = write_path(m.get(loc), path, ("E", tuple(sorted(left.items()))))
                out.append((other, mm))
            return out
        if v is not None and v[0] == "P":
            return [(t, dict(m)) for val, t in branches if val != 0] + [(other, dict(m))]
        # unknown
        isbool = term[4] is not None and self.prog.types[term[4]]["k"] == "bool"
        for val, t in branches:
            mm = dict(m)
            if o[0] == "c" and v is None:
                self.write(mm, o[1], ("i", val))
            out.append((t, mm))
        mm = dict(m)
        if isbool and o[0] == "c" and v is None and len(branches) == 1:
            self.write(mm, o[1], ("i", 1 - branches[0][0]))
        out.append((other, mm))
        return out

    # ------------------------------------------------------------ calls
    def call(self, fn, b, cf, argv, argt, st, m, frame, span, blk):
        """Returns [(state, ret, mem)]; may take ownership of m."""
        sp = self.spec
        ctx = Ctx(self, cf, argv, st, m, frame, span, fn, argt)
        r = None
        if cf.id in sp.events or cf.def_ in sp.models:
            if cf.id in sp.events:
                r = sp.on_call(ctx)
            if r is None and cf.def_ in sp.models:
                r = sp.models[cf.def_](sp, ctx)
            if r is not None:
                self.event_sites.setdefault(cf.def_, set()).add((fn.id, blk))
                return [(s1, rv, dict(m)) if len(x) == 2 else (s1, rv, x[2]) for x in r for s1, rv in [x[:2]]]
        if sp.dyn_model is not None:
            r = sp.dyn_model(ctx)
            if r is not None:
                return [(x[0], x[1], dict(m)) for x in r]
        r = self.builtin(ctx, cf, argv, argt, st, m, frame, span, fn, blk)
        if r is not None:
            return r
        if cf.kind == "virtual":
            targets = self.resolve_virtual(cf, argv)
            rel = [t for t in targets if t in self.relevant or t in sp.events or self.small(t)]
            outs = []
            if len(targets) > 40 or any(t not in rel for t in targets) or not targets:
                m2 = dict(m)
                outs.append((st, self.unknown_result(m2, argv, argt), m2))
            for t in rel:
                av = list(argv)
                if isinstance(targets, dict) and targets[t] is not None:
                    av[0] = targets[t]
                outs += self.call(fn, b, self.prog.fns[t], av, argt, st, dict(m), frame, span, blk)
            return outs
        if cf.body is None or cf.id in sp.no_inline:
            return self.opaque(fn, cf, argv, argt, st, m, frame, span, blk)
        if cf.id not in self.relevant and not self.small(cf.id):
            return [(st, self.unknown_result(m, argv, argt), m)]
        return self.inline(fn, cf, argv, st, m, frame, span, blk)

    def opaque(self, fn, cf, argv, argt, st, m, frame, span, blk):
        """A function we have no body for (third party). It may call back into workspace closures."""
        sp = self.spec
        cbs = []
        if cf.id in self.relevant:
            seen = set()
            todo = [cf.id]
            while todo:
                for g in self.prog.fns[todo.pop()].succ:
                    if g in seen:
                        continue
                    seen.add(g)
                    if g in self.relevant:
                        cbs.append(g)
        r = self.unknown_result(m, argv, argt)
        if cbs:
            self.unknown_calls.setdefault(cf.def_, set()).add(fn.id)
        return [(st, r, m)]

    def resolve_virtual(self, cf, argv):
        prog = self.prog
        recv = self.unwrap_ptr(argv[0]) if argv else None
        dyn = prog.virtual_dyn(cf)
        if recv is not None and recv[0] == "R" and all(c is not None for _l, _p, c in recv[1]):
            out = {}
            tr = prog.types[dyn]["d"] if dyn is not None else None
            for l, p, c in recv[1]:
                for (d, cc), mm in prog.vtc.items():
                    if cc == c and (d == dyn or prog.types[d]["d"] == tr) and cf.vidx in mm:
                        out.setdefault(mm[cf.vidx], set()).add((l, p, c))
            if out:
                return {t: ("R", frozenset(v)) for t, v in sorted(out.items())}
        return sorted(cf.succ)

    def builtin(self, ctx, cf, argv, argt, st, m, frame, span, fn, blk):
        d = cf.def_
        if cf.kind == "intrinsic":
            if d.endswith("::select_unpredictable"):
                return [(st, join(argv[1], argv[2]), m)]
            if d.endswith("::arith_offset") or d.endswith("::offset"):
                return [(st, argv[0], m)]
            if d.endswith("typed_swap_nonoverlapping"):
                a, b2 = self.load_ref(m, argv[0]), self.load_ref(m, argv[1])
                self.store_ref(m, argv[0], (), b2)
                self.store_ref(m, argv[1], (), a)
                return [(st, UNIT, m)]
            if d.endswith("black_box"):
                return [(st, argv[0], m)]
            if d.endswith(("::abort", "::unreachable", "abort_immediate")):
                return []
            return [(st, None, m)]
        if d == "std::boxed::box_new_uninit" or d == "std::alloc::exchange_malloc":
            h = ("h", ((fn.id, blk),))
            m[h] = None
            return [(st, ("R", frozenset({(h, (), None)})), m)]
        if d.endswith("precondition_check"):
            return [(st, UNIT, m)]
        if d == "std::thread::scope":
            # the closure runs on this thread; scoped threads are joined when it returns
            outs = self.call_closure(fn, argv[0], argt[0], [None], st, m, frame, span, blk)
            return [(self.spec.on_scope_end(ctx, s1), r1, m1) for s1, r1, m1 in outs]
        if d in ("std::thread::scoped::Scope::<'scope, 'env>::spawn", "std::thread::spawn", "std::thread::Builder::spawn",
                 "std::thread::scoped::<impl std::thread::Builder>::spawn_scoped") or d.endswith("::Scope::<'scope, 'env>::spawn"):
            r = self.spec.on_spawn(self, ctx)
            return r
        if d.startswith("std::panicking::") or d.startswith("core::panicking::") or d in ("std::process::exit", "std::process::abort"):
            return []
        return None

    def closure_fn(self, ty):
        """Body of the closure type `ty` when invoked as FnOnce (or the plain body)."""
        t = self.prog.types[ty] if ty is not None else None
        if t is None:
            return None
        if t["k"] == "ref" or t["k"] == "ptr":
            return self.closure_fn(t["a"][0])
        if t["k"] == "closure":
            f = t.get("fn")
            return self.prog.fns[f] if f is not None else None
        return None

    def call_closure(self, fn, v, ty, args, st, m, frame, span, blk):
        cf = self.closure_fn(ty)
        if cf is None or cf.body is None:
            return [(st, None, m)]
        if cf.kind == "shim":
            return self.inline(fn, cf, [v] + ([S({i: a for i, a in enumerate(args) if a is not None})] if True else []), st, m, frame, span, blk)
        return self.inline(fn, cf, [v] + list(args), st, m, frame, span, blk)

    def inline(self, fn, cf, argv, st, m, frame, span, blk):
        b = self.body(cf)
        # rust-call: closure bodies take their arguments unpacked
        args = list(argv)
        if self.prog.is_closure(cf) and cf.kind == "item" and (fn.kind != "shim" or fn.def_.endswith("::call_once")) and len(argv) == 2 and b.argc != 2:
            args = [argv[0]] + [field(argv[1], i) for i in range(b.argc - 1)]
        elif self.prog.is_closure(cf) and cf.kind == "item" and (fn.kind != "shim" or fn.def_.endswith("::call_once")) and len(argv) == 2 and b.argc == 2 and self._tuple_call(cf, b, argv):
            args = [argv[0], field(argv[1], 0)]
        elif self.prog.is_closure(cf) and cf.kind == "item" and b.argc == 1:
            args = [argv[0]]
        # canonical naming of reachable memory
        fwd = {}
        order = []
        stack = []
        for a in args:
            refs_in(a, stack)
        i = 0
        todo = stack
        while i < len(todo):
            loc = todo[i]
            i += 1
            if loc in fwd or loc not in m:
                if loc not in fwd and loc not in m:
                    pass
                continue
            fwd[loc] = ("c", len(fwd))
            order.append(loc)
            refs_in(m[loc], todo)
            if len(fwd) > 400:
                break
        cm = {fwd[l]: rename(m[l], fwd) for l in order}
        cargs = [rename(a, fwd) for a in args]
        fr = Frame(cf, (fn, span), frame)
        res = self.call_body(cf, cargs, st, cm, fr)
        outs = []
        back0 = {c: l for l, c in fwd.items()}
        site = (fn.id, blk)
        for (st1, _tag), (ret, rm) in res.items():
            back = dict(back0)
            # heap cells created below, if still reachable
            need = []
            refs_in(ret, need)
            for c in back0:
                refs_in(rm.get(c), need)
            j = 0
            new = []
            while j < len(need):
                loc = need[j]
                j += 1
                if loc in back:
                    continue
                if isinstance(loc, tuple) and loc[0] == "h" and loc in rm:
                    if len(loc[1]) > 24:
                        continue
                    back[loc] = ("h", loc[1] + (site,))
                    new.append(loc)
                    refs_in(rm[loc], need)
            m2 = dict(m)
            for c, l in back0.items():
                m2[l] = rename(rm.get(c), back)
            for h in new:
                v = rename(rm[h], back)
                n = back[h]
                m2[n] = v if n not in m2 or h[1][0][0] == "rule" else join(m2[n], v)  # (a rule's cell is what it last put there)
            r = rename(ret, back)
            if self.spec.on_return is not None:
                x = self.spec.on_return(self, cf, st1, r, m2, fr, fn, span)
                if x is not None:
                    st1, r = x
            outs.append((st1, r, m2))
        return outs

    def _tuple_call(self, cf, b, argv):
        # closure |x| called through Fn*(env, (x,)): the second argument is a 1-tuple
        return True


Spec.no_inline = frozenset()
Spec.taint = False
Spec.formats = False  # what is formatted carries the labels of what is in it (and not the constant text of it)
Spec.tokens = False  # rule tokens are values that can be compared
Spec.exact = False  # add numbers up (if no loop does), rather than just knowing their sum to be positive
Spec.models = {}
Spec.on_return = None
Spec.dyn_model = None
Spec.part = lambda self, it, st, m, b: []


def _on_spawn(self, it, ctx):
    return [(ctx.st, None, ctx.mem)]


Spec.on_spawn = _on_spawn
