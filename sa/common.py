"""Shared anchors: the program points rules are written against."""
import re
from .interp import *

BK = "backpak::backend::Backend"


class AnchorError(Exception):
    """An anchor the rule needs is missing from the program: reported as a violation."""


def defs(P, pat, need=1, what=None):
    fs = [f for f in P.fns.values() if re.search(pat, f.def_)]
    if len(fs) < need:
        raise AnchorError(f"expected at least {need} function(s) for {what or pat}, found {len(fs)}")
    return fs


def ids(fs):
    return {f.id for f in fs}


def backend_op(P, op):
    """Every call target that performs `op` on a storage backend: the trait method, through a vtable or direct."""
    r = re.compile(r"(^backpak::backend::Backend::%s$| as backpak::backend::Backend>::%s$)" % (op, op))
    fs = [f for f in P.fns.values() if r.search(f.def_)]
    if not fs:
        raise AnchorError(f"no storage backend operation `{op}`")
    return fs


SPAWN = re.compile(r"^std::thread::(Builder::spawn|spawn|scoped::<impl std::thread::Builder>::spawn_scoped|scoped::Scope::<.*>::spawn|Builder::spawn_scoped)$")
JOIN = re.compile(r"^std::thread::(scoped::)?(ScopedJoinHandle|JoinHandle)::<.*>::join$")


def spawn_fns(P):
    return [f for f in P.fns.values() if SPAWN.match(f.def_)]


def join_fns(P):
    return [f for f in P.fns.values() if JOIN.match(f.def_)]


def command(P, name):
    fs = [f for f in P.fns.values() if f.def_ == f"backpak::ui::{name}::run"]
    if len(fs) != 1:
        raise AnchorError(f"no entry point for the `{name}` command")
    return fs[0]


# iterator adapters that need not pass everything on
SOME_LEFT_OUT = re.compile(r"\b(Filter|FilterMap|Skip|SkipWhile|Take|TakeWhile|StepBy|MapWhile|Flatten|FlatMap)<")
COMMANDS = ["backup", "cat", "check", "copy", "diff", "dump", "filter_snapshot", "forget", "init", "ls", "prune", "rebuild_index", "restore", "snapshots", "usage"]


def args_value(P, fn, fields):
    """The argument list for a command entry point, with the given option fields seeded."""
    argv = [None] * fn.body["argc"]
    mem = {}
    for i in range(fn.body["argc"]):
        t = P.types[fn.body["lt"][i + 1]]
        byref = t["k"] == "ref"
        if byref:
            t = P.types[t["a"][0]]
        if t["k"] != "adt":
            continue
        a = next((a for a in P.adts if a["name"] == t["d"]), None)
        if not a or a["kind"] != "Struct":
            continue
        names = a["variants"][0][2]
        d = {names.index(k): v for k, v in fields.items() if k in names}
        if d:
            v = S(d)
            if byref:
                mem[("c", 9000 + i)] = v
                v = ("R", frozenset({(("c", 9000 + i), (), None)}))
            argv[i] = v
    return argv, mem


def has_option(P, fn, name):
    for i in range(fn.body["argc"]):
        t = P.types[fn.body["lt"][i + 1]]
        if t["k"] == "ref":
            t = P.types[t["a"][0]]
        if t["k"] == "adt":
            a = next((a for a in P.adts if a["name"] == t["d"]), None)
            if a and a["kind"] == "Struct" and name in a["variants"][0][2]:
                return True
    return False


OK = E(0)
ERR = E(1)
SOME = E(1)
NONE = E(0)


# ---------------------------------------------------------------- models of std functions
def _m_first(sp, ctx):
    return [(ctx.st, ctx.args[0] if ctx.args else None, ctx.mem)]


def _m_arr_next(sp, ctx):
    v = ctx.deref(ctx.args[0])
    pos = 0
    w = v
    if w is not None and w[0] == "S":
        d = dict(w[1])
        if 77 in d and d[77][0] == "i":
            w, pos = d.get(0), d[77][1]
    if w is not None and w[0] == "L":
        if pos >= len(w[1]):
            return [(ctx.st, E(0), dict(ctx.mem))]
        e = w[1][pos]
        m = dict(ctx.mem)
        ctx.it.store_ref(m, ctx.args[0], (), S({0: w, 77: ("i", pos + 1)}))
        return [(ctx.st, E(1, {0: e} if e is not None else {}), m)]
    if w is not None and w[0] == "A":
        v = w
    e = v[1] if v is not None and v[0] == "A" else None
    return [(ctx.st, E(1, {0: e} if e is not None else {}), dict(ctx.mem)), (ctx.st, E(0), dict(ctx.mem))]


STRVIEW = re.compile(r"::(as_ref|to_owned|to_string|spec_to_string|deref|as_str|clone|from|into|borrow|as_path|as_std_path|to_path_buf|new|as_bytes|as_os_str)$")


def string_model(ctx):
    """String-to-string views and copies keep a constant / templated string."""
    if len(ctx.args) != 1 or not STRVIEW.search(ctx.fn.def_):
        return None
    v = ctx.args[0]
    n = 0
    while v is not None and v[0] == "R" and n < 3:
        v = ctx.deref(v)
        n += 1
    if v is not None and v[0] == "B":
        return [(ctx.st, v, ctx.mem)]
    return None


def _find_const(it, mem, v, depth=0):
    if v is None or depth > 4:
        return None
    if v[0] == "B":
        return v[1]
    if v[0] == "R":
        return _find_const(it, mem, it.load_ref(mem, v), depth + 1)
    if v[0] == "S":
        for _k, x in v[1]:
            r = _find_const(it, mem, x, depth + 1)
            if r is not None:
                return r
    return None


def _m_format(sp, ctx):
    if sp.taint and sp.formats:
        ls = set()
        ctx.it.labels(ctx.mem, ctx.args[0], ls, set())
        if ls:
            return [(ctx.st, ("T", frozenset(ls)), ctx.mem)]
    c = _find_const(ctx.it, ctx.mem, ctx.args[0])
    return [(ctx.st, ("B", "{" + c + "}") if c is not None else None, ctx.mem)]


def _of_functions(ctx):
    """Is this about a collection of functions?"""
    return any(isinstance(g, int) and re.search(r"dyn (for<.*> ?)?std::ops::Fn|\{closure@", ctx.it.prog.ts(g)) for g in ctx.fn.ga or [])


def _the_list(it, mem, v, n=0):
    if v is None or n > 6:
        return None
    if v[0] == "L":
        return v
    if v[0] == "R":
        return _the_list(it, mem, it.load_ref(mem, v), n + 1)
    if v[0] == "S":
        return next((r for _k, x in v[1] for r in [_the_list(it, mem, x, n + 1)] if r is not None), None)
    return None


def _m_vec_of(sp, ctx):
    """vec![...] of functions: which they are is known."""
    v = _the_list(ctx.it, ctx.mem, ctx.args[0]) if _of_functions(ctx) else None
    return None if v is None else [(ctx.st, v, dict(ctx.mem))]


def _m_vec_new(sp, ctx):
    return [(ctx.st, ("L", ()), dict(ctx.mem))] if _of_functions(ctx) else None


def _m_vec_push(sp, ctx):
    v = ctx.deref(ctx.args[0]) if _of_functions(ctx) else None
    if v is None or v[0] != "L" or len(v[1]) > 12:
        return None
    m = dict(ctx.mem)
    ctx.it.store_ref(m, ctx.args[0], (), ("L", v[1] + (ctx.args[1],)))
    return [(ctx.st, UNIT, m)]


def _m_vec_iter(sp, ctx):
    v = ctx.args[0] if _of_functions(ctx) else None
    return [(ctx.st, v, dict(ctx.mem))] if v is not None and v[0] == "L" else None


def _m_vec_next(sp, ctx):
    v = ctx.deref(ctx.args[0]) if _of_functions(ctx) else None
    if v is None or v[0] != "L" and not (v[0] == "S" and 77 in dict(v[1])):
        return None
    return _m_arr_next(sp, ctx)


MODELS = {
    "std::boxed::box_assume_init_into_vec_unsafe": _m_vec_of,
    "std::slice::<impl [T]>::into_vec": _m_vec_of,
    "std::vec::Vec::<T>::new": _m_vec_new,
    "std::vec::Vec::<T>::with_capacity": _m_vec_new,
    "std::vec::Vec::<T, A>::push": _m_vec_push,
    "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter": _m_vec_iter,
    "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next": _m_vec_next,
    "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter": _m_first,
    "<std::array::IntoIter<T, N> as std::iter::Iterator>::next": _m_arr_next,
    "std::fmt::format": _m_format,
    "alloc::fmt::format": _m_format,
}
Spec.models = MODELS
Spec.dyn_model = staticmethod(string_model)


def threads_inline(self, it, ctx):
    """Run a spawned closure at its spawn point (the automaton sees one of the schedules that matter:
    everything the thread does); its result is what joining it yields."""
    ty = v = None
    for t, a in list(zip(ctx.argtypes, ctx.args))[::-1]:
        if it.closure_fn(t) is not None:
            ty, v = t, a
            break
    wrap = (lambda h: E(0, {0: h})) if "Builder" in ctx.fn.def_ else (lambda h: h)
    cf = it.closure_fn(ty)
    if cf is None or cf.id not in it.relevant:
        return [(ctx.st, wrap(S({0: ("Y", ("thread", cf.id if cf else None))})), ctx.mem)]
    out = []
    for st, ret, m in it.call_closure(ctx.caller, v, ty, [], ctx.st, dict(ctx.mem), ctx.frame, ctx.span, ("spawn", cf.id)):
        h = {0: ("Y", ("thread", cf.id))}
        if ret is not None:
            h[77] = ret
        out.append((st, wrap(S(h)), m))
    return out


def join_result(ctx):
    """Possible results of joining a thread run inline."""
    h = ctx.args[0]
    r = None
    while h is not None and h[0] == "S":
        d = dict(h[1])
        if 77 in d:
            r = d[77]
            break
        h = d.get(0)
    return E(0, {0: r} if r is not None else {})


def _m_context(sp, ctx):
    """anyhow's context()/with_context(): a success passes through, a failure stays a failure."""
    v = ctx.args[0]
    if v is not None and v[0] == "E":
        some = 1 if "for std::option::Option" in ctx.fn.def_ else 0
        out = []
        for var, fs in v[1]:
            if var == some:
                out.append((ctx.st, ("E", ((0, fs),)), dict(ctx.mem)))
            else:
                out.append((ctx.st, E(1), dict(ctx.mem)))
        return out
    return None


for _n in ("context", "with_context"):
    for _t in ("std::result::Result<T, E>", "std::option::Option<T>"):
        _e = "T, E" if "Result" in _t else "T, std::convert::Infallible"
        MODELS[f"anyhow::context::<impl anyhow::Context<{_e}> for {_t}>::{_n}"] = _m_context


def _m_residual(sp, ctx):
    """`?` hands the error on (a rule's token for a particular error survives conversion)."""
    ga = ctx.fn.ga
    if len(ga) == 3 and ctx.fn.body is not None and ga[1] != ga[2] and sp.prog.ts(ga[2]).startswith("backpak"):
        # an error type of the workspace knows how to convert
        return None if ctx.fn.id in ctx.it.relevant or ctx.it.small(ctx.fn.id) else [(ctx.st, E(1), ctx.mem)]
    v = ctx.args[0]
    if v is not None and v[0] == "E" and len(v[1]) == 1:
        x = dict(v[1][0][1]).get(0)
        if x is not None and x[0] == "Y" and x[1][0] == "err":
            return [(ctx.st, E(1, {0: x}), ctx.mem)]
    return [(ctx.st, E(1), ctx.mem)]


MODELS["<std::result::Result<T, F> as std::ops::FromResidual<std::result::Result<!, E>>>::from_residual"] = _m_residual
MODELS["<std::option::Option<T> as std::ops::FromResidual<std::option::Option<!>>>::from_residual"] = lambda sp, ctx: [(ctx.st, E(0), ctx.mem)]


def template(v):
    """The constant text of a string value ('' when unknown)."""
    return v[1] if v is not None and v[0] == "B" else ""


CHAN_ITER = re.compile(r"^<std::sync::mpsc::(IntoIter|Iter)<.*T> as std::iter::Iterator>::next$")


def result_as_option(v):
    """A Result as the Option that iterating over the channel yields instead."""
    if v is None or v[0] != "E":
        return v
    return ("E", tuple(sorted((1 - var, fs if var == 0 else ()) for var, fs in v[1])))


class Auto(Spec):
    """A rule automaton given as handlers: on(ids, f) makes f(ctx) decide calls to those functions."""

    def __init__(s, P):
        super().__init__(P)
        s.h = {}
        s.iters = set()

    def on(s, fns, f):
        for x in fns:
            i = x if isinstance(x, int) else x.id
            if CHAN_ITER.match(s.prog.fns[i].def_):
                s.iters.add(i)
            s.h[i] = f
            s.events.add(i)
        return s

    def on_call(s, ctx):
        r = s.h[ctx.fn.id](ctx)
        if r is not None and ctx.fn.id in s.iters:
            r = [(x[0], result_as_option(x[1])) + tuple(x[2:]) for x in r]
        return r


def chan(P, op, ty, need=1):
    """Channel operations on messages of a type: chan(P, 'recv', 'Blob')."""
    half = "SyncSender" if op == "send" else "Receiver"
    fs = [f for f in P.fns.values()
          if (re.match(r"^std::sync::mpsc::(Sync)?(Sender|Receiver)::<T>::%s$" % op, f.def_) or op == "recv" and CHAN_ITER.match(f.def_)) and f.ga and re.search(ty, P.ts(f.ga[0]))]
    if len(fs) < need:
        raise AnchorError(f"no channel {op} of {ty}")
    return fs


def drop_glue(P, ty):
    """Drop glue of a type (as a function of the program)."""
    r = re.compile(ty)
    return [f for f in P.fns.values() if f.kind == "shim" and f.ga and "drop" in f.def_ and r.search(P.ts(f.ga[0]))]


def one(P, name):
    fs = [f for f in P.fns.values() if f.def_ == name]
    if not fs:
        raise AnchorError(f"no function {name}")
    return fs


def enum_value(P, name, variant):
    """The enum value `variant` of the workspace enum `name`."""
    for a in P.adts:
        if a["name"] == name:
            for i, v in enumerate(a["variants"]):
                if v[0] == variant:
                    return E(i)
    raise AnchorError(f"no enum variant {name}::{variant}")


def ok_tag(tg):
    return isinstance(tg, tuple) and tg[0] == 0


def err_tag(tg):
    return isinstance(tg, tuple) and tg[0] == 1
