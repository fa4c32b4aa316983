"""What stands between the program and the place things are stored."""
import re

from ..common import *
from ..report import rule
from .durability import cached
from .destructive import T, lab
from .pipeline import ff, fresh
from .resume import struct_value
from .errors import store_roots, Fails, Steps, foreign, NOTFOUND, OTHER
from .integrity import Loaded, fieldwise

POS = ("P",)


def variant(P, name, var, fields=None):
    """A value of the workspace enum `name`, with named fields."""
    for a in P.adts:
        if a["name"] == name:
            for i, v in enumerate(a["variants"]):
                if v[0] == var:
                    return E(i, {v[2].index(k): x for k, x in (fields or {}).items()})
    raise AnchorError(f"no enum variant {name}::{var}")


def behind(mem, i, v):
    """A reference to a value kept in a place of its own."""
    mem[("c", 9100 + i)] = v
    return ("R", frozenset({(("c", 9100 + i), (), None)}))


def payload(v, var):
    """What's in a value when it is the variant `var` of its type."""
    if v is None or v[0] != "E":
        return None
    for i, fs in v[1]:
        if i == var:
            return dict(fs).get(0)
    return None


def variants_of(v):
    return {i for i, _fs in v[1]} if v is not None and v[0] == "E" else None


def stds(P, pat):
    r = re.compile(pat)
    return [f for f in P.fns.values() if r.search(f.def_)]


RENAME = r"^std::fs::rename$|^tempfile::(.*::)?(persist|persist_noclobber)$"
UNLINK = r"^std::fs::remove_file$"
KINDS = ["File", "Cached"]


def cached_kind(P, kind, behavior=None):
    f = {}
    if behavior is not None:
        f["behavior"] = enum_value(P, "backpak::backend::CacheBehavior", behavior)
    return struct_value(P, "backpak::backend::CachedBackend", {"inner": variant(P, "backpak::backend::CachedBackendKind", kind, f)})


def cache_fns(P, leaf):
    """The cache's functions from which one of `leaf` can be reached."""
    r = P.reaching(ids(leaf))
    return [f for f in P.fns.values() if f.body is not None and re.match(r"^backpak::backend::cache::Cache::\w+$", f.def_) and f.id in r]


class Through(Auto):
    """A cached backend's operation. State: stored (the backend itself did it), start (the file is at its start), evicted."""

    taint = True

    def __init__(s, P, op, kind):
        super().__init__(P)
        s.op, s.kind, s.n = op, kind, {}
        put = cache_fns(P, stds(P, RENAME))
        for o in ("read", "write", "remove", "list"):
            s.on(backend_op(P, o), lambda c, o=o: s.backend(c, o))
        if kind == "Cached":
            s.on(put, s.insert)
            s.on([f for f in cache_fns(P, stds(P, r"^std::fs::File::open$|^std::fs::OpenOptions::open$")) if f not in put], s.hit)
        else:
            s.on(stds(P, RENAME), s.direct)
            s.on(stds(P, r"^std::fs::File::open$"), s.opened)
        s.on(stds(P, UNLINK), s.unlink)
        s.on(stds(P, r"^std::io::Seek::(seek|rewind)$|^<(&)?std::fs::File as std::io::Seek>::(seek|rewind)$"), s.seek)
        s.on(stds(P, r"^std::io::Error::kind$"), lambda c: Steps.kind(s, c))
        s.on(stds(P, r"^std::fs::Metadata::len$"), lambda c: [(c.st, ("P", "len") if "file" in lab(c, c.args[0]) else None)])

    err, other = Steps.err, Steps.other

    def mark(s, c, what):
        s.n.setdefault(what, set()).add((c.caller.id, str(c.span)))

    def backend(s, c, op):
        s.mark(c, op)
        if op != s.op:
            return [(c.st, OK), (c.st, ERR)]
        if not any("name" in lab(c, a) for a in c.args[1:]):
            c.report(f"name:{s.op}", f"`{s.op}` of a cached backend is passed on for something else than what was asked for")
        if op == "write" and not dict(c.st)["start"]:
            c.report("start", "a file is handed to the backend without being at its start")
        if op == "write" and c.args[1] != ("P", "len"):
            c.report("length", "a file is handed to the backend with something other than its length")
        if op == "write" and "file" not in deep(c, c.args[2]):
            c.report("other-file", "something other than the file to store is handed to the backend")
        if op == "remove" and s.kind == "Cached" and not dict(c.st)["evicted"]:
            c.report("evict", "something is removed from the backend while it may still be in the cache")
        return [(ff(c.st, stored=True), E(0, {0: T("stored")})), (ff(c.st, start=False), ERR)]

    def direct(s, c):
        s.mark(c, "direct")
        return [(ff(c.st, stored=True), OK), (c.st, E(1, {0: OTHER}))]

    def opened(s, c):
        s.mark(c, "direct")
        return [(ff(c.st, stored=True), E(0, {0: T("stored")})), (c.st, E(1, {0: OTHER}))]

    def insert(s, c):
        s.mark(c, "insert")
        s.named(c)
        if not dict(c.st)["stored"]:
            c.report(f"ahead:{s.op}", "something is put in the cache before the backend has it")
        return [(c.st, E(0, {0: T("stored")})), (c.st, ERR)]

    def hit(s, c):
        s.mark(c, "hit")
        s.named(c)
        return [(ff(c.st, stored=True) if s.op == "read" else c.st, E(0, {0: E(1, {0: T("stored")})})), (c.st, E(0, {0: NONE})), (c.st, ERR)]

    def named(s, c):
        if not any("name" in lab(c, a) for a in c.args[1:]):
            c.report(f"key:{s.op}", f"`{s.op}` of a cached backend uses the cache for something else than what was asked for")

    def unlink(s, c):
        if s.kind == "Cached" and s.op == "remove":
            s.named(c) if len(c.args) > 1 else None
        return [(ff(c.st, evicted=True), OK), (ff(c.st, evicted=True), E(1, {0: NOTFOUND})), (c.st, E(1, {0: OTHER}))]

    def seek(s, c):
        pos = c.args[1] if len(c.args) > 1 else None
        start = c.fn.def_.endswith("rewind") or pos is not None and pos[0] == "E" and pos[1] and all(v == 0 and dict(fs).get(0) == ("i", 0) for v, fs in pos[1])
        return [(ff(c.st, start=start), OK), (ff(c.st, start=False), ERR)]


@rule("B01", "the cache is never ahead of the repository, and every operation reaches the repository")
def b01(P, R):
    n = {}
    for op in ("read", "write", "remove", "list"):
        for fn in cached(P, op):
            for kind in KINDS:
                mem = {}
                argv = [behind(mem, 0, cached_kind(P, kind, "Normal" if kind == "Cached" else None)), T("name")] + [T("file") if P.ts(fn.body["lt"][i + 1]) == "std::fs::File" else None for i in range(2, fn.body["argc"])]
                sp = Through(P, op, kind)
                it = Interp(P, sp)
                res = it.run(fn, argv, fresh(stored=False, start=False, evicted=False), mem)
                R.absorb(it)
                for (st, tg), _v in res.items():
                    if not err_tag(tg) and not dict(st)["stored"]:
                        R.violation(f"skipped:{op}:{kind}", f"`{op}` of a cached backend can succeed without the repository having done it", [P.loc(fn)])
                k = sum(len(x) for x in sp.n.values())
                R.need(f"steps of `{op}` ({kind})", k)
                R.ob(f"{op} ({kind}): passed on before success is reported", k)
                for w, x in sp.n.items():
                    n[w] = n.get(w, 0) + len(x)
    R.need("insertions into the cache", n.get("insert", 0), 2)
    # the layers in between, and what they end in
    k = 0
    for f in store_roots(P):
        m = re.match(r"^<backpak::backend::(\w+)::(\w+)(<.*>)? as backpak::backend::Backend>::(\w+)$", f.def_)
        if not m or m.group(1) == "memory":
            continue
        op = m.group(4)
        sp = Down(P, op, f)
        tys = [P.ts(f.body["lt"][i + 1]) for i in range(f.body["argc"])]
        argv = [("P", "len") if t == "u64" else T("name") if t == "&str" else T("from") if "WriteSource" in t else None for t in tys]
        it = Interp(P, sp)
        res = it.run(f, argv, fresh(stored=False, src="start", tmp="none"), {})
        R.absorb(it)
        k += 1
        for (st, tg), _v in res.items():
            if not err_tag(tg) and not dict(st)["stored"]:
                R.violation(f"layer:{f.def_}", f"{f.def_} can succeed without having been passed on", [P.loc(f)])
        R.need(f"{f.def_}: passed on", sp.n)
        R.ob(f"{f.def_}: done before success is reported")
    R.need("layers between the program and a repository", k, 16)


def deep(c, v):
    from .walks import deep
    return deep(c, v)


class Down(Auto):
    """An operation of a backend: passed on to the one below, or done. State: stored, src - is the file to store at its start,
    tmp - where a new file is (none, start, end, ?)."""

    taint = formats = True
    on_spawn = threads_inline

    def __init__(s, P, op, fn):
        super().__init__(P)
        s.op, s.n = op, 0
        for o in ("read", "write", "remove", "list"):
            s.on([g for g in backend_op(P, o) if g.id != fn.id], lambda c, o=o: s.backend(c, o))
        s.on(ids(join_fns(P)), lambda c: [(c.st, join_result(c))])
        s.on(stds(P, r"^tempfile::(.*::)?(tempfile|tempfile_in|new_in|new)$"), s.new)
        s.on(stds(P, r"^std::io::copy$"), s.copy)
        s.on(stds(P, r"std::fs::File as std::io::Write>::(write|write_all)$|^std::io::Write::write_all$"), s.put)
        s.on(stds(P, r"^std::io::Seek::(seek|rewind|stream_position)$|^<(&)?std::fs::File as std::io::Seek>::(seek|rewind|stream_position)$"), s.seek)
        s.on(stds(P, r"^std::fs::Metadata::len$"), lambda c: [(c.st, ("P", "newlen") if "new" in lab(c, c.args[0]) else None)])
        done = {"read": r"^std::fs::File::open$|^std::fs::OpenOptions::open$", "write": RENAME, "remove": UNLINK, "list": r"^std::fs::read_dir$|^std::path::Path::(read_dir|is_file|metadata)$|^camino::Utf8Path::(read_dir(_utf8)?|is_file|metadata)$|^std::fs::metadata$"}[op]
        s.on(stds(P, done), s.done)
        if op != "write":
            s.on(stds(P, RENAME + "|" + UNLINK if op != "remove" else RENAME), lambda c: c.report("other:" + op, f"`{op}` changes something in the repository"))
        ask = [g for g in P.fns.values() if re.match(r"^ureq::", g.def_) and re.search(r"RequestBuilder.*::(call|send|send_json|send_form|send_empty)$", g.def_)]
        s.on(ask, s.ask)

    def args(s, c):
        return {l for a in c.args for l in deep(c, a)}

    def backend(s, c, op):
        s.n += 1
        if op != s.op:
            c.report(f"other:{s.op}", f"`{s.op}` of a backend is passed on as `{op}`")
            return [(c.st, OK), (c.st, ERR)]
        if "name" not in s.args(c):
            c.report(f"name:{s.op}", f"`{s.op}` of a backend is passed on for something other than what was asked for")
        st = ff(c.st, stored=True)
        if op == "write":
            what = deep(c, c.args[2]) if len(c.args) > 2 else set()
            d = dict(c.st)
            if "new" not in what and "from" not in what:
                c.report("other-file", "something other than the file to store is passed on to the backend below")
            elif c.args[1] != (("P", "newlen") if "new" in what else ("P", "len")):
                c.report("length", "a file is passed on to the backend below with something other than its length")
            elif d["tmp" if "new" in what else "src"] != "start":
                c.report("start", "a file is passed on to the backend below without being at its start")
            st = ff(st, src="?", tmp="?" if d["tmp"] != "none" else "none")
        return [(st, E(0, {0: T("stored")})), (ff(st, stored=False), ERR)]

    def done(s, c):
        if "name" not in s.args(c):
            return None
        s.n += 1
        if c.fn.def_.endswith("is_file"):
            return [(ff(c.st, stored=True), TRUE), (c.st, FALSE)]
        return [(ff(c.st, stored=True), E(0, {0: T("stored")})), (c.st, E(1, {0: OTHER}))]

    def ask(s, c):
        sends = not c.fn.def_.endswith("call")
        if sends == (s.op in ("write", "remove")) and "name" in s.args(c):
            s.n += 1
            return [(ff(c.st, stored=True), E(0, {0: T("stored")})), (c.st, ERR)]
        return [(c.st, E(0, {0: T("answer")})), (c.st, ERR)]

    def new(s, c):
        return [(ff(c.st, tmp="start"), E(0, {0: T("new")})), (c.st, ERR)] if c.caller.krate != "tempfile" else None

    def copy(s, c):
        d = {}
        if "from" in deep(c, c.args[0]):
            d["src"] = "?"
        if "new" in deep(c, c.args[0]):
            d["tmp"] = "?"
        if "new" in deep(c, c.args[1]):
            d["tmp"] = "end"
        return [(ff(c.st, **d), OK), (ff(c.st, **d), ERR)]

    def put(s, c):
        return [(ff(c.st, tmp="end"), OK), (ff(c.st, tmp="end"), ERR)] if "new" in deep(c, c.args[0]) else None

    def seek(s, c):
        ls = deep(c, c.args[0])
        which = "tmp" if "new" in ls else "src" if "from" in ls else None
        if which is None:
            return None
        op = c.fn.def_.rsplit("::", 1)[1]
        length = ("P", "newlen") if which == "tmp" else ("P", "len")
        if op == "stream_position":
            return [(c.st, E(0, {0: length if dict(c.st)[which] == "end" else S({})})), (c.st, ERR)]
        pos = c.args[1] if len(c.args) > 1 else None
        to = {0 if v == 0 else 1 if v == 1 else 2 for v, fs in pos[1] if dict(fs).get(0) == ("i", 0)} if pos is not None and pos[0] == "E" else {3}
        start = op == "rewind" or to == {0}
        return [(ff(c.st, **{which: "start" if start else "end" if to == {1} else "?"}), E(0, {0: length} if to == {1} else {})), (ff(c.st, **{which: "?"}), ERR)]


# ------------------------------------------------------------------------------------------ B02
class Whole(Auto):
    """State: part - something written to a new file failed, so that the file is incomplete; named - the file has its
    final name; placed - a file was created that hasn't been renamed since."""

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(stds(P, r"^tempfile::(.*::)?(tempfile|tempfile_in|new_in|new)$"), s.new)
        s.on(stds(P, r"^std::fs::(File::create(_new)?|OpenOptions::(create|create_new))$"), s.place)
        s.on(stds(P, r"^std::fs::(write|copy)$"), s.place)
        s.on(stds(P, r"^std::io::copy$|^std::io::Write::(write|write_all|write_fmt|flush)$| as std::io::Write>::(write|write_all|write_fmt|flush)$|^std::fs::File::(sync_all|sync_data|set_len)$"), s.put)
        s.on(stds(P, RENAME), s.publish)

    def new(s, c):
        return [(fresh(part=False, named=False, placed=False), OK), (c.st, ERR)] if c.caller.krate != "tempfile" else None

    def place(s, c):
        if c.caller.krate == "tempfile":
            return None
        if "OpenOptions" in c.fn.def_:
            return [(ff(c.st, part=False, named=False, placed=True), c.args[0])] if c.args[1] != ("i", 0) else None
        st = ff(c.st, part=False, named=False, placed=True)
        return [(st, OK), (c.st, ERR)] if "create" in c.fn.def_ else [(st, OK), (ff(st, part=True), ERR)]

    def put(s, c):
        if c.caller.krate == "tempfile":
            return None
        if dict(c.st)["named"] and "sync" not in c.fn.def_ and "flush" not in c.fn.def_:
            c.report(f"named:{c.caller.def_}", "a file that has its final name already is written to")
        return [(c.st, OK), (ff(c.st, part=True), ERR)]

    def publish(s, c):
        if c.caller.krate == "tempfile":
            return None
        s.n.add((c.caller.id, str(c.span)))
        if dict(c.st)["part"]:
            c.report(f"part:{c.caller.def_}", "a file gets its final name although writing it failed part way")
        return [(ff(c.st, named=True, placed=False), OK), (c.st, ERR)]


@rule("B02", "no file gets its final name in a repository or the cache unless it was written completely")
def b02(P, R):
    n = set()
    for f in store_roots(P):
        if "memory" in f.def_:
            continue
        sp = Whole(P)
        it = Interp(P, sp)
        res = it.run(f, [None] * f.body["argc"], fresh(part=False, named=False, placed=False), {})
        R.absorb(it)
        for (st, tg), _v in res.items():
            if not err_tag(tg) and dict(st)["placed"]:
                R.violation(f"inplace:{f.def_}", f"{f.def_} can write a file under its final name", [P.loc(f)])
        n |= sp.n
    R.need("files getting their final name", len(n), 2)
    R.ob("files getting their final name", len(n))


# ------------------------------------------------------------------------------------------ B04
class Guarded(Auto):
    """State: how many semaphore guards are held."""

    def __init__(s, P, dec):
        super().__init__(P)
        s.n = set()
        s.on(dec, lambda c: [(min(c.st + 1, 3), ("Y", ("guard",)))])
        s.on(drop_glue(P, r"^backpak::semaphored::SemaphoreGuard"), lambda c: [(max(c.st - 1, 0), None)])
        for m in ("read", "write", "remove", "list"):
            s.on(backend_op(P, m), s.inner)

    def inner(s, c):
        s.n.add((c.caller.id, str(c.span)))
        if c.st < 1:
            c.report(f"free:{c.caller.def_}", "a limited backend is used without holding a place")
        return [(c.st, OK), (c.st, ERR)]


class Release(Auto):
    """State: (released, woken)."""

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(stds(P, r"^std::sync::atomic::Atomic(::<\w+>|\w+)::(fetch_add|store|fetch_update|compare_exchange|compare_exchange_weak|swap)$"), s.bump)
        s.on(stds(P, r"^atomic_wait::wake_(one|all)$"), lambda c: [((c.st[0], c.st[0]), None)])

    def bump(s, c):
        s.n.add(str(c.span))
        r = [((True, False), None if "compare" not in c.fn.def_ and "update" not in c.fn.def_ else OK)]
        if "compare" in c.fn.def_ or "update" in c.fn.def_:
            r.append((c.st, ERR))
        return r


class Acquire(Auto):
    """State: did taking a place succeed."""

    def __init__(s, P):
        super().__init__(P)
        s.on(stds(P, r"^std::sync::atomic::Atomic(::<\w+>|\w+)::(compare_exchange|compare_exchange_weak|fetch_update)$"), s.cas)

    def cas(s, c):
        if c.st:
            c.report("twice", "a place of a semaphore is taken twice at once")
        return [(True, OK), (c.st, E(1, {0: ("i", 0)})), (c.st, E(1, {0: POS}))]


@rule("B04", "a limited backend is used only while holding a place, and giving it up wakes whoever waits")
def b04(P, R):
    dec = one(P, "backpak::semaphored::dec")
    ops = [f for f in P.fns.values() if f.body is not None and re.match(r"^<backpak::backend::semaphored::\w+(<.*>)? as backpak::backend::Backend>::(read|write|remove|list)$", f.def_)]
    R.need("operations of a limited backend", len(ops), 4)
    for f in ops:
        sp = Guarded(P, dec)
        for m in ("read", "write", "remove", "list"):
            sp.h.pop(f.id, None)
        sp.events.discard(f.id)
        it = Interp(P, sp)
        res = it.run(f, [None] * f.body["argc"], 0, {})
        R.absorb(it)
        R.need(f"uses of the backend in {f.def_}", len(sp.n))
        R.ob(f"{f.def_}: holds a place", len(sp.n))
        for (st, _tg), _v in res.items():
            if st:
                R.violation(f"kept:{f.def_}", "a place is still held when the operation is over", [P.loc(f)])
    drops = [f for f in P.fns.values() if f.body is not None and re.match(r"^<backpak::semaphored::SemaphoreGuard(<.*>)? as std::ops::Drop>::drop$", f.def_)]
    R.need("how a place is given up", len(drops))
    for f in drops[:1]:
        sp = Release(P)
        it = Interp(P, sp)
        res = it.run(f, [None], (False, False), {})
        R.absorb(it)
        for (st, _tg), _v in res.items():
            if not st[0]:
                R.violation("lost", "a place of a semaphore may not be given back", [P.loc(f)])
            elif not st[1]:
                R.violation("asleep", "giving back a place of a semaphore may leave whoever waits for it asleep", [P.loc(f)])
        R.ob("giving up a place", len(sp.n))
    for f in dec[:1]:
        sp = Acquire(P)
        it = Interp(P, sp)
        res = it.run(f, [None], False, {})
        R.absorb(it)
        R.need("ways of getting a place", len(res))
        for (st, _tg), _v in res.items():
            if not st:
                R.violation("free", "a place of a semaphore may be handed out without having been taken", [P.loc(f)])
        R.ob("getting a place", len(res))


# ------------------------------------------------------------------------------------------ B05
class Config(Auto):
    taint = True

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(stds(P, r"^toml::(de::)?from_str$"), s.parse)
        s.on(stds(P, r"^toml::(ser::)?to_string(_pretty)?$"), s.write)
        s.wrote = []

    def parse(s, c):
        s.n.add(str(c.span))
        out = [(c.st, ERR)]
        for f in (True, False):
            for u in (True, False):
                v = struct_value(s.prog, "backpak::backend::ConfigFile", {"filter": E(1, {0: T("F")}) if f else NONE, "unfilter": E(1, {0: T("U")}) if u else NONE})
                out.append(((f, u), E(0, {0: v})))
        return out

    def write(s, c):
        v = c.deref(c.args[0])
        s.wrote.append((c.st, v, dict(c.mem), c))
        return [(c.st, OK), (c.st, ERR)]


class Wrapped(Auto):
    """Opening a repository that has a filter. State: was the backend wrapped in it."""

    taint = True

    def __init__(s, P, flt):
        super().__init__(P)
        s.n = set()
        v = struct_value(P, "backpak::backend::Configuration", {"filter": E(1, {0: S({0: T("F"), 1: T("U")})}) if flt else NONE})
        s.on(one(P, "backpak::backend::read_config"), lambda c: [(c.st, E(0, {0: v})), (c.st, ERR)])
        s.on([f for f in P.fns.values() if re.match(r"^std::boxed::Box::<.*>::(new|pin)$", f.def_) and f.ga and "backpak::backend::filter::" in P.ts(f.ga[0])], s.box)
        s.on(cache_fns(P, stds(P, r"^rusqlite::Connection::open\w*$")) + defs(P, r"^backpak::backend::cache::setup$"), lambda c: [(c.st, OK), (c.st, ERR)])

    def box(s, c):
        s.n.add(str(c.span))
        v = c.args[0]
        a = next((a for a in s.prog.adts if a["name"].startswith("backpak::backend::filter::") and "unfilter" in a["variants"][0][2] and "raw" in a["variants"][0][2]), None)
        if a is None:
            raise AnchorError("no filtering backend")
        names = a["variants"][0][2]
        for k, want, other in (("filter", "F", "U"), ("unfilter", "U", "F")):
            ls = labels_of(field(v, names.index(k))) if v is not None else frozenset()
            if want not in ls or other in ls:
                c.report(f"open-{k}", f"a repository is opened with something else than its `{k}`")
        return [(True, None)]


class Runs(Auto):
    taint = True

    def __init__(s, P, want, other):
        super().__init__(P)
        s.n = set()
        s.want, s.other = want, other
        s.on(stds(P, r"^std::process::Command::(arg|args|new)$"), s.arg)
        for m in ("read", "write", "remove", "list"):
            s.on(backend_op(P, m), lambda c: [(c.st, OK), (c.st, ERR)])
        s.on(stds(P, r"^std::process::Command::spawn$"), s.spawn)
        s.on(stds(P, r"^std::io::copy$"), lambda c: [(c.st, OK), (c.st, ERR)])
        s.on(ids(spawn_fns(P)), lambda c: None)
        s.on(ids(join_fns(P)), lambda c: [(c.st, join_result(c))])

    def arg(s, c):
        ls = lab(c, c.args[-1])
        st = c.st
        if s.other in ls:
            c.report("swapped", f"`{c.caller.def_}` runs the wrong one of a repository's two filters")
        if s.want in ls:
            st = True
        return [(st, None)]

    def spawn(s, c):
        s.n.add(str(c.span))
        if not c.st:
            c.report("unfiltered", f"`{c.caller.def_}` doesn't run what the repository says to filter with")
        return [(c.st, OK), (c.st, ERR)]


@rule("B05", "a repository with filters is accessed only through both of them, each in its direction")
def b05(P, R):
    name = "backpak::backend::Configuration"
    idx = next(a for a in P.adts if a["name"] == name)["variants"][0][2].index("filter")
    for f in one(P, "backpak::backend::read_config"):
        sp = Config(P)
        it = Interp(P, sp)
        res = it.run(f, [None], None, {})
        R.absorb(it)
        R.need("configurations parsed", len(sp.n))
        k = 0
        for (st, tg), (v, mem) in res.items():
            if err_tag(tg) or st is None:
                continue
            k += 1
            flt = field(payload(v, 0), idx) if payload(v, 0) is not None else None
            vs = variants_of(flt)
            if st[0] != st[1]:
                R.violation("half", "a configuration with only one of `filter` and `unfilter` is accepted", [P.loc(f)])
            elif st == (True, True):
                p = payload(flt, 1)
                if vs != {1}:
                    R.violation("dropped", "a repository's filters can be ignored", [P.loc(f)])
                elif "F" not in labels_of(field(p, 0)) or "U" not in labels_of(field(p, 1)) or "U" in labels_of(field(p, 0)) or "F" in labels_of(field(p, 1)):
                    R.violation("read-swapped", "a repository's filters are mixed up when its configuration is read", [P.loc(f)])
        R.need("configurations accepted", k, 2)
        R.ob("reading configurations: combinations of filters", k)
    cf = next((a for a in P.adts if a["name"] == "backpak::backend::ConfigFile"), None)
    k = 0
    for f in [f for f in P.fns.values() if f.def_ == "backpak::backend::write_config" and f.body is not None][:1]:
        sp = Config(P)
        it = Interp(P, sp)
        argv = [None] * f.body["argc"]
        argv[1] = struct_value(P, name, {"filter": E(1, {0: S({0: T("F"), 1: T("U")})})})
        it.run(f, argv, None, {})
        R.absorb(it)
        R.need("configurations written", len(sp.wrote))
        for st, v, mem, c in sp.wrote:
            k += 1
            names = cf["variants"][0][2]
            for fld, want, other in (("filter", "F", "U"), ("unfilter", "U", "F")):
                x = field(v, names.index(fld)) if v is not None else None
                ls = labels_of(x)
                if want not in ls or other in ls:
                    R.violation(f"write-{fld}", f"a new repository's `{fld}` isn't what was asked for", [P.loc(f)])
    R.ob("writing configurations", k)
    for f in one(P, "backpak::backend::open"):
        sp = Wrapped(P, True)
        it = Interp(P, sp)
        res = it.run(f, [None] * f.body["argc"], False, {})
        R.absorb(it)
        R.need("backends wrapped in a filter", len(sp.n))
        for (st, tg), _v in res.items():
            if not err_tag(tg) and not st:
                R.violation("bypass", "a repository with filters can be opened without going through them", [P.loc(f)])
        R.ob("opening a repository with filters", len(sp.n))
    fa = next((a for a in P.adts if a["name"].startswith("backpak::backend::filter::") and "unfilter" in a["variants"][0][2] and "raw" in a["variants"][0][2]), None)
    for f in store_roots(P):
        m = re.match(r"^<backpak::backend::filter::\w+ as backpak::backend::Backend>::(read|write)$", f.def_)
        if not m:
            continue
        want, other = ("F", "U") if m.group(1) == "write" else ("U", "F")
        sp = Runs(P, want, other)
        it = Interp(P, sp)
        mem = {}
        argv = [None] * f.body["argc"]
        argv[0] = behind(mem, 0, struct_value(P, fa["name"], {"filter": T("F"), "unfilter": T("U")}))
        it.run(f, argv, False, mem)
        R.absorb(it)
        R.need(f"filters run by {f.def_}", len(sp.n))
        R.ob(f"{f.def_}: runs the right filter", len(sp.n))


# ------------------------------------------------------------------------------------------ B06
class Again(Auto):
    """State: is what's to be stored at its start."""

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(stds(P, r"^backpak_b2::Session::put$"), s.put)
        s.on(stds(P, r"^std::io::Seek::(seek|rewind)$|^<.* as std::io::Seek>::(seek|rewind)$"), s.seek)

    def seek(s, c):
        pos = c.args[1] if len(c.args) > 1 else None
        start = c.fn.def_.endswith("rewind") or pos is not None and pos[0] == "E" and pos[1] and all(v == 0 and dict(fs).get(0) == ("i", 0) for v, fs in pos[1])
        return [(bool(start), OK), (False, E(1, {0: OTHER}))]

    def put(s, c):
        s.n.add((c.caller.id, str(c.span)))
        if not c.st:
            c.report("again", "storing a file remotely is tried again without going back to the file's start")
        a = next((a for a in s.prog.adts if a["name"] == "backpak_b2::Error"), None)
        if a is None:
            raise AnchorError("no error type of the remote store")
        return [(False, OK)] + [(False, E(1, {0: E(i)})) for i in range(len(a["variants"]))]


@rule("B06", "storing remotely is tried again with the whole file")
def b06(P, R):
    fs = [f for f in P.fns.values() if f.body is not None and re.match(r"^<backpak::backend::backblaze::\w+ as backpak::backend::Backend>::write$", f.def_)]
    R.need("remote stores", len(fs))
    for f in fs:
        sp = Again(P)
        it = Interp(P, sp)
        it.run(f, [None] * f.body["argc"], True, {})
        R.absorb(it)
        R.need("requests storing something", len(sp.n))
        R.ob("requests storing something", len(sp.n))


# ------------------------------------------------------------------------------------------ I02
class Entries(Loaded):
    """Verifying a pack. State also: owed - an entry of the manifest was taken whose blob isn't verified yet, same - the pack's
    own manifest was found to be the index's."""

    def __init__(s, P):
        super().__init__(P)
        s.loops = 0
        s.on([f for f in P.fns.values() if re.match(r"^<std::slice::(iter::)?Iter<.*> as std::iter::Iterator>::next$|^<std::vec::(into_iter::)?IntoIter<.*> as std::iter::Iterator>::next$", f.def_) and f.ga and any(isinstance(g, int) and P.ts(g) == "backpak::pack::PackManifestEntry" for g in f.ga)], s.next)

    def next(s, c):
        if "asked" not in lab(c, c.args[0]):
            return None
        s.mark(c, "next")
        s.owe(c)
        return [(ff(c.st, owed="T", fresh=False), E(1, {0: T("asked", "entry")})), (ff(c.st, owed="F", all=True), NONE)]

    def owe(s, c):
        if dict(c.st)["owed"] == "T":
            c.report("skipped", "a blob of a pack is passed over without having been found to match its ID")

    def begin(s, c):
        r = super().begin(c)
        return [(ff(st, fresh=True), v) for st, v in r]

    def compare(s, c):
        a, b = lab(c, c.args[0]), lab(c, c.args[1])
        r = super().compare(c)
        d = dict(c.st)
        if r is not None and "entry" in a | b and d["dirty"] == "T" and d.get("fresh"):
            (g, t), (w, f) = r
            return [(ff(g, owed="F"), t), (w, f)]
        return r

    def manifests(s, c):
        a, b = lab(c, c.args[0]), lab(c, c.args[1])
        r = super().manifests(c)
        if r is not None and "asked" in a | b:
            (g, t), (w, f) = r
            return [(ff(g, same=True), t), (w, f)]
        return r


def verifiers(P):
    """The lowest functions that compare a pack's manifest to the one in the index."""
    eq = [f for f in P.fns.values() if re.search(r"PartialEq.*::(eq|ne)$", f.def_) and f.ga and isinstance(f.ga[0], int) and P.ts(f.ga[0]) == "backpak::pack::PackManifestEntry" and re.search(r"impl|SlicePartialEq|\[T\]", f.def_)]
    from .durability import scopes
    return [P.fns[i] for i in sorted(scopes(P, eq, defs(P, r"^backpak::hashing::HashingReader::<.*>::new$")))]


@rule("I02", "a pack passes verification only if each of its blobs matches its ID, and its manifest the index")
def i02(P, R):
    vs = verifiers(P)
    R.need("functions verifying packs", len(vs))
    fieldwise(P, R, "backpak::pack::PackManifestEntry")
    for f in vs:
        sp = Entries(P)
        it = Interp(P, sp)
        argv = [None] * f.body["argc"]
        for i in range(f.body["argc"]):
            if "PackManifestEntry" in P.ts(f.body["lt"][i + 1]):
                argv[i] = T("asked")
            elif "Atomic" not in P.ts(f.body["lt"][i + 1]):
                argv[i] = T("file")
        res = it.run(f, argv, fresh(magic=False, dirty="F", kind="?", owed="F", same=False, all=False, fresh=False), {})
        R.absorb(it)
        for w, k in (("next", 1), ("compare", 2), ("hash", 2)):
            R.need(w, len([1 for x in sp.n if x[0] == w]), k)
        for (st, tg), _v in res.items():
            d = dict(st)
            if err_tag(tg):
                continue
            if not d["all"] or d["owed"] == "T":
                R.violation("some", "a pack can pass verification without all of its blobs having been looked at", [P.loc(f)])
            if not d["same"]:
                R.violation("manifest", "a pack can pass verification although its manifest isn't the one in the index", [P.loc(f)])
            if d["dirty"] != "F":
                R.violation("wrong", "a pack can pass verification although something in it doesn't match its ID", [P.loc(f)])
        R.ob(f"{f.def_}: each blob and the manifest", len(sp.n))


# ------------------------------------------------------------------------------------------ B03
class Checking(Fails):
    """State: failed - something was found to be wrong; at/looked - the pack the current loop is at; done - loops that ended."""

    taint = True

    def __init__(s, P, ops):
        super().__init__(P, ops)
        s.skips, s.looks, s.opens, s.chunks = {}, set(), 0, 0
        pk = lambda f: f.ga and len(f.ga) > 1 and isinstance(f.ga[1], int) and re.match(r"^&*backpak::hashing::ObjectId$", P.ts(f.ga[0])) and re.match(r"^&*std::vec::Vec<backpak::pack::PackManifestEntry>$", P.ts(f.ga[1]))
        s.on([f for f in P.fns.values() if re.match(r"^<std::collections::(btree_map|hash_map)::(Iter|Keys|Values|IntoIter|IntoKeys)<.*> as std::iter::Iterator>::next$", f.def_) and pk(f)], s.next)
        s.on(verifiers(P), s.verify)
        s.on([f for f in P.fns.values() if f.body is not None and f.krate.startswith("backpak") and f.body["argc"] == 2 and [P.ts(t) for t in f.body["lt"][1:3]] == ["&[(std::string::String, u64)]", "&backpak::hashing::ObjectId"] and P.ts(f.body["lt"][0]).startswith("std::result::Result<(),")], s.probe)
        s.on([f for f in P.fns.values() if re.match(r"^backpak::backend::CachedBackend::read_pack$", f.def_)], s.read)
        s.on([f for f in P.fns.values() if re.match(r"^std::collections::(HashMap|BTreeMap)::<.*>::(contains_key|get)$", f.def_) and f.ga and len(f.ga) > 1 and all(re.match(r"^&*backpak::hashing::ObjectId$", P.ts(g)) for g in f.ga[:2] if isinstance(g, int))], s.known)
        s.on(one(P, "backpak::backend::open"), s.open)

    def here(s, c):
        w, f = (c.caller.id, str(c.span)), c.frame
        if c.caller.krate.startswith("backpak"):
            return w
        while f is not None:
            if f.site is not None and f.site[0].krate.startswith("backpak"):
                return (f.site[0].id, str(f.site[1]))
            f = f.parent
        return w

    def next(s, c):
        d = dict(c.st)
        h = s.here(c)
        if d["at"] == h and not d["looked"]:
            s.skips.setdefault(h, c.it.chain(c.frame, c.caller, c.span) if False else c.site())
        return [(ff(c.st, at=h, looked=False, key=False), E(1, {0: S({0: T("pk"), 1: T("pm")}) if re.search("::(Iter|IntoIter)<", c.fn.def_) else T("pm" if "::Values" in c.fn.def_ else "pk")})), (ff(c.st, at=None, looked=False, done=d["done"] | {h}), NONE)]

    def looked(s, c):
        d = dict(c.st)
        if d["at"] is not None:
            s.looks.add(d["at"])
        return ff(c.st, looked=True)

    def bad(s, st, what):
        return ff(st, failed=dict(st)["failed"] or what)

    def read(s, c):
        ok = "pk" in frozenset().union(*[lab(c, a) for a in c.args[1:]])
        return [(ff(c.st, key=ok), E(0, {0: T("contents")})), (s.bad(s.looked(c) if ok else c.st, "reading a pack"), ERR)]

    def verify(s, c):
        ls = frozenset().union(*[lab(c, a) for a in c.args])
        st = s.looked(c) if dict(c.st)["key"] and "pm" in ls else c.st
        s.n.add(("verify", str(c.span)))
        return [(st, OK), (s.bad(st, "verifying a pack"), ERR)]

    def probe(s, c):
        st = s.looked(c) if "pk" in lab(c, c.args[1]) else c.st
        s.n.add(("probe", str(c.span)))
        return [(st, OK), (s.bad(st, "finding a pack"), ERR)]

    def known(s, c):
        if c.frame is None or not any("check" in x for x in s.trail(c)):
            return None
        s.chunks += 1
        t, f = (TRUE, FALSE) if c.fn.def_.endswith("contains_key") else (E(1), NONE)
        return [(c.st, t), (s.bad(c.st, "finding a chunk some snapshot uses"), f)]

    def trail(s, c):
        """The innermost workspace function."""
        f = c.frame
        if c.caller.krate.startswith("backpak"):
            return [c.caller.def_]
        while f is not None:
            if f.site is not None and f.site[0].krate.startswith("backpak"):
                return [f.site[0].def_]
            f = f.parent
        return []

    def open(s, c):
        s.opens += 1
        want = enum_value(s.prog, "backpak::backend::CacheBehavior", "AlwaysRead")
        if not any(a == want for a in c.args):
            c.report("cached", "`check` opens the repository so that what is in the cache may be taken for what is in the repository")
        return [(c.st, OK), (c.st, ERR)]

    def op(s, c):
        return [(c.st, OK), (s.bad(c.st, c.fn.def_), ERR)]

    def exit(s, c):
        return []


@rule("B03", "`check` looks at every pack the indexes list, in the repository and not in the cache, and fails if one is missing or broken")
def b03(P, R):
    fn = command(P, "check")
    for rp in (True, False):
        sp = Checking(P, [f for f in cached(P, "list")])
        it = Interp(P, sp)
        if not has_option(P, fn, "read_packs"):
            raise AnchorError("`check` has no option to read packs")
        a, m = args_value(P, fn, {"read_packs": TRUE if rp else FALSE})
        res = it.run(fn, a, fresh(failed="", at=None, looked=False, key=False, done=frozenset()), m)
        R.absorb(it)
        w = "with" if rp else "without"
        loops = sp.looks
        R.need(f"loops looking at packs {w} --read-packs", len(loops))
        R.need("repositories opened", sp.opens)
        R.need("lookups of chunks", sp.chunks)
        if rp:
            R.need("packs verified", len([1 for x in sp.n if x[0] == "verify"]))
        for h in loops & set(sp.skips):
            R.violation(f"passed-over:{w}", f"`check` {w} --read-packs can pass over a pack the indexes list", [sp.skips[h]])
        for (st, tg), _v in res.items():
            d = dict(st)
            if err_tag(tg):
                continue
            if d["failed"]:
                R.violation(f"unfailed:{w}:{d['failed']}", f"`check` {w} --read-packs can succeed although {d['failed']} failed", [P.loc(fn)])
            if not d["done"] & loops:
                R.violation(f"unlooked:{w}", f"`check` {w} --read-packs can succeed without having looked at the packs the indexes list", [P.loc(fn)])
        R.ob(f"check {w} --read-packs: outcomes", len(res))
    k = 0
    for f in cached(P, "read"):
        sp = Through(P, "read", "Cached")
        mem = {}
        argv = [behind(mem, 0, cached_kind(P, "Cached", "AlwaysRead")), T("name")] + [None] * (f.body["argc"] - 2)
        sp.hits = set()
        base = sp.hit

        def hit(c):
            c.report("hit", "something is read from the cache although the repository was opened to always read it")
            return base(c)

        for g in cache_fns(P, stds(P, r"^std::fs::File::open$|^std::fs::OpenOptions::open$")):
            if g.id in sp.events and g not in cache_fns(P, stds(P, RENAME)):
                sp.on([g], hit)
        it = Interp(P, sp)
        it.run(f, argv, fresh(stored=False, start=False, evicted=False), mem)
        R.absorb(it)
        k += len(sp.n)
    R.need("reading past the cache", k)
    R.ob("reading past the cache", k)
    from .checking import used
    used(P, R)
