"""`check` looks for every chunk that some snapshot uses."""
import re

from ..common import *
from ..interp import MIXED
from .backends import stds
from .durability import cached
from .destructive import T, lab
from .listing import stepped
from .pipeline import ff, fresh
from .restore import ga_is
from .walks import deep, folded

OID = r"^&*backpak::hashing::ObjectId$"
ITER = re.compile(r"^<std::(vec|slice|collections::(hash_map|hash_set|btree_map|btree_set|hash::map|hash::set|btree::map|btree::set))::(\w+::)?(Iter|IntoIter|Values|IntoValues|Keys|IntoKeys|Drain)<.*> as std::iter::Iterator>::next$")
FOLD = re.compile(ITER.pattern.replace("next$", "fold$"))
LEVELS = {"snaps": "snap", "forest": "tree", "chunks": "chunk", "gathered": "used"}


class Used(Auto):
    """State: snap, tree, chunk, used - the one that is being gone through (None, owed, ok); done - have all been looked for."""

    taint = True
    START = dict(snap=None, tree=None, chunk=None, used=None, done=False, all=False, missing=False)

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(cached(P, "list_snapshots"), lambda c: [(c.st, E(0, {0: T("snaps")})), (c.st, ERR)])
        s.on(stds(P, r"^backpak::snapshot::load$"), s.load)
        s.on(stds(P, r"^backpak::tree::forest_from_root$"), s.forest)
        s.on(stds(P, r"^backpak::tree::chunks_in_tree$"), s.chunks)
        s.on(stds(P, r"^backpak::index::blob_to_pack_map$"), lambda c: [(c.st, E(0, {0: T("known")})), (c.st, ERR)])
        s.on([f for f in P.fns.values() if ITER.match(f.def_)], s.next)
        s.on([f for f in P.fns.values() if FOLD.match(f.def_)], lambda c: folded(c, s.next) if "for_each" not in c.fn.def_ else None)
        m = [f for f in P.fns.values() if re.match(r"^std::collections::(hash_map::|btree_map::|hash_set::|btree_set::)?(HashMap|BTreeMap|HashSet|BTreeSet)::<.*>::(entry|insert|contains_key|get|contains|is_empty|remove)$", f.def_) and ga_is(P, f, 0, OID)]
        s.on(m, s.put)
        s.on([f for f in P.fns.values() if re.match(r"^std::vec::Vec::<.*>::push$", f.def_) and ga_is(P, f, 0, OID)], s.put)
        s.on([f for f in P.fns.values() if re.search(r"std::iter::Extend(<.*>)?( for .*)?>?::extend$", f.def_) and "hashing::ObjectId" in f.name], s.extend)
        s.on([f for f in P.fns.values() if re.search(r"std::iter::Iterator>?::collect$", f.def_) and "hashing::ObjectId" in f.name.split("collect")[-1]], s.collect)

    def mark(s, c, what):
        s.n.add((what, c.caller.id, str(c.span)))

    def load(s, c):
        if "snap" not in deep(c, c.args[0]):
            return None
        return [(c.st, E(0, {0: T("root")})), (c.st, ERR)]

    def forest(s, c):
        if "root" not in deep(c, c.args[0]):
            return None
        s.mark(c, "forest")
        return [(c.st, E(0, {0: T("forest")})), (c.st, ERR)]

    def chunks(s, c):
        if "tree" not in deep(c, c.args[0]):
            return None
        s.mark(c, "chunks")
        return [(c.st, T("chunks"))]

    INNER = {"snap": "tree", "tree": "chunk", "chunk": None, "used": None}
    UP = {"tree": "snap", "chunk": "tree"}
    MISS = {"snap": "a snapshot can be passed over without all of its trees having been gone through",
            "tree": "a tree of a snapshot can be passed over without its chunks having been gone through",
            "chunk": "a chunk some snapshot uses can be passed over without being looked for",
            "used": "a chunk some snapshot uses can be passed over without being looked for"}

    def next(s, c):
        ls = deep(c, c.args[0])
        coll = next((k for k in LEVELS if k in ls), None)
        if coll is None:
            return None
        lv = LEVELS[coll]
        s.mark(c, lv)
        d = dict(c.st)
        for x in (lv, s.INNER[lv]):
            if x and d[x] == "owed":
                c.report(f"left:{x}", s.MISS[x])
        st = ff(c.st, **{lv: "owed", **({s.INNER[lv]: None} if s.INNER[lv] else {})})
        el = T(lv)
        if re.search(r"hash_map|btree_map|hash::map|btree::map", c.fn.def_):
            key = T("used" if lv == "used" else lv + "id")
            val = T(lv) if lv != "used" else None
            kind = ITER.match(c.fn.def_)[4]
            el = S({0: key, 1: val}) if kind in ("Iter", "IntoIter", "Drain") else key if "Keys" in kind else val
        out = ff(c.st, **{lv: None})
        up = s.UP.get(lv)
        out = ff(out, **{up: "ok"}) if up else out
        if lv == "used":
            out = ff(out, all=True)
        if lv == "snap":
            out = ff(out, done=True)
        return [(st, E(1, {0: el})), (out, NONE)]

    def put(s, c):
        d = dict(c.st)
        op = c.fn.def_.rsplit("::", 1)[1]
        ls = deep(c, c.args[1])
        known = "known" in deep(c, c.args[0])
        if known and op in ("contains_key", "get") and ls & {"chunk", "used"}:
            yes, no = (TRUE, FALSE) if op == "contains_key" else (E(1), NONE)
            lv = "used" if "used" in ls else "chunk"
            s.mark(c, "lookup")
            return [(ff(c.st, **{lv: "ok"}), yes), (ff(c.st, **{lv: "ok"}, missing=True), no)]
        if op == "remove" and ("gathered" in deep(c, c.args[0])):
            c.report("dropped", "a chunk some snapshot uses is no longer looked for")
            return None
        if "chunk" not in ls or op not in ("entry", "insert", "push"):
            return None
        s.mark(c, "put")
        s.into(c)
        st = ff(c.st, chunk="ok") if not known else c.st
        return [(st, T("slot") if op == "entry" else None)]

    def into(s, c):
        if c.args[0] is not None and c.args[0][0] == "R":
            c.store(c.args[0], T("gathered"))

    def through(s, c, ty, v):
        out, seen = [], {}
        todo = [(c.st, dict(c.mem))]
        while todo:
            st, mem = todo.pop()
            if st in seen:
                mem = c.it.join_mem(seen[st], mem)
                if mem == seen[st]:
                    continue
            seen[st] = mem
            r = stepped(c, ty, v, st, mem, s.next)
            if r is None:
                return None
            for s1, el, m1 in r:
                if el == NONE:
                    out.append((s1, m1))
                else:
                    todo.append((ff(s1, chunk="ok"), m1))
        return out

    def extend(s, c):
        return s.gather(c, c.args[1], c.argtypes[1], lambda m: c.it.store_ref(m, c.args[0], (), T("gathered")), UNIT)

    def collect(s, c):
        return s.gather(c, c.args[0], c.argtypes[0], lambda m: None, T("gathered"))

    def gather(s, c, v, ty, then, ret):
        ls = deep(c, v)
        if ls & {"chunks", "chunk"}:
            s.mark(c, "put")
            if v is not None and v[0] == "T":  # the chunks of a tree, as they are
                m = dict(c.mem)
                then(m)
                return [(ff(c.st, tree="ok", chunk=None), ret, m)]
            r = s.through(c, ty, v)
            if r is None:
                return None
            out = []
            for st, m in r:
                then(m)
                out.append((st, ret, m))
            return out
        return None


def used(P, R):
    fn = command(P, "check")
    sp = Used(P)
    it = Interp(P, sp)
    a, m = args_value(P, fn, {"read_packs": FALSE})
    res = it.run(fn, a, fresh(**Used.START), m)
    R.absorb(it)
    for w in ("snap", "forest", "tree", "chunks", "put", "lookup"):
        R.need(f"looking for what snapshots use: {w}", len([1 for x in sp.n if x[0] == w]), 0 if w == "put" else 1)
    gathers = any(x[0] == "put" for x in sp.n)
    k = 0
    for (st, tg), _v in res.items():
        d = dict(st)
        if err_tag(tg):
            continue
        k += 1
        if d["missing"]:
            R.violation("missing-ok", "`check` can succeed although a chunk some snapshot uses isn't in any index", [P.loc(fn)])
        if not d["done"] or d["snap"] == "owed" or d["tree"] == "owed" or d["chunk"] == "owed" or gathers and not d["all"]:
            R.violation("unlooked-chunks", "`check` can succeed without having looked for all chunks that snapshots use", [P.loc(fn)])
    R.need("ways for check to succeed", k)
    R.ob("looking for what snapshots use: steps", len(sp.n))


class Asked(Auto):
    """What is looked up in a cache of trees is looked up under the ID that was asked for."""

    taint = True

    def __init__(s, P):
        super().__init__(P)
        s.n = 0
        tree = r"tree::Node\b|Arc<.*BTreeMap"
        s.on([f for f in P.fns.values() if re.match(r"^(std::collections|hashbrown)::.*HashMap::<.*>::(get|get_key_value|get_mut|remove|insert)$", f.def_) and ga_is(P, f, 0, OID) and ga_is(P, f, 1, tree)], s.get)
        s.on([f for f in P.fns.values() if re.search(r"HashMap<.*> as std::ops::Index<.*>>::index$", f.def_) and "ObjectId" in f.name and re.search(tree, f.name)], s.get)

    def get(s, c):
        op = c.fn.def_.rsplit("::", 1)[1]
        if op == "insert":
            return None
        s.n += 1
        v = T("tree" if deep(c, c.args[1]) == {"asked"} else "other")
        if op == "get_key_value":
            v = S({1: v})
        return [(c.st, v)] if op == "index" else [(c.st, E(1, {0: v})), (c.st, NONE)]


def trees_asked(P, R):
    fs = defs(P, r"^backpak::tree::Cache::<.*>::read$")
    for f in fs:
        sp = Asked(P)
        it = Interp(P, sp)
        MIXED[0] = "~"
        try:
            res = it.run(f, [None, T("asked")] + [None] * (f.body["argc"] - 2), (), {})
        finally:
            MIXED[0] = None
        R.absorb(it)
        R.need("lookups of trees", sp.n)
        k = 0
        for (_st, tg), (ret, m) in res.items():
            if err_tag(tg):
                continue
            k += 1
            v = dict(ret[1][0][1]).get(0) if ret is not None and ret[0] == "E" and len(ret[1]) == 1 else ret
            ls = set()
            it.labels(m, v, ls, set())
            if ls - {"asked"} != {"tree"}:
                R.violation("other-tree", "a tree can be taken from the cache for another than the one that was asked for", [P.loc(f)])
        R.need("ways to read a tree", k)
        R.ob("trees looked up under the ID that was asked for", sp.n)
