"""Indexes: all of them are read, and what they list is all looked up."""
import copy
import re

from ..common import *
from ..report import rule
from .backends import stds, behind, variants_of
from .destructive import T, lab
from .pipeline import ff, fresh
from .resume import struct_value
from .restore import ga_is
from .walks import deep, part, fields_of, folded, heap

INDEX = "backpak::index::Index"
ITERS = re.compile(r"(slice::(iter::)?(Iter|IterMut)|vec::(into_iter::)?IntoIter|btree_(map|set)::(Iter|IterMut|IntoIter|Values|ValuesMut|IntoValues|Keys|IntoKeys)|hash_(map|set)::(Iter|IterMut|IntoIter|Values|ValuesMut|IntoValues|Keys|IntoKeys))<.*Iterator>::next$")


def grown(P, kinds, names):
    """Methods that put something into a collection."""
    return [f for f in P.fns.values() if re.match(rf"^(std|alloc)::({kinds})::<.*>::({names})$", f.def_) or re.search(rf"^<(std|alloc)::({kinds})<.*> as std::iter::Extend<.*>>::extend$", f.def_)]


SETS = r"collections::(btree_set::|hash_set::)?(BTreeSet|HashSet)"
MAPS = r"collections::(btree_map::|hash_map::|hash::map::)?(BTreeMap|HashMap)"
VECS = r"vec::Vec"


def locks(s, P):
    """What a mutex guards is what is inside it."""

    def lock(c):
        r = c.args[0]
        if r is None or r[0] != "R":
            return None
        inner = ("R", frozenset((loc, path + (2, 0), n) for loc, path, n in r[1]))
        return [(c.st, E(0, {0: S({0: inner})}))]

    def through(c):
        g = c.deref(c.args[0])
        if g is None or g[0] != "S":
            return None
        return [(c.st, field(g, 0))]

    s.on(stds(P, r"^std::sync::(poison::)?(mutex::)?Mutex::<.*>::lock$"), lock)
    s.on([f for f in P.fns.values() if re.search(r"MutexGuard<.*Deref(Mut)?>::deref(_mut)?$", f.def_)], through)


def deep_in(c, mem, v):
    c1 = copy.copy(c)
    c1.mem = mem
    return deep(c1, v)


class Master(Auto):
    """Builds the master index. State: e - index listed (None, owed, ok), s, p - are what it supersedes and its packs kept, y - one of those it supersedes,
    any - has any been read, x - superseded index (None, owed, ok), stripped, z - index to merge, merged."""

    taint = True
    on_spawn = threads_inline
    START = dict(e=None, s=False, p=False, y=None, w=None, any=False, x=None, stripped=False, z=None, merged=False, has=None)

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        locks(s, P)
        s.on(defs(P, r"^backpak::backend::CachedBackend::list_indexes$"), lambda c: [(c.st, E(0, {0: T("list")})), (c.st, ERR)])
        s.on(defs(P, r"^backpak::backend::id_from_path(::<.*>)?$"), s.id)
        s.on(one(P, "backpak::index::load"), s.load)
        s.on([f for f in P.fns.values() if ITERS.search(f.def_)], s.next)
        s.on(grown(P, SETS + "|" + MAPS + "|" + VECS, "append|insert|push|entry|replace"), s.grow)
        s.on([f for f in P.fns.values() if re.match(rf"^std::{MAPS}::<.*>::(remove|remove_entry)$", f.def_)], s.remove)
        s.on([f for f in P.fns.values() if re.match(rf"^std::({MAPS}|{VECS})::<.*>::(retain|retain_mut)$", f.def_)], s.retain)
        s.on([f for f in P.fns.values() if re.match(rf"^std::{SETS}::<.*>::contains$", f.def_)], s.contains)
        s.on([f for f in P.fns.values() if re.match(rf"^std::({MAPS}|{SETS})::<.*>::(take|clear|split_off|extract_if|drain|pop_first|pop_last)$", f.def_)], s.dropped)
        s.on([f for f in P.fns.values() if re.match(rf"^std::{MAPS}::<.*>::contains_key(::<.*>)?$", f.def_)], s.has_key)
        s.on(stds(P, r"^std::iter::Iterator::collect$"), s.collect)
        s.on([f for f in P.fns.values() if re.match(rf"^std::{SETS}::<.*>::(remove|retain)$", f.def_)], s.dropped)

    def has_key(s, c):
        """One that was superseded and isn't there any more needn't be left out."""
        if "loaded" not in lab(c, c.args[0]) or "sid" not in deep(c, c.args[1]):
            return None
        return [(c.st, TRUE), (ff(c.st, x="ok") if dict(c.st)["x"] else c.st, FALSE)]

    def collect(s, c):
        """Those that are superseded, put together in another list before they are left out."""
        from .files import it_labels
        from .listing import stepped

        if "superseded" not in it_labels(c.it, c.mem, c.args[0]) or len(c.args) != 1:
            return None
        s.mark(c, "superseded")
        if re.search(r"\b(Take|TakeWhile|Skip|SkipWhile|StepBy|MapWhile|Scan)<", s.prog.ts(c.argtypes[0])):
            c.report("superseded-kept", "a superseded index can be passed over without being left out")
        out, seen, todo = [], {}, [(ff(c.st, x=None), dict(c.mem))]
        while todo:
            st, mem = todo.pop()
            if st in seen:
                mem = c.it.join_mem(seen[st], mem)
                if mem == seen[st]:
                    continue
            seen[st] = mem
            r = stepped(c, c.argtypes[0], c.args[0], st, mem, s.next)
            if r is None:
                return None
            for s1, el, m1 in r:
                if el == NONE:
                    out.append((ff(s1, stripped=dict(c.st)["stripped"], x=dict(c.st)["x"]), T("superseded"), m1))
                else:
                    todo.append((ff(s1, x="ok") if "sid" in deep_in(c, m1, dict(el[1][0][1]).get(0)) else s1, m1))
        return out

    def dropped(s, c):
        """Nothing is taken out again of what was put together."""
        ls = lab(c, c.args[0])
        for l, what in (("master", "pack-dropped"), ("superseded", "superseded-dropped")):
            if l in ls:
                c.report(what, {"master": "a pack that an index lists can be left out of the master index", "superseded": "a superseded index can be left out of those the master index says are superseded"}[l])
        return None

    def mark(s, c, what):
        s.n.add((what, c.caller.id, str(c.span)))

    def id(s, c):
        return [(c.st, E(0, {0: T("id")} if "file" in deep(c, c.args[0]) else {})), (c.st, ERR)]

    def load(s, c):
        if "id" not in deep(c, c.args[0]):
            c.report("other-index", "another index is loaded than one of those listed")
        s.mark(c, "load")
        return [(ff(c.st, any=True), E(0, {0: struct_value(s.prog, INDEX, {"supersedes": T("sup"), "packs": T("packs")})})), (c.st, ERR)]

    def next(s, c):
        ls = lab(c, c.args[0])
        d = dict(c.st)
        whole = "Iter<" in c.fn.def_ or "IterMut<" in c.fn.def_ or "IntoIter<" in c.fn.def_
        mapped = "_map::" in c.fn.def_
        if "list" in ls:
            s.mark(c, "listed")
            if d["e"] == "owed":
                c.report("index-left-out", "an index can be passed over without keeping both its packs and what it supersedes")
            return [(ff(c.st, e="owed", s=False, p=False), E(1, {0: S({0: T("file"), 1: T("len")})})), (ff(c.st, e=None), NONE)]
        if "sup" in ls:
            if d["y"] == "owed":
                c.report("superseded-left-out", "an index that another supersedes can be passed over without noting it")
            return [(ff(c.st, y="owed"), E(1, {0: T("sup1")})), (s.done(ff(c.st, y=None, s=True)), NONE)]
        if "packs" in ls:
            if d["w"] == "owed":
                c.report("pack-left-out", "a pack of an index can be passed over without being noted")
            el = S({0: T("pack1"), 1: T("manifest1")}) if mapped else T("pack1", "manifest1")
            return [(ff(c.st, w="owed"), E(1, {0: el})), (s.done(ff(c.st, w=None, p=True)), NONE)]
        if "superseded" in ls:
            s.mark(c, "superseded")
            if d["x"] == "owed":
                c.report("superseded-kept", "a superseded index can be passed over without being left out")
            return [(ff(c.st, x="owed"), E(1, {0: T("sid")})), (ff(c.st, x=None, stripped=True), NONE)]
        if "loaded" in ls:
            s.mark(c, "loaded")
            if d["z"] in ("owed", "clean"):
                c.report("index-unmerged", "an index can be passed over without merging its packs")
            m = dict(c.mem)
            v = T("lpacks")
            el = S({0: T("id"), 1: v}) if whole else v
            return [(ff(c.st, z="owed"), E(1, {0: el}), m), (ff(c.st, z=None, merged=True), NONE)]
        if "lpacks" in ls:
            if d["w"] == "owed":
                c.report("pack-left-out", "a pack of an index can be passed over without being merged")
            return [(ff(c.st, w="owed"), E(1, {0: S({0: T("lpack1"), 1: T("lmanifest1")})})), (ff(c.st, w=None, z="ok"), NONE)]
        return None

    def done(s, st):
        d = dict(st)
        return ff(st, e="ok") if d["s"] and d["p"] and d["e"] == "owed" else st

    def grow(s, c):
        ls = set().union(*[deep(c, a) for a in c.args[1:]])
        d = dict(c.st)
        r = None
        if c.fn.def_.endswith("::insert"):
            r = [NONE, E(1)] if "Map" in c.fn.def_ else [TRUE, FALSE]
        elif not c.fn.def_.endswith(("::append", "::push", "::extend")):
            return None
        r = r or [None]
        if "lpacks" in ls or "lpack1" in ls:
            s.mark(c, "merge")
            if not d["stripped"] and d["z"] != "clean":
                c.report("superseded-merged", "an index can be merged although another supersedes it")
            if "lpack1" in ls and "lmanifest1" not in ls:
                c.report("manifest", "a pack is merged without its manifest")
            c.store(c.args[0], T("master"))
            st = ff(c.st, z="ok") if "lpacks" in ls else ff(c.st, w="ok")  # (all of an index at once, or one of its packs)
            return [(st, x) for x in r]
        if "packs" in ls or "pack1" in ls:
            s.mark(c, "keep")
            if "Map" in c.fn.def_ and c.fn.def_.endswith("::insert") and "packs" in ls and "id" not in deep(c, c.args[1]):
                c.report("other-id", "an index's packs are kept under another ID")
            c.store(c.args[0], T("loaded"))
            return [(s.done(ff(c.st, p=True) if "packs" in ls else ff(c.st, w="ok")), x) for x in r]
        if "sup" in ls or "sup1" in ls:
            s.mark(c, "note")
            c.store(c.args[0], T("superseded"))
            return [(s.done(ff(c.st, s=True) if "sup" in ls else ff(c.st, y="ok")), x) for x in r]
        if "loaded" in ls or "superseded" in ls:
            # (moving them elsewhere, all at once)
            c.store(c.args[0], T("loaded" if "loaded" in ls else "superseded"))
            return [(c.st, x) for x in r]
        return None

    def remove(s, c):
        if "loaded" not in lab(c, c.args[0]):
            return s.dropped(c)
        s.mark(c, "strip")
        if "sid" not in deep(c, c.args[1]):
            c.report("not-superseded", "an index that isn't superseded is left out")
            return [(c.st, NONE)]
        return [(ff(c.st, x="ok"), NONE), (ff(c.st, x="ok"), E(1))]

    def contains(s, c):
        if "superseded" not in lab(c, c.args[0]) or "id" not in deep(c, c.args[1]):
            return None
        s.mark(c, "superseded")
        if dict(c.st)["z"] == "owed":
            s.mark(c, "strip")
            return [(ff(c.st, z="superseded"), TRUE), (ff(c.st, z="clean"), FALSE)]
        return [(ff(c.st, has="yes"), TRUE), (ff(c.st, has="no"), FALSE)]

    def retain(s, c):
        if "loaded" not in lab(c, c.args[0]):
            return s.dropped(c)
        s.mark(c, "strip")
        a = [T("id"), T("lpacks")] if "Map" in c.fn.def_ else [T("id", "lpacks")]
        out = []
        for st, ret, m in c.it.call_closure(c.caller, c.args[1], c.argtypes[1], a, ff(c.st, has=None), dict(c.mem), c.frame, c.span, ("retain", c.caller.id)):
            want = {"yes": FALSE, "no": TRUE}.get(dict(st)["has"])
            if want is None or ret != want:
                c.report("not-superseded", "whether an index is left out doesn't depend on whether it is superseded")
            out.append((ff(st, has=None, stripped=True), None, m))
        return out


@rule("F05", "the master index has every pack of every index that isn't superseded, and of no other")
def f05(P, R):
    f = one(P, "backpak::index::build_master_index_with_sizes")[0]
    sp = Master(P)
    it = Interp(P, sp)
    res = it.run(f, [None] * f.body["argc"], fresh(**Master.START), {})
    R.absorb(it)
    for w in ("listed", "load", "keep", "note", "superseded", "strip", "loaded", "merge"):
        R.need("indexes: " + w, len([1 for x in sp.n if x[0] == w]))
    n = 0
    iff = fields_of(P, INDEX)
    for (st, tg), (ret, _m) in res.items():
        if err_tag(tg):
            continue
        d = dict(st)
        n += 1
        if not d["any"]:
            continue
        if d["e"] == "owed":
            R.violation("index-left-out", "an index can be passed over without keeping both its packs and what it supersedes", [P.loc(f)])
        if not d["merged"]:
            R.violation("unmerged", "a master index can be built without merging all indexes", [P.loc(f)])
        v = field(dict(ret[1][0][1]).get(0), 0) if ret is not None and ret[0] == "E" and len(ret[1]) == 1 else None
        for name, want in (("packs", "master"), ("supersedes", "superseded")):
            x = field(v, iff.index(name)) if v is not None else None
            if x is None or labels_of(x) != {want}:
                R.violation(f"other:{name}", f"the master index's `{name}` is something else than what all indexes read come to", [P.loc(f)])
    R.need("ways to build a master index", n)
    R.ob("steps of building a master index", len(sp.n))


# ------------------------------------------------------------------------------------------ F06
class Listed(Auto):
    """Goes through all blobs of an index. State: k - pack (None, owed, ok), b - blob (None, owed, ok), any, end - were all packs gone through."""

    taint = True
    START = dict(k=None, b=None, any=False, end=False)

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.ef = {k: i for i, k in enumerate(fields_of(P, "backpak::pack::PackManifestEntry"))}
        s.on([f for f in P.fns.values() if ITERS.search(f.def_)], s.next)
        s.on([f for f in P.fns.values() if re.match(r"^<std::slice::Iter<.*> as std::iter::Iterator>::fold$", f.def_) and ga_is(P, f, 0, r"^&?backpak::pack::PackManifestEntry$")], lambda c: folded(c, s.next))
        s.on([f for f in P.fns.values() if re.match(rf"^(std::({SETS}|{MAPS})|hashbrown::(map::)?HashMap)::<.*>::insert$", f.def_) and ga_is(P, f, 0, r"^backpak::hashing::ObjectId$")], s.insert)
        s.on(stds(P, r"^std::iter::Iterator::(collect|try_collect)$"), s.collect)
        s.on([f for f in P.fns.values() if re.match(rf"^<(std::({SETS}|{MAPS})|hashbrown::(map::)?HashMap)<.*as std::iter::Extend<.*>::extend$", f.def_) and ga_is(P, f, 0, r"^backpak::hashing::ObjectId$")], s.extend)

    def extend(s, c):
        if not {"packs", "manifest"} & set().union(*[deep(c, a) for a in c.args[1:]]):
            return None
        outs = []
        for st, ret, m in c.it.inline(c.caller, c.fn, c.args, c.st, dict(c.mem), c.frame, c.span, ("extend", c.fn.id)):
            if dict(st)["any"]:
                m = dict(m)
                c.it.store_ref(m, c.args[0], (), T("mapped"))
            outs.append((st, ret, m))
        return outs

    def next(s, c):
        ls = lab(c, c.args[0])
        d = dict(c.st)
        if "packs" in ls:
            s.n.add(("pack", c.caller.id, str(c.span)))
            if d["k"] == "owed":
                c.report("pack-left-out", "a pack of an index can be passed over")
            m = dict(c.mem)
            v = heap(m, 63, T("manifest"))
            el = v if "Values<" in c.fn.def_ else T("packid") if "Keys<" in c.fn.def_ else S({0: heap(m, 64, T("packid")), 1: v})
            return [(ff(c.st, k="owed"), E(1, {0: el}), m), (ff(c.st, k=None, end=True), NONE)]
        if "manifest" in ls:
            s.n.add(("blob", c.caller.id, str(c.span)))
            if d["b"] == "owed":
                c.report("blob-left-out", "a blob of a pack can be passed over")
            m = dict(c.mem)
            el = heap(m, 65, struct_value(s.prog, "backpak::pack::PackManifestEntry", {"id": T("bid"), "length": T("blen"), "blob_type": T("btype")}))
            return [(ff(c.st, b="owed"), E(1, {0: el}), m), (ff(c.st, b=None, k="ok"), NONE)]
        return None

    def insert(s, c):
        k = deep(c, c.args[1])
        if not {"bid", "packid", "blen"} & k:
            return None
        s.n.add(("insert", c.caller.id, str(c.span)))
        if k != {"bid"}:
            c.report("other-key", "something else is looked up than a blob's ID")
        v = c.args[2] if len(c.args) > 2 else None
        ts = s.prog.ts(c.argtypes[2]) if len(c.args) > 2 else ""
        if ts not in ("", "()") and labels_of(v) != ({"packid"} if ts.endswith("ObjectId") else {"blen"}):
            c.report("other-value", "a blob is said to be in another pack, or to have another size, than its own" )
        c.store(c.args[0], T("mapped"))
        st = ff(c.st, b="ok", any=True)
        return [(st, NONE), (st, E(1))] if "Map" in c.fn.def_ else [(st, TRUE), (st, FALSE)]

    def collect(s, c):
        if not {"packs", "manifest"} & set().union(*[deep(c, a) for a in c.args]):
            return None
        outs = c.it.inline(c.caller, c.fn, c.args, c.st, dict(c.mem), c.frame, c.span, ("collect", c.fn.id))
        return [(st, T("mapped") if dict(st)["any"] and (ret is None or ret[0] != "E") else E(0, {0: T("mapped")}) if dict(st)["any"] and variants_of(ret) == {0} else ret, m) for st, ret, m in outs]


@rule("F06", "every blob an index lists is looked up: in its own pack, with its own size, and as known to be there")
def f06(P, R):
    for name in ("blob_to_pack_map", "blob_id_set", "blob_to_size_map"):
        f = one(P, f"backpak::index::{name}")[0]
        sp = Listed(P)
        it = Interp(P, sp)
        mem = {}
        ix = behind(mem, 66, struct_value(P, INDEX, {"packs": T("packs"), "supersedes": T("sup")}))
        res = it.run(f, [ix], fresh(**Listed.START), mem)
        R.absorb(it)
        for w in ("pack", "blob", "insert"):
            R.need(f"{name}: {w}", len([1 for x in sp.n if x[0] == w]))
        n = 0
        for (st, tg), (ret, _m) in res.items():
            if err_tag(tg):
                continue
            n += 1
            d = dict(st)
            if not d["end"]:
                R.violation(f"unfinished:{name}", f"{name} can end before all of an index's packs were gone through", [P.loc(f)])
            v = dict(ret[1][0][1]).get(0) if ret is not None and ret[0] == "E" and len(ret[1]) == 1 else ret
            if d["any"] and "mapped" not in labels_of(v):
                R.violation(f"other-result:{name}", f"{name} returns something else than it gathered", [P.loc(f)])
        R.need(f"ways for {name} to end", n)
        R.ob(f"steps of {name}", len(sp.n))
