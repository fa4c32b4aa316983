"""Everything that removes things from a repository."""
import re

from ..common import *
from ..report import rule
from .durability import cached, Quiesce
from .pipeline import ff, fresh, two


def text(c, v):
    n = 0
    while v is not None and v[0] == "R" and n < 4:
        v = c.deref(v)
        n += 1
    return template(v)


def kind(t):
    for k in ("pack", "index", "snapshot"):
        if "." + k in t:
            return k
    return ""


def lab(c, v):
    out = set()
    c.it.labels(c.mem, v, out, set())
    return frozenset(out)


def T(*ls):
    return ("T", frozenset(ls))


class Removing(Quiesce):
    """No object is removed while the thread storing its replacement may still run, or has panicked."""

    def __init__(s, P):
        super().__init__(P)
        s.w = set()
        s.rm = ids(cached(P, "remove"))
        s.events = set(s.join) | set(s.sp) | s.rm
        s.n = set()

    def on_call(s, c):
        if c.fn.id in s.rm:
            s.n.add((c.caller.id, str(c.span)))
            pend, j, bad = c.st
            if pend:
                c.report(f"removed-early:{s.cmd}", "an object is removed while threads storing what replaces it may still be running")
            elif bad:
                c.report(f"removed-after-panic:{s.cmd}", "an object is removed although a thread storing what replaces it panicked")
            return [(c.st, OK), (c.st, ERR)]
        return Quiesce.on_call(s, c)


class Replacing(Auto):
    """State: idx  - was a replacing index built (Y/N/?), up - did uploading it succeed, bad - some worker or removal failed,
    rm - kinds of object removed so far, read - has anything the old indexes hold been read yet."""

    taint = True

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(cached(P, "remove"), s.remove)
        s.on([f for f in P.fns.values() if f.def_ == "backpak::pack::pack"], s.pack)
        s.on(one(P, "backpak::index::index"), s.index)
        s.on(one(P, "backpak::upload::upload"), s.upload)
        s.on(one(P, "backpak::repack::walk_snapshots") if any(f.def_ == "backpak::repack::walk_snapshots" for f in P.fns.values()) else [], s.walk)
        s.on(cached(P, "list_indexes"), s.list)
        s.on(cached(P, "list_packs"), s.packs)
        s.on(one(P, "backpak::index::load"), s.load)
        s.on(defs(P, r"^backpak::index::build_master_index(_with_sizes)?$"), s.load)
        s.on(one(P, "backpak::pack::load_manifest"), s.load)
        s.on([f for f in P.fns.values() if re.match(r"^std::iter::Iterator::partition$|.* as std::iter::Iterator>::partition$", f.def_)], s.partition)
        s.on(ids(spawn_fns(P)), lambda c: None)
        s.on(ids(join_fns(P)), lambda c: [(c.st, join_result(c))])
        s.on([f for f in P.fns.values() if re.match(r"^backpak::index::blob_id_set$", f.def_)], s.blobs)
        manifests = lambda f: f.ga and len(f.ga) > 1 and re.search(r"hashing::ObjectId$", P.ts(f.ga[0])) and "pack::PackManifestEntry" in P.ts(f.ga[1])
        oids = lambda f: f.ga and "Map" not in f.def_ and any(re.search(r"hashing::ObjectId$", P.ts(g)) for g in f.ga if isinstance(g, int))
        s.on([f for f in P.fns.values() if GROW.match(f.def_) and (manifests(f) or oids(f))], s.grow)
        s.on([f for f in P.fns.values() if EACH.search(f.def_) and (manifests(f) or oids(f))], s.each)
        s.sites = set()

    on_spawn = threads_inline

    # Elements of a loop over what the indexes list, each put into one of several collections, are parted like `partition` does.
    # `parts`: (loop, place) -> part, for such loops (None: find them)
    parts = None

    def each(s, c):
        ls = lab(c, c.args[0])
        if not ls:
            return None
        k = (c.caller.id, str(c.span))
        put = dict(c.st)["put"]
        out = frozenset(x for x in put if x[0] != k)
        el = (ff(c.st, put=out | {(k, None)}), E(1, {0: T(("elem", k), *ls)}))
        # what is put together in a loop is put together of something
        return [el, (ff(c.st, put=out), E(0))] if out != put else [el]

    def grow(s, c):
        if c.args[0] is None or c.args[0][0] != "R":
            return None
        new = set()
        for v in c.args[1:]:
            new |= lab(c, v)
        if not new:
            return None
        st = c.st
        at = (c.caller.id, str(c.span))
        for k in sorted({l[1] for l in new if isinstance(l, tuple) and l[0] == "elem"}):
            put = dict(st)["put"]
            s.sites |= {(k, at, o) for kk, o in put if kk == k and o is not None} | {(k, at, at)}
            st = ff(st, put=put | {(k, at)})
            i = (s.parts or {}).get((k, at))
            if i is not None:
                src = frozenset(l for l in new if not (isinstance(l, tuple) and l[0] == "elem"))
                new = {l for l in new if isinstance(l, tuple) and l[0] == "elem"} | {("side", str(k), i, src)}
        new = {l for l in new if not (isinstance(l, tuple) and l[0] == "elem")}
        c.store(c.args[0], T(*(lab(c, c.deref(c.args[0])) | new)))
        return [(st, None)]

    def parting(s):
        """Which loops part what they go through: every element gets into at most one of the collections of each part."""
        out = {}
        for k in {x[0] for x in s.sites}:
            same = {a: a for _k, a, _o in s.sites if _k == k}

            def root(a):
                while same[a] != a:
                    a = same[a]
                return a

            for _k, a, o in s.sites:
                if _k == k:
                    same[root(a)] = root(o)
            if len({root(a) for a in same}) > 1:
                out.update({(k, a): str(root(a)) for a in same})
        return out

    def mark(s, c, what):
        s.n.add((what, c.caller.id, str(c.span)))

    def list(s, c):
        s.mark(c, "list")
        return two(c.st, T("listed late" if dict(c.st)["read"] else "listed early"), c.st)

    def packs(s, c):
        # rebuild-index replaces the indexes by what it finds in the packs it lists
        st = ff(c.st, read=True) if s.cmd == "rebuild_index" else c.st
        return [(st, E(0, {0: T("listed packs")})), (st, E(1))]

    def load(s, c):
        return two(ff(c.st, read=True), T("master"), ff(c.st, bad=True))

    def partition(s, c):
        ls = lab(c, c.args[0])
        if "master" not in ls:
            return None
        k = f"{c.caller.id}@{c.span}"
        s.mark(c, "partition")
        # a side is what it is a part of, and which part
        return [(c.st, S({i: T(("side", k, i, ls)) for i in (0, 1)}))]

    def blobs(s, c):
        s.mark(c, "blobs")
        ls = lab(c, c.args[0])
        s.known |= ls
        return two(c.st, T(*ls), c.st)

    known = frozenset()

    def pack(s, c):
        return [(c.st, OK), (ff(c.st, bad=True), ERR)]

    def index(s, c):
        s.mark(c, "index")
        i = next((i for i in range(c.fn.body["argc"]) if c.it.prog.ts(c.fn.body["lt"][i + 1]).endswith("index::Index")), None)
        v = c.args[i] if i is not None else None
        sup = lab(c, field(v, 0) if v is not None and v[0] == "S" else v)
        pk = lab(c, field(v, 1) if v is not None and v[0] == "S" else v)
        st = ff(c.st, sup=sup, kept=pk)
        if s.cmd == "prune":
            # the pipeline discards whether there was something to index; a prune always supersedes something
            return [(ff(st, idx="Y"), E(0, {0: TRUE})), (ff(st, bad=True), E(1))]
        return [(ff(st, idx="Y"), E(0, {0: TRUE})), (ff(st, idx="N"), E(0, {0: FALSE})), (ff(st, bad=True), E(1))]

    def upload(s, c):
        s.mark(c, "upload")
        return [(ff(c.st, up="Y"), OK), (ff(c.st, bad=True), ERR)]

    def walk(s, c):
        s.mark(c, "walk")
        # what is taken to be stored already
        for v, t in zip(c.args, c.argtypes):
            if t is not None and re.search(r"HashSet<backpak::hashing::ObjectId", c.it.prog.ts(t)):
                s.known |= lab(c, v)
        return [(ff(c.st, walked=True), E(0)), (ff(c.st, bad=True), E(1))]

    def remove(s, c):
        d = dict(c.st)
        k = kind(text(c, c.args[1]))
        s.mark(c, "remove " + k)
        cmd = s.cmd
        if d["bad"]:
            c.report(f"removed-after-error:{cmd}:{k}", f"{k or 'an object'} is removed although something before it failed")
        if k != "snapshot":
            if d["idx"] != "Y":
                c.report(f"removed-without-index:{cmd}:{k}", f"{k or 'an object'} is removed although no replacing index is known to have been built")
            if d["up"] != "Y":
                c.report(f"removed-without-upload:{cmd}:{k}", f"{k or 'an object'} is removed although the replacing index is not known to have been stored")
            if cmd == "prune" and not d["walked"]:
                c.report(f"removed-without-repack:{cmd}:{k}", f"{k or 'an object'} is removed although what is still used was not repacked")
        if k == "index" and "pack" in d["rm"]:
            c.report(f"index-after-pack:{cmd}", "an index is removed after packs it may refer to: a crash in between leaves an index of missing packs")
        st = ff(c.st, rm=tuple(sorted(set(d["rm"]) | {k})))
        return [(st, OK), (ff(st, bad=True), ERR)]


class Provenance(Replacing):
    """Where the names of removed objects come from."""

    def __init__(s, P):
        super().__init__(P)
        s.removed = {}
        for k in ("pack", "index", "snapshot"):
            fs = [f for f in P.fns.values() if f.def_ == f"backpak::backend::CachedBackend::remove_{k}"]
            s.on(fs, lambda c, k=k: s.provenance(c, k, lab(c, c.args[1]), dict(c.st)))

    def walk(s, c):
        if s.cmd == "prune":
            for t, v in zip(c.argtypes, c.args):
                if t is not None and c.it.closure_fn(t) is not None:
                    outs = c.it.call_closure(c.caller, v, t, [None], c.st, dict(c.mem), c.frame, c.span, ("filter", c.caller.id))
                    s.n.add(("filter", c.caller.id, str(c.span)))
                    if any(r != TRUE for _s, r, _m in outs):
                        c.report("prune-skips", "prune may skip something while repacking what snapshots still use, and then removes the packs it is in")
        return Replacing.walk(s, c)

    def provenance(s, c, k, ls, d):
        s.n.add(("from " + k, c.caller.id, str(c.span)))
        s.removed.setdefault(k, set()).update(ls)
        if k == "index":
            if "listed early" not in ls:
                c.report(f"index-unlisted:{s.cmd}", "an index is removed that was not listed before what the indexes hold was read")
            if "listed late" in ls:
                c.report(f"index-late:{s.cmd}", "an index is removed that was listed only after what is to replace it was looked at: one added in between is lost unread")
            if not ls & d["sup"]:
                c.report(f"index-not-superseded:{s.cmd}", "an index is removed that the new index is not known to supersede: a crash before its removal leaves both in force")
        elif k == "pack":
            if s.cmd != "prune":
                c.report(f"pack-removed:{s.cmd}", "packs are removed by a command that must not")
            if "listed packs" in ls:
                c.report(f"pack-listed:{s.cmd}", "a pack is removed because it was seen in storage, not because an index listed it: it may belong to a backup in progress")
            if overlap(ls, d["kept"]) or sides(ls) and "master" in d["kept"]:
                c.report(f"pack-kept:{s.cmd}", "a pack is removed that the new index may still list")
            if sides(ls) and (overlap(ls, s.known) or "master" in s.known):
                c.report(f"pack-counted:{s.cmd}", "a pack is removed although its blobs are taken to be stored already, so they were not repacked")
        return None


GROW = re.compile(r"^std::(collections::)?((btree_map::|btree_set::|hash_map::|hash_set::|vec::)?(BTreeMap|BTreeSet|HashMap|HashSet|Vec))::<.*>::(insert|push|append|extend)$|^<std::(collections::|vec::)(\w+::)*(BTreeMap|BTreeSet|HashMap|HashSet|Vec)<.*> as std::iter::Extend<.*>>::extend$")
EACH = re.compile(r"^<std::collections::(btree_map|hash_map|btree_set|hash_set|btree::map|hash::map|btree::set|hash::set)::(Iter|IntoIter)<.*> as std::iter::Iterator>::next$")


def sides(ls):
    return {x[1:3] for x in ls if isinstance(x, tuple) and x[0] == "side"}


def chains(ls):
    """For each part among the labels: what it is known to be a part of, and which part of it."""
    out = []
    for x in ls:
        if isinstance(x, tuple) and x[0] == "side":
            up = chains(x[3])
            out.append({**(up[0] if len(up) == 1 else {}), x[1]: x[2]})
    return out


def overlap(a, b):
    """May two things have something in common, both being made of what the indexes list?"""
    return any(all(y.get(k, i) == i for k, i in x.items()) for x in chains(a) for y in chains(b))


START = dict(put=frozenset(), idx="?", up="?", bad=False, rm=(), read=False, walked=False, sup=frozenset(), kept=frozenset())


@rule("P01", "prune and rebuild-index remove old objects only after their replacement is stored, indexes before packs")
def p01(P, R):
    for cmd in ("prune", "rebuild_index"):
        fn = command(P, cmd)
        sp = Removing(P)
        sp.cmd = cmd
        it = Interp(P, sp)
        a, m = args_value(P, fn, {})
        it.run(fn, a, (frozenset(), False, False), m)
        R.absorb(it)
        R.need(f"{cmd}: removal", len(sp.n), 2 if cmd == "prune" else 1)
        sp = Replacing(P)
        sp.cmd = cmd
        it = Interp(P, sp)
        a, m = args_value(P, fn, {})
        it.run(fn, a, fresh(**START), m)
        R.absorb(it)
        for w in ("index", "upload", "remove index") + (("remove pack", "walk") if cmd == "prune" else ()):
            R.need(f"{cmd}: {w}", len([1 for x in sp.n if x[0] == w]))
        R.ob(f"{cmd}: removals ordered after publication", len([1 for x in sp.n if x[0].startswith("remove")]))
    R.assume("every command supersedes at least one index when it runs its pipeline with a non-empty list of packs to prune")


@rule("P02", "only what was listed first, replaced and left out of the new index is removed")
def p02(P, R):
    for cmd in ("prune", "rebuild_index"):
        fn = command(P, cmd)
        parts = None
        while True:
            sp = Provenance(P)
            sp.cmd = cmd
            sp.parts = parts
            it = Interp(P, sp)
            a, m = args_value(P, fn, {})
            it.run(fn, a, fresh(**START), m)
            if parts is not None or not sp.parting():
                break
            parts = sp.parting()
        it.reports = {k: v for k, v in it.reports.items() if not k.startswith(("removed-", "index-after"))}
        R.absorb(it)
        for w in ("from index",) + (("from pack", "filter", "blobs") if cmd == "prune" else ()):
            R.need(f"{cmd}: {w}", len([1 for x in sp.n if x[0] == w]))
        R.ob(f"{cmd}: origins of removed objects", len([1 for x in sp.n if x[0].startswith("from")]))
    # nobody else removes packs or indexes
    for k, allowed in (("pack", {"prune"}), ("index", {"prune", "rebuild_index"}), ("snapshot", {"forget"})):
        fs = [f for f in P.fns.values() if f.def_ == f"backpak::backend::CachedBackend::remove_{k}"]
        if not fs:
            raise AnchorError(f"no removal of a {k}")
        up = P.reaching(ids(fs))
        for cmd in COMMANDS:
            fn = command(P, cmd)
            if fn.id in up and cmd not in allowed:
                R.violation(f"remover:{cmd}:{k}", f"the command `{cmd}` can remove a {k}", [P.fns[i].def_ for i in P.path(fn.id, ids(fs)) or ()])
            R.ob(f"{cmd}: cannot remove a {k}" if cmd not in allowed else f"{cmd}: may remove a {k}")
    for f in P.fns.values():
        if f.krate.startswith("backpak") and f.body is not None and f.succ & ids(cached(P, "remove")) and not re.search(r"remove_(pack|index|snapshot)$", f.def_):
            R.violation(f"remover:{f.def_}", "objects are removed other than through the removal of a pack, index or snapshot", [P.loc(f)])
