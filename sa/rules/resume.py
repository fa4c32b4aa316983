"""Resuming interrupted runs, deduplication, and what an interrupted prune may publish."""
import re

from ..common import *
from ..report import rule
from .destructive import Replacing, EACH, START, T, lab, sides
from .durability import cached
from .pipeline import ff, fresh, two


def struct_value(P, name, fields):
    a = next((a for a in P.adts if a["name"] == name and a["kind"] == "Struct"), None)
    if a is None:
        raise AnchorError(f"no struct {name}")
    names = a["variants"][0][2]
    for k in fields:
        if k not in names:
            raise AnchorError(f"{name} has no field {k}")
    return S({names.index(k): v for k, v in fields.items()})


# ------------------------------------------------------------------------------------------ D06
ANY = frozenset({"*"})


class Adoption(Replacing):
    """Where the index that the pipeline starts from comes from, and what is known about it.
    emp: the WIP supersedes nothing (T/F/?); eq: it supersedes what this run does; it: the containment loop in progress;
    sup / dis: sides of the pack partition proven to be inside / outside the WIP."""

    def __init__(s, P):
        super().__init__(P)
        s.adopted = {}
        s.wip = struct_value(P, "backpak::index::Index", {"supersedes": T("wip.supersedes"), "packs": T("wip.packs")})
        s.on(one(P, "backpak::index::read_wip"), lambda c: [(c.st, E(0, {0: E(1, {0: s.wip})})), (c.st, E(0, {0: E(0)})), (c.st, E(1))])
        oid = lambda f: f.ga and P.ts(f.ga[0]) == "backpak::hashing::ObjectId"
        s.on([f for f in P.fns.values() if re.match(r"^std::collections::BTreeSet::<T, A>::(is_empty|len)$", f.def_) and oid(f)], s.emptiness)
        s.on([f for f in P.fns.values() if re.match(r"^<std::collections::BTreeSet<T, A> as std::cmp::PartialEq>::(eq|ne)$|^std::cmp::PartialEq::ne$", f.def_) and "BTreeSet<backpak::hashing::ObjectId>" in f.name], s.equality)
        setrel = [f for f in P.fns.values() if re.search(r"Set::<.*>::(is_superset|is_subset|is_disjoint)$", f.def_) and f.ga and "backpak::hashing::ObjectId" in P.ts(f.ga[0])]
        s.on(setrel, s.relation)
        keyed = lambda f: f.ga and any("backpak::hashing::ObjectId" in P.ts(g) for g in f.ga)
        s.on([f for f in P.fns.values() if re.search(r"(Map|Set)::<.*>::(contains_key|contains|get)$", f.def_) and keyed(f)], s.contains)
        s.on([f for f in P.fns.values() if re.search(r"^<std::collections::(btree_map|btree_set|hash_map|hash_set|btree::map|btree::set|hash::map|hash::set)::(Keys|Iter|IntoIter|IntoKeys|Values|IntoValues)<.*> as std::iter::Iterator>::next$", f.def_)], s.next)
        s.on([f for f in P.fns.values() if re.search(r"as std::iter::Iterator>::collect$|^std::iter::Iterator::collect$", f.def_) and "hashing::ObjectId" in f.name], s.collect)

    def emptiness(s, c):
        ls = lab(c, c.args[0])
        if "wip.supersedes" not in ls:
            return None
        s.mark(c, "supersedes nothing?")
        full = ("P",)
        if c.fn.def_.endswith("len"):
            return [(ff(c.st, emp="T"), ("i", 0)), (ff(c.st, emp="F"), full)]
        return [(ff(c.st, emp="T"), TRUE), (ff(c.st, emp="F"), FALSE)]

    def equality(s, c):
        a, b = lab(c, c.args[0]), lab(c, c.args[1])
        if "wip.supersedes" in b:
            a, b = b, a
        if "wip.supersedes" not in a:
            return None
        s.mark(c, "supersedes the same?")
        same = ff(c.st, eq="T" if "listed early" in b else "?", emp="T" if not b else dict(c.st)["emp"])
        t, f = (TRUE, FALSE) if c.fn.def_.endswith("eq") else (FALSE, TRUE)
        return [(same, t), (ff(c.st, eq="F"), f)]

    def relation(s, c):
        a, b = lab(c, c.args[0]), lab(c, c.args[1])
        op = c.fn.def_.rsplit("::", 1)[1]
        d = dict(c.st)
        if op == "is_subset":
            a, b = b, a
        if op == "is_disjoint":
            if "wip.packs" in b:
                a, b = b, a
            if "wip.packs" not in a:
                return None
            s.mark(c, "keeps nothing to be pruned?")
            return [(ff(c.st, dis=d["dis"] | sides(b)), TRUE), (c.st, FALSE)]
        if "wip.packs" not in a:
            return None
        s.mark(c, "keeps everything to be kept?")
        return [(ff(c.st, sup=d["sup"] | sides(b)), TRUE), (c.st, FALSE)]

    # a loop over X in which every element is looked up in Y; `loops` has the loops with lookups (None: find them)
    loops = None

    def site(s, c):
        return (c.caller.id, str(c.span))

    def next(s, c):
        ls = lab(c, c.args[0])
        x = "wip.packs" if "wip.packs" in ls else frozenset(sides(ls))
        d = dict(c.st)
        if not x:
            return s.each(c) if EACH.search(c.fn.def_) else None
        k = s.site(c)
        elem = T(("elem", k), *sorted(ls, key=repr))
        if s.loops is None or k not in s.loops or d["adp"]:
            return [(c.st, E(1, {0: elem})), (c.st, E(0))]
        # nothing looked at yet: whatever holds for every element of nothing holds ('*')
        over, y, held = d["it"] if d["it"] and d["it"][0] == k else (k, (ANY, ANY), False)
        if held:
            y = (frozenset(), frozenset())
        st = c.st
        # an exhausted loop: every element was found in all of y[0] / found missing from all of y[1]
        if x == "wip.packs":
            st = ff(st, dis=d["dis"] | y[1])
        else:
            if y[0] & {"wip.packs", "*"}:
                st = ff(st, sup=d["sup"] | x)
            if y[1] & {"wip.packs", "*"}:
                st = ff(st, dis=d["dis"] | x)
        return [(ff(c.st, it=(k, y, True)), E(1, {0: elem})), (ff(st, it=None), E(0))]

    def contains(s, c):
        d = dict(c.st)
        if d["adp"]:
            return None
        ls = lab(c, c.args[0])
        where = frozenset({"wip.packs"}) if "wip.packs" in ls else frozenset(sides(ls))
        what = lab(c, c.args[1])
        el = {l[1] for l in what if isinstance(l, tuple) and l[0] == "elem"}
        # only a comparison of the WIP's packs with others tells anything
        if not where or not el or ("wip.packs" in where) == ("wip.packs" in what):
            return None
        s.mark(c, "looked up")
        get = c.fn.def_.endswith("::get")
        if s.loops is None:
            s.found |= el
            return None
        if not d["it"] or d["it"][0] not in el:
            return None
        over, y, held = d["it"]
        both = lambda a: where if a == ANY else a & where
        yes = (over, (both(y[0]), frozenset()), False)
        no = (over, (frozenset(), both(y[1])), False)
        return [(ff(c.st, it=yes), E(1) if get else TRUE), (ff(c.st, it=no), E(0) if get else FALSE)]

    def collect(s, c):
        """A collection of labelled things is labelled."""
        ls = lab(c, c.args[0])
        if not ls or "Result<" in c.fn.name.split("::collect")[-1] or "Option<" in c.fn.name.split("::collect")[-1]:
            return None
        return [(c.st, T(*ls))]

    def index(s, c):
        i = next((i for i in range(c.fn.body["argc"]) if c.it.prog.ts(c.fn.body["lt"][i + 1]).endswith("index::Index")), None)
        ls = lab(c, c.args[i]) if i is not None else frozenset()
        d = dict(c.st)
        if ls & {"wip.supersedes", "wip.packs"}:
            s.mark(c, "adopts")
            s.adopted[(d["emp"], d["eq"], d["sup"], d["dis"], d["known"])] = c
        s.mark(c, "index")
        # nothing after this matters
        st = ff(c.st, adp=True, emp="?", eq="?", sup=frozenset(), dis=frozenset(), it=None, known=frozenset(), put=frozenset())
        return [(st, E(0, {0: TRUE})), (st, E(0, {0: FALSE})), (st, E(1))]

    def load(s, c):
        return two(ff(c.st, read=True), T("master"), c.st)

    def blobs(s, c):
        if dict(c.st)["adp"]:
            return None
        return [(ff(c.st, known=dict(c.st)["known"] | sides(lab(c, c.args[0]))) if v == 0 else c.st, r) for v, (_st, r) in enumerate(Replacing.blobs(s, c))]

    def each(s, c):
        return None if dict(c.st)["adp"] else Replacing.each(s, c)

    def grow(s, c):
        return None if dict(c.st)["adp"] else Replacing.grow(s, c)

    def upload(s, c):
        return [(c.st, OK), (c.st, ERR)]

    def pack(s, c):
        return [(c.st, OK), (c.st, ERR)]

    def walk(s, c):
        return [(c.st, OK), (c.st, ERR)]

    def remove(s, c):
        return [(c.st, OK), (c.st, ERR)]

    def provenance(s, c, k):
        s.removed.setdefault(k, set()).update(lab(c, c.args[1]))
        return None


def adoption(P, cmd, loops, parts=None):
    fn = command(P, cmd)
    sp = Adoption(P)
    sp.cmd = cmd
    sp.parts = parts
    sp.removed = {}
    sp.loops, sp.found = loops, set()
    for k in ("pack", "index"):
        sp.on([f for f in P.fns.values() if f.def_ == f"backpak::backend::CachedBackend::remove_{k}"], lambda c, k=k: sp.provenance(c, k))
    it = Interp(P, sp)
    a, m = args_value(P, fn, {})
    it.run(fn, a, fresh(**dict(START, emp="?", eq="?", sup=frozenset(), dis=frozenset(), it=None, adp=False, known=frozenset())), m)
    return sp, it


@rule("D06", "an interrupted run is resumed only by a run it is a safe starting point for")
def d06(P, R):
    for cmd in ("backup", "copy", "filter_snapshot", "rebuild_index", "prune"):
        sp, it = adoption(P, cmd, None)
        parts = sp.parting()
        if parts:
            sp, it = adoption(P, cmd, None, parts)
        sp, it = adoption(P, cmd, frozenset(sp.found), parts)
        R.absorb(it)
        R.need(f"{cmd}: starts an indexer", len([1 for x in sp.n if x[0] == "index"]))
        R.ob(f"{cmd}: ways of starting from an interrupted run's index", len(sp.adopted))
        for (emp, eq, sup, dis, kept), c in sorted(sp.adopted.items(), key=lambda kv: repr(kv[0])):
            at = [c.site()]
            if cmd != "prune":
                if emp != "T":
                    R.violation(f"superseding:{cmd}", f"`{cmd}` may start from an interrupted prune's index, which supersedes indexes before everything in them is repacked", at)
                continue
            pruned = sides(sp.removed.get("pack", frozenset()))
            if eq != "T":
                R.violation("prune:supersedes", "prune may resume from an index that does not supersede exactly the indexes this prune replaces", at)
            if not sides(sp.known) or not (kept <= sup or "*" in sup):
                R.violation("prune:lacks", "prune may resume from an index that lacks packs whose blobs it takes to be stored already", at)
            if not pruned or not (pruned <= dis or "*" in dis):
                R.violation("prune:keeps", "prune may resume from an index that keeps packs it is about to remove", at)
        if cmd in ("backup", "copy", "prune"):
            R.need(f"{cmd}: resumes", len(sp.adopted))


# ------------------------------------------------------------------------------------------ P03
class PartialPrune(Auto):
    """State: has repacking failed anywhere."""

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on([f for f in P.fns.values() if f.def_ == "backpak::read::ChunkReader::<'_>::read_blob" or re.match(r"^backpak::read::ChunkReader::<.*>::read_blob$", f.def_)], s.fallible)
        s.on(one(P, "backpak::tree::serialize_and_hash"), s.fallible)
        s.on(chan(P, "send", r"blob::Blob$"), s.fallible)
        s.on(chan(P, "send", r"std::fs::File"), s.fallible)
        s.on(defs(P, r"^std::fs::File::open$"), s.fallible)
        s.on(one(P, "backpak::backup::spawn_backup_threads"), s.start)
        s.on(drop_glue(P, r"SyncSender<backpak::blob::Blob>$"), s.close)

    def fallible(s, c):
        s.n.add(("may fail", c.caller.id, str(c.span)))
        if not dict(c.st)["live"]:
            return [(c.st, E(0)), (c.st, E(1))]
        return [(c.st, E(0)), (ff(c.st, bad=True), E(1))]

    def start(s, c):
        s.n.add(("start", c.caller.id, str(c.span)))
        return [(ff(c.st, live=True), None)]

    def close(s, c):
        s.n.add(("close", c.caller.id, str(c.span)))
        d = dict(c.st)
        if d["live"] and d["bad"]:
            c.report("published-partial", "prune lets its pipeline finish, which stores an index superseding the old ones, although something it had to repack failed")
        return [(c.st, UNIT)]


@rule("P03", "prune publishes an index that supersedes others only if everything still used was repacked")
def p03(P, R):
    fn = command(P, "prune")
    sp = PartialPrune(P)
    it = Interp(P, sp)
    a, m = args_value(P, fn, {})
    it.run(fn, a, fresh(live=False, bad=False), m)
    R.absorb(it)
    R.need("steps of repacking that may fail", len([1 for x in sp.n if x[0] == "may fail"]), 4)
    R.need("start of the pipeline", len([1 for x in sp.n if x[0] == "start"]))
    R.need("end of the pipeline", len([1 for x in sp.n if x[0] == "close"]))
    R.ob("ends of prune's pipeline after everything succeeded", len([1 for x in sp.n if x[0] == "close"]))
    R.assume("prune does not unwind out of a panic while its pipeline is running (a panic in the repacking thread is not an error return)")


# ------------------------------------------------------------------------------------------ D07
class Dedup(Auto):
    """State: 0, 'owed' (an ID was marked as stored, its blob is still to be sent), 'credit' (a blob was sent, its ID not marked yet)."""

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(one(P, "backpak::backup::spawn_backup_threads"), s.start)
        ins = [f for f in P.fns.values() if re.match(r"^std::collections::HashSet::<T, S(, A)?>::insert$", f.def_) and f.ga and P.ts(f.ga[0]) == "backpak::hashing::ObjectId"]
        s.on(one(P, "backpak::index::blob_id_set"), lambda c: two(c.st, ("Y", ("set", frozenset({"stored"}))), c.st))
        s.on(ins or defs(P, "marking of an ID as stored"), s.insert)
        s.on(chan(P, "send", r"blob::Blob$"), s.send)
        s.on([f for f in P.fns.values() if re.match(r"^backpak::backup::Backup::<.*>::join$", f.def_)], s.join)

    def start(s, c):
        return [(("live", 0), None)]

    def is_dedup(s, c, v):
        n = 0
        while v is not None and n < 6:
            if v[0] == "Y":
                return v[1] == ("set", frozenset({"stored"}))
            v = c.deref(v) if v[0] == "R" else field(v, 0) if v[0] == "S" else None
            n += 1
        return False

    def insert(s, c):
        if not s.is_dedup(c, c.args[0]):
            return None
        if c.st is None:
            return [(c.st, TRUE), (c.st, FALSE)]
        s.n.add(("insert", c.caller.id, str(c.span)))
        st = c.st[1]
        if st == "owed":
            c.report(f"marked-unsent:{s.cmd}:{c.caller.def_}", "an ID is marked as stored, so nobody sends it again, but its blob was not sent")
        return [(("live", 0 if st == "credit" else "owed"), TRUE), (("live", 0), FALSE)]

    def send(s, c):
        if c.st is None:
            return None
        s.n.add(("send", c.caller.id, str(c.span)))
        if c.st[1] == "bad":
            return [(c.st, OK), (c.st, ERR)]
        return [(("live", 0 if c.st[1] == "owed" else "credit"), OK), (("live", "bad"), ERR)]

    def join(s, c):
        if c.st is not None:
            s.n.add(("join", c.caller.id, str(c.span)))
            if c.st[1] == "owed":
                c.report(f"joined-unsent:{s.cmd}", "the pipeline is finished although a blob marked as stored was never sent")
        return [(c.st, OK), (c.st, ERR)]


@rule("D07", "a blob is taken to be stored only if it already was or was sent to be")
def d07(P, R):
    for cmd in ("backup", "copy", "prune", "filter_snapshot"):
        fn = command(P, cmd)
        sp = Dedup(P)
        sp.cmd = cmd
        it = Interp(P, sp)
        a, m = args_value(P, fn, {})
        res = it.run(fn, a, None, m)
        R.absorb(it)
        for (st, tg), _ in res.items():
            if st is not None and st[1] == "owed" and (tg == "?" or ok_tag(tg)):
                R.violation(f"end-unsent:{cmd}", f"`{cmd}` can succeed with a blob marked as stored that was never sent", [fn.def_])
        for w in ("insert", "send", "join"):
            k = len([1 for x in sp.n if x[0] == w])
            R.need(f"{cmd}: {w}", k, 2 if w != "join" and cmd != "filter_snapshot" else 1)
        R.ob(f"{cmd}: marks paired with a send", len([1 for x in sp.n if x[0] == "insert"]))
