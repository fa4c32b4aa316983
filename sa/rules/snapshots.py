"""Snapshots: which one is meant, which are forgotten, and that those made are stored."""
import re

from ..common import *
from ..interp import Interp
from ..report import rule
from .backends import stds, variant, behind, variants_of
from .destructive import T, lab
from .integrity import fieldwise
from .files import _Look, it_labels, _with
from .indexes import locks, grown, VECS, SETS
from .pipeline import ff, fresh
from .resume import struct_value
from .restore import ga_is
from .walks import deep, heap, fields_of, sure, searched, finders

SNAP = "backpak::snapshot::Snapshot"
PAIR = r"^&?\(backpak::snapshot::Snapshot, backpak::hashing::ObjectId\)$"


def nexts(P, elem, back=False):
    """`next` (or `next_back`) of what goes over the elements of a slice or vector of something."""
    return [f for f in P.fns.values() if re.match(r"^<(std::slice::(iter::)?(Iter|IterMut)|std::vec::(into_iter::)?IntoIter)<.*> as std::iter::(Iterator>::next|DoubleEndedIterator>::next_back)$" if back else
                                                  r"^<(std::slice::(iter::)?(Iter|IterMut)|std::vec::(into_iter::)?IntoIter)<.*> as std::iter::Iterator>::next$", f.def_) and ga_is(P, f, 0, elem)]


def id_eqs(P):
    return [f for f in P.fns.values() if re.search(r"PartialEq(<.*>)?( for .*)?>?::(eq|ne)$", f.def_) and ("ObjectId" in f.def_ or any(isinstance(g, int) and re.search(r"^&*(mut )?backpak::hashing::ObjectId$", P.ts(g)) for g in f.ga or []))]


def snap_value(P, who):
    return struct_value(P, SNAP, {k: T(f"{who}:{k}") for k in fields_of(P, SNAP)})


# ------------------------------------------------------------------------------------------ S01
class Finding(Auto):
    """Looks for a snapshot. State: full - is a full ID given, last - is it counted from the last one, n - how many matches there were in this pass (0, 1, 2 or more),
    ended - has all of the list been gone through."""

    taint = True
    START = dict(full=None, last=False, n=0, ended=False, y=())

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(stds(P, r"^<backpak::hashing::ObjectId as std::str::FromStr>::from_str$"), s.parse)
        s.on([f for f in stds(P, r"^core::slice::<impl \[T\]>::(iter|iter_mut)$|^<&'a std::vec::Vec<.*IntoIterator>::into_iter$|^core::slice::iter::<impl std::iter::IntoIterator for &'a \[T\]>::into_iter$") if ga_is(P, f, 0, PAIR)], lambda c: [(ff(c.st, n=0, ended=False), T("iter"))] if "list" in lab(c, c.args[0]) else None)
        s.on(nexts(P, PAIR, back=True), s.next)
        s.on(finders(P, PAIR), s.search)
        s.on([f for f in stds(P, r"^std::iter::Iterator::collect$") if any(isinstance(g, int) and re.match(r"^std::vec::Vec<&?\(backpak::snapshot::Snapshot, ", P.ts(g)) for g in f.ga or [])], s.collect)
        s.on([f for f in stds(P, r"^<std::iter::Rev<.*Iterator>::nth$|^<std::slice::Iter<.*Iterator>::nth$|DoubleEndedIterator>::nth_back$") if any(isinstance(g, int) and "snapshot::Snapshot" in P.ts(g) for g in f.ga or [])], lambda c: s.next(c))
        s.on(id_eqs(P), s.equal)
        s.on(stds(P, r"^regex::.*Regex::(captures|find|is_match)$"), s.captures)
        s.on([f for f in P.fns.values() if re.match(r"^core::str::traits::<impl std::ops::Index<.*for str>::index$|^<std::string::String as std::ops::Index<.*>::index$", f.def_)], s.text)
        s.on([f for f in stds(P, r"ToString>::to_string$") if ga_is(P, f, 0, r"ObjectId$")], lambda c: [(c.st, T(*deep(c, c.args[0])))] if deep(c, c.args[0]) else None)
        s.on(stds(P, r"^core::str::<impl str>::(starts_with|strip_prefix|split_at|split_at_checked|get|chars|len|find|trim|trim_matches)$"), s.text)
        s.on([f for f in stds(P, r"^std::vec::Vec::<.*>::(len|is_empty)$|^core::slice::<impl \[T\]>::(len|is_empty)$") if ga_is(P, f, 0, PAIR)], s.len)

    def parse(s, c):
        return [(ff(c.st, full=True), E(0, {0: T("full")})), (ff(c.st, full=False), ERR)]

    def captures(s, c):
        if c.fn.def_.endswith("is_match"):
            return [(ff(c.st, last=True), TRUE), (c.st, FALSE)]
        return [(ff(c.st, last=True), E(1, {0: None})), (c.st, NONE)]

    def next(s, c):
        if "iter" not in lab(c, c.args[0]):
            return None
        d = dict(c.st)
        s.n.add(("element", c.caller.id, str(c.span)))
        out = []
        for k in ("match", "other"):
            m = dict(c.mem)
            el = heap(m, 90 if k == "match" else 91, S({0: T("snap", "is:" + k), 1: T("sid", "is:" + k)}))
            out.append((ff(c.st, n=min(d["n"] + (k == "match"), 2), ended=False), E(1, {0: el}), m))
        return out + [(ff(c.st, ended=True), NONE)]

    def search(s, c):
        r = searched(c, s.next)
        if r is None:
            return None
        out = []
        for st, v, m in r:
            k = s.which(it_labels(c.it, m, v)) if v != NONE else None
            out.append((ff(st, y=tuple(sorted(set(dict(st)["y"]) | {k or "other"}))) if v != NONE else st, v, m))
        return out

    def collect(s, c):
        if "iter" not in it_labels(c.it, c.mem, c.args[0]):
            return None
        out = []
        for st, _v, m in c.it.inline(c.caller, c.fn, c.args, ff(c.st, y=()), dict(c.mem), c.frame, c.span, ("collect", c.fn.id)):
            y = dict(st)["y"] or (() if "Filter<" in c.fn.name else ("match", "other"))
            out.append((ff(st, y=()), T("matches", f"n:{dict(st)['n']}", *(("snap", "sid") if y else ()), *["is:" + k for k in y]), m))
        return out

    def which(s, ls):
        ks = {l[3:] for l in ls if l.startswith("is:")}
        return ks.pop() if len(ks) == 1 else None

    def equal(s, c):
        a, b = deep(c, c.args[0]), deep(c, c.args[1])
        k = s.which(a | b)
        if "sid" in (a | b) and "full" in (a | b) and k:
            s.n.add(("full", c.caller.id, str(c.span)))
            return [(c.st, TRUE if (k == "match") == c.fn.def_.endswith("::eq") else FALSE)]
        return None

    def text(s, c):
        if not c.fn.def_.endswith(("::starts_with", "::strip_prefix")):
            return [(c.st, T("cut", *set().union(*[deep(c, a) for a in c.args])))] if deep(c, c.args[0]) and not c.fn.def_.endswith("::len") else None
        a, b = deep(c, c.args[0]), deep(c, c.args[1])
        k = s.which(a)
        if "sid" in a and "cut" not in a | b and "prefix" in b and k and not s.which(b):
            s.n.add(("prefix", c.caller.id, str(c.span)))
            hit = k == "match" and dict(c.st)["full"] is not True
            if c.fn.def_.endswith("::starts_with"):
                return [(c.st, TRUE if hit else FALSE)]
            return [(c.st, E(1, {0: None}) if hit else NONE)]
        return None

    def length(s, it, mem, v):
        """How many there are in a list of what matched (two is many)."""
        ls = it_labels(it, mem, v)
        if "matches" not in ls or "is:other" in ls:
            return None
        n = [int(l[2:]) for l in ls if isinstance(l, str) and l.startswith("n:")]
        return ("i", n[0] if "is:match" in ls else 0) if len(n) == 1 else None

    def len(s, c):
        n = s.length(c.it, c.mem, c.args[0])
        if n is None:
            return None
        if c.fn.def_.endswith("::is_empty"):
            return [(c.st, TRUE if n == ("i", 0) else FALSE)]
        return [(c.st, n)]


class Chosen(Auto):
    """Gathers the snapshots asked for. State: a - one asked for (None, owed, ok)."""

    taint = True
    START = dict(a=None, end=False, same=None)

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(one(P, "backpak::snapshot::find"), s.find)
        s.on(nexts(P, r"^&?std::string::String$"), s.next)
        s.on([f for f in stds(P, r"^std::vec::Vec::<.*>::(dedup_by|dedup_by_key|retain|retain_mut|truncate|pop|remove|swap_remove|clear|drain|dedup|split_off|extract_if)$") if ga_is(P, f, 0, PAIR)], s.less)
        s.on(id_eqs(P), s.equal)
        s.on([f for f in P.fns.values() if re.match(rf"^std::{SETS}::<.*>::insert$", f.def_) and ga_is(P, f, 0, r"^&?backpak::hashing::ObjectId$")], s.seen)

    def seen(s, c):
        if deep(c, c.args[1]) != {"id1"}:
            return None
        return [(ff(c.st, same=False), TRUE), (ff(c.st, same=True), FALSE)]

    def next(s, c):
        if "args" not in lab(c, c.args[0]):
            return None
        s.n.add(("arg", c.caller.id, str(c.span)))
        if dict(c.st)["a"] == "owed":
            c.report("arg-left-out", "a snapshot asked for can be passed over")
        m = dict(c.mem)
        return [(ff(c.st, a="owed"), E(1, {0: heap(m, 92, T("arg"))}), m), (ff(c.st, a=None, end=True), NONE)]

    def find(s, c):
        if "arg" not in deep(c, c.args[1]) or "list" not in deep(c, c.args[0]):
            c.report("other-arg", "something else is looked for than the snapshot asked for")
        s.n.add(("find", c.caller.id, str(c.span)))
        m = dict(c.mem)
        return [(ff(c.st, a="ok"), E(0, {0: heap(m, 93, S({0: T("snap"), 1: T("sid")}))}), m), (c.st, ERR)]

    def equal(s, c):
        a, b = deep(c, c.args[0]), deep(c, c.args[1])
        if {"id1"} <= a and {"id2"} <= b or {"id2"} <= a and {"id1"} <= b:
            return [(ff(c.st, same=k), TRUE if k == c.fn.def_.endswith("::eq") else FALSE) for k in (True, False)]
        return None

    def less(s, c):
        name = c.fn.def_.rsplit("::", 1)[1]
        s.n.add(("less", c.caller.id, str(c.span)))
        if name == "dedup_by":
            m = dict(c.mem)
            ks = [heap(m, 94 + i, S({0: snap_value(s.prog, f"s{i}"), 1: T(f"id{i + 1}")})) for i in (0, 1)]
            for st, ret, _m in c.it.call_closure(c.caller, c.args[1], c.argtypes[1], ks, ff(c.st, same=None), m, c.frame, c.span, ("dedup", c.caller.id)):
                if ret != FALSE and dict(st)["same"] is not True:
                    c.report("dedup", "a snapshot asked for is taken for another that has another ID")
        elif name == "dedup_by_key":
            m = dict(c.mem)
            k = heap(m, 94, S({0: snap_value(s.prog, "s0"), 1: T("id1")}))
            for _st, ret, m1 in c.it.call_closure(c.caller, c.args[1], c.argtypes[1], [k], c.st, m, c.frame, c.span, ("dedup", c.caller.id)):
                if "id1" not in it_labels(c.it, m1, ret):
                    c.report("dedup", "a snapshot asked for is taken for another that has another ID")
        elif name in ("retain", "retain_mut"):
            m = dict(c.mem)
            k = heap(m, 94, S({0: snap_value(s.prog, "s0"), 1: T("id1")}))
            for st, ret, _m in c.it.call_closure(c.caller, c.args[1], c.argtypes[1], [k], ff(c.st, same=None), m, c.frame, c.span, ("dedup", c.caller.id)):
                if ret != TRUE and dict(st)["same"] is not True:
                    c.report("dedup", "a snapshot asked for is taken for another that has another ID")
        elif name != "dedup":
            c.report("dropped:" + name, "snapshots asked for are taken out again")
        return [(c.st, UNIT)]


@rule("S01", "a snapshot is named by its whole ID or by a prefix only it has, and all that are named are used")
def s01(P, R):
    f = one(P, "backpak::snapshot::find")[0]
    sp = Finding(P)
    it = Interp(P, sp)
    argv = [T("prefix") if re.match(r"^&(mut )?(str|std::string::String)$", P.ts(f.body["lt"][i + 1])) else T("list") for i in range(f.body["argc"])]
    n = 0
    for (st, tg), (ret, m) in it.run(f, argv, fresh(**Finding.START), {}).items():
        if err_tag(tg):
            continue
        d = dict(st)
        if d["last"]:
            continue
        n += 1
        ls = it_labels(it, m, ret)
        if "sid" not in ls or "is:other" in ls:
            R.violation("other", "another snapshot is found than the one looked for", [P.loc(f)])
        elif d["full"] is not True and (d["n"] != 1 or not d["ended"]):
            R.violation("ambiguous", "a snapshot is taken for the one meant although there can be others with the same prefix", [P.loc(f)])
    R.absorb(it)
    for w in ("element", "full", "prefix"):
        R.need("finding: " + w, len([1 for x in sp.n if x[0] == w]))
    R.need("ways to find a snapshot", n, 2)
    f = one(P, "backpak::snapshot::from_args_list")[0]
    sp = Chosen(P)
    it = Interp(P, sp)
    argv = [T("args") if "String" in P.ts(f.body["lt"][i + 1]) else T("list") for i in range(f.body["argc"])]
    n = 0
    for (st, tg), (ret, m) in it.run(f, argv, fresh(**Chosen.START), {}).items():
        if err_tag(tg):
            continue
        n += 1
        d = dict(st)
        if d["a"] == "owed" or not d["end"]:
            R.violation("arg-left-out", "a snapshot asked for can be passed over", [P.loc(f)])
    R.absorb(it)
    for w in ("arg", "find"):
        R.need("choosing: " + w, len([1 for x in sp.n if x[0] == w]))
    R.need("ways to choose snapshots", n)
    R.ob("steps of finding snapshots", len(sp.n))


# ------------------------------------------------------------------------------------------ S02
class LoadAll(Auto):
    """Loads all snapshots. State: e - snapshot listed (None, owed, loaded, ok), any - was there one, end, sorted."""

    taint = True
    on_spawn = threads_inline
    START = dict(e=None, any=False, end=False, sorted=False, cmp=None, coll=False)

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        locks(s, P)
        s.on(stds(P, r"^std::sync::(poison::)?(mutex::)?Mutex::<.*>::try_lock$"), s.try_lock)
        s.on(stds(P, r"^backpak::backend::CachedBackend::list_snapshots$"), lambda c: [(c.st, E(0, {0: T("list")})), (c.st, ERR)])
        s.on(nexts(P, r"^\(std::string::String, u64\)$"), s.next)
        s.on(stds(P, r"^backpak::backend::id_from_path(::<.*>)?$"), lambda c: [(c.st, E(0, {0: T("id") if "file" in deep(c, c.args[0]) else None})), (c.st, ERR)])
        s.on(one(P, "backpak::snapshot::load"), s.load)
        s.on([f for f in grown(P, VECS, "push|insert|extend") if ga_is(P, f, 0, PAIR)], s.push)
        s.on([f for f in stds(P, r"^std::iter::Iterator::collect$") if any(isinstance(g, int) and re.match(r"^(std::result::Result<)?std::vec::Vec<\(backpak::snapshot::Snapshot, ", P.ts(g)) for g in f.ga)], s.collect)
        s.on([f for f in stds(P, r"^std::sync::mpsc::(sync_)?channel$") if ga_is(P, f, 0, PAIR)], lambda c: [(c.st, S({0: T("sender"), 1: T("snaps")}))])
        try:
            s.on(chan(P, "send", r"snapshot::Snapshot"), s.send)
        except AnchorError:
            pass
        s.on([f for f in stds(P, r"^(std|core|alloc)::slice::<impl \[T\]>::sort(_unstable)?(_by|_by_key|_by_cached_key)$") if ga_is(P, f, 0, PAIR)], s.sort)
        s.on(stds(P, r"^jiff::.*(Zoned::clone|Timestamp::clone|Zoned as std::clone::Clone>::clone)$"), lambda c: [(c.st, T(*deep(c, c.args[0])))])
        s.on(stds(P, r"^jiff::.*Zoned::(timestamp|with_time_zone)$"), lambda c: [(c.st, T(*[l.replace(":time", ":instant") for l in deep(c, c.args[0])]))])
        s.on([f for f in P.fns.values() if re.search(r"(Ord|PartialOrd)(<.*>)?( for .*)?>?::(cmp|partial_cmp)$", f.def_)], s.compare)
        s.on(stds(P, r"^std::cmp::Ordering::reverse$"), s.reverse)
        s.on([f for f in stds(P, r"^(std|core|alloc)::slice::<impl \[T\]>::reverse$|^std::vec::Vec::<.*>::(retain|retain_mut|truncate|pop|remove|swap_remove|clear|drain|dedup\w*|split_off)$") if ga_is(P, f, 0, PAIR)], s.spoil)

    def try_lock(s, c):
        r = c.args[0]
        inner = ("R", frozenset((loc, path + (2, 0), n) for loc, path, n in r[1])) if r is not None and r[0] == "R" else None
        return [(c.st, E(0, {0: S({0: inner})})), (c.st, ERR)]

    def next(s, c):
        if "list" not in lab(c, c.args[0]):
            return None
        s.n.add(("listed", c.caller.id, str(c.span)))
        if dict(c.st)["e"] in ("owed", "loaded"):
            c.report("left-out", "a snapshot of the repository can be passed over")
        return [(ff(c.st, e="owed", any=True), E(1, {0: S({0: T("file"), 1: T("len")})})), (ff(c.st, e=None, end=True), NONE)]

    def load(s, c):
        s.n.add(("load", c.caller.id, str(c.span)))
        if "id" not in deep(c, c.args[0]):
            c.report("other", "another snapshot is loaded than the one listed")
        return [(ff(c.st, e="ok" if dict(c.st)["coll"] else "loaded"), E(0, {0: T("snap")})), (c.st, ERR)]

    def collect(s, c):
        """Every element is kept, unless one of them is an error, if nothing takes some out."""
        ls = it_labels(c.it, c.mem, c.args[0])
        ok = not re.search(r"iter::(adapters::\w+::)?(Filter|FilterMap|FlatMap|Flatten|Take|TakeWhile|Skip|SkipWhile|StepBy|MapWhile|Scan)<", s.prog.ts(c.argtypes[0]))
        res = any(isinstance(g, int) and s.prog.ts(g).startswith("std::result::Result<std::vec::Vec<(") for g in c.fn.ga)
        if not ok or not {"snaps", "list"} & ls:
            return None
        if "snaps" in ls:
            return [(c.st, E(0, {0: T("snaps")}) if res else T("snaps"))]
        s.n.add(("keep", c.caller.id, str(c.span)))
        out = []
        for st, _ret, m in c.it.inline(c.caller, c.fn, c.args, ff(c.st, coll=True), dict(c.mem), c.frame, c.span, ("collect", c.fn.id)):
            st = ff(st, coll=False)
            out.append((st, E(0, {0: T("snaps")}) if res else T("snaps"), m))
            if res:
                out.append((st, ERR, m))
        return out

    def push(s, c):
        ls = set().union(*[deep(c, a) for a in c.args[1:]])
        if "snap" not in ls:
            return None
        if "id" not in ls:
            c.report("other-id", "a snapshot is kept under another ID than its own")
        s.n.add(("keep", c.caller.id, str(c.span)))
        c.store(c.args[0], T("snaps"))
        return [(ff(c.st, e="ok"), UNIT)]

    def send(s, c):
        ls = set().union(*[deep(c, a) for a in c.args[1:]])
        if not {"snap", "id"} <= ls:
            return None
        s.n.add(("keep", c.caller.id, str(c.span)))
        return [(ff(c.st, e="ok"), OK), (c.st, ERR)]

    def compare(s, c):
        a, b = deep(c, c.args[0]), deep(c, c.args[1])
        what = "time" if "Zoned" in c.fn.name else "instant"
        if f"a:{what}" in a and f"b:{what}" in b:
            return [(ff(c.st, cmp="up"), None)]
        if f"b:{what}" in a and f"a:{what}" in b:
            return [(ff(c.st, cmp="down"), None)]
        return None

    def reverse(s, c):
        d = dict(c.st)["cmp"]
        return [(ff(c.st, cmp={"up": "down", "down": "up"}.get(d, d)), None)]

    def sort(s, c):
        name = c.fn.def_.rsplit("::", 1)[1]
        s.n.add(("sort", c.caller.id, str(c.span)))
        m = dict(c.mem)
        el = [heap(m, 95 + i, S({0: snap_value(s.prog, w), 1: T(w + ":id")})) for i, w in enumerate("ab")]
        by = name.endswith("_by")
        key = [s.prog.ts(g) for g in c.fn.ga or [] if isinstance(g, int)]
        # whole instants, whatever comes after them
        good = by or any(re.match(r"^\(?&?jiff::(\w+::)*(Timestamp|Zoned)\b|^\(?i128\b", k) for k in key[1:])
        what = "a:time" if any(k.endswith("zoned::Zoned") for k in key) else "a:instant"
        for st, ret, m1 in c.it.call_closure(c.caller, c.args[1], c.argtypes[1], el if by else el[:1], ff(c.st, cmp=None), m, c.frame, c.span, ("sort", c.caller.id)):
            good &= dict(st)["cmp"] == "up" if by else what in it_labels(c.it, m1, ret)
        return [(ff(c.st, sorted=good), UNIT)]

    def spoil(s, c):
        if not c.fn.def_.endswith("::reverse"):
            c.report("dropped", "loaded snapshots are taken out again")
        return [(ff(c.st, sorted=False), None)]


@rule("S02", "all of a repository's snapshots are loaded, in the order they were taken")
def s02(P, R):
    f = one(P, "backpak::snapshot::load_chronologically")[0]
    sp = LoadAll(P)
    it = Interp(P, sp)
    n = 0
    for (st, tg), (ret, m) in it.run(f, [None] * f.body["argc"], fresh(**LoadAll.START), {}).items():
        if err_tag(tg):
            continue
        n += 1
        d = dict(st)
        if d["e"] in ("owed", "loaded") or not d["end"]:
            R.violation("left-out", "a snapshot of the repository can be passed over", [P.loc(f)])
        if d["any"] and "snaps" not in it_labels(it, m, ret):
            R.violation("other-result", "other snapshots are returned than those loaded", [P.loc(f)])
        if not d["sorted"]:
            R.violation("unsorted", "snapshots are returned in another order than that in which they were taken", [P.loc(f)])
    R.absorb(it)
    for w in ("listed", "load", "keep", "sort"):
        R.need("snapshots: " + w, len([1 for x in sp.n if x[0] == w]))
    R.need("ways to load snapshots", n)
    R.ob("steps of loading snapshots", len(sp.n))


# ------------------------------------------------------------------------------------------ S03
def relabel(v, at, to):
    """Values that were about the current snapshot are about an earlier one now (and so are references to it)."""
    if v is None:
        return v
    if v[0] == "T":
        return ("T", frozenset(l.replace("cur:", "old:") if isinstance(l, str) else l for l in v[1]))
    if v[0] == "R":
        return ("R", frozenset((to if loc == at else loc, path, n) for loc, path, n in v[1]))
    if v[0] == "S":
        return ("S", tuple((k, relabel(x, at, to)) for k, x in v[1]))
    if v[0] == "E":
        return ("E", tuple((k, tuple((i, relabel(x, at, to)) for i, x in fs)) for k, fs in v[1])) if isinstance(v[1], tuple) else v
    return v


class Forgetting(Auto):
    """Forgets snapshots. State: same - is the current snapshot's tree that of an earlier one, a - one that's named (None, owed, ok), end."""

    taint = True
    START = dict(same=None, a=None, end=None, bad=False)

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(stds(P, r"^backpak::backend::open$"), lambda c: [(c.st, E(0)), (c.st, ERR)])
        s.on(one(P, "backpak::snapshot::load_chronologically"), lambda c: [(c.st, E(0, {0: T("list")})), (c.st, ERR)])
        s.on(one(P, "backpak::snapshot::find"), s.find)
        s.on(nexts(P, PAIR), s.next)
        s.on([f for f in stds(P, r"^core::slice::<impl \[T\]>::split_first$") if ga_is(P, f, 0, PAIR)], s.first)
        s.on(nexts(P, r"^&?std::string::String$"), s.named)
        s.on(id_eqs(P), s.equal)
        s.on(stds(P, r"^backpak::backend::CachedBackend::remove_snapshot$"), s.remove)
        s.on([f for f in P.fns.values() if re.match(rf"^std::{SETS}::<.*>::(insert|contains)$", f.def_) and ga_is(P, f, 0, r"^&?backpak::hashing::ObjectId$")], s.seen)

    def next(s, c):
        if "list" not in lab(c, c.args[0]):
            return None
        s.n.add(("snapshot", c.caller.id, str(c.span)))
        m0 = dict(c.mem)
        at, to = ("h", (("rule", 96),)), ("h", (("rule", 97),))
        m = {k: relabel(v, at, to) for k, v in m0.items() if k != at}
        if at in m0:
            v = relabel(m0[at], at, to)
            m[to] = join(m[to], v) if to in m else v
        el = heap(m, 96, S({0: snap_value(s.prog, "cur"), 1: T("cur:id")}))
        return [(ff(c.st, same=None), E(1, {0: el}), m), (ff(c.st, same=None), NONE, dict(m))]

    def first(s, c):
        r = s.next(c)
        return None if r is None else [(st, el if el == NONE else E(1, {0: S({0: dict(el[1][0][1])[0], 1: T("list")})}), m) for st, el, m in r]

    def named(s, c):
        if "named" not in lab(c, c.args[0]):
            return None
        s.n.add(("name", c.caller.id, str(c.span)))
        if dict(c.st)["a"] == "owed":
            c.report("left", "a snapshot to forget can be passed over")
        m = dict(c.mem)
        return [(ff(c.st, a="owed", end=False), E(1, {0: heap(m, 98, T("name"))}), m), (ff(c.st, a=None, end=True), NONE)]

    def seen(s, c):
        had = set(deep(c, c.args[0]))
        if deep(c, c.args[1]) != {"cur:tree"} or had - {"cur:tree", "old:tree"}:
            return None
        s.n.add(("compare", c.caller.id, str(c.span)))
        new = TRUE if c.fn.def_.endswith("::insert") else FALSE
        if new == TRUE:
            c.store(c.args[0], T("cur:tree", *had))
        return [(ff(c.st, same=False), new)] + ([(ff(c.st, same=True), FALSE if new == TRUE else TRUE)] if had else [])

    def find(s, c):
        if "name" not in deep(c, c.args[1]):
            c.report("other-name", "something else is looked for than a snapshot to forget")
        m = dict(c.mem)
        return [(c.st, E(0, {0: heap(m, 99, S({0: T("found"), 1: T("found:id")}))}), m), (ff(c.st, a="ok", bad=True), ERR)]

    def equal(s, c):
        a, b = deep(c, c.args[0]), deep(c, c.args[1])
        if a == {"cur:tree"} and b == {"old:tree"} or a == {"old:tree"} and b == {"cur:tree"}:
            s.n.add(("compare", c.caller.id, str(c.span)))
            return [(ff(c.st, same=k), TRUE if k == c.fn.def_.endswith("::eq") else FALSE) for k in (True, False)]
        return None

    def remove(s, c):
        ls = set().union(*[deep(c, a) for a in c.args[1:]])
        d = dict(c.st)
        if ls == {"cur:id"}:
            s.n.add(("duplicate", c.caller.id, str(c.span)))
            if d["same"] is not True:
                c.report("unique", "a snapshot can be forgotten as a duplicate although its tree isn't that of an earlier one")
        elif ls == {"found:id"}:
            s.n.add(("named", c.caller.id, str(c.span)))
        else:
            c.report("other", "another snapshot is forgotten than one that was named or found to be a duplicate")
        return [(ff(c.st, a="ok"), OK), (ff(c.st, a="ok", bad=True), ERR)]


@rule("S03", "only snapshots that are named are forgotten, or that duplicate an earlier one")
def s03(P, R):
    fn = command(P, "forget")
    a, m = args_value(P, fn, {"dry_run": FALSE, "to_forget": T("named")})
    sp = Forgetting(P)
    it = Interp(P, sp)
    n = 0
    for (st, tg), _v in it.run(fn, a, fresh(**Forgetting.START), m).items():
        if dict(st)["end"] is False:
            R.violation("left", "snapshots to forget can be passed over when there was something wrong with one of them", [P.loc(fn)])
        if err_tag(tg):
            continue
        n += 1
        if dict(st)["bad"]:
            R.violation("unfailed", "forgetting can succeed although a snapshot wasn't found or couldn't be removed", [P.loc(fn)])
        if dict(st)["a"] == "owed":
            R.violation("left", "a snapshot to forget can be passed over", [P.loc(fn)])
    R.absorb(it)
    for w in ("snapshot", "name", "compare", "duplicate", "named"):
        R.need("forgetting: " + w, len([1 for x in sp.n if x[0] == w]))
    R.need("ways to forget snapshots", n)
    R.ob("steps of forgetting", len(sp.n))


# ------------------------------------------------------------------------------------------ S04, S05
def lazy_ids(P):
    return [f for f in P.fns.values() if re.match(r"^<std::sync::(lazy_lock::)?LazyLock<T, F> as std::ops::Deref>::deref$", f.def_) and ga_is(P, f, 0, r"hashing::ObjectId$")]


SETS_PAT = re.compile(rf"^<std::{SETS}<")


class Making(Auto):
    """Makes a snapshot, or several. State: up - is it stored; empty, same - is its tree the empty one, is it the same as the one before; k - is what's used of an earlier snapshot from one of the same paths;
    sn - snapshot to store (None, owed, ok), ended."""

    taint = True
    START = dict(up=False, empty=None, same=None, k=None, sn=None, ended=None, made=False, eqs=frozenset())

    def __init__(s, P, parents=False, all=()):
        super().__init__(P)
        s.n = set()
        s.parents = parents
        s.all = set(all)  # the fields in which a snapshot can differ from the one before
        s.on(stds(P, r"^backpak::backend::open$"), lambda c: [(c.st, E(0)), (c.st, ERR)])
        s.on(stds(P, r"^backpak::backup::Backup::<.*>::join$"), lambda c: [(c.st, E(0)), (c.st, ERR)])
        s.on(spawn_fns(P), lambda c: None)
        s.on(one(P, "backpak::snapshot::load_chronologically"), lambda c: [(c.st, E(0, {0: T("list")})), (c.st, ERR)])
        s.on([f for f in stds(P, r"^core::slice::<impl \[T\]>::last$") if ga_is(P, f, 0, PAIR)], s.last)
        s.on(nexts(P, PAIR, back=True), s.next)
        s.on(finders(P, PAIR), lambda c: searched(c, s.next))
        s.on([f for f in P.fns.values() if re.match(rf"^<std::{SETS}<.*> as std::cmp::PartialEq>::(eq|ne)$", f.def_) and ga_is(P, f, 0, r"Utf8PathBuf$")], s.paths)
        s.on(one(P, "backpak::snapshot::find"), s.find)
        s.on(one(P, "backpak::snapshot::upload"), s.upload)
        s.on(one(P, "<backpak::snapshot::Snapshot as std::clone::Clone>::clone"), lambda c: [(c.st, c.deref(c.args[0]))])
        s.on([f for f in P.fns.values() if re.match(r"^<backpak::snapshot::Snapshot as std::cmp::PartialEq>::(eq|ne)$", f.def_)], s.equal)
        s.on(lazy_ids(P), lambda c: [(c.st, T("emptyid"))])
        s.on(id_eqs(P), s.id_equal)
        s.on([f for f in P.fns.values() if re.match(rf"^<std::{SETS}<.*> as std::cmp::PartialEq>::(eq|ne)$|^<std::string::String as std::cmp::PartialEq(<.*>)?>::(eq|ne)$", f.def_) and not (SETS_PAT.match(f.def_) and ga_is(P, f, 0, r"Utf8PathBuf$"))], s.field)
        s.on(one(P, "backpak::tree::forest_from_root"), s.forest)
        s.on(one(P, "backpak::ui::backup::backup_tree"), s.tree)
        s.on(one(P, "backpak::ui::filter_snapshot::walk_tree"), lambda c: s.made(c, T("root")))
        s.on(one(P, "backpak::repack::walk_snapshots"), lambda c: s.made(c, T("news")))
        s.on(nexts(P, r"^&?backpak::snapshot::Snapshot$"), s.new)

    def on_spawn(s, it, ctx):
        wrap = (lambda h: E(0, {0: h})) if "Builder" in ctx.fn.def_ else (lambda h: h)
        return [(ctx.st, wrap(S({0: ("Y", ("thread", None))})), ctx.mem)]

    def made(s, c, v):
        s.n.add(("make", c.caller.id, str(c.span)))
        return [(ff(c.st, made=True), E(0, {0: v})), (c.st, ERR)]

    def tree(s, c):
        s.n.add(("walk", c.caller.id, str(c.span)))
        for i, a in enumerate(c.args):
            if re.search(r"Option<&.*ObjectId>$|Forest|HashMap<.*tree::Tree", c.argty(i)):
                ls = it_labels(c.it, c.mem, a)
                if s.parents and (ls & {"is:other", "prev:tree", "list"} or a is not None and a[0] != "E" and not ls and "Option" in c.argty(i)):
                    c.report("other-parent", "files are taken for unchanged since a snapshot that wasn't of the same paths")
        return s.made(c, T("root"))

    def forest(s, c):
        ls = deep(c, c.args[0])
        s.n.add(("parent", c.caller.id, str(c.span)))
        if s.parents and ("el:tree" in ls and "is:match" not in ls or "is:other" in ls or "prev:tree" in ls):
            c.report("other-parent", "files are taken for unchanged since a snapshot that wasn't of the same paths")
        return [(c.st, E(0, {0: T("forest", *[l for l in ls if l.startswith("is:")])})), (c.st, ERR)]

    def last(s, c):
        if "list" not in deep(c, c.args[0]):
            return None
        s.n.add(("last", c.caller.id, str(c.span)))
        m = dict(c.mem)
        return [(c.st, E(1, {0: heap(m, 81, S({0: snap_value(s.prog, "prev"), 1: T("prev:id")}))}), m), (c.st, NONE)]

    def find(s, c):
        m = dict(c.mem)
        return [(c.st, E(0, {0: heap(m, 82, S({0: snap_value(s.prog, "prev"), 1: T("prev:id")}))}), m), (c.st, ERR)]

    def next(s, c):
        if "list" not in lab(c, c.args[0]):
            return None
        out = []
        for i, k in enumerate(("match", "other")):
            m = dict(c.mem)
            v = struct_value(s.prog, SNAP, {x: T("el:" + x, "is:" + k) for x in fields_of(s.prog, SNAP)})
            out.append((ff(c.st, k=k), E(1, {0: heap(m, 83 + i, S({0: v, 1: T("el:id", "is:" + k)}))}), m))
        return out + [(ff(c.st, k=None), NONE)]

    def paths(s, c):
        a, b = deep(c, c.args[0]), deep(c, c.args[1])
        if ("el:paths" in a) == ("el:paths" in b):
            return s.field(c)
        s.n.add(("paths", c.caller.id, str(c.span)))
        k = {l for l in a | b if l.startswith("is:")}
        if len(k) != 1:
            return None
        return [(c.st, TRUE if (k == {"is:match"}) == c.fn.def_.endswith("::eq") else FALSE)]

    def equal(s, c):
        a, b = deep(c, c.args[0]), deep(c, c.args[1])
        if "root" in b and "root" not in a:
            a, b = b, a
        if "root" not in a or "root" in b or not {"prev:" + k for k in fields_of(s.prog, SNAP) if k != "time"} <= b:
            return None
        s.n.add(("compare", c.caller.id, str(c.span)))
        return [(ff(c.st, same=k), TRUE if k == c.fn.def_.endswith("::eq") else FALSE) for k in (True, False)]

    def field(s, c):
        """Fields of the snapshot before are compared one by one."""
        a, b = [{l[5:] for l in deep(c, x) if l.startswith("prev:")} for x in c.args[:2]]
        f = a | b
        if len(f) != 1 or a and b or not f <= s.all or f == {"tree"} and "root" not in deep(c, c.args[0]) | deep(c, c.args[1]):
            return None
        s.n.add(("compare", c.caller.id, str(c.span)))
        is_eq = c.fn.def_.endswith("::eq")
        eqs = dict(c.st)["eqs"] | f
        return [(ff(c.st, eqs=eqs, same=True if eqs >= s.all else dict(c.st)["same"]), TRUE if is_eq else FALSE),
                (ff(c.st, same=False), FALSE if is_eq else TRUE)]

    def id_equal(s, c):
        a, b = deep(c, c.args[0]), deep(c, c.args[1])
        if {"root"} & (a | b) and {"prev:tree"} & (a | b):
            return s.field(c)
        if {frozenset(a), frozenset(b)} == {frozenset({"root"}), frozenset({"emptyid"})}:
            return [(ff(c.st, empty=k), TRUE if k == c.fn.def_.endswith("::eq") else FALSE) for k in (True, False)]
        return None

    def upload(s, c):
        ls = deep(c, c.args[0])
        s.n.add(("store", c.caller.id, str(c.span)))
        if "new" in ls:
            return [(ff(c.st, sn="ok", up=True), E(0)), (c.st, ERR)]
        if "root" not in ls:
            c.report("other-snapshot", "another snapshot is stored than the one just made")
            return [(c.st, E(0)), (c.st, ERR)]
        return [(ff(c.st, up=True), E(0)), (c.st, ERR)]

    def new(s, c):
        if "news" not in lab(c, c.args[0]):
            return None
        s.n.add(("each", c.caller.id, str(c.span)))
        if dict(c.st)["sn"] == "owed":
            c.report("unstored", "a snapshot that was made can be passed over without storing it")
        m = dict(c.mem)
        return [(ff(c.st, sn="owed", ended=False), E(1, {0: heap(m, 85, T("new"))}), m), (ff(c.st, sn=None, ended=True), NONE)]


def making(P, R, name, opts, parents=False, all=()):
    fn = command(P, name)
    for k in opts:
        if not has_option(P, fn, k):
            raise AnchorError(f"no option `{k}` for `{name}`")
    argv, m = args_value(P, fn, opts)
    sp = Making(P, parents, all)
    it = Interp(P, sp)
    res = it.run(fn, argv, fresh(**Making.START), m)
    R.absorb(it)
    return fn, sp, res


@rule("S04", "a snapshot that's made is stored, unless there is nothing in it that wasn't before")
def s04(P, R):
    n = 0
    fieldwise(P, R, SNAP)
    for empty in (False, True):
        for repeat in (False, True):
            b = lambda x: TRUE if x else FALSE
            fn, sp, res = making(P, R, "backup", {"dry_run": FALSE, "allow_empty": b(empty), "allow_repeat": b(repeat)}, all=[k for k in fields_of(P, SNAP) if k != "time"])
            for (st, tg), _v in res.items():
                if err_tag(tg):
                    continue
                d = dict(st)
                n += 1
                if d["up"] or d["empty"] is True and not empty or d["same"] is True and not repeat:
                    continue
                R.violation(f"unstored:{empty}:{repeat}", "backup can succeed without storing a snapshot, although " + ("repeats are asked for" if d["same"] is True else "empty ones are asked for" if d["empty"] is True else "it isn't known to be empty or the same as the one before"), [P.loc(fn)])
            for w in ("make", "store") + (() if repeat else ("compare", "last")):
                R.need("backup: " + w, len([1 for x in sp.n if x[0] == w]))
    fn, sp, res = making(P, R, "filter_snapshot", {"dry_run": FALSE}, all=["tree"])
    for (st, tg), _v in res.items():
        if err_tag(tg):
            continue
        n += 1
        d = dict(st)
        if not d["up"] and d["same"] is not True:
            R.violation("unstored:filter", "filter-snapshot can succeed without storing a snapshot, although it isn't known to be the same as the one it filtered", [P.loc(fn)])
    for w in ("make", "store", "compare"):
        R.need("filter-snapshot: " + w, len([1 for x in sp.n if x[0] == w]))
    fn, sp, res = making(P, R, "copy", {"dry_run": FALSE})
    for (st, tg), _v in res.items():
        if err_tag(tg):
            continue
        n += 1
        if dict(st)["ended"] is not True:
            R.violation("unstored:copy", "copy can succeed without storing all snapshots it made", [P.loc(fn)])
    for w in ("make", "store", "each"):
        R.need("copy: " + w, len([1 for x in sp.n if x[0] == w]))
    R.need("ways to make snapshots", n, 6)
    R.ob("ways to make snapshots", n)


@rule("S05", "only since a snapshot of the very same paths are files taken to be unchanged")
def s05(P, R):
    fn, sp, res = making(P, R, "backup", {}, parents=True)
    for w in ("walk", "parent", "paths"):
        R.need("backup: " + w, len([1 for x in sp.n if x[0] == w]))
    R.ob("steps of choosing what to compare with", len(sp.n))
