"""Walking files and trees: everything that's found goes where it should."""
import copy, re

from ..common import *
from ..interp import read_path, MIXED
from ..report import rule
from .backends import stds, variant, behind, variants_of
from .destructive import T, lab
from .pipeline import ff, fresh
from .resume import struct_value
from .restore import KINDS, NODE, CONTENTS, ga_is, all_labels, node

TREE = "backpak::tree::"


def fields_of(P, name):
    a = next((a for a in P.adts if a["name"] == name), None)
    if a is None:
        raise AnchorError(f"no type {name}")
    return a["variants"][0][2]


def deep(c, v, n=0):
    """The labels of a value and of all that is in it."""
    ls = set(lab(c, v))
    if v is None or n > 5:
        return ls
    if v[0] == "R":
        ls |= deep(c, c.deref(v), n + 1)
    elif v[0] == "S":
        for _i, w in v[1]:
            ls |= deep(c, w, n + 1)
    elif v[0] == "E":
        for _var, fs in v[1]:
            for _i, w in fs:
                ls |= deep(c, w, n + 1)
    return ls


def heap(mem, i, v):
    """A reference to a value of its own, that outlives the call it is returned from."""
    loc = ("h", (("rule", i),))
    mem[loc] = v
    return ("R", frozenset({(loc, (), None)}))


def part(c, v, i):
    n = 0
    while v is not None and v[0] == "R" and n < 4:
        v, n = c.deref(v), n + 1
    if v is not None and v[0] == "S":
        return dict(v[1]).get(i)
    return v


def sure(c, v, label, n=0):
    """Does this come from there whichever way it got here? (A reference can be to one of several things.)"""
    if v is None or n > 6:
        return False
    if v[0] == "T":
        return label in v[1] and "~" not in v[1]
    if v[0] == "R":
        return all(sure(c, read_path(c.mem.get(loc), path), label, n + 1) for loc, path, _c in v[1])
    if v[0] == "S":
        with_it = [w for _i, w in v[1] if label in deep(c, w)]
        return bool(with_it) and all(sure(c, w, label, n + 1) for w in with_it)
    if v[0] == "E":
        return all(any(sure(c, w, label, n + 1) for _i, w in fs) for _var, fs in v[1])
    return False


def folded(c, nexts):
    """What `it.fold(init, f)` does, given what `it.next()` does."""
    done, seen = [], {}
    todo = [(c.st, c.args[1], dict(c.mem))]
    while todo:
        st, acc, mem = todo.pop()
        if st in seen:
            a0, m0 = seen[st]
            acc, mem = join(a0, acc), c.it.join_mem(m0, mem)
            if (acc, mem) == (a0, m0):
                continue
        seen[st] = (acc, mem)
        c1 = copy.copy(c)
        c1.st, c1.mem = st, mem
        r = nexts(c1)
        if r is None:
            return None
        for st1, el, *m1 in r:
            m1 = dict(m1[0] if m1 else mem)
            if el == NONE:
                done.append((st1, acc, m1))
            else:
                todo += c.it.call_closure(c.caller, c.args[2], c.argtypes[2], [acc, dict(el[1][0][1])[0]], st1, m1, c.frame, c.span, ("fold", c.fn.id))
    return done


def searched(c, nexts):
    """What `it.find(f)` and the like do, given what `it.next()` does."""
    name = c.fn.def_.rsplit("::", 1)[1]
    done, seen = [], {}
    todo = [(c.st, dict(c.mem))]
    while todo:
        st, mem = todo.pop()
        if st in seen:
            m0, mem = seen[st], c.it.join_mem(seen[st], mem)
            if mem == m0:
                continue
        seen[st] = mem
        c1 = copy.copy(c)
        c1.st, c1.mem = st, mem
        r = nexts(c1)
        if r is None:
            return None
        for st1, el, *m1 in r:
            m1 = dict(m1[0] if m1 else mem)
            if el == NONE:
                done.append((st1, {"any": FALSE, "all": TRUE}.get(name, NONE), m1))
                continue
            el = dict(el[1][0][1])[0]
            arg = el
            if name in ("find", "rfind"):
                loc = ("h", (("rule", "found"),))
                m1[loc] = el
                arg = ("R", frozenset({(loc, (), None)}))
            for st2, got, m2 in c.it.call_closure(c.caller, c.args[1], c.argtypes[1], [arg], st1, m1, c.frame, c.span, (name, c.fn.id)):
                if name == "find_map":
                    vs = {v for v, _fs in got[1]} if got is not None and got[0] == "E" else {0, 1}
                    if 1 in vs:
                        done.append((st2, E(1, {0: dict(next((fs for v, fs in got[1] if v == 1), ())).get(0)}) if got is not None and got[0] == "E" else E(1), m2))
                    if 0 in vs:
                        todo.append((st2, m2))
                    continue
                if got != FALSE:
                    if name == "all":
                        todo.append((st2, m2))
                    else:
                        done.append((st2, E(1, {0: el}) if "find" in name else TRUE if name == "any" else E(1), m2))
                if got != TRUE:
                    if name == "all":
                        done.append((st2, FALSE, m2))
                    else:
                        todo.append((st2, m2))
    return done


def finders(P, elem):
    return [f for f in P.fns.values() if re.match(r"^<std::slice::(iter::)?(Iter|IterMut)<.*> as std::iter::(Iterator>::(find|any|all|find_map|position)|DoubleEndedIterator>::rfind)$", f.def_) and ga_is(P, f, 0, elem)]


def slicing(P):
    return [f for f in P.fns.values() if re.search(r"ops::Index(Mut)?<.*> for (\[|std::vec::Vec<).*::index(_mut)?$", f.def_) or re.search(r"^(core|std)::slice::<impl \[T\]>::(get|get_mut|get_unchecked|split_at|split_at_checked|first_chunk|chunks)$", f.def_)
            or re.search(r"^<(\[.*\]|std::vec::Vec<.*>) as std::ops::Index(Mut)?<.*>>::index(_mut)?$", f.def_)]


class Walking(Auto):
    """Goes through entries and chunks. State: inside - in the walk, e - entry (None, owed, ok, skip), kind, changed - its kind and
    whether it changed, r - entry of a directory being listed, c - chunk (None, owed, new, ok), pushed - is it listed,
    any - is anything in the new tree, t - the new tree itself (None, new, ok, empty)."""

    taint = True
    START = dict(inside=False, fin=False, e=None, kind=None, changed=None, r=None, c=None, pushed=False, had=None, col=False, any=False, t=None)

    def __init__(s, P, lists):
        super().__init__(P)
        s.n = set()
        s.lists = lists  # are chunks listed anew, rather than the whole node taken over?
        s.on(stds(P, r"^<backpak::tree::(Node|NodeContents) as std::clone::Clone>::clone$"), lambda c: [(c.st, c.deref(c.args[0]))] if deep(c, c.args[0]) else None)
        s.nf = {k: i for i, k in enumerate(fields_of(P, NODE))}
        s.bf = {k: i for i, k in enumerate(fields_of(P, "backpak::blob::Blob"))}
        its = [f for f in P.fns.values() if f.def_.endswith("Iterator>::next") or f.def_.endswith("Iterator>::next_back")]
        s.on([f for f in its if re.search(r"slice::(iter::)?Iter<|vec::(into_iter::)?IntoIter<", f.def_) and ga_is(P, f, 0, r"^&?backpak::hashing::ObjectId$")], s.chunk)
        s.on([f for f in P.fns.values() if re.match(r"^<std::slice::Iter<.*> as std::iter::Iterator>::fold$", f.def_) and ga_is(P, f, 0, r"^&?backpak::hashing::ObjectId$")], lambda c: folded(c, s.chunk))
        s.on([f for f in its if f.krate.startswith("backpak")], s.chunk)
        s.on([f for f in its if "camino::" in f.def_ or "ReadDir" in f.def_], s.listing)
        s.on([f for f in its if re.search(r"btree_(set|map)::", f.def_) and any(ga_is(P, f, i, r"^&?camino::Utf8Path(Buf)?$") for i in range(2))], s.entry)
        s.on([f for f in P.fns.values() if re.match(r"^std::collections::(btree_map::)?BTreeMap::<.*>::insert$", f.def_) and ga_is(P, f, 1, r"tree::Node$")], s.insert)
        s.on([f for f in P.fns.values() if re.match(r"^std::collections::BTreeSet::<.*>::(insert|replace)$|^std::vec::Vec::<.*>::push$", f.def_) and ga_is(P, f, 0, r"Utf8Path")], s.gather)
        s.on([f for f in P.fns.values() if re.match(r"^std::vec::Vec::<.*>::(push|insert|extend_from_slice)$", f.def_) and ga_is(P, f, 0, r"^backpak::hashing::ObjectId$")], s.push)
        s.on(stds(P, r"^std::iter::Iterator::collect$|std::iter::FromIterator(<.*>)?( for .*)?>?::from_iter$"), s.collect)
        s.on([f for f in P.fns.values() if re.match(r"^std::collections::(hash_set::)?HashSet::<.*>::(insert|contains|replace)$", f.def_) and ga_is(P, f, 0, r"^backpak::hashing::ObjectId$")], s.packed)
        s.on(chan(P, "send", r"blob::Blob$"), s.send)
        s.on([f for f in P.fns.values() if re.match(r"^<?std::collections::(btree_map::)?BTreeMap(::)?<.*>(::get| as std::ops::Index<.*>>::index)$", f.def_)], s.looked_up)
        s.on(one(P, TREE + "serialize_and_hash"), s.serialize)
        s.on(slicing(P), s.slice)
        s.on([f for f in P.fns.values() if re.search(r"PartialEq(<.*>)?( for .*)?>?::(eq|ne)$", f.def_) and "BTreeMap<" in f.def_ + "".join(P.ts(g) for g in f.ga or [] if isinstance(g, int))], s.empty)
        s.on([f for f in P.fns.values() if re.match(r"^std::collections::(btree_map::)?BTreeMap::<.*>::is_empty$", f.def_) and ga_is(P, f, 1, r"tree::Node$")], s.empty)
        s.on([f for f in P.fns.values() if re.match(r"^backpak::filter::skip_matching_paths.*\{closure", f.def_)], s.skip)

    def mark(s, c, what):
        s.n.add((what, c.caller.id, str(c.span)))

    def slice(s, c):
        ls = deep(c, c.args[0])
        if "contents" not in ls or "RangeFull" in c.fn.name + "".join(s.prog.ts(g) for g in c.fn.ga or () if isinstance(g, int)):
            return None
        return [(c.st, T("part", *ls))]

    # ---- entries
    def looked_up(s, c):
        """A node, looked up by the name at hand."""
        if "tree0" not in lab(c, c.args[0]) or dict(c.st)["kind"] is None:
            return None
        if "ekey" not in deep(c, c.args[1]):
            c.report("other-node", "another entry is looked up than the one at hand")
        m = dict(c.mem)
        n = heap(m, 60, s.node(dict(c.st)["kind"]))
        return [(c.st, n if c.fn.def_.endswith("::index") else E(1, {0: n}), m)]

    def settle(s, c):
        d = dict(c.st)
        if d["e"] == "owed":
            c.report("entry-left-out", "an entry of a directory can be passed over without getting into the tree")

    def entry(s, c):
        ls = lab(c, c.args[0])
        if "entries" not in ls:
            return None
        s.mark(c, "entry")
        s.settle(c)
        out = []
        if "tree0" in ls:
            for k in KINDS:
                m = dict(c.mem)
                n = heap(m, 60, s.node(k))
                el = n if "Values" in c.fn.def_ else T("ekey") if "Keys" in c.fn.def_ else S({0: T("ekey"), 1: n})
                out.append((ff(c.st, e="owed", kind=k, c=None, pushed=False, had=None), E(1, {0: el}), m))
        else:
            out.append((ff(c.st, e="owed", kind=None, changed=None, c=None, pushed=False, had=None), E(1, {0: T("ekey")})))
        return out + [(ff(c.st, e=None, kind=None, fin=True), NONE)]

    def node(s, k):
        P = s.prog
        return struct_value(P, NODE, {"contents": variant(P, TREE + "NodeContents", k, {CONTENTS[k]: T("contents")}), "metadata": T("meta")})

    def skip(s, c):
        ls = set().union(*[deep(c, a) for a in c.args]) if c.args else set()
        if "ekey" not in ls:
            return None
        s.mark(c, "skip")
        if s.above_label and s.above_label not in ls:
            c.report("skip-path", "what is to be skipped is decided from an entry's name, and not its path")
        return [(c.st, TRUE), (ff(c.st, e="skip"), FALSE)]

    def insert(s, c):
        kl, v = deep(c, c.args[1]), c.args[2]
        d = dict(c.st)
        s.mark(c, "insert")
        if d["e"] == "skip":
            c.report("skipped", "an entry that is to be skipped gets into the tree")
        if "ekey" not in kl:
            c.report("name", "an entry gets into the tree under another name than its own")
        if "meta" not in deep(c, part(c, v, s.nf["metadata"])):
            c.report("metadata", "an entry gets into the tree with other metadata than its own")
        cl = deep(c, part(c, v, s.nf["contents"]))
        want = s.wanted(d)
        if want == {"ids"} and d["had"] == "none":
            pass  # an empty file
        elif want == {"ids"} and d["had"] != "all":
            c.report("chunks-unread", "a file gets into the tree without having been gone through to its end")
        elif not (want & cl) or want == {"sub"} and {"contents", "prev"} & cl:
            c.report(f"contents:{d['kind']}", f"a {d['kind']} gets into the tree with something else than its contents ({'/'.join(sorted(want))})")
        c.store(c.args[0], T("built"))
        st = ff(c.st, e="ok", any=True, c=None, pushed=False)
        return [(st, NONE), (st, E(1))]

    def wanted(s, d):
        if d["kind"] == "Directory":
            return {"sub"}
        if d["kind"] == "Symlink":
            return {"target"}
        return {"ids"} if d["changed"] else {"prev", "ids"}

    # ---- chunks
    def chunk(s, c):
        ls = lab(c, c.args[0])
        if not {"chunks", "contents"} & ls or "entries" in ls:
            return None
        s.mark(c, "chunk")
        d = dict(c.st)
        if c.fn.def_.endswith("next_back"):
            c.report("chunk-order", "the chunks of a file aren't gone through in order")
        if s.packs and d["c"] in ("owed", "new"):
            c.report("chunk-left-out", "a chunk of a file can be passed over without having been handed to the packer, or known to have been")
        if s.lists and d["c"] is not None and not d["pushed"] and not d["col"] and "chunks" in ls:
            c.report("chunk-unlisted", "a chunk of a file can be passed over without being listed as one of its chunks")
        el = T("cid") if "contents" in ls else struct_value(s.prog, "backpak::blob::Blob", {"contents": T("cdata"), "id": T("cid"), "kind": enum_value(s.prog, "backpak::blob::Type", "Chunk")})
        if "contents" in ls:
            m = dict(c.mem)
            el = heap(m, 61, T("cid"))
            end = "maybe" if not sure(c, c.args[0], "contents") or "part" in ls else "all" if d["had"] else "none"
            return [(ff(c.st, c="owed", pushed=False, had="some"), E(1, {0: el}), m), (ff(c.st, c=None, pushed=False, had=end), NONE)]
        return [(ff(c.st, c="owed", pushed=False, had="some"), E(1, {0: el})), (ff(c.st, c=None, pushed=False, had="all" if d["had"] else "none"), NONE)]

    def push(s, c):
        if "cid" not in deep(c, c.args[-1]):
            return None
        s.mark(c, "push")
        if not c.fn.def_.endswith("push"):
            c.report("chunk-order", "the chunks of a file aren't listed in order")
        if dict(c.st)["pushed"]:
            c.report("chunk-twice", "a chunk of a file can be listed more than once")
        c.store(c.args[0], T("ids"))
        return [(ff(c.st, pushed=True), None)]

    def collect(s, c):
        ls = set().union(*[deep(c, a) for a in c.args])
        ts = "".join(s.prog.ts(g) for g in c.fn.ga if isinstance(g, int))
        if "chunks" in ls and "cid" not in ls:
            if SOME_LEFT_OUT.search(ts):
                c.report("chunk-unlisted", "a chunk of a file can be passed over without being listed as one of its chunks")
            s.mark(c, "push")
            # going through them one by one
            out = []
            for st, ret, m in c.it.inline(c.caller, c.fn, c.args, ff(c.st, col=True), dict(c.mem), c.frame, c.span, ("collect", c.fn.id)):
                out.append((ff(st, col=False), T("ids") if ret is None or ret[0] != "E" else E(0, {0: T("ids")}) if variants_of(ret) == {0} else ret, m))
            return out
        if "listing" in ls:
            if SOME_LEFT_OUT.search(ts):
                c.report("listing", "some of what is in a directory can be left out")
            s.mark(c, "listing")
            return [(c.st, E(0, {0: T("sublist")}) if "Result<" in s.prog.ts(c.fn.ga[-1] if isinstance(c.fn.ga[-1], int) else c.fn.ga[0]) or True else None), (c.st, ERR)]
        return None

    packs = True
    above_label = None

    def listing(s, c):
        if "listing" not in lab(c, c.args[0]):
            return None
        s.mark(c, "listing")
        if dict(c.st)["r"] == "owed":
            c.report("listing", "some of what is in a directory can be left out")
        return [(ff(c.st, r="owed"), E(1, {0: E(0, {0: T("sublist")})})), (ff(c.st, r="owed"), E(1, {0: ERR})), (ff(c.st, r=None), NONE)]

    def gather(s, c):
        if "sublist" not in deep(c, c.args[1]):
            return None
        c.store(c.args[0], T("sublist"))
        return [(ff(c.st, r="ok"), None)]

    # ---- handing things to the packers
    def packed(s, c):
        ls = deep(c, c.args[1])
        k = "c" if "cid" in ls else "t" if "treeid" in ls else None
        if k is None:
            return None
        s.mark(c, "packed " + k)
        had = c.fn.def_.endswith("contains")
        d = dict(c.st)
        new = ff(c.st, **{k: "new"}) if d[k] != "ok" else c.st
        old = ff(c.st, **{k: "ok"})
        out = [] if d[k] == "ok" and not had else [(new, FALSE if had else TRUE)]
        if d[k] != "new":
            out.append((old, TRUE if had else FALSE))
        return out

    def send(s, c):
        b = c.args[1]
        il, dl = deep(c, part(c, b, s.bf["id"])), deep(c, part(c, b, s.bf["contents"]))
        kind = part(c, b, s.bf["kind"])
        s.mark(c, "send")
        k = "c" if "cid" in il else "t" if "treeid" in il else None
        if k is None:
            c.report("send-what", "something else than a chunk or tree of what is walked is handed to the packers")
            return [(c.st, OK), (c.st, ERR)]
        if ("cdata" if k == "c" else "treedata") not in dl:
            c.report(f"send-data:{k}", "a blob is handed to the packers with other contents than those its ID is for")
        what = "Chunk" if k == "c" else "Tree"
        if kind is None or kind != enum_value(s.prog, "backpak::blob::Type", what):
            c.report(f"send-kind:{k}", f"a {what.lower()} is handed to the packers as something else")
        tx = lab(c, c.args[0])
        if tx and ("chunk_tx" if k == "c" else "tree_tx") not in tx:
            c.report(f"send-where:{k}", f"a {what.lower()} is handed to the wrong packer")
        return [(ff(c.st, **{k: "ok"}), OK), (c.st, ERR)]

    # ---- the tree itself
    def serialize(s, c):
        d = dict(c.st)
        s.mark(c, "serialize")
        if d["e"] or not d["fin"]:
            c.report("entries-left", "a directory's tree is stored before all of its entries were gone through")
        if d["any"] and "built" not in deep(c, c.args[0]):
            c.report("other-tree", "something else than the tree that was put together is stored")
        return [(ff(c.st, t="made"), E(0, {0: S({0: T("treedata"), 1: T("treeid")})})), (c.st, ERR)]

    def empty(s, c):
        d = dict(c.st)
        ls = set().union(*[deep(c, a) for a in c.args])
        yes, no = (FALSE, TRUE) if c.fn.def_.endswith("::ne") else (TRUE, FALSE)
        if d["any"]:
            return [(c.st, no)] if "built" in ls else None
        return [(ff(c.st, t=d["t"] or "empty"), yes), (c.st, no)]


def finished(P, R, f, sp, res, what):
    n = 0
    for (st, tg), (ret, _m) in res.items():
        d = dict(st)
        if err_tag(tg):
            continue
        n += 1
        if d["e"] or not d["fin"]:
            R.violation(f"entries-left:{what}", f"{what} can succeed before all entries of a directory were gone through", [P.loc(f)])
        if d["t"] in ("new", "made"):
            R.violation(f"tree-unsent:{what}", f"{what} can succeed without the new tree having been handed to the packer, or known to have been", [P.loc(f)])
        elif d["t"] is None:
            R.violation(f"tree-unstored:{what}", f"{what} can succeed without storing a tree", [P.loc(f)])
        elif d["t"] == "ok":
            v = dict(ret[1][0][1]).get(0) if ret is not None and ret[0] == "E" and len(ret[1]) == 1 else None
            if v is not None and "treeid" not in labels_of(v):
                R.violation(f"other-id:{what}", f"{what} results in the ID of something else than the new tree", [P.loc(f)])
    R.need(f"ways for {what} to succeed", n)


# ------------------------------------------------------------------------------------------ F01
class Files(Walking):
    def __init__(s, P):
        super().__init__(P, lists=True)
        s.on(defs(P, r"^backpak::fs_tree::walk_fs$"), s.walk)
        s.on(one(P, TREE + "get_metadata"), s.metadata)
        s.on(one(P, TREE + "NodeMetadata::kind"), s.kind)
        s.on(one(P, "backpak::fs_tree::file_changed"), s.change)
        s.on(defs(P, r"^backpak::chunk::chunk_file$"), s.chunks)
        s.on([f for f in P.fns.values() if re.match(r"^std::collections::(HashMap|hash_map::HashMap|BTreeMap|btree_map::BTreeMap)::<.*>::get$", f.def_)], s.get)
        s.on(stds(P, r"^(camino::Utf8Path|std::path::Path)::read_dir(_utf8)?$|^std::fs::read_dir$"), s.read_dir)
        s.on(stds(P, r"^(camino::Utf8Path|std::path::Path)::read_link(_utf8)?$|^std::fs::read_link$"), s.read_link)

    def walk(s, c):
        d = dict(c.st)
        paths = deep(c, c.args[1])
        if not d["inside"]:
            return c.it.inline(c.caller, c.fn, c.args, ff(c.st, inside=True), dict(c.mem), c.frame, c.span, ("walk", c.fn.id))
        s.mark(c, "into")
        if "sublist" not in paths:
            c.report("into", "what is in a directory isn't walked, but something else")
        for a in c.args[2:]:
            if {"previd", "prevtree"} & deep(c, a):
                c.report("prev-other", "what is in a directory is compared to what was elsewhere in the previous snapshot")
        return [(c.st, E(0, {0: T("sub")})), (c.st, ERR)]

    def get(s, c):
        ls, k = deep(c, c.args[0]), deep(c, c.args[1])
        if "prevtree" in ls:
            s.mark(c, "prev")
            if "ekey" not in k:
                c.report("prev-other", "an entry is compared to what was elsewhere in the previous snapshot")
            return [(c.st, E(1, {0: T("prev")})), (c.st, NONE)]
        if "prevforest" in ls:
            if "previd" not in k:
                c.report("prev-other", "what is in a directory is compared to another tree than the previous one")
            return [(c.st, E(1, {0: T("prevtree")})), (c.st, NONE)]
        return None

    def metadata(s, c):
        if "ekey" not in deep(c, c.args[1]):
            return None
        s.mark(c, "metadata")
        return [(c.st, E(0, {0: T("meta")})), (c.st, ERR)]

    def kind(s, c):
        if "meta" not in deep(c, c.args[0]):
            return None
        k0 = dict(c.st)["kind"]
        if k0:
            return [(c.st, enum_value(s.prog, TREE + "NodeType", k0))]
        out = [(ff(c.st, kind=k), enum_value(s.prog, TREE + "NodeType", k)) for k in KINDS]
        # (sockets, devices and the like can't be backed up)
        return out + [(ff(c.st, kind="Unsupported", e="skip"), enum_value(s.prog, TREE + "NodeType", "Unsupported"))]

    def change(s, c):
        s.mark(c, "changed")
        p = c.args[2]
        if p is not None and p[0] == "E" and variants_of(p) == {0}:
            return [(ff(c.st, changed=True), TRUE)]
        return [(ff(c.st, changed=True), TRUE), (ff(c.st, changed=False), FALSE)]

    def chunks(s, c):
        if "ekey" not in deep(c, c.args[0]):
            c.report("other-file", "some other file than the entry walked is cut into chunks")
        s.mark(c, "chunks")
        return [(c.st, E(0, {0: T("chunks")})), (c.st, ERR)]

    def read_dir(s, c):
        if "ekey" not in deep(c, c.args[0]):
            return None
        return [(c.st, E(0, {0: T("listing")})), (c.st, ERR)]

    def read_link(s, c):
        if "ekey" not in deep(c, c.args[0]):
            return None
        return [(c.st, E(0, {0: T("target")})), (c.st, ERR)]


@rule("F01", "what is backed up is all in the tree: every entry, every chunk of every file; and every chunk and tree is handed to the packers")
def f01(P, R):
    f = one(P, "backpak::ui::backup::backup_tree")[0]
    sp = Files(P)
    it = Interp(P, sp)
    argv, mem = [None] * f.body["argc"], {}
    for i in range(f.body["argc"]):
        ts = P.ts(f.body["lt"][i + 1])
        if "BTreeSet<camino::Utf8PathBuf>" in ts:
            argv[i] = T("entries")
        elif "Option<&" in ts and "ObjectId" in ts:
            argv[i] = E(1, {0: T("previd")})
        elif re.search(r"HashMap<.*ObjectId.*Arc<", ts):
            argv[i] = T("prevforest")
        elif re.search(r"&mut backpak::backup::Backup", ts):
            argv[i] = behind(mem, 70, struct_value(P, "backpak::backup::Backup", {"chunk_tx": T("chunk_tx"), "tree_tx": T("tree_tx")}))
    res = it.run(f, argv, fresh(**Walking.START), mem)
    R.absorb(it)
    for w in ("entry", "insert", "into", "chunk", "push", "packed c", "packed t", "send", "serialize", "chunks", "listing", "metadata", "changed", "skip", "prev"):
        R.need("backup: " + w, len([1 for x in sp.n if x[0] == w]))
    finished(P, R, f, sp, res, "walking what is backed up")
    R.ob("steps of walking what is backed up", len(sp.n))


# ------------------------------------------------------------------------------------------ F02
class Repacking(Walking):
    """Goes through the trees of a snapshot. State also: root - the ID of the new root tree came back (None, ok)."""

    START = dict(Walking.START, root=None)
    above_label = "dir"

    def __init__(s, P):
        super().__init__(P, lists=False)
        s.on(defs(P, r"^backpak::(repack|ui::filter_snapshot)::walk_tree$"), s.walk)
        s.on([f for f in P.fns.values() if re.match(r"^std::collections::(HashMap|hash_map::HashMap)::<.*>::get$", f.def_)], s.get)
        s.on([f for f in P.fns.values() if re.match(r"^<std::collections::(HashMap|hash_map::HashMap)<.*> as std::ops::Index<.*>>::index$", f.def_)], s.index)
        s.on(defs(P, r"^backpak::read::ChunkReader::<?.*>?::read_blob$"), s.blob)
        s.on(defs(P, r"^backpak::read::ChunkReader::<?.*>?::blob_size$"), lambda c: [(c.st, OK), (c.st, ERR)])

    def walk(s, c):
        d = dict(c.st)
        ids = [lab(c, a) for a in c.args]
        if not d["inside"]:
            return None
        s.mark(c, "into")
        if not any("contents" in x for x in ids):
            c.report("into", "what is in a directory isn't walked, but something else")
        return [(c.st, E(0, {0: T("sub")})), (c.st, ERR)]

    def get(s, c):
        if "forest" not in lab(c, c.args[0]) or "rootid" not in lab(c, c.args[1]):
            return None
        return [(c.st, E(1, {0: T("tree0", "entries")})), (c.st, NONE)]

    def index(s, c):
        r = s.get(c)
        return None if r is None else [(c.st, T("tree0", "entries"))]

    def blob(s, c):
        if "cid" not in deep(c, c.args[1]):
            c.report("other-chunk", "another blob is read than the chunk to be copied")
        return [(c.st, E(0, {0: T("cdata")})), (c.st, ERR)]

    def settle(s, c):
        Walking.settle(s, c)
        d = dict(c.st)
        if s.own and d["e"] == "ok" and d["kind"] == "File" and d["had"] not in ("all", "none"):
            c.report("chunks-left", "a file gets into the new tree before all of its chunks were handed to the packer, or known to have been")

    own = True

    def wanted(s, d):
        return {"sub"} if d["kind"] == "Directory" else {"contents"}


class Snapshots(Auto):
    """The walk over all snapshots. State: e - snapshot (None, owed, ok)."""

    taint = True

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on([f for f in P.fns.values() if f.def_.endswith("Iterator>::next") and any(ga_is(P, f, i, r"repack::SnapshotAndForest$") for i in range(1))], s.next)
        s.on(defs(P, r"^backpak::(repack|ui::filter_snapshot)::walk_tree$"), s.walk)
        s.on([f for f in P.fns.values() if re.search(r"^(std::collections::(btree_set::)?BTreeSet::<.*>|std::string::String|camino::Utf8PathBuf)::(clear|retain|pop|pop_first|pop_last|remove|truncate|drain|split_off|insert|push|append|extend|take|push_str)$", f.def_)], s.edit)

        s.on([f for f in P.fns.values() if re.search(r"Clone( for .*)?>::clone$", f.def_) and "backpak::snapshot::Snapshot" in f.def_], lambda c: [(c.st, c.deref(c.args[0]))])

    def edit(s, c):
        if not c.args or not any(x.startswith("snap:") for x in lab(c, c.args[0])) or not s.prog.ts(c.argtypes[0]).startswith("&mut "):
            return None
        c.report("snapshot-edited", "what the new snapshot says is changed")
        return None

    def next(s, c):
        if "snaps" not in lab(c, c.args[0]):
            return None
        s.n.add(("snapshot", c.caller.id, str(c.span)))
        if dict(c.st)["e"] == "owed":
            c.report("snapshot-left-out", "a snapshot can be passed over without its files being copied")
        P = s.prog
        m = dict(c.mem)
        snap = struct_value(P, "backpak::snapshot::Snapshot", {k: T("rootid" if k == "tree" else "snap:" + k) for k in fields_of(P, "backpak::snapshot::Snapshot")})
        el = heap(m, 62, struct_value(P, "backpak::repack::SnapshotAndForest", {"id": T("snapid"), "snapshot": snap, "forest": T("forest")}))
        return [(ff(c.st, e="owed"), E(1, {0: el}), m), (ff(c.st, e=None), NONE)]

    def walk(s, c):
        ls = [lab(c, a) for a in c.args]
        s.n.add(("walk", c.caller.id, str(c.span)))
        if not any("rootid" in x for x in ls) or not any("forest" in x for x in ls):
            c.report("other-root", "another tree is walked than the snapshot's root, or looked up elsewhere than in its trees")
        return [(ff(c.st, e="ok"), E(0, {0: T("newroot")})), (c.st, ERR)]


@rule("F02", "copy, filter-snapshot and prune go through all of a snapshot, skipping only what a filter says")
def f02(P, R):
    walks = defs(P, r"^backpak::repack::walk_tree$", 2)
    own = defs(P, r"^backpak::ui::filter_snapshot::walk_tree$", 1)
    for f in walks + own:
        sp = Repacking(P)
        sp.own = f not in own
        it = Interp(P, sp)
        argv, mem = [None] * f.body["argc"], {}
        got = set()
        for i in range(f.body["argc"]):
            ts = P.ts(f.body["lt"][i + 1])
            if re.search(r"^&backpak::hashing::ObjectId$", ts):
                argv[i] = T("rootid")
            elif re.search(r"HashMap<.*ObjectId.*Arc<", ts):
                argv[i] = T("forest")
            elif re.search(r"^&camino::Utf8Path(Buf)?$", ts):
                argv[i] = T("dir")
                continue
            elif re.search(r"&mut backpak::backup::Backup", ts):
                argv[i] = behind(mem, 70, struct_value(P, "backpak::backup::Backup", {"chunk_tx": T("chunk_tx"), "tree_tx": T("tree_tx")}))
            else:
                continue
            got.add(i)
        if len(got) < 3:
            raise AnchorError("walking a snapshot's trees takes other arguments than this rule knows")
        what = "walking a snapshot (" + (P.ts(f.ga[0])[-60:] if f not in own else "filter-snapshot") + ")"
        MIXED[0] = "~"
        res = it.run(f, argv, fresh(**dict(Repacking.START, inside=True)), mem)
        MIXED[0] = None
        R.absorb(it)
        for w in ("entry", "insert", "into", "chunk", "packed c", "packed t", "send", "serialize"):
            if f in own and w in ("chunk", "packed c"):
                continue  # (files stay as they are, in the same repository)
            R.need(f"{what}: {w}", len([1 for x in sp.n if x[0] == w]))
        finished(P, R, f, sp, res, what)
        R.ob(f"steps of {what}", len(sp.n))
    ss = defs(P, r"^backpak::repack::walk_snapshots$", 2)
    tree = fields_of(P, "backpak::snapshot::Snapshot")
    for f in ss:
        sp = Snapshots(P)
        it = Interp(P, sp)
        argv = [None] * f.body["argc"]
        for i in range(f.body["argc"]):
            if "SnapshotAndForest" in P.ts(f.body["lt"][i + 1]):
                argv[i] = T("snaps")
        res = it.run(f, argv, fresh(e=None), {})
        R.absorb(it)
        R.need("snapshots walked", len([1 for x in sp.n if x[0] == "walk"]))
        R.ob("walking of all snapshots", len(sp.n))
        for (st, tg), _v in res.items():
            if not err_tag(tg) and dict(st)["e"] == "owed":
                R.violation("snapshot-left-out", "walking all snapshots can end with one not walked", [P.loc(f)])
    for f in defs(P, r"^backpak::repack::walk_snapshot$", 2) + defs(P, r"^backpak::ui::filter_snapshot::walk_snapshot$", 1):
        sp = Snapshots(P)
        it = Interp(P, sp)
        mem = {}
        snap = struct_value(P, "backpak::snapshot::Snapshot", {k: T("rootid" if k == "tree" else "snap:" + k) for k in tree})
        el = behind(mem, 62, struct_value(P, "backpak::repack::SnapshotAndForest", {"id": T("snapid"), "snapshot": snap, "forest": T("forest")}))
        argv = [None] * f.body["argc"]
        for i in range(f.body["argc"]):
            if "SnapshotAndForest" in P.ts(f.body["lt"][i + 1]):
                argv[i] = el
        res = it.run(f, argv, fresh(e="owed"), mem)
        R.absorb(it)
        k = 0
        for (st, tg), (ret, _m) in res.items():
            if err_tag(tg):
                continue
            k += 1
            v = dict(ret[1][0][1]).get(0) if ret is not None and ret[0] == "E" and len(ret[1]) == 1 else None
            for i, name in enumerate(tree):
                x = labels_of(field(v, i)) if v is not None and field(v, i) is not None else frozenset()
                want = "newroot" if name == "tree" else "snap:" + name
                if set(x) != {want}:
                    R.violation(f"snapshot:{name}", f"the new snapshot's `{name}` isn't that of the one it is made from" if name != "tree" else "the new snapshot's tree isn't the one just walked", [P.loc(f)])
        R.need("ways to walk a snapshot", k)
    R.ob("what a new snapshot is made of", len(tree))


# ------------------------------------------------------------------------------------------ F03
class Held(Files):
    """The same for trees that are only kept in memory. State also: ext - is what a subdirectory contains kept too."""

    START = dict(Walking.START, ext=False)
    packs = False

    def __init__(s, P):
        super().__init__(P)
        maps = [f for f in P.fns.values() if re.match(r"^std::collections::(HashMap|hash_map::HashMap)::<.*>::insert$", f.def_) and ga_is(P, f, 0, r"hashing::ObjectId$") and ga_is(P, f, 1, r"^std::sync::Arc<")]
        s.on(maps, s.keep)
        s.on([f for f in P.fns.values() if re.search(r"std::iter::Extend(<.*>)?( for .*)?>?::extend$", f.def_)], s.extend)
        s.on([f for f in P.fns.values() if re.match(r"^<std::collections::(hash_map|hash::map)::(IntoIter|Iter|Drain)<.*> as std::iter::Iterator>::next$", f.def_) and ga_is(P, f, 0, r"hashing::ObjectId$") and ga_is(P, f, 1, r"^std::sync::Arc<")], s.each)

    def walk(s, c):
        r = super().walk(c)
        if dict(c.st)["inside"]:
            return [(ff(r[0][0], ext=False), E(0, {0: S({0: T("sub"), 1: T("subforest")})})), r[1]]
        return r

    def extend(s, c):
        ls = [deep(c, a) for a in c.args]
        if "subforest" not in ls[1]:
            return None
        s.mark(c, "extend")
        c.store(c.args[0], T("forest"))
        return [(ff(c.st, ext=True), None)]

    def insert(s, c):
        d = dict(c.st)
        if d["kind"] == "Directory" and d["ext"] is not True:
            c.report("subforest", "what is in a directory isn't kept with the tree it is in")
        return super().insert(c)

    def each(s, c):
        if "subforest" not in deep(c, c.args[0]):
            return None
        if dict(c.st)["ext"] == "owed":
            c.report("subforest", "what is in a directory isn't kept with the tree it is in")
        s.mark(c, "extend")
        return [(ff(c.st, ext="owed"), E(1, {0: S({0: T("subid"), 1: T("subtree")})})), (ff(c.st, ext=True), NONE)]

    def keep(s, c):
        k, v = deep(c, c.args[1]), deep(c, c.args[2])
        d = dict(c.st)
        if k == {"subid"} and v == {"subtree"}:
            return [(ff(c.st, ext="ok"), None)]
        s.mark(c, "keep")
        if "treeid" not in k or d["any"] and "built" not in v:
            c.report("kept", "a tree isn't kept under its own ID")
        return [(ff(c.st, t="ok"), NONE), (ff(c.st, t="ok"), E(1))]


class Gathering(Walking):
    """Gathers all trees under one. State: cyc - is the tree gone into noted as being above, t - is it in the forest."""

    START = dict(Walking.START, cyc=False)

    def __init__(s, P, fn):
        super().__init__(P, lists=False)
        s.fn = fn
        s.on(defs(P, r"^backpak::tree::Cache::<.*>::read$"), s.read)
        s.on([fn], s.walk)
        s.on([f for f in P.fns.values() if re.match(r"^std::collections::(HashMap|hash_map::HashMap)::<.*>::insert$", f.def_) and ga_is(P, f, 0, r"hashing::ObjectId$")], s.keep)
        s.on([f for f in P.fns.values() if re.match(r"^std::collections::(HashMap|hash_map::HashMap)::<.*>::(contains_key|get)$", f.def_) and ga_is(P, f, 0, r"hashing::ObjectId$") and ga_is(P, f, 1, r"Arc<")], s.kept)
        s.on([f for f in P.fns.values() if re.match(r"^std::collections::(hash_set::)?HashSet::<.*>::(insert|contains|remove)$", f.def_) and ga_is(P, f, 0, r"^backpak::hashing::ObjectId$")], s.above)

    def above(s, c):
        if "rootid" not in deep(c, c.args[1]):
            return None
        s.mark(c, "above")
        n = c.fn.def_.rsplit("::", 1)[1]
        if n == "insert":
            if dict(c.st)["cyc"] == "new":
                return [(ff(c.st, cyc=True), TRUE)]
            return [(ff(c.st, cyc=True), TRUE), (c.st, FALSE)] if not dict(c.st)["cyc"] else [(c.st, FALSE)]
        if n == "contains":
            return [(c.st, TRUE), (ff(c.st, cyc="new"), FALSE)] if not dict(c.st)["cyc"] else [(c.st, TRUE if dict(c.st)["cyc"] is True else FALSE)]
        return [(ff(c.st, cyc=False), TRUE if dict(c.st)["cyc"] is True else None)]

    def read(s, c):
        if "rootid" not in deep(c, c.args[1]):
            c.report("other-tree", "another tree is read than asked for")
        s.mark(c, "read")
        return [(c.st, E(0, {0: T("tree0", "entries")})), (c.st, ERR)]

    def settle(s, c):
        d = dict(c.st)
        if d["e"] == "owed" and d["kind"] == "Directory":
            c.report("subtree-left-out", "a subdirectory can be passed over without its trees being gathered")

    def walk(s, c):
        if not any("contents" in deep(c, a) for a in c.args):
            c.report("into", "what is in a directory isn't gathered, but something else")
        if dict(c.st)["cyc"] is not True:
            c.report("cycle", "a tree that contains itself would be gone into forever")
        s.mark(c, "into")
        if not dict(c.st)["any"]:
            s.mark(c, "first")
        return [(ff(c.st, e="ok"), OK), (c.st, ERR)]

    def keep(s, c):
        if "rootid" not in deep(c, c.args[1]) or "tree0" not in deep(c, c.args[2]):
            c.report("kept", "a tree isn't kept under its own ID")
        s.mark(c, "keep")
        # (if it was there already, so are those under it)
        return [(ff(c.st, t="ok"), NONE), (ff(c.st, t="ok", fin=True), E(1))]

    def kept(s, c):
        yes, no = (TRUE, FALSE) if c.fn.def_.endswith("contains_key") else (E(1), NONE)
        if "contents" in deep(c, c.args[1]):
            return [(ff(c.st, e="ok"), yes), (c.st, no)]
        if "rootid" not in deep(c, c.args[1]):
            return None
        return [(ff(c.st, t="ok", fin=True), yes), (c.st, no)]


class Chunks(Walking):
    """The chunks of the files in a tree."""

    START = dict(Walking.START, got=False)

    def __init__(s, P):
        super().__init__(P, lists=False)
        s.on([f for f in P.fns.values() if re.search(r"std::iter::Extend(<.*>)?( for .*)?>?::extend$", f.def_)], s.extend)
        s.on([f for f in P.fns.values() if re.match(r"^hashbrown::(map::)?HashMap::<.*>::insert$", f.def_) and ga_is(P, f, 0, r"^backpak::hashing::ObjectId$")], s.packed)

    def settle(s, c):
        d = dict(c.st)
        if d["e"] == "owed" and d["kind"] == "File" and not d["had"] in ("all", "none"):
            c.report("file-left-out", "a file can be passed over without its chunks being gathered")

    def packed(s, c):
        if "cid" not in deep(c, c.args[1]):
            return None
        s.mark(c, "packed c")
        c.store(c.args[0], T("gathered"))
        st = ff(c.st, c="ok", got=True)
        return [(st, TRUE), (st, FALSE)]

    def collect(s, c):
        outs = c.it.inline(c.caller, c.fn, c.args, c.st, dict(c.mem), c.frame, c.span, ("collect", c.fn.id))
        return [(st, T("gathered") if dict(st)["got"] else ret, m) for st, ret, m in outs]

    def extend(s, c):
        if "contents" not in deep(c, c.args[1]):
            return None
        s.mark(c, "packed c")
        c.store(c.args[0], T("gathered"))
        return [(ff(c.st, e="ok", had="all", got=True), None)]


@rule("F03", "trees are compared, copied and counted whole: nothing in a directory, a snapshot or a file is left out")
def f03(P, R):
    # what is in the file system
    f = one(P, "backpak::fs_tree::forest_from_fs")[0]
    sp = Held(P)
    it = Interp(P, sp)
    argv = [None] * f.body["argc"]
    for i in range(f.body["argc"]):
        ts = P.ts(f.body["lt"][i + 1])
        if "BTreeSet<camino::Utf8PathBuf>" in ts:
            argv[i] = T("entries")
        elif "Option<&" in ts and "ObjectId" in ts:
            argv[i] = E(1, {0: T("previd")})
        elif re.search(r"HashMap<.*ObjectId.*Arc<", ts):
            argv[i] = T("prevforest")
    res = it.run(f, argv, fresh(**Held.START), {})
    R.absorb(it)
    for w in ("entry", "insert", "into", "push", "serialize", "chunks", "listing", "metadata", "changed", "extend", "keep", "prev"):
        R.need("files: " + w, len([1 for x in sp.n if x[0] == w]))
    for (st, tg), (ret, _m) in res.items():
        if err_tag(tg):
            continue
        if dict(st)["t"] != "ok":
            R.violation("unkept", "the tree of what is in the file system can be missing from those found", [P.loc(f)])
        v = dict(ret[1][0][1]).get(0) if ret is not None and ret[0] == "E" and len(ret[1]) == 1 else None
        if field(v, 0) is None or "treeid" not in labels_of(field(v, 0)):
            R.violation("other-id", "what is in the file system is said to be in another tree", [P.loc(f)])
    R.ob("steps of looking at the file system", len(sp.n))
    # all trees of a snapshot
    root = one(P, "backpak::tree::forest_from_root")[0]
    f = one(P, "backpak::tree::append_tree")[0]
    sp = Gathering(P, f)
    it = Interp(P, sp)
    argv = [None] * f.body["argc"]
    argv[0] = T("rootid")
    res = it.run(f, argv, fresh(**Gathering.START), {})
    R.absorb(it)
    for w in ("entry", "into", "keep", "read", "above"):
        R.need("forest: " + w, len([1 for x in sp.n if x[0] == w]))
    for (st, tg), _v in res.items():
        if err_tag(tg):
            continue
        if dict(st)["e"] or not dict(st)["fin"]:
            R.violation("entries-left", "gathering the trees of a snapshot can end before all entries of a directory were gone through", [P.loc(f)])
        if dict(st)["t"] != "ok":
            R.violation("ungathered", "gathering the trees of a snapshot can leave out a tree", [P.loc(f)])
        if dict(st)["cyc"] is True:
            R.violation("cycle-stale", "a tree that was gone into is taken for one above the next, so that a tree in two places would be refused", [P.loc(f)])
    R.ob("steps of gathering a snapshot's trees", len(sp.n))
    # and all chunks
    f = one(P, "backpak::tree::chunks_in_tree")[0]
    sp = Chunks(P)
    it = Interp(P, sp)
    argv = [None] * f.body["argc"]
    argv[0] = T("tree0", "entries")
    MIXED[0] = "~"
    res = it.run(f, argv, fresh(**Chunks.START), {})
    MIXED[0] = None
    R.absorb(it)
    for w in ("entry", "packed c"):
        R.need("chunks: " + w, len([1 for x in sp.n if x[0] == w]))
    k = 0
    for (st, _tg), (ret, _m) in res.items():
        k += 1
        if dict(st)["e"] or not dict(st)["fin"]:
            R.violation("files-left", "the chunks of a tree can be said to be those gathered before all of its files were gone through", [P.loc(f)])
        if dict(st)["got"] and "gathered" not in labels_of(ret):
            R.violation("other-chunks", "the chunks of a tree's files are gathered, but others returned", [P.loc(f)])
    R.need("ways to gather chunks", k)
    R.ob("steps of gathering a tree's chunks", len(sp.n))


# ------------------------------------------------------------------------------------------ F04
class Compared(Auto):
    taint = True

    def __init__(s, P, prev, same_time):
        super().__init__(P)
        s.prev, s.same_time, s.n = prev, same_time, set()
        s.on(one(P, TREE + "NodeMetadata::kind"), s.kind)
        s.on([f for f in P.fns.values() if re.match(r"^<?(&?jiff::|jiff::.* as )", f.def_) and not re.search(r"::(as_nanosecond|from_nanosecond|clone|eq|ne|cmp|partial_cmp|lt|gt|le|ge)$|fmt", f.def_)], s.coarse)
        s.on([f for f in P.fns.values() if re.search(r"PartialEq(<.*>)?( for .*)?>?::(eq|ne)$", f.def_) and (f.body is not None or f.def_.startswith("<jiff::")) or f.def_ in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")], s.equal)

    def coarse(s, c):
        """Whatever is made of a time (seconds, something rounded) needn't tell two of them apart."""
        ls = set().union(*[deep(c, a) for a in c.args])
        return [(c.st, T(*ls, "coarse"))] if any(l.endswith(":modify_time") for l in ls) else None

    def kind(s, c):
        ls = deep(c, c.args[0])
        k = "File" if "now:metadata" in ls else s.prev if "prev:metadata" in ls else None
        return [(c.st, enum_value(s.prog, TREE + "NodeType", k))] if k else None

    def equal(s, c):
        a, b = deep(c, c.args[0]), deep(c, c.args[1])
        if {"now:modify_time", "prev:modify_time"} <= (a | b) and not {"now:modify_time", "prev:modify_time"} <= a and not {"now:modify_time", "prev:modify_time"} <= b:
            s.n.add((c.caller.id, str(c.span)))
            if "coarse" in a | b and not s.same_time:
                return [(c.st, TRUE), (c.st, FALSE)]
            return [(c.st, TRUE if s.same_time == c.fn.def_.endswith("::eq") else FALSE)]
        return None


def with_size(P, n, size):
    """A node whose size is known."""
    ni, pi = fields_of(P, NODE).index("metadata"), fields_of(P, "backpak::tree::PosixMetadata").index("size")
    d = dict(n[1])
    (v, fs), = d[ni][1]
    p = dict(dict(fs)[0][1])
    p[pi] = size
    d[ni] = E(v, {0: S(p)})
    return S(d)


@rule("F04", "a file is taken for unchanged only if it was a file of the same size and modification time before")
def f04(P, R):
    f = one(P, "backpak::fs_tree::file_changed")[0]
    args = [P.ts(f.body["lt"][i + 1]) for i in range(f.body["argc"])]
    size = lambda n: E(1, {0: ("i", n)})
    sizes = [(5, 5), (0, 0), (5, 6), (6, 5), (0, 6), (6, 0), (5, 5 + (1 << 32)), (1 << 33, 1 << 32)]
    cases = [(None, True, (5, 5))] + [(k, t, z) for k in KINDS for t in (True, False) for z in (sizes if k == "File" else [(5, 5), (5, 6)])]
    quiet = 0
    seen = set()
    for prev, t, (n0, n1) in cases:
        z = n0 == n1
        sp = Compared(P, prev, t)
        it = Interp(P, sp)
        mem, argv = {}, [None] * len(args)
        now = with_size(P, node(P, "File", "now"), size(n0))
        for i, ts in enumerate(args):
            if re.search(r"^&backpak::tree::NodeMetadata$", ts):
                argv[i] = behind(mem, 71, dict(now[1])[fields_of(P, NODE).index("metadata")])
            elif re.search(r"^std::option::Option<&backpak::tree::Node>$", ts):
                argv[i] = NONE if prev is None else E(1, {0: behind(mem, 72, with_size(P, node(P, prev, "prev"), size(n1)))})
        if sum(a is not None for a in argv) != 2:
            raise AnchorError("deciding whether a file changed takes other arguments than this rule knows")
        res = it.run(f, argv, fresh(), mem)
        R.absorb(it)
        seen |= sp.n
        what = "that wasn't there before" if prev is None else f"that was a {prev} before" if prev != "File" else "with " + " and ".join([x for x, y in (("another modification time", not t), ("another size", not z)) if y])
        for (_st, _tg), (ret, _m) in res.items():
            if ret == FALSE:
                quiet += 1
            if ret != TRUE and not (prev == "File" and t and z):
                R.violation(f"unchanged:{prev}:{t}:{z}", f"a file {what} can be taken for unchanged", [P.loc(f)])
        R.ob("combinations of what can have changed")
    R.need("comparisons of modification times", len(seen))
    R.need("ways for a file to be unchanged", quiet)
