"""Comparing trees, and making a filesystem match one."""
import re

from ..common import *
from ..interp import MIXED
from ..report import rule
from .backends import stds, variant, behind, variants_of
from .destructive import T, lab
from .integrity import fieldwise
from .pipeline import ff, fresh
from .resume import struct_value

KINDS = ("File", "Directory", "Symlink")
NODE = "backpak::tree::Node"
CONTENTS = {"File": "chunks", "Directory": "subtree", "Symlink": "target"}


def node(P, kind, who):
    """A tree node whose contents and metadata are labelled with whose they are."""
    return struct_value(P, NODE, {
        "contents": variant(P, "backpak::tree::NodeContents", kind, {CONTENTS[kind]: T(who + ":contents")}),
        "metadata": variant(P, "backpak::tree::NodeMetadata", "Posix", {"0": struct_value(P, "backpak::tree::PosixMetadata", {
            k: T(f"{who}:{k}", who + ":metadata", f"{who}:{kind}") for k in ("mode", "access_time", "modify_time", "user_id", "group_id", "size")})}),
    })


def ga_is(P, f, i, pat):
    return bool(f.ga) and len(f.ga) > i and isinstance(f.ga[i], int) and re.search(pat, P.ts(f.ga[i])) is not None


def all_labels(c, vs):
    return frozenset().union(*[lab(c, a) for a in vs]) if vs else frozenset()


class Nodes(Auto):
    """Knows what kind of node one of ours is."""

    taint = True

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(one(P, "backpak::tree::NodeMetadata::kind"), s.kind)

    def kind(s, c):
        ks = {l.split(":")[1] for l in lab(c, c.args[0]) if isinstance(l, str) and l.split(":")[-1] in KINDS}
        return [(c.st, enum_value(s.prog, "backpak::tree::NodeType", k)) for k in sorted(ks)] or None

    def mark(s, c, what):
        s.n.add((what, c.caller.id, str(c.span)))


def virtuals(P):
    fs = {f.def_.rsplit("::", 1)[1]: f for f in P.fns.values() if f.kind == "virtual" and re.match(r"^backpak::diff::Callbacks::\w+$", f.def_)}
    if not {"node_added", "node_removed", "contents_changed", "metadata_changed", "type_changed"} <= set(fs):
        raise AnchorError("no callbacks for the differences between trees")
    return fs


# ------------------------------------------------------------------------------------------ C01
class Compare(Nodes):
    """Two nodes. State: c, m - do contents and metadata differ ('?' not looked), did - callbacks that ran, failed."""

    def __init__(s, P):
        super().__init__(P)
        s.on([f for f in P.fns.values() if re.search(r"PartialEq(<.*>)?( for .*)?>?::(eq|ne)$", f.def_)], s.eq)
        s.on([f for f in P.fns.values() if re.search(r"Ord(<.*>)?( for .*)?>?::(cmp|partial_cmp)$", f.def_)], lambda c: None)
        for k in virtuals(P).values():
            s.on([k], s.callback)
        s.on(one(P, "backpak::diff::compare_trees"), s.subtrees)

    def eq(s, c):
        a, b = lab(c, c.args[0]), lab(c, c.args[1])
        sides = [{x.split(":")[0] for x in ls if isinstance(x, str)} for ls in (a, b)]
        if not ("old" in sides[0] and "new" in sides[1] or "new" in sides[0] and "old" in sides[1]):
            return None
        what = {w for w in ("c", "m") for ls in (a, b) if any(x.endswith(":contents" if w == "c" else ":metadata") for x in ls if isinstance(x, str))}
        if not what:
            return None
        s.mark(c, "eq")
        same, diff = (FALSE, TRUE) if c.fn.def_.endswith("::ne") else (TRUE, FALSE)
        ty = c.fn.def_ + "".join(s.prog.ts(g) for g in c.fn.ga or [] if isinstance(g, int))
        # (the tree of what is in it is all there is in a directory)
        whole = re.search(r"backpak::tree::(Node|NodeContents|NodeMetadata)\b", ty) or s.dirs and re.search(r"hashing::ObjectId\b", ty)
        d = dict(c.st)
        out = []
        if whole and all(d[w] != "Y" for w in what):
            out.append((ff(c.st, **{w: "N" for w in what}), same))
        elif not whole:
            out.append((c.st, same))
        if any(d[w] != "N" for w in what):
            out.append((ff(c.st, **({w: "Y" for w in what} if len(what) == 1 else {})), diff))
        return out or [(c.st, same)]

    def did(s, c, what):
        d = dict(c.st)
        s.mark(c, what)
        if d["failed"]:
            c.report("after-failure", "differences between trees are still being handled after handling one failed")
        if what == "subtrees" and "metadata_changed" in d["did"]:
            c.report("metadata-early", "a directory's metadata is handled before what is in it")
        return [(ff(c.st, did=d["did"] | {what}), OK), (ff(c.st, failed=True), ERR)]

    def callback(s, c):
        what = c.fn.def_.rsplit("::", 1)[1]
        if what != "nothing_changed":
            s.order(c, what)
        return s.did(c, what)

    def order(s, c, what):
        for i, a in enumerate(c.args[1:]):
            ls = lab(c, a)
            who = {x.split(":")[0] for x in ls if isinstance(x, str) and x.endswith(":metadata")}
            want = "old" if s.prog.ts(c.argtypes[i + 1]).endswith("Node") and what in ("contents_changed", "metadata_changed", "type_changed") and not any(
                s.prog.ts(t).endswith("tree::Node") for t in c.argtypes[1:i + 1]) else "new"
            if s.prog.ts(c.argtypes[i + 1]).endswith("tree::Node") and who and what in ("contents_changed", "metadata_changed", "type_changed") and who != {want}:
                c.report(f"swapped:{what}", f"`{what}` is told the wrong node is the old or new one")

    def subtrees(s, c):
        for i, who in enumerate(("old", "new")):
            ls = {x for x in s.everything(c, c.args[i]) if isinstance(x, str)}
            if ls and not {who + ":contents", "forest" + who} <= ls:
                c.report(f"other-subtree:{who}", f"what is in a directory is compared with something else than its {who} contents")
        return s.did(c, "subtrees")

    def everything(s, c, v):
        """The labels of a value and of all that is in it."""
        ls = set(lab(c, v))
        if v is not None and v[0] == "S":
            for _i, w in v[1]:
                ls |= s.everything(c, w)
        return ls


class Union(Auto):
    """Two directories. State: at - loop, src - whose entries it goes through, l/r - is the entry in each, did - callback."""

    taint = True

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.skips, s.done = {}, {}
        s.on([f for f in P.fns.values() if re.match(r"^std::collections::(HashMap|BTreeMap)::<.*>::get$", f.def_) and ga_is(P, f, 1, r"Arc<.*BTreeMap<camino::Utf8PathBuf, backpak::tree::Node>|Arc<.*tree::Tree")], s.tree)
        s.on([f for f in P.fns.values() if f.def_.endswith("Iterator>::next") and f.body is not None and any(ga_is(P, f, i, r"^&?camino::Utf8Path(Buf)?$") for i in range(2))], s.next)
        s.on([f for f in P.fns.values() if re.match(r"^std::collections::(btree_map::)?BTreeMap::<.*>::(get|contains_key|get_key_value)$", f.def_) and ga_is(P, f, 0, r"Utf8Path") and ga_is(P, f, 1, "Node$")], s.get)
        s.on(stds(P, r"^std::iter::Iterator::(collect|chain)$|std::iter::(FromIterator|Extend)(<.*>)?( for .*)?>?::(from_iter|extend)$|^std::collections::BTreeSet::<.*>::(insert|append)$"), s.gather)
        v = virtuals(P)
        s.on([v["node_added"]], lambda c: s.handle(c, {(False, True)}))
        s.on([v["node_removed"]], lambda c: s.handle(c, {(True, False)}))
        s.on([v["type_changed"], v["contents_changed"], v["metadata_changed"]], lambda c: s.handle(c, {(True, True)}))
        s.on(one(P, "backpak::diff::compare_nodes"), lambda c: s.handle(c, {(True, True)}))

    def here(s, c):
        f = c.frame
        if c.caller.krate.startswith("backpak"):
            return (c.caller.id, str(c.span))
        while f is not None:
            if f.site is not None and f.site[0].krate.startswith("backpak"):
                return (f.site[0].id, str(f.site[1]))
            f = f.parent
        return (c.caller.id, str(c.span))

    def gather(s, c):
        n = c.fn.def_.rsplit("::", 1)[1]
        if not {"tree1", "tree2"} & all_labels(c, c.args):
            return None
        ls = set().union(*[s.kept(c, a, t) for a, t in zip(c.args, c.argtypes)])
        if n in ("extend", "insert", "append"):
            c.store(c.args[0], T(*ls))
            return [(c.st, None)]
        return [(c.st, T(*ls))]

    def inside(s, c, v, i):
        v = c.deref(v) if v is not None and v[0] == "R" else v
        return v if v is None or v[0] == "T" else dict(v[1]).get(i) if v[0] == "S" else None

    def kept(s, c, v, t):
        """Whose entries all come out of this. `only`: those alone that the other doesn't have."""
        name, a = s.prog.ts(t), s.prog.types[t].get("a")
        if not re.match(r"^std::iter::", name) or not a or s.inside(c, v, 0) is None or v[0] == "T":
            return set(all_labels(c, [v]))
        if re.match(r"^std::iter::(\w+::)*(Cloned|Copied|Map|Rev|Peekable|Fuse|Inspect)<", name):
            return s.kept(c, s.inside(c, v, 0), a[0])
        if re.match(r"^std::iter::(\w+::)*(Take|Skip|TakeWhile|SkipWhile|StepBy|MapWhile|FilterMap|FlatMap|Flatten|Scan|Zip)<", name):
            return {"cut:" + l if l in ("tree1", "tree2") else l for l in s.kept(c, s.inside(c, v, 0), a[0])}
        if not re.match(r"^std::iter::(\w+::)*Filter<", name):
            return set(all_labels(c, [v]))
        ls = s.kept(c, s.inside(c, v, 0), a[0])
        src = {"tree1", "tree2"} & ls
        if len(src) != 1:
            return ls - src
        w = src.pop()
        mine, other = ("l", "r") if w == "tree1" else ("r", "l")
        p = s.inside(c, v, 1)
        for st, got, _m in c.it.call_closure(c.caller, p, a[1], [T("key", w)], ff(c.st, at="sift", did=False, **{mine: True, other: None}), dict(c.mem), c.frame, c.span, ("sift", c.fn.id)):
            if got != TRUE and dict(st)[other] is not True:
                return ls - {w} | {"cut:" + w}
            if got != TRUE:
                ls = ls | {"only:" + w}
        return ls

    def tree(s, c):
        ls = lab(c, c.args[0])
        who = [w for w in ("forest1", "forest2") if w in ls]
        if len(who) != 1:
            return None
        if "id" + who[0][-1] not in lab(c, c.args[1]):
            c.report("other-tree", "trees are looked up by the ID of the other one")
        s.n.add(("tree", str(c.span)))
        return [(c.st, E(1, {0: T("tree" + who[0][-1])})), (c.st, NONE)]

    def combos(s, d):
        return {(l, r) for l in (True, False) for r in (True, False) if (l or r) and d["l"] in (None, l) and d["r"] in (None, r)}

    def settle(s, c):
        d = dict(c.st)
        if d["at"] is None:
            return
        for x in s.combos(d):
            if not d["did"]:
                s.skips.setdefault((d["at"], x), c.site())
        if d["did"]:
            s.done.setdefault(d["at"], set()).update(s.combos(d))

    def next(s, c):
        ls = lab(c, c.args[0])
        src = {x for x in ("tree1", "tree2") if x in ls}
        if not src:
            return None
        h = s.here(c)
        d = dict(c.st)
        if d["at"] is not None and d["at"] != h:
            return None
        s.n.add(("next", str(h)))
        s.settle(c)
        one_ = len(src) == 1
        st = ff(c.st, at=h, l=True if one_ and "tree1" in src else None, r=True if one_ and "tree2" in src else None, did=False)
        only = {x for x in src if "only:" + x in ls}
        if one_ and only:
            st = ff(st, **({"r": False} if "tree1" in src else {"l": False}))
        el = T("key", *src)
        if re.search(r"::(Iter|IntoIter)<'?.*K, V", c.fn.def_):
            el = S({0: T("key", *src), 1: T("node", *src)})
        end = ff(c.st, at=None, l=None, r=None, did=False, over=dict(c.st)["over"] | {(h, frozenset(src | {"only:" + x for x in only}))})
        return [(st, E(1, {0: el})), (end, NONE)]

    def get(s, c):
        ls = lab(c, c.args[0])
        src = [x for x in ("tree1", "tree2") if x in ls]
        if len(src) != 1 or "key" not in lab(c, c.args[1]):
            return None
        s.n.add(("get", str(c.span)))
        k = "l" if src[0] == "tree1" else "r"
        d = dict(c.st)
        yes, no = (TRUE, FALSE) if c.fn.def_.endswith("contains_key") else (E(1, {0: T("node", src[0])}), NONE)
        out = []
        if d[k] in (None, True):
            out.append((ff(c.st, **{k: True}), yes))
        other = "r" if k == "l" else "l"
        if d[k] in (None, False) and d[other] is not False:
            out.append((ff(c.st, **{k: False}, **({other: True} if d["at"] is not None else {})), no))
        return out

    def handle(s, c, what):
        d = dict(c.st)
        s.n.add(("handle", str(c.span)))
        if d["at"] is None:
            return [(c.st, OK), (c.st, ERR)]
        if not s.combos(d) <= what:
            c.report("mistaken", f"an entry is reported as {c.fn.def_.rsplit('::', 1)[1]} that may not be")
        return [(ff(c.st, did=True), OK), (ff(c.st, did=True, failed=True), ERR)]


ALLC = {(False, True): "only in the new one", (True, False): "only in the old one", (True, True): "in both"}


@rule("C01", "comparing two trees passes over no difference, and handles a directory's own metadata after what is in it")
def c01(P, R):
    f = one(P, "backpak::diff::compare_nodes")[0]
    for t in ("Node", "NodeContents", "NodeMetadata", "PosixMetadata"):
        fieldwise(P, R, "backpak::tree::" + t)
    for a in KINDS:
        for b in KINDS:
            sp = Compare(P)
            sp.dirs = a == b == "Directory"
            it = Interp(P, sp)
            mem = {}
            argv = [None] * f.body["argc"]
            i = 0
            # a pair of a node and its forest, twice
            for k, (who, kind) in enumerate((("old", a), ("new", b))):
                argv[k] = S({0: behind(mem, k, node(P, kind, who)), 1: T("forest" + who)})
            res = it.run(f, argv, fresh(c="?", m="?", did=frozenset(), failed=False), mem)
            R.absorb(it)
            pair = f"{a} to {b}"
            R.need(f"outcomes of comparing {pair}", len(res))
            R.ob(f"comparing a {pair}", len(sp.n))
            for (st, tg), _v in res.items():
                d = dict(st)
                if err_tag(tg):
                    continue
                did = d["did"]
                if d["failed"]:
                    R.violation(f"swallowed:{pair}", f"comparing {pair} succeeds although handling a difference failed", [P.loc(f)])
                elif a != b:
                    if "type_changed" not in did:
                        R.violation(f"type:{pair}", f"a {a} that became a {b} is passed over", [P.loc(f)])
                elif "type_changed" in did:
                    R.violation(f"type:{pair}", f"a {a} that is still one is said to have become something else", [P.loc(f)])
                elif a == "Directory":
                    if d["c"] != "N" and "subtrees" not in did:
                        R.violation("subtrees", "what is in a directory isn't compared although it differs", [P.loc(f)])
                    if d["m"] != "N" and "metadata_changed" not in did:
                        R.violation(f"metadata:{a}", "changed metadata of a directory is passed over", [P.loc(f)])
                else:
                    if d["c"] != "N" and "contents_changed" not in did:
                        R.violation(f"contents:{a}", f"changed contents of a {a} are passed over", [P.loc(f)])
                    if d["m"] != "N" and not did & {"metadata_changed", "contents_changed"}:
                        R.violation(f"metadata:{a}", f"changed metadata of a {a} is passed over", [P.loc(f)])
    f = one(P, "backpak::diff::compare_trees")[0]
    sp = Union(P)
    it = Interp(P, sp)
    argv = [None] * f.body["argc"]
    for k in (1, 2):
        argv[k - 1] = S({0: T(f"id{k}"), 1: T(f"forest{k}")})
    res = it.run(f, argv, fresh(at=None, l=None, r=None, did=False, over=frozenset(), failed=False), {})
    R.absorb(it)
    for w in ("tree", "next", "handle"):
        R.need(f"{w} in comparing directories", len([1 for x in sp.n if x[0] == w]), 2 if w == "tree" else 1)
    for (st, tg), _v in res.items():
        d = dict(st)
        if err_tag(tg):
            continue
        if d["failed"]:
            R.violation("swallowed", "comparing directories succeeds although handling a difference failed", [P.loc(f)])
            continue
        for x, how in ALLC.items():
            ok = [h for h, src in d["over"] if x in sp.done.get(h, ()) and (h, x) not in sp.skips and (x != (True, True) or src & {"tree1", "tree2"} - {w[5:] for w in src if w.startswith("only:")}) and (x != (True, False) or "tree1" in src) and (x != (False, True) or "tree2" in src)]
            if not ok:
                R.violation(f"entry:{how}", f"comparing directories may pass over an entry that is {how}", [P.loc(f)] + [v for (h, y), v in sp.skips.items() if y == x])
    R.ob("entries of compared directories: only old, only new, both", 3)


# ------------------------------------------------------------------------------------------ restoring
CREATE = {r"^std::fs::File::(create|create_new|create_buffered)$": "file", r"^std::fs::OpenOptions::open$": "file", r"^std::fs::write$": "file",
          r"^std::os::unix::fs::symlink$": "symlink", r"^std::fs::(create_dir|create_dir_all)$": "dir", r"^std::fs::DirBuilder::create$": "dir"}


class Apply(Nodes):
    """What restoring does about one difference, at one path. State: see START."""

    def __init__(s, P):
        super().__init__(P)
        s.skips, s.adds = {}, set()
        for pat, k in CREATE.items():
            s.on(stds(P, pat), lambda c, k=k: s.create(c, k))
        s.on(stds(P, r"^std::fs::OpenOptions::(create_new|truncate)$"), s.option)
        s.on(stds(P, r"^std::fs::(remove_file|remove_dir|remove_dir_all)$"), s.remove)
        s.on(stds(P, r"^std::fs::(rename|copy|hard_link)$"), s.other)
        s.on(stds(P, r"^rustix::fs::(at::)?utimensat$"), s.times)
        s.on(stds(P, r"^std::fs::set_permissions$|^rustix::fs::(at::)?(chmod|chmodat)$"), s.mode)
        s.on(stds(P, r"^rustix::fs::(fd::)?(futimens|fchmod)$|^std::fs::File::(set_permissions|set_times|set_modified|set_len)$"), s.other)
        s.on([f for f in P.fns.values() if re.match(r"^<std::slice::(iter::)?Iter<.*T> as std::iter::(Iterator|DoubleEndedIterator)>::(next|nth|next_back|nth_back)$", f.def_) and ga_is(P, f, 0, r"^backpak::hashing::ObjectId$")], s.chunk)
        s.on([f for f in P.fns.values() if f.def_.startswith("<std::collections::btree_map::") and f.def_.endswith("Iterator>::next") and ga_is(P, f, 1, r"tree::Node$")], s.child)
        s.on([f for f in P.fns.values() if re.match(r"^backpak::read::ChunkReader::<?.*>?::read_blob$", f.def_)], s.blob)
        s.on([f for f in P.fns.values() if re.search(r"std::io::Write(>)?::(write|write_all|flush|write_vectored|write_at|write_all_at)$|^std::os::unix::fs::FileExt", f.def_)], s.write)

    def path(s, ls):
        """Whose path: the difference's own, or that of something in a directory being added."""
        return "child" if "ckey" in ls else "root" if "root" in ls else None

    def create(s, c, kind):
        i = 1 if kind == "symlink" or "OpenOptions" in c.fn.def_ or "DirBuilder" in c.fn.def_ else 0
        p = s.path(lab(c, c.args[i]))
        if p is None:
            return None
        s.mark(c, "create")
        d = dict(c.st)
        n = c.fn.def_.rsplit("::", 1)[1]
        st = ff(c.st, owed=False)
        if p == "root":
            excl = n in ("create_new", "create_dir", "symlink") or n == "open" and d["excl"] or n == "create" and kind == "dir"
            if d["method"] == "node_added" and not excl:
                c.report(f"follows:{n}", "restoring adds something in a way that uses whatever is there already, following symlinks")
            if kind == "symlink" and ("new:contents" not in lab(c, c.args[0]) or {"root", "ckey"} & lab(c, c.args[0])):
                c.report("target", "a symlink is restored with another target than the snapshot's")
            if kind == "file" and n in ("open",) and not (d["excl"] or d["trunc"]):
                c.report("untruncated", "a file's contents are restored over what is there without truncating it")
            st = ff(st, made=kind, rm=False, gone=False, t=False, p=False, fill="no", excl=False, trunc=False)
        else:
            s.adds.add(d["owed"])
            st = ff(st, t=False, p=False)
        return [(st, E(0, {0: T("file:" + p)} if kind == "file" else {})), (c.st, ERR)]

    def option(s, c):
        k = "excl" if c.fn.def_.endswith("create_new") else "trunc"
        return [(ff(c.st, **{k: c.args[1] == TRUE}), c.args[0])]

    def remove(s, c):
        ls = lab(c, c.args[0])
        s.mark(c, "remove")
        if s.path(ls) != "root":
            c.report("elsewhere", "restoring removes something else than the path the difference is at")
            return None
        n = c.fn.def_.rsplit("::", 1)[1]
        method = dict(c.st)["method"]
        if not s.delete:
            if n != "remove_file":
                c.report(f"deletes:{method}", "restoring removes a directory without --delete")
            if method == "node_removed":
                c.report("deletes", "restoring removes what isn't in the snapshot without --delete")
        return [(ff(c.st, rm=True, gone=True, t=False, p=False, made=None), OK), (c.st, ERR)]

    def other(s, c):
        if not {"root", "ckey"} & all_labels(c, c.args):
            return None
        c.report(f"other:{c.fn.def_}", f"restoring changes the filesystem by {c.fn.def_}, which this rule doesn't know")
        return None

    def times(s, c):
        ls = [lab(c, a) for a in c.args]
        p = s.path(ls[1])
        s.mark(c, "times")
        fl = c.args[3]
        bits = fl
        while bits is not None and bits[0] == "S":
            bits = dict(bits[1]).get(0)
        if bits is None or bits[0] != "i" or not bits[1] & 0x100:
            c.report("times-follow", "restoring sets times in a way that follows symlinks")
        v = c.deref(c.args[2])
        if v is not None and p == "root":
            for i, (want, other) in enumerate((("new:access_time", "new:modify_time"), ("new:modify_time", "new:access_time"))):
                x = frozenset() if field(v, i) is None else lab(c, field(v, i))
                if want not in x or other in x or "~" in x or any(str(l).startswith("old:") for l in x):
                    c.report(f"times:{i}", f"restoring sets the {'access' if i == 0 else 'modification'} time to something else than the snapshot's")
        return [(ff(c.st, t=True) if p == "root" else c.st, OK), (c.st, ERR)]

    def mode(s, c):
        at = "chmodat" in c.fn.def_
        p = s.path(lab(c, c.args[1 if at else 0]))
        s.mark(c, "mode")
        ls = lab(c, c.args[2 if at else 1])
        if p == "root":
            if "new:mode" not in ls or "~" in ls or any(l in ls for l in ("old:mode", "new:user_id", "new:group_id", "new:size")):
                c.report("mode", "restoring sets permissions to something else than the snapshot's")
            if dict(c.st)["kind"] == "Symlink":
                c.report("chmod-follow", "restoring sets permissions through a symlink")
        return [(ff(c.st, p=True) if p == "root" else c.st, OK), (c.st, ERR)]

    # ---- contents
    def chunk(s, c):
        ls = lab(c, c.args[0])
        if not s.chunks & ls:
            return None
        s.mark(c, "chunk")
        d = dict(c.st)
        if not c.fn.def_.endswith("::next"):
            c.report("chunk-order", "a file's chunks aren't all written in order")
        if d["fill"] == "owed":
            c.report("chunk-skipped", "a chunk of a file is passed over without having been written")
        x = "root" if "new:contents" in ls else "child"
        return [(ff(c.st, fill="owed"), E(1, {0: T("chunk", x)})), (ff(c.st, fill="all"), NONE)]

    chunks = frozenset({"new:contents", "cnode"})

    def blob(s, c):
        s.mark(c, "blob")
        ls = lab(c, c.args[1])
        return [(c.st, E(0, {0: T(*(["data"] if "chunk" in ls else []))})), (c.st, ERR)]

    def write(s, c):
        n = c.fn.def_.rsplit("::", 1)[1]
        ts = s.prog.ts(c.fn.ga[0]) if c.fn.ga and isinstance(c.fn.ga[0], int) else ""
        if n == "flush":
            return [(ff(c.st, buf=False), OK), (c.st, ERR)]
        ls = all_labels(c, c.args[1:])
        if "data" not in ls:
            return None
        s.mark(c, "write")
        d = dict(c.st)
        if n != "write_all" or d["fill"] != "owed":
            c.report("write", "what is read of a file isn't written once, whole and in order")
        buf = "BufWriter" in ts or "BufWriter" in c.argty(0) or "BufWriter" in c.fn.name
        return [(ff(c.st, fill="wrote", buf=d["buf"] or buf, t=False), OK), (ff(c.st, fill="bad"), ERR)]

    # ---- directories
    def child(s, c):
        ls = lab(c, c.args[0])
        if "newforest" not in ls:
            return None
        s.mark(c, "child")
        h = (c.caller.id, str(c.span))
        if dict(c.st)["owed"]:
            s.skips.setdefault(dict(c.st)["owed"], c.site())
        return [(ff(c.st, owed=h), E(1, {0: S({0: T("ckey"), 1: T("cnode", "ckey")})})), (ff(c.st, owed=False, children=dict(c.st)["children"] | {h}), NONE)]


START = dict(made=None, rm=False, gone=False, t=False, p=False, fill="no", buf=False, owed=False, children=frozenset(), excl=False, trunc=False, method=None, kind=None)


class Restoring(Apply):
    """Runs `restore` up to the comparison, and then each callback it hands to it on its own."""

    def __init__(s, P, delete, collect):
        s.delete, s.collect = delete, collect
        super().__init__(P)
        s.on(one(P, "backpak::diff::compare_trees"), s.compare)
        s.on(one(P, "backpak::backend::open"), lambda c: [(c.st, E(0, {0: S({})})), (c.st, ERR)])
        s.on(defs(P, r"^backpak::index::build_master_index(_with_sizes)?$"), lambda c: [(c.st, OK), (c.st, ERR)])
        s.on(defs(P, r"^backpak::fs_tree::forest_from_fs$"), lambda c: [(c.st, OK), (c.st, ERR)])
        s.on(defs(P, r"^backpak::tree::forest_from_root$"), lambda c: [(c.st, OK), (c.st, ERR)])
        s.on(defs(P, r"^backpak::snapshot::(load_chronologically|find)$"), lambda c: [(c.st, OK), (c.st, ERR)])

    def compare(s, c):
        if dict(c.st)["method"] is not None:
            return None
        P = s.prog
        cb = next((a for a, t in list(zip(c.args, c.argtypes))[::-1] if t is not None and "Callbacks" in P.ts(t)), c.args[-1])
        s.mark(c, "compare")
        for name, vf in virtuals(P).items():
            if name == "nothing_changed":
                continue
            for old in KINDS:
                for new in KINDS:
                    if name == "node_added" and old != KINDS[0] or name == "node_removed" and new != KINDS[0]:
                        continue
                    if name in ("contents_changed", "metadata_changed") and old != new or name == "type_changed" and old == new:
                        continue
                    if name == "contents_changed" and new == "Directory":
                        continue
                    mem = dict(c.mem)
                    o, n = behind(mem, 50, node(P, old, "old")), behind(mem, 51, node(P, new, "new"))
                    args = {"node_added": [n, T("newforest")], "node_removed": [o, T("oldforest")], "type_changed": [o, T("oldforest"), n, T("newforest")]}.get(name, [o, n])
                    tg = c.it.resolve_virtual(vf, [cb])
                    for t in tg:
                        g = P.fns[t]
                        if not re.search(r"::restore::|^backpak::diff::", g.def_):
                            continue
                        av = [tg[t] if isinstance(tg, dict) else cb, T("root")] + args
                        outs = c.it.inline(c.caller, g, av, fresh(**dict(START, method=name, kind=new)), dict(mem), c.frame, c.span, ("cb", name, old, new, t))
                        for st, ret, _m in outs:
                            s.collect.append((name, old, new, t, dict(st), ret))
        return [(c.st, OK), (c.st, ERR)]


def restoring(P, R, keep, **opts):
    fn = command(P, "restore")
    for k in opts:
        if not has_option(P, fn, k):
            raise AnchorError(f"`restore` has no option {k}")
    got = []
    sp = Restoring(P, opts.get("delete", False), got)
    it = Interp(P, sp)
    a, m = args_value(P, fn, {"dry_run": FALSE, **{k: TRUE if v else FALSE for k, v in opts.items()}})
    it.run(fn, a, fresh(**START), m)
    it.reports = {k: v for k, v in it.reports.items() if k.startswith(keep)}
    R.absorb(it)
    R.need("comparisons that restore makes", len([1 for x in sp.n if x[0] == "compare"]))
    R.need("callbacks of restore", len({x[:4] for x in got}), 5)
    return sp, got


def succeeded(ret):
    return 1 not in (variants_of(ret) or {0}) or 0 in (variants_of(ret) or {0})


@rule("T01", "without --delete, restore removes nothing except what it replaces at once by something of the snapshot")
def t01(P, R):
    sp, got = restoring(P, R, ("deletes", "elsewhere", "other"), delete=False)
    k = 0
    for name, old, new, t, d, ret in got:
        if not succeeded(ret):
            continue
        k += 1
        if d["gone"] or d["rm"]:
            R.violation(f"gone:{name}:{old}:{new}", f"restoring removes something ({name}, {old} to {new}) without putting anything in its place", [P.loc(P.fns[t])])
    R.need("removals", len([1 for x in sp.n if x[0] == "remove"]))
    R.ob("handling of a difference without --delete", k)


@rule("T02", "restore never follows symlinks that are where it restores to")
def t02(P, R):
    for delete in (False, True):
        sp, got = restoring(P, R, ("follows", "times-follow", "chmod-follow"), delete=delete, times=True, permissions=True)
        for w in ("create", "times", "mode"):
            R.need(w, len([1 for x in sp.n if x[0] == w]))
        R.ob(f"changes to the filesystem (delete: {delete})", len(sp.n))
    fn = command(P, "restore")
    sp = Looking(P)
    it = Interp(P, sp)
    it.run(fn, *_split(args_value(P, fn, {"output": T("output")}), None))
    R.absorb(it)
    R.need("walks of what is there", len([1 for x in sp.n if x[0] == "walk"]))
    R.ob("walks of what is there", len(sp.n))
    for f in one(P, "backpak::fs_tree::forest_from_fs")[:1]:
        sp = Looking(P)
        sp.h = {k: v for k, v in sp.h.items() if P.fns[k].def_ != f.def_}
        sp.events = set(sp.h)
        sp.inside = True
        it = Interp(P, sp)
        argv = [None] * f.body["argc"]
        argv[0] = enum_value(P, "backpak::tree::Symlink", "Read")
        it.run(f, argv, None, {})
        R.absorb(it)
        R.need("looks at what is there", len([1 for x in sp.n if x[0] == "look"]))
        R.ob("looks at what is there", len(sp.n))


def _split(am, st):
    return am[0], st, am[1]


class Looking(Auto):
    """How restore finds out what is there."""

    taint = True
    inside = False

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(defs(P, r"^backpak::fs_tree::forest_from_fs$"), s.walk)
        s.on(stds(P, r"^std::fs::(metadata|exists)$|^(std::path::Path|camino::Utf8Path)::(exists|is_file|is_dir|metadata|try_exists)$"), s.follow)
        s.on(stds(P, r"^std::fs::symlink_metadata$|^(std::path::Path|camino::Utf8Path)::(symlink_metadata|is_symlink)$"), s.look)
        s.on(one(P, "backpak::diff::compare_trees"), lambda c: [(c.st, OK), (c.st, ERR)])
        s.on(one(P, "backpak::backend::open"), lambda c: [(c.st, OK), (c.st, ERR)])
        s.on(defs(P, r"^backpak::index::build_master_index(_with_sizes)?$"), lambda c: [(c.st, OK), (c.st, ERR)])
        s.on(defs(P, r"^backpak::tree::forest_from_root$"), lambda c: [(c.st, OK), (c.st, ERR)])
        s.on(defs(P, r"^backpak::snapshot::load_chronologically$"), lambda c: [(c.st, OK), (c.st, ERR)])
        s.on(defs(P, r"^backpak::snapshot::find$"), lambda c: [(c.st, E(0, {0: S({0: T("snap"), 1: T("snapid")})})), (c.st, ERR)])

    def walk(s, c):
        s.n.add(("walk", c.caller.id, str(c.span)))
        if c.args[0] != enum_value(s.prog, "backpak::tree::Symlink", "Read"):
            c.report("walk", "restore follows the symlinks in what it compares the snapshot to")
        return [(c.st, OK), (c.st, ERR)]

    def look(s, c):
        s.n.add(("look", c.caller.id, str(c.span)))
        return [(c.st, OK), (c.st, ERR)] if "is_symlink" not in c.fn.def_ else None

    def follow(s, c):
        if not c.caller.krate.startswith("backpak") and c.caller.krate != "camino" and not s.inside:
            return None
        if s.inside or "snap" in lab(c, c.args[0]):
            c.report(f"look:{c.fn.def_}", "restore looks through a symlink to see what is at a path it restores to")
        return None


@rule("T04", "with --times and --permissions, what restore adds or changes gets the snapshot's times and permissions, as the last thing done to it")
def t04(P, R):
    MIXED[0] = "~"  # on values that come from there only in some cases
    try:
        _t04(P, R)
    finally:
        MIXED[0] = None


def _t04(P, R):
    for opts in (dict(times=True, permissions=False), dict(times=False, permissions=True), dict(times=True, permissions=True)):
        sp, got = restoring(P, R, ("times:", "mode"), delete=True, **opts)
        k = 0
        for name, old, new, t, d, ret in got:
            if not succeeded(ret) or name == "node_removed" or new == "Symlink":
                continue
            k += 1
            if opts["times"] and not d["t"]:
                R.violation(f"times-unset:{name}:{new}", f"restoring can leave a {new} ({name}) with other times than the snapshot's", [P.loc(P.fns[t])])
            if opts["permissions"] and not d["p"]:
                R.violation(f"mode-unset:{name}:{new}", f"restoring can leave a {new} ({name}) with other permissions than the snapshot's", [P.loc(P.fns[t])])
        R.need("differences", k, 4)
        R.ob(f"handling of a difference with {opts}", k)


MADE = {"File": "file", "Directory": "dir", "Symlink": "symlink"}


@rule("T05", "restore and dump write every chunk of a file, once and in order, and restore puts everything in the snapshot in place")
def t05(P, R):
    sp, got = restoring(P, R, ("chunk", "write", "child", "target", "untruncated"), delete=True)
    k = 0
    for name, old, new, t, d, ret in got:
        if not succeeded(ret):
            continue
        k += 1
        where = [P.loc(P.fns[t])]
        if name == "node_removed":
            if not d["rm"]:
                R.violation(f"kept:{old}", f"restoring with --delete can leave a {old} that isn't in the snapshot", where)
            continue
        if name == "metadata_changed":
            continue
        if d["made"] != MADE[new]:
            R.violation(f"unmade:{name}:{new}", f"restoring can succeed ({name}) without having put a {new} in place", where)
        if new == "File" and d["fill"] != "all":
            R.violation(f"unfilled:{name}", f"restoring can succeed ({name}) without all of a file having been written", where)
        if new == "Directory" and not (d["children"] & sp.adds - set(sp.skips)):
            R.violation(f"children:{name}", f"restoring can succeed ({name}) without everything in a directory having been added", where)
        if d["buf"]:
            R.violation(f"unflushed:{name}", f"restoring can succeed ({name}) with part of a file still buffered", where)
    for w in ("chunk", "blob", "write", "child"):
        R.need(w, len([1 for x in sp.n if x[0] == w]))
    R.ob("handling of a difference", k)
    fn = command(P, "dump")
    sp = Dumping(P)
    it = Interp(P, sp)
    a, m = args_value(P, fn, {})
    res = it.run(fn, a, fresh(**START, more=None, out=False), m)
    it.reports = {k: v for k, v in it.reports.items() if k.startswith(("chunk", "write", "dump"))}
    R.absorb(it)
    for w in ("chunk", "blob", "write"):
        R.need("dump: " + w, len([1 for x in sp.n if x[0] == w]))
    for (st, tg), _v in res.items():
        d = dict(st)
        if err_tag(tg):
            continue
        if d["fill"] not in ("no", "all"):
            R.violation("dump-part", "dump can succeed without having written all of a file", [P.loc(fn)])
        if d["buf"]:
            R.violation("dump-unflushed", "dump can succeed with part of a file still buffered", [P.loc(fn)])
    R.ob("outcomes of dump", len(res))


class Dumping(Apply):
    """State also: more - are there components of the path left (None unknown), out - was something written."""

    chunks = frozenset({"tree"})

    def __init__(s, P):
        s.delete = False
        super().__init__(P)
        s.on(one(P, "backpak::backend::open"), lambda c: [(c.st, OK), (c.st, ERR)])
        s.on(defs(P, r"^backpak::index::build_master_index(_with_sizes)?$"), lambda c: [(c.st, OK), (c.st, ERR)])
        s.on(defs(P, r"^backpak::snapshot::(load_chronologically|find)$"), lambda c: [(c.st, OK), (c.st, ERR)])
        s.on(defs(P, r"^backpak::tree::Cache::<.*>::read$"), s.look)
        s.on([f for f in P.fns.values() if re.match(r"^std::iter::Peekable::<I>::peek$", f.def_) and ga_is(P, f, 0, r"Utf8Components")], s.peek)
        s.on([f for f in P.fns.values() if re.match(r"^<std::iter::Peekable<I> as std::iter::Iterator>::next$", f.def_) and ga_is(P, f, 0, r"Utf8Components")], s.component)

    def look(s, c):
        s.mark(c, "look")
        return [(c.st, E(0, {0: T("tree")})), (c.st, ERR)]

    def peek(s, c):
        d = dict(c.st)
        out = []
        if d["more"] in (None, True):
            out.append((ff(c.st, more=True), E(1)))
        if d["more"] in (None, False):
            out.append((ff(c.st, more=False), NONE))
        return out

    def component(s, c):
        d = dict(c.st)
        s.mark(c, "component")
        out = []
        if d["more"] in (None, True):
            if d["out"]:
                c.report("dump-beyond", "dump goes on looking for the rest of the path after it printed something")
            out.append((ff(c.st, more=None), E(1)))
        if d["more"] in (None, False):
            out.append((ff(c.st, more=False), NONE))
        return out

    def write(s, c):
        r = super().write(c)
        if r is None:
            return [(ff(c.st, out=True), OK), (c.st, ERR)] if s.prog.ts(c.argtypes[0] or 0).find("dyn") >= 0 or "BufWriter" in c.argty(0) else None
        return [(ff(x[0], out=True),) + tuple(x[1:]) for x in r]
