"""What is stored is what is listed."""
import copy, re

from ..common import *
from ..interp import MIXED
from ..common import _find_const
from ..report import rule
from .backends import stds, variant, behind
from .destructive import T, lab
from .errors import store_roots
from .files import it_labels
from .indexes import grown, VECS
from .pipeline import ff, fresh
from .resume import struct_value
from .restore import ga_is
from .walks import deep, heap, part, searched, finders, sure, SOME_LEFT_OUT

FS = "backpak::backend::fs::FilesystemBackend"
LISTED = r"^\(std::string::String, u64\)$"
ANYEL = r"^\((std::string::String|camino::Utf8PathBuf|std::path::PathBuf), u64\)$"
PATHS = r"^(camino::Utf8PathBuf|std::path::PathBuf|std::string::String|camino::Utf8DirEntry|std::fs::DirEntry)$"


def stepped(c, ty, v, st, mem, base):
    """What `next()` of an iterator gives, through the adapters around it. base(c) decides for the innermost; None = don't know."""
    P = c.it.prog
    t = P.types[ty]
    while t["k"] == "ref":
        v = c.it.load_ref(mem, v) if v is not None and v[0] == "R" else v
        ty = t["a"][0]
        t = P.types[ty]
    name = t["d"].rsplit("::", 1)[-1] if t["k"] == "adt" else ""

    def field(i):
        return dict(v[1]).get(i) if v is not None and v[0] == "S" else v if v is not None and v[0] == "T" else None

    if name in ("Map", "Filter", "FilterMap", "Inspect") and "iter" in t["d"]:
        out, todo, seen = [], [(st, dict(mem))], {}
        while todo:
            s0, m0 = todo.pop()
            if s0 in seen:
                j = c.it.join_mem(seen[s0], m0)
                if j == seen[s0]:
                    continue
                m0 = j
            seen[s0] = m0
            r = stepped(c, t["a"][0], field(0), s0, m0, base)
            if r is None:
                return None
            for s1, el, m1 in r:
                if el == NONE:
                    out.append((s1, NONE, m1))
                    continue
                x = dict(el[1][0][1]).get(0)
                arg, m1 = x, dict(m1)
                if name in ("Filter", "Inspect"):
                    arg = heap(m1, ("step", ty), x)
                for s2, got, m2 in c.it.call_closure(c.caller, field(1), t["a"][1], [arg], s1, m1, c.frame, c.span, ("step", c.fn.id, ty)):
                    if name == "Map":
                        out.append((s2, E(1, {0: got}), m2))
                    elif name == "Inspect":
                        out.append((s2, E(1, {0: x}), m2))
                    elif name == "Filter":
                        if got != FALSE:
                            out.append((s2, E(1, {0: x}), m2))
                        if got != TRUE:
                            todo.append((s2, m2))
                    else:
                        vs = {i for i, _f in got[1]} if got is not None and got[0] == "E" else {0, 1}
                        if 1 in vs:
                            out.append((s2, E(1, {0: dict(next((f for i, f in got[1] if i == 1), ())).get(0)}) if got is not None and got[0] == "E" else E(1), m2))
                        if 0 in vs:
                            todo.append((s2, m2))
        return out
    if name in ("Cloned", "Copied", "Fuse", "Peekable"):
        r = stepped(c, t["a"][0], field(0), st, mem, base)
        if r is None or name not in ("Cloned", "Copied"):
            return r
        return [(s1, E(1, {0: c.it.load_ref(m1, dict(el[1][0][1]).get(0))}) if el != NONE and dict(el[1][0][1]).get(0) is not None and dict(el[1][0][1])[0][0] == "R" else el, m1) for s1, el, m1 in r]
    c1 = copy.copy(c)
    c1.st, c1.mem = st, dict(mem)
    c1.byref = name in ("Iter", "IterMut")
    c1.args = [heap(c1.mem, ("stepbase", ty), v)]
    r = base(c1)
    return None if r is None else [(x[0], x[1], dict(x[2]) if len(x) > 2 else dict(c1.mem)) for x in r]


class Gathered(Auto):
    """Whatever is put together from elements that are gone through: by push, extend, append or collect."""

    taint = True

    def sinks(s, P, elem):
        s.on([f for f in grown(P, VECS, "push|insert") if ga_is(P, f, 0, elem)], s.push)
        s.on([f for f in P.fns.values() if re.match(r"^std::vec::Vec::<.*>::append$", f.def_) and ga_is(P, f, 0, elem)], s.append)
        s.on([f for f in P.fns.values() if re.search(r"^<std::vec::Vec<.*> as std::iter::Extend<.*>>::extend$", f.def_) and ga_is(P, f, 0, elem)], s.extend)
        s.on([f for f in stds(P, r"^std::iter::Iterator::collect$|std::iter::FromIterator(<.*>)?( for .*)?>?::from_iter$") if any(isinstance(g, int) and re.search(r"Vec<" + elem.strip("^$"), P.ts(g)) for g in f.ga or [])], s.collect)

    def gone_through(s, c, ty, v, to):
        """Everything an iterator gives is put in `to`."""
        out, seen = [], {}
        todo = [(c.st, dict(c.mem))]
        res = None
        while todo:
            st, mem = todo.pop()
            if st in seen:
                mem = c.it.join_mem(seen[st], mem)
                if mem == seen[st]:
                    continue
            seen[st] = mem
            r = stepped(c, ty, v, st, mem, s.next)
            if r is None:
                return None
            for s1, el, m1 in r:
                if el == NONE:
                    out.append((s1, True, m1))
                    continue
                x = dict(el[1][0][1]).get(0)
                if to == "result":
                    vs = {i for i, _f in x[1]} if x is not None and x[0] == "E" else {0, 1}
                    if 1 in vs:
                        out.append((s1, False, m1))
                    if 0 not in vs:
                        continue
                    x = dict(next((f for i, f in x[1] if i == 0), ())).get(0) if x is not None and x[0] == "E" else x
                c1 = copy.copy(c)
                c1.st, c1.mem = s1, dict(m1)
                todo.append((s.keep(c1, x), c1.mem))
        return out

    def collect(s, c):
        ty = c.argtypes[0]
        ts = [s.prog.ts(g) for g in c.fn.ga if isinstance(g, int)]
        res = any(t.startswith("std::result::Result<std::vec::Vec<") for t in ts)
        ls = it_labels(c.it, c.mem, c.args[0])
        if not s.mine(c, ls):
            return None
        r = s.gone_through(c, ty, c.args[0], "result" if res else "vec")
        if r is None:
            return None
        return [(st, (E(0, {0: T(s.all(c, ls))}) if ok else ERR) if res else T(s.all(c, ls)), m) for st, ok, m in r]

    def extend(s, c):
        ls = it_labels(c.it, c.mem, c.args[1])
        if s.whole(c, ls):
            return s.appended(c)
        if not s.mine(c, ls):
            return None
        r = s.gone_through(c, c.argtypes[1], c.args[1], "vec")
        if r is None:
            return None
        out = []
        for st, _ok, m in r:
            c.it.store_ref(m, c.args[0], (), T(s.all(c, ls)))
            out.append((st, UNIT, m))
        return out

    def append(s, c):
        return s.appended(c) if s.whole(c, deep(c, c.args[1])) else None

    def push(s, c):
        ls = deep(c, c.args[-1])
        if not s.mine(c, ls):
            return None
        st = s.keep(c, c.args[-1])
        c.store(c.args[0], T(s.all(c, ls)))
        return [(st, UNIT)]


class Dir(Gathered):
    """Lists a directory of the repository. State: e - entry of a directory (None, owed, ok) and its kind (dir, file, part), end,
    l - what was found, being gone through again (None, owed, ok) and lk, lany; part - can what was found have unfinished files in it,
    rel - is everything that was found named from the repository's root, todo - are there directories still to be read,
    u - what a directory within has, being gone through (None, owed, ok)."""

    START = dict(e=None, k=None, end=False, l=None, lk=None, lany=False, part=False, rel=None, todo=False, single=False, u=None)

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.recs = [f for f in P.fns.values() if f.krate.startswith("backpak") and f.body is not None and s.recursive(f)]
        s.on(s.recs, s.recurse)
        s.on(stds(P, r"^camino::Utf8Path::read_dir(_utf8)?$|^std::fs::read_dir(::<.*>)?$|^std::path::Path::read_dir$"), s.read_dir)
        s.on([f for f in P.fns.values() if re.match(r"^<(camino::ReadDirUtf8|std::fs::ReadDir) as std::iter::Iterator>::next$", f.def_)], s.entry)
        s.on([f for f in P.fns.values() if f.def_.endswith("Iterator>::next") and re.search(r"slice::(iter::)?Iter(Mut)?<|vec::(into_iter::)?(IntoIter|Drain)<", f.def_) and ga_is(P, f, 0, ANYEL)], s.found)
        s.on(finders(P, ANYEL), lambda c: searched(c, s.found))
        s.on([f for f in P.fns.values() if re.match(r"^std::vec::Vec::<.*>::(retain|retain_mut)$", f.def_) and ga_is(P, f, 0, ANYEL)], s.retain)
        s.on(stds(P, r"^camino::Utf8DirEntry::(path|into_path)$|^std::fs::DirEntry::path$"), lambda c: [(c.st, T(*deep(c, c.args[0])))] if deep(c, c.args[0]) else None)
        s.on(stds(P, r"^camino::Utf8DirEntry::file_name$|^std::fs::DirEntry::file_name$|^camino::Utf8Path::(file_name|file_stem)$"), s.name_only)
        s.on(stds(P, r"^(camino::Utf8DirEntry|std::fs::DirEntry)::(metadata|file_type)$|^camino::Utf8Path::(metadata|symlink_metadata)$|^std::path::Path::(metadata|symlink_metadata)$|^std::fs::(symlink_)?metadata(::<.*>)?$"), s.metadata)
        s.on(stds(P, r"^std::fs::Metadata::len$"), lambda c: [(c.st, T(*[l for l in deep(c, c.args[0])], "size"))] if deep(c, c.args[0]) else None)
        s.on(stds(P, r"^(camino::Utf8Path|std::path::Path|std::fs::Metadata|std::fs::FileType)::(is_dir|is_file|exists|is_symlink)$"), s.is_kind)
        s.on(stds(P, r"^camino::Utf8Path::strip_prefix(::<.*>)?$|^std::path::Path::strip_prefix(::<.*>)?$"), s.strip)
        s.on(stds(P, r"^camino::Utf8Path::extension$|^std::path::Path::extension$"), lambda c: s.extension(c))
        s.on([f for f in P.fns.values() if re.search(r"PartialEq(<.*>)?( for .*)?>?::(eq|ne)$", f.def_)], s.same)
        s.on(stds(P, r"^(std|core)::str::<impl str>::(ends_with|contains)(::<.*>)?$"), s.ends)
        s.on(stds(P, r"ToString>::to_string$|^camino::Utf8Path(Buf)?::(as_str|to_path_buf|into_string|as_std_path)$|^std::path::Path::(to_str|to_string_lossy|to_path_buf)$"), s.view)
        s.sinks(P, ANYEL)
        s.on([f for f in P.fns.values() if re.match(r"^std::vec::Vec::<.*>::push$", f.def_) and ga_is(P, f, 0, PATHS)], s.later)
        s.on([f for f in P.fns.values() if re.match(r"^std::vec::Vec::<.*>::pop$", f.def_) and ga_is(P, f, 0, PATHS)], s.pop)

    def recursive(s, f):
        P = s.prog
        r = P.reach([f.id])
        reads = ids(stds(P, r"^camino::Utf8Path::read_dir(_utf8)?$|^std::fs::read_dir(::<.*>)?$|^std::path::Path::read_dir$"))
        if not reads & set(r) or "Backend" in f.def_:
            return False
        calls = {c for g in r for c in s.callees(P.fns[g]) if g != f.id} | set(s.callees(f))
        return f.id in calls

    def callees(s, f):
        return [b[1][1] for b in f.body["bl"] if b[1][0] == "call" and isinstance(b[1][1], int)] if f.body is not None else []

    def mark(s, c, what):
        s.n.add((what, c.caller.id, str(c.span)))

    def mine(s, c, ls):
        return bool({"entry", "found", "all", "subel"} & ls) and "sub" not in ls

    def whole(s, c, ls):
        return "sub" in ls

    def recurse(s, c):
        if "entry" not in set().union(*[deep(c, a) for a in c.args]):
            return None
        s.mark(c, "sub")
        return [(c.st, E(0, {0: T("sub")})), (c.st, ERR)]

    def view(s, c):
        ls = deep(c, c.args[0])
        if not ls:
            return None
        return [(c.st, E(1, {0: T(*ls)}) if c.fn.def_.endswith("::to_str") else T(*ls))]

    def read_dir(s, c):
        ls = deep(c, c.args[0])
        s.mark(c, "read")
        if not {"base", "arg"} <= ls and "todo" not in ls:
            c.report("other-dir", "another directory is listed than the one asked for")
        return [(c.st, E(0, {0: T("reading")})), (c.st, ERR)]

    def entry(s, c):
        if "reading" not in deep(c, c.args[0]):
            return None
        s.mark(c, "entry")
        if dict(c.st)["e"] == "owed":
            c.report("left-out", "something that is stored can be left out of what is listed")
        return [(ff(c.st, e="owed" if k != "part" else None, k=k), E(1, {0: E(0, {0: T("entry")})})) for k in ("dir", "file", "part")] + [(ff(c.st, e="owed", k="file"), E(1, {0: ERR})), (ff(c.st, e=None, k=None, end=True), NONE)]

    def name_only(s, c):
        ls = deep(c, c.args[0])
        if not ls:
            return None
        v = T(*[l + ":name" if l in ("entry", "found") else l for l in ls])
        return [(c.st, v if "DirEntry" in c.fn.def_ else E(1, {0: v}))] 

    def metadata(s, c):
        ls = deep(c, c.args[0])
        return [(c.st, E(0, {0: T(*[l.split(":")[0] for l in ls])})), (c.st, ERR)] if ls else None

    def is_kind(s, c):
        ls, d, op = deep(c, c.args[0]), dict(c.st), c.fn.def_.rsplit("::", 1)[1]
        if "entry" in ls and d["k"]:
            return [(c.st, {"is_dir": TRUE if d["k"] == "dir" else FALSE, "is_file": FALSE if d["k"] == "dir" else TRUE, "exists": TRUE, "is_symlink": FALSE}[op])]
        if {"base", "arg"} <= ls and not {"entry", "found"} & ls:
            yes = ff(c.st, single=True)
            if d["single"]:
                return [(c.st, FALSE if op == "is_dir" else TRUE)]
            return {"is_file": [(yes, TRUE), (c.st, FALSE)], "is_dir": [(c.st, TRUE), (yes, FALSE)]}.get(op)
        return None

    def strip(s, c):
        ls, by = deep(c, c.args[0]), deep(c, c.args[1])
        if not {"entry", "found"} & ls:
            return None
        return [(c.st, E(0, {0: T(*ls, "rel") if "base" in by and "arg" not in by else T(*ls, "part-of-path")})), (c.st, ERR)]

    def is_part(s, c, ls):
        d = dict(c.st)
        return d["lk"] == "part" if {"found"} & {l.split(":")[0] for l in ls} else d["k"] == "part"

    def extension(s, c):
        ls = deep(c, c.args[0])
        if not {"entry", "found"} & {l.split(":")[0] for l in ls}:
            return None
        return [(c.st, E(1, {0: T("ext", *ls)}))] + ([] if s.is_part(c, ls) else [(c.st, NONE)])

    def unfinished(s, c, ls, const, yes):
        part = s.is_part(c, ls)
        if const not in ("part", ".part"):
            return [(c.st, yes if v else (FALSE if yes == TRUE else TRUE)) for v in (True, False)]
        return [(c.st, yes if part else FALSE if yes == TRUE else TRUE)]

    def same(s, c):
        cs = [_find_const(c.it, c.mem, a) or s.inner(c, a) for a in c.args]
        ls = set().union(*[deep(c, a) for a in c.args])
        if any(x == "part" for x in cs) and any(s.whatever(c, a) == NONE for a in c.args):
            return [(c.st, TRUE if c.fn.def_.endswith("ne") else FALSE)]
        if not {"entry", "found"} & {l.split(":")[0] for l in ls} or "ext" not in ls:
            return None
        const = next((x for x in cs if x), None)
        return s.unfinished(c, ls, const, FALSE if c.fn.def_.endswith("ne") else TRUE)

    def whatever(s, c, v):
        n = 0
        while v is not None and v[0] == "R" and n < 4:
            v, n = c.deref(v), n + 1
        return v

    def inner(s, c, v, n=0):
        """A constant inside an Option."""
        if v is None or n > 5:
            return None
        if v[0] == "B":
            return v[1]
        if v[0] == "R":
            return s.inner(c, c.deref(v), n + 1)
        if v[0] in ("E",):
            return next((x for _i, fs in v[1] for _j, w in fs for x in [s.inner(c, w, n + 1)] if x), None)
        if v[0] == "S":
            return next((x for _j, w in v[1] for x in [s.inner(c, w, n + 1)] if x), None)
        return None

    def ends(s, c):
        ls = deep(c, c.args[0])
        if not {"entry", "found"} & {l.split(":")[0] for l in ls}:
            return None
        const = s.inner(c, c.args[1])
        # (anywhere in a name is only an unfinished file if it isn't the name of some directory above)
        if re.search(r"::contains(::<.*>)?$", c.fn.def_) and (const != ".part" or {"entry", "found"} & ls) or const not in (".part",) and not ("ext" in ls and const == "part"):
            return [(c.st, TRUE), (c.st, FALSE)]
        return s.unfinished(c, ls, const, TRUE)

    def found(s, c):
        ls = deep(c, c.args[0])
        d = dict(c.st)
        byref = getattr(c, "byref", not re.search(r"(IntoIter|Drain)<", c.fn.def_))
        if "sub" in ls:
            if d["u"] == "owed":
                c.report("left-out", "something that is stored can be left out of what is listed")
            m = dict(c.mem)
            el = S({0: T("subel"), 1: T("subel", "size")})
            return [(ff(c.st, u="owed"), E(1, {0: heap(m, "subel", el) if byref else el}), m), (ff(c.st, u=None, e="ok"), NONE)]
        if "all" not in ls:
            return None
        s.mark(c, "found")
        if d["l"] == "owed":
            c.report("left-out", "something that is stored can be left out of what is listed")
        out = []
        for k in ("file", "part") if d["part"] else ("file",):
            m = dict(c.mem)
            el = S({0: T("found", "rel") if d["rel"] else T("found"), 1: T("found", "size")})
            out.append((ff(c.st, l="owed" if k == "file" else None, lk=k, lany=True), E(1, {0: heap(m, "found", el) if byref else el}), m))
        return out + ([(ff(c.st, l=None, lk=None), NONE)] if d["lany"] or d["rel"] is None else [])

    def all(s, c, ls):
        """What something put together from these is."""
        return "kept" if {"found", "all"} & ls else "all"

    def retain(s, c):
        if "all" not in deep(c, c.args[0]):
            return None
        s.mark(c, "found")
        d = dict(c.st)
        left = d["part"]
        for k in ("file", "part") if d["part"] else ("file",):
            m = dict(c.mem)
            el = heap(m, "found", S({0: T("found", "rel") if d["rel"] else T("found"), 1: T("found", "size")}))
            for st, got, m1 in c.it.call_closure(c.caller, c.args[1], c.argtypes[1], [el], ff(c.st, lk=k), m, c.frame, c.span, ("retain", c.fn.id)):
                if k == "file" and got != TRUE:
                    c.report("left-out", "something that is stored can be left out of what is listed")
                if k == "part":
                    left = got != FALSE
        return [(ff(c.st, part=left), UNIT)]

    def keep(s, c, el):
        d = dict(c.st)
        n = deep(c, part(c, el, 0))
        if "subel" in n:
            if not (sure(c, part(c, el, 1), "size") and sure(c, part(c, el, 1), "subel")):
                c.report("size", "something is listed with another size than its own")
            return ff(c.st, u="ok")
        if "found" in n:
            if not (sure(c, part(c, el, 1), "size") and sure(c, part(c, el, 1), "found")):
                c.report("size", "something is listed with another size than its own")
            if d["lk"] == "part":
                c.report("unfinished", "a file that is still being written can be listed")
            if "rel" not in n:
                c.report("name", "something is listed under another name than that by which it is stored")
            s.mark(c, "keep")
            return ff(c.st, l="ok")
        if "entry" not in n:
            c.report("name", "something is listed under another name than that by which it is stored")
        if not (sure(c, part(c, el, 1), "size") and sure(c, part(c, el, 1), "entry")):
            c.report("size", "something is listed with another size than its own")
        s.mark(c, "add")
        rel = "rel" in n
        return ff(c.st, e="ok", part=d["part"] or d["k"] == "part", rel=rel if d["rel"] is None else d["rel"] and rel)

    def appended(s, c):
        c.store(c.args[0], T("all"))
        return [(ff(c.st, e="ok"), UNIT)]

    def later(s, c):
        ls = deep(c, c.args[1])
        if "entry" not in ls and not ({"base", "arg"} <= ls):
            return None
        c.store(c.args[0], T("todo"))
        st = ff(c.st, todo=True)
        return [(ff(st, e="ok") if "entry" in ls and dict(c.st)["k"] == "dir" else st, UNIT)]

    def pop(s, c):
        if "todo" not in deep(c, c.args[0]):
            return None
        if dict(c.st)["e"] == "owed":
            c.report("left-out", "something that is stored can be left out of what is listed")
        return [(ff(c.st, e=None), E(1, {0: T("todo")}))] + ([(ff(c.st, todo=False, e=None), NONE)] if dict(c.st)["end"] else [])

    def next(s, c):
        return s.entry(c) or s.found(c)


class Pages(Gathered):
    """Lists what's in a bucket, a page at a time. State: pg - page (None, asked, got, done), start - was it asked for from where the last one
    ended, pre - with the prefix, more - are there more (None: not looked at), first - is this the first, e - file of a page (None, owed, ok), k."""

    START = dict(pg=None, start=False, pre=False, more=None, first=True, e=None, k=None, any=False)

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(stds(P, r"^ureq::request::RequestBuilder::<.*>::query(_pairs)?(::<.*>)?$"), s.query)
        s.on(stds(P, r"^ureq::request::RequestBuilder::<.*>::call$"), s.call)
        s.on(stds(P, r"^ureq::body::Body::read_json(::<.*>)?$"), s.json)
        s.on(stds(P, r"^serde_json::.*Index(<.*>)?( for .*)?>?::index$|^serde_json::(value::)?Value::(get|pointer)(::<.*>)?$"), s.index)
        s.on(stds(P, r"^serde_json::value::Value::(as_str|as_u64|as_i64|as_array)$"), s.view)
        s.on([f for f in P.fns.values() if f.def_.endswith("Iterator>::next") and re.search(r"slice::(iter::)?Iter<", f.def_) and ga_is(P, f, 0, r"serde_json::.*Value$")], s.next)
        s.on(finders(P, r"serde_json::.*Value$"), lambda c: searched(c, s.next))
        s.on([f for f in P.fns.values() if re.search(r"PartialEq(<.*>)?( for .*)?>?::(eq|ne)$", f.def_)], s.same)
        s.sinks(P, LISTED)

    inner = Dir.inner

    def all(s, c, ls):
        return "listed"

    mark = Dir.mark

    def mine(s, c, ls):
        return bool({"el", "files"} & {l.split(":")[0] for l in ls})

    def whole(s, c, ls):
        return False

    def query(s, c):
        k = s.inner(c, c.args[1])
        ls = deep(c, c.args[2]) if len(c.args) > 2 else set()
        if k == "startFileName":
            if "next" not in ls:
                c.report("pages", "a page is asked for from somewhere else than where the one before said it ends")
            return [(ff(c.st, start=True), None)]
        if k == "prefix":
            if "arg" not in ls:
                c.report("prefix", "something else is listed than what is asked for")
            return [(ff(c.st, pre=True), None)]
        return None

    def call(s, c):
        d = dict(c.st)
        s.mark(c, "call")
        s.settle(c)
        if d["pg"] in ("asked", "got"):
            c.report("left-out", "some of what a page lists can be left out")
        if not d["first"] and not d["start"]:
            c.report("pages", "a page is asked for from somewhere else than where the one before said it ends")
        if not d["pre"]:
            c.report("prefix", "something else is listed than what is asked for")
        if not d["first"] and d["more"] is False:
            c.report("pages", "a page is asked for after the last one")
        return [(ff(c.st, pg="asked", start=False, pre=False, more=None, first=False, e=None), E(0, {0: T("page")})), (c.st, ERR)]

    def settle(s, c):
        if dict(c.st)["e"] == "owed":
            c.report("left-out", "something that is stored can be left out of what is listed")

    def json(s, c):
        return [(c.st, E(0, {0: T("json")})), (c.st, ERR)]

    def index(s, c):
        ls, k = deep(c, c.args[0]), s.inner(c, c.args[1])
        opt = not c.fn.def_.endswith("::index")
        got = None
        if "json" in ls:
            got = T({"files": "files", "nextFileName": "next"}.get(k, "other"))
        elif "el" in ls:
            got = T(f"el:{k}")
        if got is None:
            return None
        m = dict(c.mem)
        v = heap(m, ("json", k), got)
        return [(c.st, E(1, {0: v}) if opt else v, m)]

    def view(s, c):
        ls, d = deep(c, c.args[0]), dict(c.st)
        what = c.fn.def_.rsplit("::", 1)[1]
        if "next" in ls and what == "as_str":
            s.mark(c, "next")
            r = []
            if d["more"] is not False:
                r.append((ff(c.st, more=True), E(1, {0: T("next")})))
            if d["more"] is not True:
                r.append((ff(c.st, more=False), NONE))
            return r
        if "files" in ls and what == "as_array":
            return [(ff(c.st, pg="got") if d["pg"] == "asked" else c.st, E(1, {0: T("files")})), (c.st, NONE)]
        if {"el:fileName", "el:action"} & ls and what == "as_str" or "el:contentLength" in ls and what in ("as_u64", "as_i64"):
            return [(c.st, E(1, {0: T(*ls)}))]
        return None

    def next(s, c):
        if "files" not in deep(c, c.args[0]):
            return None
        s.mark(c, "file")
        s.settle(c)
        out = []
        for k in ("upload", "hide"):
            m = dict(c.mem)
            out.append((ff(c.st, e="owed" if k == "upload" else None, k=k), E(1, {0: heap(m, "el", T("el"))}), m))
        return out + [(ff(c.st, e=None, k=None, pg="done"), NONE)]

    def same(s, c):
        ls = set().union(*[deep(c, a) for a in c.args])
        if "el:action" not in ls:
            return None
        const = next((x for x in (s.inner(c, a) for a in c.args) if x), None)
        yes, no = (FALSE, TRUE) if c.fn.def_.endswith("::ne") else (TRUE, FALSE)
        if const is None:
            return [(c.st, yes), (c.st, no)]
        return [(c.st, yes if const == dict(c.st)["k"] else no)]

    def keep(s, c, el):
        n = deep(c, part(c, el, 0))
        s.mark(c, "keep")
        if "el:fileName" not in n:
            c.report("name", "something is listed under another name than that by which it is stored")
        if not sure(c, part(c, el, 1), "el:contentLength"):
            c.report("size", "something is listed with another size than its own")
        if dict(c.st)["k"] != "upload":
            c.report("not-there", "something is listed that isn't there any more")
        return ff(c.st, e="ok", any=True)

    def appended(s, c):
        return None


@rule("B07", "what a backend lists is all that's stored where it was asked to look")
def b07(P, R):
    MIXED[0] = "~"
    try:
        _b07(P, R)
    finally:
        MIXED[0] = None


def _b07(P, R):
    # a directory
    sp = Dir(P)
    it = Interp(P, sp)
    f = [g for g in P.fns.values() if re.match(r"^<backpak::backend::fs::\w+ as backpak::backend::Backend>::list$", g.def_)]
    for g in f:
        mem = {}
        n = 0
        for (st, tg), (ret, m) in it.run(g, [behind(mem, 0, struct_value(P, FS, {"base_directory": T("base")})), T("arg")], fresh(**Dir.START), mem).items():
            if err_tag(tg):
                continue
            d = dict(st)
            if d["single"]:
                continue
            n += 1
            if d["e"] == "owed" or d["l"] == "owed" or not d["end"] or d["todo"]:
                R.violation("left-out", "something that is stored can be left out of what is listed", [P.loc(g)])
            ls = it_labels(it, m, ret)
            if d["rel"] is not None and not {"all", "kept"} & ls:
                R.violation("other-result", "something else is returned than what was found", [P.loc(g)])
            if "kept" in ls:
                continue
            if d["part"]:
                R.violation("unfinished", "a file that is still being written can be listed", [P.loc(g)])
            if d["rel"] is False:
                R.violation("name", "something is listed under another name than that by which it is stored", [P.loc(g)])
        R.need("ways to list a directory", n)
    R.absorb(it)
    for w in ("read", "entry", "add"):
        R.need("listing a directory: " + w, len([1 for x in sp.n if x[0] == w]))
    R.ob("steps of listing a directory", len(sp.n))
    # a bucket
    sp = Pages(P)
    it = Interp(P, sp)
    n = 0
    for g in one(P, "backpak_b2::Session::list"):
        mem = {}
        for (st, tg), (ret, m) in it.run(g, [T("session"), E(1, {0: T("arg")})], fresh(**Pages.START), mem).items():
            if err_tag(tg):
                continue
            n += 1
            d = dict(st)
            if d["more"] is not False:
                R.violation("pages", "a listing can end before its last page", [P.loc(g)])
            if d["pg"] != "done" or d["e"] == "owed":
                R.violation("left-out", "some of what a page lists can be left out", [P.loc(g)])
            if d["any"] and "listed" not in it_labels(it, m, ret):
                R.violation("other-result", "something else is returned than what was found", [P.loc(g)])
    R.need("ways to list a bucket", n)
    R.absorb(it)
    for w in ("call", "next", "file", "keep"):
        R.need("listing a bucket: " + w, len([1 for x in sp.n if x[0] == w]))
    R.ob("steps of listing a bucket", len(sp.n))
    # each kind of thing, from where it is kept
    for what in ("indexes", "snapshots", "packs"):
        sp = Auto(P)
        sp.taint = True
        asked = []

        def looked(c, what=what, asked=asked):
            k = Dir.inner(sp, c, c.args[1])
            asked.append(k)
            if k is None or k.strip("/") != what:
                c.report(f"where:{what}", f"{what} are looked for in another place than where they are kept")
            return [(ff(c.st, got=True), E(0, {0: T("names")})), (c.st, ERR)]

        def left_out(c, what=what):
            ls = set().union(*[it_labels(c.it, c.mem, a) for a in c.args])
            if "names" in ls and (not c.fn.def_.endswith("::collect") or SOME_LEFT_OUT.search("".join(P.ts(g) for g in c.fn.ga if isinstance(g, int)))):
                c.report(f"left-out:{what}", f"some of the {what} that are stored can be left out of what is listed")
            return None

        sp.on(backend_op(P, "list"), looked)
        sp.on(stds(P, r"^std::iter::Iterator::collect$|^std::vec::Vec::<.*>::(retain|retain_mut|truncate|pop|remove|swap_remove|clear|drain|dedup\w*|split_off)$"), left_out)
        it = Interp(P, sp)
        for g in one(P, f"backpak::backend::CachedBackend::list_{what}"):
            for (st, tg), (ret, m) in it.run(g, [None], fresh(got=False), {}).items():
                if not err_tag(tg) and not (dict(st)["got"] and "names" in it_labels(it, m, ret)):
                    R.violation(f"other-result:{what}", f"{what} that are listed aren't those found", [P.loc(g)])
        R.absorb(it)
        R.need("places looked in for " + what, len(asked))
