"""Files to back up: all of what's in them is read and cut, and their metadata is their own."""
import re

from ..common import *
from ..report import rule
from .backends import stds, variant, behind, variants_of
from .destructive import T, lab
from .pipeline import ff, fresh
from .resume import struct_value
from .walks import deep, sure, part, fields_of, slicing

LOADED = "backpak::file_util::LoadedFile"
BLOB = "backpak::blob::Blob"
SPAN = "backpak::chunk::FileSpan"
CUTS = [(100, 50), (7, 1000)]


# ------------------------------------------------------------------------------------------ F07
class Loading(Auto):
    """Reads a file. State: pos - where in it (start, moved)."""

    taint = True

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(stds(P, r"^std::fs::File::open(::<.*>)?$|^std::fs::OpenOptions::open(::<.*>)?$"), lambda c: [(c.st, E(0, {0: T("fh")})), (c.st, ERR)])
        s.on(stds(P, r"^std::fs::read(::<.*>)?$"), lambda c: [(c.st, E(0, {0: s.whole(c)})), (c.st, ERR)])
        s.on([f for f in P.fns.values() if re.search(r"::read_to_end$", f.def_) and ("Read" in f.def_)], s.to_end)
        s.on([f for f in P.fns.values() if re.match(r"^(<&?(mut )?std::fs::File as std::io::(Read|Seek)>|std::io::(Read|Seek))::(read|read_exact|read_vectored|read_buf|seek|rewind|take|chain|read_to_string|seek_relative)$", f.def_)], s.move)
        s.on([f for f in P.fns.values() if re.match(r"^(<std::vec::Vec<u8.*as .*Default>::default|std::vec::Vec::<.*>::(new|with_capacity))$", f.def_) and (not f.ga or ga8(P, f))], lambda c: [(c.st, T("empty"))])
        s.on(stds(P, r"^memmap2::(Mmap|MmapMut|MmapOptions)::map(_copy|_copy_read_only|_private|_raw|_raw_read_only)?(::<.*>)?$"), s.map)
        s.on(stds(P, r"^memmap2::MmapOptions::(len|offset)$"), lambda c: [(c.st, T("opts", "part"))])
        s.on(stds(P, r"^std::sync::Arc::<.*>::new$|^std::boxed::Box::<.*>::new$"), lambda c: [(c.st, c.args[0])] if "all" in deep(c, c.args[0]) else None)
        s.on(slicing(P), lambda c: [(c.st, T("part", *deep(c, c.args[0])))] if deep(c, c.args[0]) else None)

    def whole(s, c):
        s.n.add((c.caller.id, str(c.span)))
        return T("all")

    def move(s, c):
        if "fh" not in deep(c, c.args[0]):
            return None
        back = c.fn.def_.endswith("::rewind")
        if c.fn.def_.endswith("::seek"):
            a = c.args[1]
            back = a is not None and a[0] == "E" and len(a[1]) == 1 and a[1][0][0] == 0 and dict(a[1][0][1]).get(0) == FALSE
        ls = {"part"} | deep(c, c.args[0])
        st = ff(c.st, pos="start" if back else "moved")
        if c.fn.def_.endswith(("::take", "::chain")):
            return [(c.st, T(*ls))]
        return [(st, E(0, {0: T("count")})), (st, ERR)]

    def to_end(s, c):
        ls = deep(c, c.args[0])
        if "fh" not in ls:
            return None
        if dict(c.st)["pos"] != "start":
            c.report("not-from-start", "a file to back up is read from somewhere else than its start")
        if "part" in ls or len(c.args) < 2 or "empty" not in deep(c, c.args[1]):
            c.store(c.args[1], T("part", "all"))
        else:
            c.store(c.args[1], s.whole(c))
        return [(c.st, E(0, {0: None})), (c.st, ERR)]

    def map(s, c):
        ls = set().union(*[deep(c, a) for a in c.args])
        if "fh" not in ls:
            return None
        v = s.whole(c)
        return [(c.st, E(0, {0: T("part", "all") if "part" in ls else v})), (c.st, ERR)]


def ga8(P, f):
    return any(isinstance(g, int) and P.ts(g) == "u8" for g in f.ga)


class Cutting(Auto):
    """Cuts a file and passes on what it is cut into. State: cut - what was cut off last (None, owed, ok, sent), end - was there no more, gone - is nobody interested."""

    taint = exact = True
    START = dict(cut=None, end=False, gone=False)

    def __init__(s, P, at, size):
        super().__init__(P)
        s.n = set()
        s.at, s.size = at, size
        s.chunk = struct_value(P, "fastcdc::v2020::Chunk", {"offset": ("i", at), "length": ("i", size), "hash": T("cut")})
        s.bf, s.sf = fields_of(P, BLOB), fields_of(P, SPAN)
        s.on(one(P, "backpak::file_util::read_file"), lambda c: [(c.st, E(0, {0: T("file")})), (c.st, ERR)])
        s.on(one(P, LOADED + "::bytes"), s.bytes)
        s.on(stds(P, r"^fastcdc::v2020::FastCDC::<.*>::(new|with_level|with_level_and_seed)$"), s.cut)
        s.on([f for f in P.fns.values() if re.search(r"^<fastcdc::v2020::FastCDC<.*> as std::iter::Iterator>::next$", f.def_)], lambda c: s.more(c, s.chunk, "owed"))
        s.on(slicing(P), s.slice)
        s.on(one(P, "backpak::hashing::ObjectId::hash"), lambda c: [(c.st, T("hash") if sure(c, c.args[0], "slice") else T("otherhash"))])
        for ty, what in ((r"fastcdc::v2020::Chunk$", "chunk"), (r"blob::Blob$", "blob")):
            s.on(stds(P, r"^std::sync::mpsc::(sync_)?channel(::<.*>)?$") and [f for f in stds(P, r"^std::sync::mpsc::(sync_)?channel$") if f.ga and re.search(ty, P.ts(f.ga[0]))], lambda c, w=what: [(c.st, S({0: T(w + "tx"), 1: T(w + "rx")}))])
            for op in ("send", "try_send", "recv", "try_recv", "recv_timeout"):
                try:
                    fs = chan(P, op, ty)
                except AnchorError:
                    continue
                if "send" in op:
                    s.on(fs, lambda c, w=what, o=op: s.send(c, w, o))
                else:
                    s.on(fs, lambda c, w=what, o=op: s.more(c, s.chunk if w == "chunk" else T("sent"), "owed" if w == "chunk" else "sent", o))

    def on_spawn(s, it, ctx):
        outs = []
        d0 = dict(ctx.st)
        for st, v, m in threads_inline(s, it, _with(ctx, fresh(**s.START))):
            d = dict(st)
            if d["cut"] is not None and not (d["cut"] == "ok" and (d["end"] or d["gone"])) or d["gone"] and d["cut"] == "owed":
                ctx.report("left-early", "the thread working on a file's chunks can end before all of them were passed on")
            outs.append((tuple(sorted(d0.items())), v, m))
        return outs

    def bytes(s, c):
        return [(c.st, T("bytes"))] if "file" in deep(c, c.args[0]) else None

    def cut(s, c):
        s.n.add(("cut", c.caller.id, str(c.span)))
        if not sure(c, c.args[0], "bytes") or "part" in deep(c, c.args[0]):
            c.report("cut-else", "something else is cut than the whole of the file to back up")
        return [(c.st, T("cdc"))]

    def slice(s, c):
        if "bytes" not in deep(c, c.args[0]):
            return None
        a = c.args[1] if len(c.args) > 1 else None
        if a is not None and a[0] == "S" and dict(a[1]) == {0: ("i", s.at), 1: ("i", s.at + s.size)}:
            return [(c.st, T("slice"))]
        return [(c.st, T("part"))]

    def more(s, c, v, owed, op="recv"):
        d = dict(c.st)
        s.n.add((owed, c.caller.id, str(c.span)))
        if d["cut"] == "owed":
            c.report("chunk-left-out", "a chunk of a file to back up can be left out")
        got = ff(c.st, cut=owed, end=False)
        done = ff(c.st, cut="ok", end=True)
        if c.fn.def_.endswith("::next"):
            r = [(got, E(0, {0: v}) if c.fn.id in s.iters else E(1, {0: v})), (done, ERR if c.fn.id in s.iters else NONE)]
        elif op == "recv":
            r = [(got, E(0, {0: v})), (done, ERR)]
        else:
            r = [(got, E(0, {0: v})), (c.st, E(1, {0: E(0)})), (done, E(1, {0: E(1)}))]
        return r

    def send(s, c, what, op):
        d = dict(c.st)
        v = c.args[1]
        good = "cut" in deep(c, v) if what == "chunk" else s.is_blob(c, v)
        s.n.add(("send", c.caller.id, str(c.span)))
        if d["cut"] == "owed" and not good:
            c.report("other-chunk", "something else is passed on than the chunk just cut from a file, all of it under its own hash")
        ok = ff(c.st, cut="ok") if good else c.st
        gone = ff(c.st, cut="ok", gone=True)
        if op == "send":
            return [(ok, E(0, {0: UNIT})), (gone, ERR)]
        return [(ok, E(0, {0: UNIT})), (c.st, E(1, {0: E(0)})), (gone, E(1, {0: E(1)}))]

    def is_blob(s, c, v):
        """Is this the blob made of the chunk?"""
        if v is None or v[0] != "S":
            return False
        d = dict(v[1])
        if labels_of(d.get(s.bf.index("id"))) != {"hash"} or d.get(s.bf.index("kind")) != enum_value(s.prog, "backpak::blob::Type", "Chunk"):
            return False
        x = d.get(s.bf.index("contents"))
        if x is None or x[0] != "E":
            return False
        for _var, fs in x[1]:
            w = dict(fs).get(0)
            if w is not None and w[0] == "S":
                f = dict(w[1])
                if "file" not in deep(c, f.get(s.sf.index("file"))) or f.get(s.sf.index("start")) != ("i", s.at) or f.get(s.sf.index("end")) != ("i", s.at + s.size):
                    return False
            elif labels_of(w) != {"slice"}:
                return False
        return True


def _with(ctx, st):
    import copy
    c = copy.copy(ctx)
    c.st = st
    return c


@rule("F07", "a file to back up is read and cut whole, and everything it is cut into is passed on under its own hash")
def f07(P, R):
    # all of it is read
    f = one(P, "backpak::file_util::read_file")[0]
    sp = Loading(P)
    it = Interp(P, sp)
    n = 0
    for (st, tg), (ret, m) in it.run(f, [T("path")], fresh(pos="start"), {}).items():
        if err_tag(tg):
            continue
        n += 1
        v = dict(ret[1][0][1]).get(0) if ret is not None and ret[0] == "E" and len(ret[1]) == 1 else ret
        ls = it_labels(it, m, v)
        if "all" not in ls or "part" in ls:
            R.violation("not-all", "a file to back up can be read without reading all of it", [P.loc(f)])
    R.absorb(it)
    R.need("ways to read a file", len(sp.n))
    R.need("files read", n)
    # and it is all what's given out
    f = one(P, LOADED + "::bytes")[0]
    for var in ("Buffered", "Mapped"):
        sp = Loading(P)
        it = Interp(P, sp)
        mem = {}
        res = it.run(f, [behind(mem, 80, variant(P, LOADED, var, {"0": T("buf")}))], fresh(pos="start"), mem)
        R.absorb(it)
        for _k, (ret, m) in res.items():
            if it_labels(it, m, ret) != {"buf"}:
                R.violation("other-bytes:" + var, "a file's bytes are said to be others than those that were read", [P.loc(f)])
        R.ob("kinds of loaded files")
    for at, size in CUTS:
        sp = Cutting(P, at, size)
        it = Interp(P, sp)
        f = one(P, "backpak::chunk::chunk_file")
        n = 0
        for g in f:
            for (st, tg), (ret, m) in it.run(g, [T("path")], fresh(**Cutting.START), {}).items():
                if err_tag(tg):
                    continue
                n += 1
                if not {"blobrx", "cdc"} & it_labels(it, m, ret):
                    R.violation("other-source", "what gives a file's chunks isn't what the file was cut into", [P.loc(g)])
        R.need("ways to cut a file", n)
        nx = one(P, "<backpak::chunk::ChunkIterator as std::iter::Iterator>::next")[0]
        for var in ("Simple", "Threaded"):
            mem = {}
            me = behind(mem, 81, variant(P, "backpak::chunk::ChunkIterator", var, {"0": T("file", "cdc")}))
            k = 0
            for (st, _tg), (ret, m) in it.run(nx, [me], fresh(**Cutting.START), mem).items():
                d = dict(st)
                vs = [v for v, _fs in ret[1]] if ret is not None and ret[0] == "E" else []
                x = dict(ret[1][0][1]).get(0) if len(vs) == 1 else None
                k += 1
                if d["cut"] in ("owed", "sent"):
                    c = _Look(it, m)
                    if vs != [1] or not (sp.is_blob(c, x) if d["cut"] == "owed" else labels_of(x) == {"sent"}):
                        R.violation(f"other-next:{var}", "a chunk of a file to back up is left out, or another is given out in its place", [P.loc(nx)])
                elif vs != [0] or not d["end"]:
                    R.violation(f"ends:{var}", "a file's chunks can end before all were given out", [P.loc(nx)])
            R.need(f"ways to give out chunks ({var})", k)
        R.absorb(it)
        for w in ("cut", "owed", "sent", "send"):
            R.need("cutting: " + w, len([1 for x in sp.n if x[0] == w]))
        R.ob("steps of cutting a file", len(sp.n))
        # what's in a blob
        b = one(P, BLOB + "::bytes")[0]
        for what, x, want in (("Span", struct_value(P, SPAN, {"file": T("file"), "start": ("i", at), "end": ("i", at + size)}), "slice"), ("Buffer", T("buf"), "buf")):
            mem = {}
            me = behind(mem, 82, struct_value(P, BLOB, {"contents": variant(P, "backpak::blob::Contents", what, {"0": x})}))
            for _k, (ret, m) in it.run(b, [me], fresh(**Cutting.START), mem).items():
                if it_labels(it, m, ret) != {want}:
                    R.violation("other-contents:" + what, "a blob's bytes are said to be others than those it was made of", [P.loc(b)])
            R.ob("kinds of blobs")


class _Look:
    """Enough of a call's context to look at values afterwards."""

    def __init__(s, it, mem):
        s.it, s.mem = it, mem

    def deref(s, v):
        from ..interp import read_path
        out = None
        for i, (loc, path, _c) in enumerate(sorted(v[1], key=repr)):
            w = read_path(s.mem.get(loc), path)
            out = w if i == 0 else join(out, w)
        return out


def it_labels(it, mem, v):
    ls = set()
    it.labels(mem, v, ls, set())
    return ls


# ------------------------------------------------------------------------------------------ F08
ACCESSORS = {"mode": "mode", "uid": "uid", "gid": "gid", "atime": "atime", "atime_nsec": "atime_nsec", "mtime": "mtime", "mtime_nsec": "mtime_nsec", "ctime": "ctime", "ctime_nsec": "ctime_nsec",
             "size": "size", "len": "size", "dev": "dev", "ino": "ino", "nlink": "nlink", "rdev": "rdev", "blocks": "blocks", "blksize": "blksize"}
WANT = {"user_id": {"uid"}, "group_id": {"gid"}, "access_time": {"atime", "atime_nsec"}, "modify_time": {"mtime", "mtime_nsec"}}
MODES = [("file", 0o100640, True), ("file", 0o107777, True), ("file", 0o100000, True), ("directory", 0o043770, False), ("directory", 0o041777, False), ("symlink", 0o120777, False)]


class Stat(Auto):
    """Gets a file's metadata. State: nothing."""

    taint = True

    def __init__(s, P, mode):
        super().__init__(P)
        s.n, s.mode = set(), mode
        s.on(stds(P, r"^std::fs::symlink_metadata(::<.*>)?$"), lambda c: s.stat(c, "itself"))
        s.on(stds(P, r"^std::fs::metadata(::<.*>)?$"), lambda c: s.stat(c, "target"))
        s.on([f for f in P.fns.values() if re.search(r"MetadataExt(>)?::(st_)?(\w+)$", f.def_) or re.match(r"^std::fs::Metadata::(len|accessed|modified|created)$", f.def_)], s.get)

    def stat(s, c, which):
        if "path" not in deep(c, c.args[0]):
            return None
        s.n.add((which, c.caller.id, str(c.span)))
        return [(ff(c.st, which=which), E(0, {0: T("meta")})), (c.st, ERR)]

    def get(s, c):
        if "meta" not in deep(c, c.args[0]):
            return None
        k = c.fn.def_.rsplit("::", 1)[1].removeprefix("st_")
        s.n.add((k, c.caller.id, str(c.span)))
        if k == "mode":
            return [(c.st, ("i", s.mode))]
        if k in ("accessed", "modified", "created"):
            t = {"accessed": "atime", "modified": "mtime", "created": "ctime"}[k]
            return [(c.st, E(0, {0: T(t, t + "_nsec")})), (c.st, ERR)]
        return [(c.st, T(ACCESSORS.get(k, k)))]


@rule("F08", "what is recorded of a file is its own metadata, each as what it is")
def f08(P, R):
    f = one(P, "backpak::tree::get_metadata")[0]
    names = fields_of(P, "backpak::tree::PosixMetadata")
    for how, want in (("Read", "itself"), ("Dereference", "target")):
        for kind, mode, sized in MODES:
            sp = Stat(P, mode)
            it = Interp(P, sp)
            argv = [enum_value(P, "backpak::tree::Symlink", how) if "Symlink" in P.ts(f.body["lt"][i + 1]) else T("path") for i in range(f.body["argc"])]
            n = 0
            for (st, tg), (ret, m) in it.run(f, argv, fresh(which=None), {}).items():
                if err_tag(tg):
                    continue
                n += 1
                if dict(st)["which"] != want:
                    R.violation("followed:" + how, "a symlink's target is looked at in its place, or it in its target's", [P.loc(f)])
                v = dict(ret[1][0][1]).get(0) if ret is not None and ret[0] == "E" and len(ret[1]) == 1 else None
                p = dict(v[1][0][1]).get(0) if v is not None and v[0] == "E" and len(v[1]) == 1 else None
                if p is None or p[0] != "S":
                    R.violation("unknown", "what is recorded of a file isn't known", [P.loc(f)])
                    continue
                d = dict(p[1])
                if d.get(names.index("mode")) != ("i", mode):
                    R.violation("other:mode", "a file's mode is recorded as another", [P.loc(f)])
                for k, ls in WANT.items():
                    if it_labels(it, m, d.get(names.index(k))) != ls:
                        R.violation(f"other:{k}", f"a file's {k} is recorded as something else ({', '.join(sorted(it_labels(it, m, d.get(names.index(k)))))})", [P.loc(f)])
                z = d.get(names.index("size"))
                vs = variants_of(z)
                if vs != ({1} if sized else {0}) or sized and it_labels(it, m, z) != {"size"}:
                    R.violation(f"size:{kind}", f"a {kind}'s size is recorded as something else", [P.loc(f)])
                R.ob("fields of metadata", len(WANT) + 2)
            R.absorb(it)
            R.need(f"ways to get the metadata of a {kind} ({how})", n)
