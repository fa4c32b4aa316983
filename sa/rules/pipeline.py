"""The packing / indexing / uploading pipeline: nothing that enters it is lost."""
import re

from ..common import *
from ..report import rule
from .durability import cached, Quiesce, writers


def ff(st, **kw):
    d = dict(st)
    d.update(kw)
    return tuple(sorted(d.items()))


def fresh(**kw):
    return tuple(sorted(kw.items()))


def two(st_ok, v, st_err):
    return [(st_ok, E(0, {0: v} if v is not None else {})), (st_err, E(1))]


# ------------------------------------------------------------------------------------------ packer
LIST = re.compile(r"^std::vec::Vec<backpak::pack::PackManifestEntry>$|^\[backpak::pack::PackManifestEntry\]$")
HARMLESS = re.compile(r"::(push|reserve\w*|try_reserve\w*|shrink_to(_fit)?|deref_mut|as_mut_slice|spare_capacity_mut|as_mut_ptr)$")


def _manifest(P, f):
    """Does f, of the standard library, work on the entries of a manifest?"""
    return not f.def_.startswith(("backpak", "<backpak", "serde", "<serde", "ciborium", "<ciborium", "<&'a mut ciborium")) and any(isinstance(g, int) and "PackManifestEntry" in P.ts(g) and "BTreeMap" not in P.ts(g) and len(P.ts(g)) < 400 for g in f.ga or ())


def reworks(P):
    """What may leave entries of a manifest out, change them or their order (which is that of the blobs in the pack)."""
    out = []
    for f in P.fns.values():
        if not _manifest(P, f):
            continue
        if f.def_.startswith(("std::vec::Vec::<T, A>::", "std::slice::<impl [T]>::")) and P.ts(f.ga[0]) == "backpak::pack::PackManifestEntry" and re.search(
            r"::(retain\w*|dedup\w*|truncate|pop\w*|remove|swap_remove|drain|clear|split_off|resize\w*|insert|append|splice|extract_if|sort\w*|reverse|swap|rotate_\w*|fill\w*|select_nth\w*|iter_mut|get_mut|first_mut|last_mut|chunks\w*_mut|split_at_mut)$", f.def_
        ):
            out.append(f)
    return out


def same_list(P, s, token):
    """A manifest stays what it is when it is cloned, borrowed, or collected again without anything in between that leaves things out."""

    def keep(c):
        v = c.args[0] if c.args else None
        n = 0
        while v is not None and v[0] == "R" and n < 4:
            v = c.deref(v)
            n += 1
        if v != token:
            return None
        if any(SOME_LEFT_OUT.search(P.ts(g)) or re.search(r"\b(Map|Rev|Chain)<", P.ts(g)) for g in c.fn.ga if isinstance(g, int)):
            return [(c.st, None)]
        return [(c.st, v)]

    s.on([f for f in P.fns.values() if _manifest(P, f) and re.search(r"::(into_iter|iter|cloned|copied|collect|from_iter|clone|to_vec|to_owned|into_boxed_slice|into_vec|as_slice|deref|as_ref|borrow|into|from)$", f.def_)], keep)


class Packer(Auto):
    def __init__(s, P):
        super().__init__(P)
        s.on(chan(P, "recv", r"blob::Blob$"), s.recv)
        s.on([f for f in P.fns.values() if f.def_ == "backpak::blob::Blob::bytes"], lambda c: [(c.st, ("Y", ("nonempty",)))])
        enc = [f for f in P.fns.values() if re.search(r"std::io::Write(>)?::write_all$", f.def_) and re.search(r"(Encoder|AtomicCountWrite)<.*NamedTempFile", f.name)]
        if not enc:
            raise AnchorError("no compressed writer for packs")
        s.on(enc, s.write)
        s.on([f for f in P.fns.values() if f.def_ == "std::vec::Vec::<T, A>::push" and "PackManifestEntry" in P.ts(f.ga[0])] or defs(P, "no manifest push"), s.push)
        s.on(reworks(P), s.rework)
        s.on([f for f in P.fns.values() if re.search(r"Iterator(>)?::collect$|FromIterator<.*>>::from_iter$|Extend<.*>>::extend$|SpecFromIter.*>::from_iter$", f.def_) and _manifest(P, f) and any(SOME_LEFT_OUT.search(P.ts(g)) for g in f.ga if isinstance(g, int)) and re.search(r"Vec<backpak::pack::PackManifestEntry>|^backpak::pack::PackManifestEntry", " ".join(P.ts(g) for g in f.ga if isinstance(g, int)))], s.rework)
        s.on([f for f in P.fns.values() if re.search(r"NamedTempFile(::<.*>)?::persist$", f.def_)], s.persist)
        s.on(chan(P, "send", r"std::fs::File"), lambda c: s.send(c, "upload"))
        s.on(chan(P, "send", r"PackMetadata"), lambda c: s.send(c, "meta"))
        s.on(defs(P, r"^tempfile::.*tempfile_in$"), s.create)
        s.on(drop_glue(P, r"SyncSender<backpak::pack::PackMetadata>$"), s.dropped)
        s.on([f for f in P.fns.values() if re.match(r"^<(backpak::hashing::ObjectId|backpak::blob::Type) as std::clone::Clone>::clone$", f.def_)], lambda c: [(c.st, s.whole(c, c.args[0]))])
        s.on([f for f in P.fns.values() if re.search(r"TryFrom<(u32|u64|usize)>>::try_from$|TryFrom<(u32|u64|usize)> for (u32|u64|usize)>::try_from$", f.name)], lambda c: two(c.st, c.args[0], c.st))
        from .resume import struct_value
        from .walks import fields_of
        s.names = fields_of(P, "backpak::pack::PackManifestEntry")
        s.kinds = {k: enum_value(P, "backpak::blob::Type", k) for k in ("Chunk", "Tree")}
        s.blob = lambda kind: struct_value(P, "backpak::blob::Blob", {"id": ("Y", ("id of the blob",)), "kind": kind})
        s.count = set()

    def length(s, it, mem, v):
        return ("P", "length of the blob") if v is not None and v[0] == "Y" and v[1][0] == "nonempty" else None

    def whole(s, c, v):
        n = 0
        while v is not None and v[0] == "R" and n < 4:
            v = c.deref(v)
            n += 1
        return v

    def st(s, st):
        return dict(st)

    def site(s, c, what):
        s.count.add((what, c.caller.id, str(c.span)))

    def recv(s, c):
        d = dict(c.st)
        s.site(c, "recv")
        if d["held"]:
            c.report("blob-dropped", "the packer asks for the next blob although the previous one was not both written to a pack and listed in its manifest")
        return [(ff(c.st, held="wl", kind=k), E(0, {0: s.blob(v)})) for k, v in s.kinds.items()] + [(ff(c.st, held="", kind=None), E(1))]

    def write(s, c):
        d = dict(c.st)
        a = c.args[1] if len(c.args) > 1 else None
        if a is not None and a[0] == "R":
            a = c.deref(a)
        if a is not None and a[0] == "Y" and a[1][0] == "nonempty":
            s.site(c, "write")
            h = d["held"].replace("w", "")
            return two(ff(c.st, held=h, cur=True), UNIT, c.st)
        return two(c.st, UNIT, c.st)

    def push(s, c):
        d = dict(c.st)
        s.site(c, "list")
        e = s.whole(c, c.args[1])
        f = {s.names[i]: s.whole(c, v) for i, v in e[1]} if e is not None and e[0] == "S" else {}
        if f.get("id") != ("Y", ("id of the blob",)):
            c.report("list:id", "a blob is listed in its pack's manifest under something other than its own ID")
        if f.get("length") != ("P", "length of the blob"):
            c.report("list:length", "a blob is listed in its pack's manifest with something other than the length of its contents")
        if d["kind"] and f.get("blob_type") != s.kinds[d["kind"]]:
            c.report("list:type", "a blob is listed in its pack's manifest as something other than what it is (chunk or tree)")
        return [(ff(c.st, held=d["held"].replace("l", ""), cur=True), UNIT)]

    def rework(s, c):
        d = dict(c.st)
        if d["cur"] or "meta" in d["owed"]:
            c.report("list:changed", "entries of a pack's manifest are left out, changed or reordered after its blobs were listed")
        return None

    def create(s, c):
        if dict(c.st)["cur"]:
            c.report("pack-dropped", "a new pack is started although the current one, which holds blobs, was not finished")
        return two(ff(c.st, cur=False), None, c.st)

    def persist(s, c):
        d = dict(c.st)
        s.site(c, "finish")
        if d["owed"]:
            c.report("pack-not-handed-on", f"a second pack is finished before the previous one was handed on ({', '.join(d['owed'])})")
        return two(ff(c.st, cur=False, owed=("meta", "upload")), None, c.st)

    def send(s, c, what):
        d = dict(c.st)
        s.site(c, "send " + what)
        return two(ff(c.st, owed=tuple(x for x in d["owed"] if x != what)), UNIT, c.st)

    def dropped(s, c):
        if "upload" in dict(c.st)["owed"]:
            return [(ff(c.st, early=True), UNIT)]
        return [(c.st, UNIT)]


def packer(P, R):
    fn = one(P, "backpak::pack::pack")[0]
    sp = Packer(P)
    it = Interp(P, sp)
    res = it.run(fn, [None] * fn.body["argc"], fresh(held="", cur=False, owed=(), early=False, kind=None), {})
    R.absorb(it, "packer:")
    n = 0
    for (st, tg), _ in res.items():
        if tg == "?" or ok_tag(tg):
            n += 1
            d = dict(st)
            if d["held"]:
                R.violation("packer:end:blob", "the packer can finish successfully with a received blob not packed", [fn.def_])
            if d["cur"]:
                R.violation("packer:end:pack", "the packer can finish successfully without finishing a pack that holds blobs", [fn.def_])
            if d["owed"]:
                R.violation("packer:end:" + "+".join(d["owed"]), f"the packer can finish successfully without handing a finished pack to {' and '.join('the indexer' if x == 'meta' else 'the uploader' for x in d['owed'])}", [fn.def_])
            if d["early"]:
                R.violation("packer:early", "the packer lets go of the indexer before its last pack went to the uploader", [fn.def_])
    for what in ("recv", "write", "list", "finish", "send upload", "send meta"):
        R.need(f"packer: {what}", len([1 for x in sp.count if x[0] == what]))
    R.ob("packer: outcomes", n)


# ------------------------------------------------------------------------------------------ indexer
PACK_ID, MANIFEST = ("Y", ("id of the pack",)), ("Y", ("manifest of the pack",))


class Indexer(Auto):
    """held: a received manifest is not in the index yet; ne: the index is U(nknown) / N(on-empty) / E(mpty)
    (as are pk, its packs, and su, what it supersedes);
    saved: what was last written to a file is the current index; wip: so is the resume file; sent."""

    def __init__(s, P, wipname):
        super().__init__(P)
        s.wipname = wipname
        s.n = set()
        s.on(chan(P, "recv", r"PackMetadata$"), s.recv)
        pm = [f for f in P.fns.values() if f.def_.startswith("std::collections::BTreeMap::<K, V, A>::") and P.ts(f.ga[0]) == "backpak::hashing::ObjectId" and "PackManifestEntry" in P.ts(f.ga[1]) and "Map" not in P.ts(f.ga[1])]
        s.on([f for f in pm if f.def_.endswith("::insert")] or defs(P, "insertion into the index"), s.insert)
        s.on([f for f in pm if f.def_.endswith("::entry")], s.entry)
        s.on([f for f in P.fns.values() if re.search(r"btree_map::(entry::)?VacantEntry::<.*>::insert(_entry)?$", f.def_) and _manifest(P, f)], s.vacant)
        same_list(P, s, MANIFEST)
        s.on([f for f in P.fns.values() if f.def_ == "<backpak::hashing::ObjectId as std::clone::Clone>::clone"], lambda c: [(c.st, s.whole(c, c.args[0]))])
        from .resume import struct_value

        s.pack = struct_value(P, "backpak::pack::PackMetadata", {"id": PACK_ID, "manifest": MANIFEST})
        s.on([f for f in pm if f.def_.endswith("::is_empty")], s.is_empty)
        s.on([f for f in pm if f.def_.endswith("::len")], lambda c: s.size(c, "pk"))
        sups = [f for f in P.fns.values() if f.def_.startswith("std::collections::BTreeSet::<T, A>::") and P.ts(f.ga[0]) == "backpak::hashing::ObjectId"]
        s.on([f for f in sups if f.def_.endswith("::is_empty")], s.sup_empty)
        s.on([f for f in sups if f.def_.endswith("::len")], lambda c: s.size(c, "su"))
        s.on([f for f in P.fns.values() if f.def_.endswith("into_writer") and f.ga and P.ts(f.ga[0]).endswith("index::Index")] or defs(P, "serialisation of an index"), s.save)
        s.on([f for f in P.fns.values() if re.search(r"NamedTempFile(::<.*>)?::persist$", f.def_)], s.persist)
        s.on(chan(P, "send", r"std::fs::File"), s.send)

    def recv(s, c):
        d = dict(c.st)
        s.n.add(("recv", c.caller.id, str(c.span)))
        if d["held"]:
            c.report("manifest-dropped", "the indexer asks for the next pack although the previous one was not added to the index")
        if d["res"] and d["ne"] == "N" and not d["wip"]:
            c.report("resume-stale", "the indexer waits for the next pack while the resume file does not list every pack it knows")
        if d["res"] and d["ne"] == "U":
            c.report("resume-not-started", "the indexer waits for packs without having saved the index it started from")
        return two(ff(c.st, held=True), s.pack, ff(c.st, held=False))

    def whole(s, c, v):
        n = 0
        while v is not None and v[0] == "R" and n < 4:
            v = c.deref(v)
            n += 1
        return v

    def entry(s, c):
        k = s.whole(c, c.args[1])
        return [(c.st, E(0, {0: ("Y", ("free", k))})), (c.st, E(1))]

    def vacant(s, c):
        e = s.whole(c, c.args[0])
        k = e[1][1] if e is not None and e[0] == "Y" and e[1][0] == "free" else None
        return [(s.added(c, k, s.whole(c, c.args[1])), None)]

    def insert(s, c):
        st = s.added(c, s.whole(c, c.args[1]), s.whole(c, c.args[2]))
        return [(st, E(0)), (st, E(1))]

    def added(s, c, k, v):
        if k != PACK_ID:
            c.report("wrong-id", "a pack enters the index under something other than its own ID")
        if v != MANIFEST:
            c.report("manifest-changed", "a pack enters the index with something other than the whole of its manifest")
        s.n.add(("insert", c.caller.id, str(c.span)))
        return ff(c.st, held=False, ne="N", pk="N", saved=False, wip=False)

    def is_empty(s, c):
        return s.empty(c, "pk")

    def sup_empty(s, c):
        return s.empty(c, "su")

    def size(s, c, what):
        return [(st, ("i", 0) if v == TRUE else ("P",)) for st, v in s.empty(c, what)]

    def empty(s, c, what):
        d = dict(c.st)
        if d[what] != "U":
            return [(c.st, TRUE if d[what] == "E" else FALSE)]
        both = ff(c.st, **{what: "E"})
        return [(ff(c.st, **{what: "N", "ne": "N"}), FALSE), (ff(both, ne="E") if dict(both)["pk"] == dict(both)["su"] == "E" else both, TRUE)]

    def save(s, c):
        s.n.add(("save", c.caller.id, str(c.span)))
        return two(ff(c.st, saved=True), UNIT, c.st)

    def persist(s, c):
        d = dict(c.st)
        name = c.args[1] if len(c.args) > 1 else None
        n = 0
        while name is not None and name[0] == "R" and n < 3:
            name = c.deref(name)
            n += 1
        s.n.add(("persist", c.caller.id, str(c.span)))
        st = ff(c.st, wip=d["saved"]) if template(name) in s.wipname else c.st
        return two(st, None, c.st)

    def send(s, c):
        d = dict(c.st)
        s.n.add(("send", c.caller.id, str(c.span)))
        if d["ne"] == "N" and not d["saved"]:
            c.report("index-stale", "the index handed to the uploader may lack packs the indexer was told about")
        if d["open"]:
            c.report("index-early", "the index is handed to the uploader while packs may still be on their way")
        return two(ff(c.st, sent=True), UNIT, c.st)


class Indexer2(Indexer):
    def recv(s, c):
        r = Indexer.recv(s, c)
        return [(ff(r[0][0], open=True), r[0][1]), (ff(r[1][0], open=False), r[1][1])]


def wip_names(P):
    """The constant file names the resume machinery opens."""
    fn = one(P, "backpak::index::read_wip")[0]
    out = set()

    class Sp(Auto):
        def __init__(s, P):
            super().__init__(P)
            s.on(defs(P, r"^std::fs::File::open$|^std::fs::OpenOptions::open$"), s.op)

        def op(s, c):
            v, n = c.args[-1] if "Options" in c.fn.def_ else c.args[0], 0
            while v is not None and v[0] == "R" and n < 3:
                v = c.deref(v)
                n += 1
            out.add(template(v))
            return two(c.st, None, c.st)

    it = Interp(P, Sp(P))
    it.run(fn, [None] * fn.body["argc"], 0, {})
    out.discard("")
    if not out:
        raise AnchorError("the resume file is not read from a fixed name")
    return out


def indexer(P, R, resume):
    fn = one(P, "backpak::index::index")[0]
    names = wip_names(P)
    i = next((i for i in range(fn.body["argc"]) if P.ts(fn.body["lt"][i + 1]).endswith("index::Resumable")), None)
    if i is None:
        raise AnchorError("the indexer has no resumable mode")
    n = 0
    for mode in ("Yes", "No"):
        if resume and mode == "No":
            continue
        args = [None] * fn.body["argc"]
        args[i] = enum_value(P, "backpak::index::Resumable", mode)
        sp = Indexer2(P, names)
        it = Interp(P, sp)
        res = it.run(fn, args, fresh(held=False, ne="U", pk="U", su="U", saved=False, wip=False, sent=False, res=resume, open=True), {})
        pre = f"indexer({'resumable' if mode == 'Yes' else 'one-shot'}):"
        R.absorb(it, pre)
        if resume:
            R.need("indexer: resume file written", len([1 for x in sp.n if x[0] == "persist"]))
            R.ob("indexer: waits for a pack with the resume file up to date", len([1 for x in sp.n if x[0] == "recv"]))
            continue
        for (st, tg), (ret, _m) in res.items():
            if tg == "?" or ok_tag(tg):
                n += 1
                d = dict(st)
                val = read_path(ret, [("d", 0), 0]) if ret is not None else None
                if d["held"]:
                    R.violation(pre + "end:manifest", "the indexer can finish successfully with a pack not in the index", [fn.def_])
                if d["ne"] != "E" and not d["sent"]:
                    R.violation(pre + "end:index", "the indexer can finish successfully without storing an index that is not empty", [fn.def_])
                if d["sent"] and val == FALSE or not d["sent"] and val == TRUE:
                    R.violation(pre + "end:result", "the indexer reports the opposite of whether it stored an index", [fn.def_])
                if d["open"]:
                    R.violation(pre + "end:open", "the indexer can finish successfully before the packers are done", [fn.def_])
        for what in ("recv", "insert", "save", "send"):
            R.need(f"indexer: {what}", len([1 for x in sp.n if x[0] == what]))
    R.ob("indexer: outcomes", n)


# ------------------------------------------------------------------------------------------ uploader
class Uploader(Auto):
    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(chan(P, "recv", r"std::fs::File"), s.recv)
        s.on(cached(P, "write"), s.write)

    def recv(s, c):
        s.n.add(("recv", c.caller.id, str(c.span)))
        if dict(c.st)["held"]:
            c.report("file-dropped", "the uploader asks for the next file although the previous one was not stored")
        v = S({0: ("Y", ("name",)), 1: ("Y", ("fh",))})
        return two(ff(c.st, held=True), v, ff(c.st, held=False))

    def write(s, c):
        s.n.add(("write", c.caller.id, str(c.span)))

        def tok(v):
            n = 0
            while v is not None and v[0] == "R" and n < 4:
                v = c.deref(v)
                n += 1
            return v[1][0] if v is not None and v[0] == "Y" else None

        good = tok(c.args[2]) in ("fh", None)
        return two(ff(c.st, held=False) if good else c.st, UNIT, ff(c.st, bad=True))


def uploader(P, R):
    fn = one(P, "backpak::upload::upload")[0]
    i = next((i for i in range(fn.body["argc"]) if P.ts(fn.body["lt"][i + 1]).endswith("upload::Mode")), None)
    args = [None] * fn.body["argc"]
    if i is not None:
        args[i] = enum_value(P, "backpak::upload::Mode", "LiveFire")
    sp = Uploader(P)
    it = Interp(P, sp)
    res = it.run(fn, args, fresh(held=False, bad=False), {})
    R.absorb(it, "uploader:")
    n = 0
    for (st, tg), _ in res.items():
        if tg == "?" or ok_tag(tg):
            n += 1
            if dict(st)["held"]:
                R.violation("uploader:end", "the uploader can finish successfully with a file not stored", [fn.def_])
            if dict(st)["bad"]:
                R.violation("uploader:swallowed", "the uploader can finish successfully although storing a file failed", [fn.def_])
    R.need("uploader: recv", len([1 for x in sp.n if x[0] == "recv"]))
    R.need("uploader: write", len([1 for x in sp.n if x[0] == "write"]))
    R.ob("uploader: outcomes", n)


@rule("D02", "the pipeline's stages pass on everything they receive: blob -> pack -> index and storage")
def d02(P, R):
    packer(P, R)
    indexer(P, R, False)
    uploader(P, R)
    R.assume("blobs are never empty (empty files have no chunks, an empty tree is never packed)")


# ------------------------------------------------------------------------------------------ D05
class WipRemoval(Quiesce):
    def __init__(s, P, names):
        super().__init__(P)
        s.names = names
        s.events = set(s.join) | set(s.sp)
        s.rm = ids(defs(P, r"^std::fs::remove_file$"))
        s.events |= s.rm
        s.w = set()
        s.sites = set()

    def on_call(s, c):
        if c.fn.id in s.rm:
            v, n = c.args[0], 0
            while v is not None and v[0] == "R" and n < 3:
                v = c.deref(v)
                n += 1
            if template(v) in s.names:
                s.sites.add((c.caller.id, str(c.span)))
                pend, j, bad = c.st
                if pend:
                    c.report(f"resume-removed-early:{s.cmd}", "the resume file is removed while threads that are still storing things may be running")
                elif bad:
                    c.report(f"resume-removed-failed:{s.cmd}", "the resume file is removed although a worker failed")
            return [(c.st, OK), (c.st, ERR)]
        return Quiesce.on_call(s, c)


@rule("D05", "the resume file always lists every finished pack, and goes only when everything is stored")
def d05(P, R):
    indexer(P, R, True)
    names = wip_names(P)
    n = 0
    for cmd in ("backup", "copy", "prune", "filter_snapshot"):
        fn = command(P, cmd)
        sp = WipRemoval(P, names)
        sp.cmd = cmd
        it = Interp(P, sp)
        it.run(fn, [None] * fn.body["argc"], (frozenset(), False, False), {})
        R.absorb(it)
        n += len(sp.sites)
        R.ob(f"{cmd}: removal of the resume file", len(sp.sites))
