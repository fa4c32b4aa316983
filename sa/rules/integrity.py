"""What is read from a repository is what was asked for."""
import re

from ..common import *
from ..report import rule
from .destructive import T, lab
from .pipeline import ff, fresh

READERS = r"^backpak::backend::CachedBackend::read(_pack|_index|_snapshot)$"
SCALAR = re.compile(r"^std::io::Read::(read_exact|read_to_end|read_to_string|read_buf)$|^std::io::copy$|.* as std::io::Read>::(read_exact|read_to_end|read_to_string|read)$")


def reads_hashed(P):
    """Reading something to its end through the hasher."""
    out = []
    for f in P.fns.values():
        if not f.ga:
            continue
        tys = [P.ts(g) for g in f.ga if isinstance(g, int)]
        if re.match(r"^ciborium::(de::)?from_reader(_with_buffer)?$", f.def_) and "HashingReader<" in tys[1]:
            out.append(f)
        elif re.match(r"^std::io::Read::(read_to_end|read_exact|read_to_string)$|^std::io::copy$", f.def_) and tys[0].startswith("backpak::hashing::HashingReader<"):
            out.append(f)
    return out


def reads_plain(P):
    """Decoding, or keeping decompressed bytes, without hashing them."""
    out = []
    for f in P.fns.values():
        if not f.ga:
            continue
        tys = [P.ts(g) for g in f.ga if isinstance(g, int)]
        if re.match(r"^ciborium::(de::)?from_reader(_with_buffer)?$", f.def_) and "HashingReader<" not in tys[1] and not re.match(r"^&(mut )?\[u8\]|^std::io::Cursor", tys[1]):
            out.append(f)
        elif re.match(r"^std::io::Read::(read_to_end|read_exact|read_to_string)$", f.def_) and "zstd::stream::read::Decoder" in tys[0] and not tys[0].startswith("backpak::hashing::HashingReader<"):
            out.append(f)
        elif f.def_ == "std::io::copy" and "zstd::stream::read::Decoder" in tys[0] and "HashingReader<" not in tys[0] and tys[1] != "std::io::Sink":
            out.append(f)
        elif re.match(r"^zstd::stream::(functions::)?(decode_all|copy_decode)$|^zstd::bulk::(decompress|Decompressor::.*::decompress\w*)$", f.def_):
            out.append(f)
    return out


class Loaded(Auto):
    """State: magic - were the magic bytes looked at (F/T), dirty - is there anything decoded whose hash wasn't found to be right
    (F: no, T: yes, X: it was found wrong)."""

    taint = True

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(defs(P, READERS), s.get)
        s.on(defs(P, r"^backpak::hashing::HashingReader::<.*>::new$"), s.begin)
        s.on(reads_hashed(P), s.data)
        s.on(reads_plain(P), s.plain)
        s.on(defs(P, r"^backpak::hashing::HashingReader::<.*>::finalize$"), s.finalize)
        eq = [f for f in P.fns.values() if re.search(r"PartialEq.*::(eq|ne)$", f.def_)]
        s.on([f for f in eq if f.def_ == "<backpak::hashing::ObjectId as std::cmp::PartialEq>::eq" or f.def_ == "std::cmp::PartialEq::ne" and f.ga and P.ts(f.ga[0]) == "backpak::hashing::ObjectId"], s.compare)
        lst = lambda f, ty: f.ga and isinstance(f.ga[0], int) and P.ts(f.ga[0]) == ty and re.search(r"impl|SlicePartialEq|\[T\]", f.def_)
        s.on([f for f in eq if lst(f, "backpak::pack::PackManifestEntry")], s.manifests)
        s.on([f for f in eq if lst(f, "u8")], s.bytes)
        s.on(defs(P, r"^zstd::stream::read::Decoder::<.*>::(new|with_buffer)$"), s.decoder)
        s.on([f for f in P.fns.values() if re.search(r"(BinaryHeap|HashMap)::<.*>::(push|insert)$", f.def_) and f.ga and len(f.ga) > 1 and P.ts(f.ga[0]) == "backpak::hashing::ObjectId" and re.search(r"TimestampedChunk|Tree|Vec<u8>|BTreeMap<camino", P.ts(f.ga[1]) if isinstance(f.ga[1], int) else "")], s.keep)
        s.on([f for f in P.fns.values() if re.match(r"^<std::vec::Vec<.*> as std::ops::(Deref|DerefMut)>::deref(_mut)?$|^std::vec::Vec::<.*>::as_(mut_)?slice$", f.def_) and f.ga and f.ga[0] in s.u8(P)], lambda c: [(c.st, c.args[0])])
        s.on([f for f in P.fns.values() if re.match(r"^std::io::Read::read_exact$|.* as std::io::Read>::read_exact$", f.def_) and f not in reads_hashed(P)], s.fill)
        s.on([f for f in P.fns.values() if re.match(r"^<&?(mut )?std::fs::File as std::io::Read>::read$", f.def_)], s.short)
        s.on([f for f in P.fns.values() if re.search(r" as std::ops::Index(Mut)?<.*>>::index(_mut)?$|<impl std::ops::Index(Mut)?<.*> for \[.*\]>::index(_mut)?$|^std::slice::<impl \[T\]>::(get|get_mut|get_unchecked|split_at|split_first|split_last|first_chunk|last_chunk|split_first_chunk|starts_with|ends_with|strip_prefix)$", f.def_) and f.ga and f.ga[0] in s.u8(P)], s.cut)
        s.on([f for f in P.fns.values() if re.match(r"^<(std::slice::(iter::)?(Iter|IterMut)|std::vec::(into_iter::)?IntoIter)<.*> as std::iter::Iterator>::next$", f.def_) and any(isinstance(g, int) and re.search(r"^&*(mut )?backpak::pack::PackManifestEntry$", P.ts(g)) for g in f.ga or [])],
             lambda c: [(c.st, E(1, {0: T("entry", *lab(c, c.args[0]))})), (c.st, E(0))])
        s.on(ids(spawn_fns(P)), lambda c: None)
        s.on(ids(join_fns(P)), lambda c: [(c.st, join_result(c))])

    on_spawn = threads_inline

    def cut(s, c):
        """Part of some bytes."""
        v = c.args[0]
        n = 0
        while v is not None and v[0] == "R" and n < 3:
            v, n = c.deref(v), n + 1
        if "file" not in lab(c, c.args[0]) and not (v is not None and v[0] == "B"):
            return None
        if len(c.args) > 1 and "RangeFull" in "".join(s.prog.ts(t) for t in c.argtypes[1:2]):
            return [(c.st, c.args[0])]
        if c.fn.def_.endswith(("starts_with", "ends_with")):
            return None
        v = T("cut", *lab(c, c.args[0]))
        if re.search(r"::(get|get_mut|split_first|split_last|first_chunk|last_chunk|split_first_chunk|strip_prefix)$", c.fn.def_):
            return [(c.st, E(1, {0: v})), (c.st, E(0))]
        return [(c.st, v)]

    def u8(s, P):
        return {i for i in range(len(P.types)) if P.ts(i) == "u8"}

    def mark(s, c, what):
        s.n.add((what, c.caller.id, str(c.span)))

    def short(s, c):
        """May read less than the buffer holds."""
        if "file" not in lab(c, c.args[0]):
            return None
        c.store(c.args[1], T("cut", "file"))
        return [(c.st, OK), (c.st, ERR)]

    def fill(s, c):
        if "file" not in lab(c, c.args[0]):
            return None
        c.store(c.args[1], T("file"))
        return [(c.st, OK), (c.st, ERR)]

    def get(s, c):
        s.mark(c, "read")
        return [(ff(c.st, magic=False, kind=c.fn.def_.rsplit("_", 1)[-1]), E(0, {0: T("file")})), (c.st, E(1))]

    def begin(s, c):
        if dict(c.st)["dirty"] != "F":
            c.report(f"next:{c.caller.def_}", "something else is read although what was read before was not found to match its ID")
        s.look(c)
        return [(c.st, T("hr", "file"))]

    def look(s, c):
        if not dict(c.st)["magic"]:
            c.report(f"magic:{c.caller.def_}", "a file is decoded without its magic bytes having been looked at")

    def decoder(s, c):
        s.look(c)
        return [(c.st, E(0, {0: T("file")})), (c.st, E(1))]

    def data(s, c):
        s.mark(c, "data")
        i = 1 if re.search(r"Read::", c.fn.def_) else None
        if i is not None and len(c.args) > i:
            c.store(c.args[i], T("file"))
        return [(ff(c.st, dirty="T"), E(0, {0: T("decoded", "file")})), (ff(c.st, dirty="T"), E(1))]

    def plain(s, c):
        c.report(f"plain:{c.caller.def_}", "contents of a repository's file are decoded without being hashed")
        return [(ff(c.st, dirty="T"), E(0, {0: T("decoded", "file")})), (c.st, E(1))]

    def finalize(s, c):
        s.mark(c, "hash")
        return [(c.st, S({0: T("computed")}))]

    def outcome(s, c, good, bad):
        t, f = (TRUE, FALSE) if c.fn.def_.endswith("eq") else (FALSE, TRUE)
        return [(good, t), (bad, f)]

    def compare(s, c):
        a, b = lab(c, c.args[0]), lab(c, c.args[1])
        if ("computed" in a) == ("computed" in b):
            return None
        s.mark(c, "compare")
        d = dict(c.st)
        of = tuple(sorted(b if "computed" in a else a))
        return s.outcome(c, ff(c.st, dirty="F", of=of) if d["dirty"] == "T" else c.st, ff(c.st, dirty="X"))

    def manifests(s, c):
        a, b = lab(c, c.args[0]), lab(c, c.args[1])
        if ("decoded" in a) == ("decoded" in b):
            return None
        s.mark(c, "compare")
        return s.outcome(c, ff(c.st, dirty="F"), ff(c.st, dirty="X"))

    def bytes(s, c):
        a, b = lab(c, c.args[0]), lab(c, c.args[1])
        if ("file" in a) == ("file" in b):
            return None
        s.mark(c, "magic")
        if "cut" in a | b:
            return [(c.st, TRUE), (c.st, FALSE)]
        k = c.args[1] if "file" in a else c.args[0]
        n = 0
        while k is not None and k[0] == "R" and n < 4:
            k, n = c.deref(k), n + 1
        s.n.add(("const", dict(c.st).get("kind"), template(k)))
        return s.outcome(c, ff(c.st, magic=True), c.st)

    def keep(s, c):
        s.mark(c, "keep")
        if dict(c.st)["dirty"] != "F":
            c.report(f"kept:{c.caller.def_}", "something read is kept for others although it was not found to match its ID")
        of = dict(c.st).get("of")
        key = lab(c, c.args[1]) if len(c.args) > 1 else set()
        if of is not None and set(of) - {"computed"} != set(key) - {"computed"}:
            c.report(f"key:{c.caller.def_}", f"something read is kept for others under something other than the ID it was found to match")
        return None


def loaders(P):
    """The lowest functions in which files of the repository are both fetched and decoded."""
    return scopes_of(P, defs(P, READERS), defs(P, r"^backpak::hashing::HashingReader::<.*>::new$|^ciborium::(de::)?from_reader$|^zstd::stream::read::Decoder::<.*>::new$"))


def scopes_of(P, goals, needs):
    from .durability import scopes
    return sorted(scopes(P, goals, needs))


def explore(P, root, sps, depth=0):
    """Reports for a loader; one that hands out unverified contents is judged by its callers."""
    fn = P.fns[root]
    sp = Loaded(P)
    it = Interp(P, sp)
    res = it.run(fn, [T("asked")] * fn.body["argc"], fresh(magic=False, dirty="F", kind="?", of=None), {})
    sps.append((fn, sp, it))
    loose = [st for (st, tg), _ in res.items() if (tg == "?" or not err_tag(tg)) and dict(st)["dirty"] != "F"]
    if not loose:
        return []
    up = sorted(i for i in P.pred.get(root, ()) if P.fns[i].body is not None and P.fns[i].krate.startswith("backpak"))
    if fn.def_.endswith("::run") or depth > 1 or not up or fn.def_.startswith("<"):
        return [fn]
    return [x for i in up for x in explore(P, i, sps, depth + 1)] and [fn]


def integrity(P):
    if not hasattr(P, "_integrity"):
        out = []
        for r in loaders(P):
            sps = []
            loose = explore(P, r, sps)
            out.append((P.fns[r], sps, loose))
        P._integrity = out
    return P._integrity


def only_from(P, f, pat):
    """Is a function called by such functions only, if indirectly?"""
    seen, todo = set(), [f.id]
    while todo:
        for i in P.pred.get(todo.pop(), ()) or (None,):
            if i is None:
                return False
            if i not in seen and not re.match(pat, P.fns[i].def_):
                if not P.fns[i].krate.startswith("backpak"):
                    return False
                todo.append(i)
            seen.add(i)
    return True


@rule("I01", "everything read from a repository is hashed and found to match its ID before it is used")
def i01(P, R):
    seen = set()
    for fn, sps, loose in integrity(P):
        for f, sp, it in sps:
            it2 = type("", (), {})
            keep = {k: v for k, v in it.reports.items() if not k.startswith("magic:")}
            full, it.reports = it.reports, keep
            R.absorb(it)
            it.reports = full
            seen |= sp.n
        R.ob(f"{fn.def_}: contents compared to the ID before use", 1)
        for f in loose:
            R.violation(f"unchecked:{f.def_}", "contents read from the repository can be used without having been found to match their ID", [P.loc(f)])
    fieldwise(P, R, "backpak::hashing::ObjectId", cmp=True)
    R.need("loaders", len(integrity(P)), 6)
    for w, k in (("read", 6), ("data", 6), ("hash", 6), ("compare", 6), ("keep", 2)):
        R.need(w, len([1 for x in seen if x[0] == w]), k)
    # nothing else gets at the files
    rd = ids([f for f in P.fns.values() if f.def_ == "backpak::backend::CachedBackend::read"])
    for f in P.fns.values():
        if f.krate.startswith("backpak") and f.body is not None and f.succ & rd and not re.match(READERS, f.def_) and not only_from(P, f, READERS):
            R.violation(f"around:{f.def_}", "files of the repository are read other than as a pack, index or snapshot", [P.loc(f)])
    for f in defs(P, READERS):
        for i in P.pred.get(f.id, ()):
            R.ob(f"{P.fns[i].def_}: reads through a checked loader")
    from .checking import trees_asked
    trees_asked(P, R)


class Writes(Auto):
    def __init__(s, P):
        super().__init__(P)
        s.seen = set()
        s.on([f for f in P.fns.values() if re.search(r"std::io::Write(>)?::(write_all|write)$", f.def_)], s.put)
        s.writes = set(s.events)
        s.on([f for f in P.fns.values() if re.search(r"slice::<impl \[T\]>::(to_vec|concat|into_vec)$|^std::vec::Vec::<.*>::extend_from_slice$|Vec<.*Extend<.*>>::extend$|Vec<.*From<.*>>::from$", f.def_) and "u8" in f.name], s.copied)

    def copied(s, c):
        """What is put together first, to be written then."""
        for v in c.args:
            n = 0
            while v is not None and v[0] == "R" and n < 4:
                v, n = c.deref(v), n + 1
            if template(v):
                s.seen.add(template(v))
        return None

    def put(s, c):
        v, n = c.args[1] if len(c.args) > 1 else None, 0
        while v is not None and v[0] == "R" and n < 4:
            v, n = c.deref(v), n + 1
        if template(v):
            s.seen.add(template(v))
        return [(c.st, OK), (c.st, ERR)] if c.fn.def_.endswith("write_all") else None


def written(P, R):
    """The constants the program writes to files."""
    out = set()
    sp = Writes(P)
    for f in [f for f in P.fns.values() if f.body is not None and f.krate.startswith("backpak") and f.succ & sp.writes]:
        sp = Writes(P)
        it = Interp(P, sp)
        it.run(f, [None] * f.body["argc"], 0, {})
        out |= sp.seen
    return out


@rule("I03", "no file of a repository is decoded before its magic bytes were found to be right")
def i03(P, R):
    seen = set()
    for fn, sps, _ in integrity(P):
        for f, sp, it in sps:
            full, it.reports = it.reports, {k: v for k, v in it.reports.items() if k.startswith("magic:")}
            R.absorb(it)
            it.reports = full
            seen |= sp.n
        R.ob(f"{fn.def_}: magic bytes before decoding", 1)
    R.need("comparisons of magic bytes", len([1 for x in seen if x[0] == "magic"]), 1)
    # what's compared is what gets written, and tells the kinds of files apart
    consts = {}
    for x in seen:
        if x[0] == "const" and x[2]:
            consts.setdefault(x[1], set()).add(x[2])
    wrote = written(P, R)
    for k, cs in sorted(consts.items()):
        R.ob(f"magic bytes of {k} files are the ones written", len(cs))
        for v in sorted(cs):
            if v not in wrote:
                R.violation(f"never-written:{k}", f"{k} files are expected to start with {v!r}, which is never written", [])
            for k2, cs2 in consts.items():
                if k2 != k and v in cs2:
                    R.violation(f"same:{min(k, k2)}:{max(k, k2)}", f"{k} and {k2} files are expected to start with the same magic bytes", [])
    fieldwise(P, R, "backpak::hashing::ObjectId", cmp=True)
    R.need("loaders", len(integrity(P)), 6)


# ------------------------------------------------------------------------------------------ I04
BUF, COUNT, PART = ("Y", ("buf",)), ("P", "count"), ("Y", ("read part",))


class Hasher(Auto):
    """A hashing reader or writer passes on exactly what it hashes. State: what was passed on
    ('no': nothing yet, 'zero': an empty part, 'some': a part), with a 1 once that was hashed, or 'bad'."""

    def __init__(s, P, op):
        super().__init__(P)
        s.n = set()
        s.op, s.exact = op, op in ("read_exact", "write_all")
        inner = [f for f in P.fns.values() if re.search(r"(^std::io::(Read|Write)::| as std::io::(Read|Write)>::|impl std::io::(Read|Write) for [^>]*(<.*>)?>::)(read|write|read_buf|write_all|read_exact|write_vectored|read_vectored)$", f.def_) and "Hashing" not in f.def_]
        s.on(inner, s.inner)
        s.on([f for f in P.fns.values() if re.search(r"(::Update|Digest)( as .*)?>::update$|::(Update|Digest)::(update|chain_update)$", f.def_)], s.update)
        s.on([f for f in P.fns.values() if re.search(r"(std::ops|core::ops|std::slice|core::slice|std::array).*Index(Mut)?(<.*>)?.*>::index(_mut)?$|SliceIndex<.*>::(index|index_mut)$", f.def_)], s.slice)
        s.on([f for f in P.fns.values() if re.search(r"^(std|core)::slice::<impl \[T\]>::(split_at|split_at_mut|get|get_mut)$", f.def_)], s.slice)

    def inner(s, c):
        s.n.add(("inner", c.caller.id, str(c.span)))
        whole = s.same(c, c.args[1], BUF)
        if "_exact" in c.fn.def_ or "_all" in c.fn.def_:
            # all of it, or an error
            return [("some" if whole and c.st == "no" else "some1" if whole and c.st == "early" else "bad", OK), ("err", ERR)]
        # nothing passed on (there may be nothing to hash), or something
        if c.st not in ("no", "zero", "zero1"):
            return [("bad", None)]
        return [("zero", E(0, {0: ("i", 0)})), ("some", E(0, {0: COUNT if whole else None})), ("no", E(1))]

    def same(s, c, v, what):
        n = 0
        while v is not None and v[0] == "R" and n < 4:
            v = c.deref(v)
            n += 1
        return v == what

    def slice(s, c):
        if not s.same(c, c.args[0], BUF):
            return None
        r = c.args[1]
        name = c.fn.name
        end = None
        if c.fn.def_.endswith(("split_at", "split_at_mut")):
            return [(c.st, S({0: PART if r in (COUNT, ("i", 0)) else None}))]
        if "RangeTo<" in name:
            end = field(r, 0) if r is not None and r[0] == "S" else None
        elif "Range<" in name:
            end = field(r, 1) if r is not None and r[0] == "S" and field(r, 0) == ("i", 0) else None
        elif "RangeFull" in name:
            return [(c.st, c.args[0])]
        v = PART if end == COUNT or end == ("i", 0) else None
        if c.fn.def_.endswith(("get", "get_mut")):
            return [(c.st, E(1, {0: v} if v else {})), (c.st, E(0))]
        return [(c.st, v)]

    def update(s, c):
        s.n.add(("update", c.caller.id, str(c.span)))
        if s.exact:
            whole = s.same(c, c.args[1], BUF)
            # what is written can be hashed before it is
            return [("some1" if whole and c.st == "some" else "early" if whole and c.st == "no" and s.op == "write_all" else "bad", None)]
        ok = s.same(c, c.args[1], PART) and c.st in ("zero", "some")
        return [(c.st + "1" if ok else "bad", None)]


@rule("I04", "the hashing reader and writer hash exactly the bytes that pass through them")
def i04(P, R):
    n = 0
    for ty, op in (("Reader", "read"), ("Writer", "write")):
        fs = [f for f in P.fns.values() if re.match(rf"^<backpak::hashing::Hashing{ty}<.> as std::io::(Read|Write)>::\w+$", f.def_) and f.body is not None]
        if not any(f.def_.endswith("::" + op) for f in fs):
            raise AnchorError(f"Hashing{ty} no longer has a {op}()")
        for f in fs:
            m = f.def_.rsplit("::", 1)[1]
            if m == "flush":
                continue
            if m not in (op, {"read": "read_exact", "write": "write_all"}[op]):
                R.violation(f"other:{ty}:{m}", f"Hashing{ty} passes bytes on in another way ({m}) that was not found to hash them", [P.loc(f)])
                continue
            sp = Hasher(P, m)
            it = Interp(P, sp)
            res = it.run(f, [None, BUF], "no", {})
            R.absorb(it)
            for (st, tg), (ret, _m) in res.items():
                if tg == "?" or ok_tag(tg):
                    n += 1
                    if st not in ("zero", "zero1", "some1"):
                        R.violation(f"hash:{ty}", f"Hashing{ty} can pass on bytes that it does not hash, or hash others", [P.loc(f)])
                    if sp.exact:
                        continue
                    if ret is None or ret[0] != "E" or any(dict(fs_).get(0) != (COUNT if st == "some1" else ("i", 0)) for var, fs_ in ret[1] if var == 0):
                        R.violation(f"count:{ty}", f"Hashing{ty} can report another number of bytes than it passed on", [P.loc(f)])
                elif st in ("bad", "some1") and not sp.exact:
                    R.violation(f"hash:{ty}", f"Hashing{ty} can hash bytes that it does not pass on", [P.loc(f)])
            R.need(f"{ty}: passes on", len([1 for x in sp.n if x[0] == "inner"]))
            R.need(f"{ty}: hashes", len([1 for x in sp.n if x[0] == "update"]))
    R.ob("successful reads and writes", n)


# ------------------------------------------------------------------------------------------ equality
class Equal(Auto):
    """What a type's == or cmp says of two values of which it's known in which fields they differ."""
    tokens = True

    def __init__(s, P, fn):
        super().__init__(P)
        s.n = 0
        s.on([f for f in P.fns.values() if f is not fn and re.search(r"(PartialEq(<.*>)?|Ord|PartialOrd(<.*>)?)(>| for .*>)?::(eq|ne|cmp|partial_cmp)$", f.def_)], s.compare)
        s.on([f for f in P.fns.values() if re.search(r"(::as_slice|AsRef(<.*>)?>::as_ref|Deref>::deref|Borrow(<.*>)?>::borrow|::as_bytes|::as_str|::as_path|Clone>::clone)$", f.def_)], s.same)

    def val(s, c, v):
        n = 0
        while v is not None and v[0] == "R" and n < 5:
            v, n = c.deref(v), n + 1
        return v

    def same(s, c):
        v = s.val(c, c.args[0])
        return [(c.st, v)] if v is not None and v[0] == "Y" else None

    def compare(s, c):
        a, b = s.val(c, c.args[0]), s.val(c, c.args[1])
        if a is None or b is None or a[0] != "Y" or b[0] != "Y":
            return None
        s.n += 1
        op = c.fn.def_.rsplit("::", 1)[1]
        if op in ("eq", "ne"):
            return [(c.st, TRUE if (a == b) == (op == "eq") else FALSE)]
        r = ORD[0] if a == b else ORD[1]
        return [(c.st, r if op == "cmp" else E(1, {0: r}))]


ORD = (E(1), E(0))  # Equal, Less


def fieldwise(P, R, name, cmp=False):
    """Two values of a type are equal just if all of their fields are."""
    a = next((a for a in P.adts if a["name"] == name), None)
    if a is None:
        raise AnchorError(f"no type {name}")
    for op in ("eq", "cmp") if cmp else ("eq",):
        fs = [f for f in P.fns.values() if f.def_ == f"<{name} as std::cmp::{'Ord' if op == 'cmp' else 'PartialEq'}>::{op}" and f.body is not None]
        if not fs:
            R.violation(f"equality:{name}:{op}", f"{name} no longer has a {op}()", [])
        for fn in fs:
            def says(x, y):
                it = Interp(P, Equal(P, fn))
                refs = []
                m = {}
                for i, v in enumerate((x, y)):
                    m[("arg", i)] = v
                    refs.append(("R", frozenset({(("arg", i), (), None)})))
                out = set()
                for (_st, _tg), (ret, _m) in it.run(fn, refs, 0, m).items():
                    if op == "eq":
                        out |= {True, False} if ret is None or ret[0] != "i" else {bool(ret[1])}
                    else:
                        vs = {v for v, _ in ret[1]} if ret is not None and ret[0] == "E" else {0, 1, 2}
                        out |= {v == 1 for v in vs}
                return out
            short = name.rsplit("::", 1)[1]
            for vi, (vn, _d, fields) in enumerate(a["variants"]):
                def val(diff):
                    d = {i: ("Y", (f, 2 if i == diff else 1)) for i, f in enumerate(fields)}
                    return S(d) if a["kind"] == "Struct" else E(vi, d)
                pre = f"{short}" if a["kind"] == "Struct" else f"{short}::{vn}"
                if fields and True not in says(val(None), val(None)):
                    R.violation(f"equality:{pre}:{op}", f"two of {pre} that are the same are not found to be", [P.loc(fn)])
                for i, f in enumerate(fields):
                    if True in says(val(None), val(i)):
                        R.violation(f"equality:{pre}.{f}:{op}", f"two of {pre} that differ in `{f}` can be taken to be the same", [P.loc(fn)])
                    R.ob(f"{pre}: {op} of values that differ in {f}")
                for vj in range(vi):
                    if True in says(val(None), E(vj, {i: ("Y", (f, 1)) for i, f in enumerate(a["variants"][vj][2])})):
                        R.violation(f"equality:{pre}/{a['variants'][vj][0]}:{op}", f"{pre} and {a['variants'][vj][0]} can be taken to be the same", [P.loc(fn)])
