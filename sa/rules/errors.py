"""Failures are reported: an operation that fails makes what asked for it fail."""
import re

from ..common import *
from ..report import rule
from .durability import cached
from .destructive import text
from .pipeline import wip_names, ff, fresh

POS = ("P",)


class Fails(Auto):
    """Every operation may fail. State: () as long as none has, ('failed', where, which) afterwards."""

    def __init__(s, P, ops, quiet=(), keep=True):
        super().__init__(P)
        s.n = set()
        s.on(ops, s.op)
        s.on(ids(spawn_fns(P)), lambda c: None)
        s.on(ids(join_fns(P)), lambda c: [(c.st, join_result(c))])
        # how many went wrong can be counted
        at = lambda m: [f for f in P.fns.values() if re.match(r"^std::sync::atomic::Atomic(::<\w+>|\w+)::%s$" % m, f.def_)]
        s.on(at("new"), lambda c: [(c.st, S({0: c.args[0]}) if c.args[0] is not None else None)])
        s.on(at("fetch_add"), s.add)
        s.on(at("load"), s.load)
        s.on(at("into_inner"), lambda c: [(c.st, field(c.args[0], 0) if c.args[0] is not None and c.args[0][0] == "S" else None)])
        s.on(at("store") + at("swap"), s.put)
        s.on(at("fetch_or"), s.add)
        s.on([f for f in P.fns.values() if f.def_ == "std::process::exit"], s.exit)
        s.on(quiet, lambda c: [(c.st, E(0)), (c.st, E(1))])

    on_spawn = threads_inline

    def outcomes(s, c):
        """(result when it worked, result when it failed)"""
        out = s.prog.ts(c.fn.ret) if getattr(c.fn, "ret", None) is not None else ""
        return OK, ERR

    def op(s, c):
        s.n.add((c.caller.id, str(c.span)))
        where = s.where(c)
        fail = c.st if c.st else ("failed", where, c.fn.def_)
        good, bad = s.outcomes(c)
        return [(c.st, good), (fail, bad)]

    def where(s, c):
        """The innermost call that isn't the storage's own."""
        w, f = c.site(), c.frame
        if not c.caller.def_.startswith("backpak::backend::"):
            return w
        while f is not None:
            if f.fn is not None and f.site is not None and f.site[0].local and not f.site[0].def_.startswith("backpak::backend::"):
                return c.it.prog.loc(*f.site)
            f = f.parent
        return w

    def exit(s, c):
        v = c.args[0]
        if c.st and not (v is not None and v[0] == "i" and v[1] != 0 or v == POS):
            c.report(f"exit:{c.caller.def_}", f"the process can exit successfully although {c.st[2]} failed at {c.st[1]}")
        return []

    def add(s, c):
        v = c.deref(c.args[0])
        a = c.args[1] if len(c.args) > 1 else None
        old = field(v, 0) if v is not None else None
        if v is not None and v[0] == "S":
            new = POS if a is not None and (a == POS or a[0] == "i" and a[1] > 0) else old if a == ("i", 0) else None
            c.store(c.args[0], S({0: new}) if new is not None else S({}))
        return [(c.st, old)]

    def put(s, c):
        v = c.deref(c.args[0])
        c.store(c.args[0], S({0: c.args[1]}) if c.args[1] is not None else S({}))
        return [(c.st, field(v, 0) if v is not None and v[0] == "S" and c.fn.def_.endswith("swap") else None)]

    def load(s, c):
        v = c.deref(c.args[0])
        return [(c.st, field(v, 0) if v is not None and v[0] == "S" else None)]


def judge(P, R, fn, sp, argv=None, mem=None, what="", key=None):
    it = Interp(P, sp)
    res = it.run(fn, argv or [None] * fn.body["argc"], (), mem or {})
    R.absorb(it)
    for (st, tg), _v in res.items():
        if st and st[0] == "buffered" and not err_tag(tg):
            R.violation(f"{key or fn.def_}:unflushed:{st[1].rsplit(':', 1)[0]}", f"{what or fn.def_} can succeed with something written at {st[1]} still in a buffer, where failing to write it goes unnoticed", [P.loc(fn)])
        elif st and not err_tag(tg):
            R.violation(f"{key or fn.def_}:{st[2].rsplit('::', 1)[-1]}:{st[1].rsplit(':', 1)[0]}", f"{what or fn.def_} can succeed although {st[2]} failed at {st[1]}", [P.loc(fn)])
    return it, res


@rule("E01", "a command fails if an operation on the repository failed")
def e01(P, R):
    ops = [f for m in ("read", "write", "remove", "list") for f in cached(P, m)]
    tot = 0
    for cmd in COMMANDS:
        fn = command(P, cmd)
        sp = Fails(P, ops)
        # asking whether there is anything at a path, like `exists`
        sp.on([f for f in P.fns.values() if re.match(r"^std::result::Result::<.*>::is_(ok|err)$", f.def_) and f.ga and isinstance(f.ga[0], int) and P.ts(f.ga[0]) == "std::fs::Metadata"], exists)
        it, res = judge(P, R, fn, sp, what=f"the command `{cmd}`", key=cmd)
        R.ob(f"{cmd}: fails if an operation on the repository does", len(sp.n))
        tot += len(sp.n)
    R.need("operations on the repository", tot, 30)
    # and such an operation, if what it's done with did
    raw = [f for m in ("read", "write", "remove", "list") for f in backend_op(P, m)] + [f for f in P.fns.values() if re.match(r"^backpak::file_util::move_opened(::<.*>)?$", f.def_)]
    tot = 0
    for fn in ops:
        sp = Fails(P, [f for f in raw if f.id != fn.id])
        judge(P, R, fn, sp)
        R.ob(f"{fn.def_}: fails if the storage does", len(sp.n))
        tot += len(sp.n)
    R.need("operations on the storage", tot, 8)
    # the process tells
    fn = one(P, "backpak::main")[0]
    runs = [command(P, c) for c in COMMANDS]
    sp = Fails(P, runs)
    it = Interp(P, sp)
    res = it.run(fn, [None] * fn.body["argc"], (), {})
    R.absorb(it)
    for (st, tg), (v, _m) in res.items():
        if st and not err_tag(tg) and not (v is not None and v[0] == "i" and v[1] != 0):
            R.violation(f"main:{st[2]}", f"the process can exit successfully although {st[2]} failed", [P.loc(fn)])
    R.need("commands the process runs", len(sp.n), len(COMMANDS))


# ------------------------------------------------------------------------------------------ E02
FOREIGN = re.compile(
    r"^std::fs::(?!OpenOptions::(new|read|write|create|create_new|append|truncate|clone)$|Metadata|Permissions|FileType|FileTimes|DirBuilder::(new|recursive)|DirEntry::(path|file_name)|.*::fmt$)\w+(::\w+)*$"
    r"|^std::os::unix::fs::\w+$"
    r"|^std::io::copy$|^std::io::(Read|Write|Seek|BufRead)::(?!by_ref|bytes|take|chain)\w+$"
    r"|^<(std::fs::File|&std::fs::File|std::process::\w+|tempfile::.*|dyn std::io::\w+.*) as std::io::(Read|Write|Seek)>::(?!by_ref|bytes|take|chain|is_\w+)\w+$"
    r"|^std::process::(Command::(spawn|output|status)|Child::(wait|wait_with_output|try_wait))$"
    r"|^camino::(Utf8Path|Utf8DirEntry)::(metadata|symlink_metadata|read_dir_utf8|read_dir|read_link|read_link_utf8|canonicalize\w*|file_type|try_exists)$"
    r"|^<(camino::ReadDirUtf8|std::fs::ReadDir) as std::iter::Iterator>::next$"
    r"|^rusqlite::(Connection::(execute\w*|open\w*|prepare\w*|query_row\w*|pragma_\w+)|statement::Statement::<.*>::(query|execute|query_map|query_row|exists|insert)|row::Rows::<.*>::next|row::Row::<.*>::get|transaction::.*::(transaction\w*|commit|rollback|savepoint))$"
    r"|^tempfile::(.*::)?(tempfile|tempfile_in|tempdir|tempdir_in|persist|persist_noclobber|keep|reopen|new|new_in)$"
    r"|^(rustix|nix|filetime)::(?!.*(::new|::from\w*|::bits|::contains|::empty|::all|Timestamp|fmt)$).*$"
    r"|^memmap2::(Mmap|MmapOptions|MmapMut)::(map|map_copy|map_mut|flush)$")

NOTFOUND, EXDEV, OTHER = ("Y", ("err", "not found")), ("Y", ("err", "cross-device")), ("Y", ("err", "other"))


def result_type(P, f):
    """The type a function returns, as text."""
    if f.body is not None:
        return P.ts(f.body["lt"][0])
    if not hasattr(P, "_ret_types"):
        P._ret_types = {}
        for g in P.fns.values():
            for b in g.body["bl"] if g.body is not None else ():
                t = b[1]
                if t[0] == "call" and isinstance(t[1], int) and len(t[3]) == 1:
                    P._ret_types.setdefault(t[1], P.ts(g.body["lt"][t[3][0]]))
    return P._ret_types.get(f.id, "")


def foreign(P, pat=FOREIGN):
    """Calls out of the program that can fail."""
    return [f for f in P.fns.values() if not f.krate.startswith("backpak") and pat.search(f.def_) and re.match(r"std::(result::Result|option::Option<std::result::Result)<", result_type(P, f))]


def wrap_result(ty, err):
    """(results when it worked, result when it failed) of an operation returning `ty`."""
    if ty.startswith("std::option::Option"):
        return [E(1, {0: OK}), NONE], E(1, {0: E(1, {0: err})})
    if ty.startswith("std::result::Result<std::option::Option"):
        return [E(0, {0: E(1)}), E(0, {0: NONE})], E(1, {0: err})
    return [OK], E(1, {0: err})


class Steps(Fails):
    """Every call out of the program may fail, in some cases in a way that is no failure."""

    aside = ("tempfile",)  # cleans up after itself when dropped
    other = 1  # what kind of error one is that nothing excuses: permission denied

    def __init__(s, P, ops, excuse=lambda c: None):
        super().__init__(P, ops)
        s.excuse = excuse
        bw = [f for f in P.fns.values() if "BufWriter" in f.def_ or re.match(r"^std::io::Write::(write_fmt|write_all|by_ref)$", f.def_) and f.ga and P.ts(f.ga[0]).startswith("std::io::BufWriter<")]
        s.on([f for f in bw if re.search(r"::(write|write_all|write_fmt|flush|write_vectored|into_inner)$", f.def_)], s.buffered)
        s.on([f for f in bw if re.search(r"Drop>::drop$", f.def_)], lambda c: [(c.st, None)])
        s.on([f for f in P.fns.values() if f.def_ == "std::io::Error::kind"], s.kind)
        s.on([f for f in P.fns.values() if f.def_ == "std::io::Error::raw_os_error"], s.os_error)
        s.on([f for f in P.fns.values() if f.def_ == "std::io::Error::is_interrupted"], lambda c: [(c.st, FALSE if s.err(c) in (NOTFOUND, EXDEV, OTHER) else None)])

    def op(s, c):
        if c.caller.krate in s.aside:
            return None
        s.n.add((c.caller.id, str(c.span)))
        fail = c.st if c.st else ("failed", s.where(c), c.fn.def_)
        good, bad = wrap_result(result_type(s.prog, c.fn), OTHER)
        out = [(c.st, g) for g in good] + [(fail, bad)]
        x = s.excuse(c)
        if x is not None:
            out.append((c.st, E(1, {0: x})))
        return out

    def where(s, c):
        return c.site()

    def buffered(s, c):
        """Writing to a buffer: what is in it when it is dropped may be lost without a word."""
        s.n.add((c.caller.id, str(c.span)))
        bad = c.st if c.st and c.st[0] == "failed" else ("failed", s.where(c), c.fn.def_)
        if c.fn.def_.endswith("::flush") or c.fn.def_.endswith("::into_inner"):
            return [(c.st if c.st and c.st[0] != "buffered" else (), OK), (bad, E(1, {0: OTHER}))]
        return [(c.st or ("buffered", s.where(c), c.fn.def_), OK), (bad, E(1, {0: OTHER}))]

    def remote(s, c):
        """An operation on a remote store: trouble that may pass can be waited out by trying it again."""
        s.n.add((c.caller.id, str(c.span)))
        fail = c.st if c.st and c.st[0] == "failed" else ("failed", s.where(c), c.fn.def_)
        pending = c.st or ("pending", s.where(c), c.fn.def_)
        a = next((a for a in s.prog.adts if a["name"] == "backpak_b2::Error"), None)
        if a is None:
            raise AnchorError("no error type of the remote store")
        io = [i for i, v in enumerate(a["variants"]) if v[0] == "Io"]
        out = [(c.st if c.st and c.st[0] == "failed" else (), OK)]
        for i in range(len(a["variants"])):
            out.append((fail if i in io else pending, E(1, {0: E(i)})))
        return out

    def err(s, c):
        v, n = c.args[0], 0
        while v is not None and v[0] == "R" and n < 4:
            v = c.deref(v)
            n += 1
        return v

    def kind(s, c):
        v = s.err(c)
        return [(c.st, E(0) if v == NOTFOUND else E(s.other) if v == OTHER else E(1) if v == EXDEV else None)]

    def os_error(s, c):
        v = s.err(c)
        return [(c.st, E(1, {0: ("i", 18)}) if v == EXDEV else E(1, {0: ("i", 2)}) if v == NOTFOUND else E(1, {0: ("i", 5)}) if v == OTHER else None)]


def store_roots(P):
    out = [f for f in P.fns.values() if f.body is not None and re.match(r"^<backpak::backend::[\w:]+(<.*>)? as backpak::backend::Backend>::(read|write|remove|list)$", f.def_)]
    out += [f for m in ("read", "write", "remove", "list") for f in cached(P, m)]
    out += [f for f in P.fns.values() if f.body is not None and re.match(r"^backpak::backend::cache::Cache::\w+$", f.def_)]
    return sorted(out, key=lambda f: f.id)


@rule("E02", "storage backends and the cache fail if one of their steps did")
def e02(P, R):
    for k in KINDS:
        _e02(P, R, k)


# permission denied, broken pipe, no space left
KINDS = (1, 11, 24)


def _e02(P, R, kind):
    fo = foreign(P)
    dyn = [f for m in ("read", "write", "remove", "list") for f in P.fns.values() if f.def_ == f"backpak::backend::Backend::{m}"]
    n = 0
    for f in store_roots(P):
        if "memory" in f.def_:
            continue  # only tests use it

        # what a detached thread does is none of the caller's business until it is joined
        detached = [g for g in spawn_fns(P) if not re.search(r"scope", g.def_)]

        def excuse(c):
            if c.fn.def_ in ("std::fs::File::open", "std::fs::remove_file") and c.caller.def_.startswith("backpak::backend::cache::"):
                return NOTFOUND
            if c.fn.def_ == "std::fs::rename":
                return EXDEV
            return None

        sp = Steps(P, fo + [d for d in dyn if d.id != f.id], excuse)
        sp.other = kind
        sp.on([g for g in P.fns.values() if re.match(r"^backpak_b2::Session::(get|put|list|delete)$", g.def_)], sp.remote)
        sp.on(detached, lambda c: [(c.st, E(0) if "Builder" in c.fn.def_ else None)])
        it, res = judge(P, R, f, sp)
        n += len(sp.n)
        R.ob(f"{f.def_}: fails if one of its steps does", len(sp.n))
    R.need("operations of backends and the cache", len(store_roots(P)), 20)
    R.need("steps that can fail", n, 40)


# ------------------------------------------------------------------------------------------ E03
class Piped(Steps):
    """A file piped through a filter. State: (ended, waited, fed): the filter's output came to its end, the filter exited
    successfully, all of the input was handed to it."""

    def __init__(s, P):
        super().__init__(P, foreign(P))
        so = [f for f in P.fns.values() if re.match(r"^<std::process::ChildStdout as std::io::Read>::\w+$", f.def_)]
        s.on([f for f in so if f.def_.endswith("::read")], s.read)
        s.on([f for f in P.fns.values() if f.def_ == "std::io::copy"], s.copy)
        s.on([f for f in P.fns.values() if re.match(r"^std::process::ExitStatus::(success|code|exit_ok)$", f.def_)], s.status)
        s.on(ids(join_fns(P)), s.join)
        s.on([f for f in P.fns.values() if re.match(r"^std::thread::(scoped::)?(ScopedJoinHandle|JoinHandle)::<.*>::is_finished$", f.def_)], s.late)
        s.on(backend_op(P, "write"), s.store)
        # the thread feeding the filter ends when the filter took everything or is gone
        s.on([f for f in P.fns.values() if f.def_ == "std::thread::scoped::scope" or f.def_ == "std::thread::scope"], s.scope)
        s.on(drop_glue(P, r"^std::process::ChildStdout$"), lambda c: [(ff(c.st, closed=True), None)])
        s.on([f for f in P.fns.values() if f.def_ == "std::mem::drop" and f.ga and P.ts(f.ga[0]) == "std::process::ChildStdout"], lambda c: [(ff(c.st, closed=True), None)])
        s.stores = set()
        s.scopes = 0
        s.asked = False

    def op(s, c):
        """Which steps fail is E02's business: a failure here ends the matter."""
        if c.caller.krate in s.aside:
            return None
        s.n.add((c.caller.id, str(c.span)))
        good, bad = wrap_result(result_type(s.prog, c.fn), OTHER)
        return [(c.st, g) for g in good] + [(c.st, bad)]

    def read(s, c):
        s.n.add((c.caller.id, str(c.span)))
        return [(ff(c.st, ended=True), E(0, {0: ("i", 0)})), (c.st, E(0, {0: POS})), (c.st, E(1, {0: OTHER}))]

    def copy(s, c):
        s.n.add((c.caller.id, str(c.span)))
        out = "ChildStdout" in s.prog.ts(c.fn.ga[0])
        inn = "ChildStdin" in s.prog.ts(c.fn.ga[1])
        st = ff(c.st, ended=True) if out else ff(c.st, fed=True) if inn else c.st
        return [(st, OK), (c.st, E(1, {0: OTHER}))]

    def status(s, c):
        s.n.add((c.caller.id, str(c.span)))
        good = ff(c.st, waited=True)
        if c.fn.def_.endswith("success"):
            return [(good, TRUE), (c.st, FALSE)]
        if c.fn.def_.endswith("exit_ok"):
            return [(good, OK), (c.st, ERR)]
        return [(good, E(1, {0: ("i", 0)})), (c.st, E(1, {0: POS})), (c.st, E(0))]

    def join(s, c):
        s.n.add((c.caller.id, str(c.span)))
        s.waits(c, dict(c.st))
        r = join_result(c)
        if dict(r[1][0][1]).get(0) is not None:
            return [(c.st, r), (c.st, E(1))]
        # the feeder, started elsewhere
        return [(ff(c.st, fed=True), E(0, {0: OK})), (c.st, E(0, {0: E(1, {0: OTHER})})), (c.st, E(1))]

    def scope(s, c):
        """A scope waits for the threads started in it."""
        s.scopes += 1
        out = []
        for st, ret, m in c.it.call_closure(c.caller, c.args[0], c.argtypes[0], [None], c.st, dict(c.mem), c.frame, c.span, ("scope", c.caller.id)):
            s.waits(c, dict(st))
            out.append((st, ret, m))
        return out

    def waits(s, c, d):
        if not d["ended"] and not d["closed"] and not d["late"]:
            c.report("hang", "the thread feeding a filter is waited for while the filter may be waiting for its output to be read")

    def late(s, c):
        """The feeder may have a few instructions left after the filter it fed is gone."""
        s.asked = True
        return [(c.st, TRUE), (ff(c.st, late=True), FALSE)]

    def store(s, c):
        s.stores.add((c.caller.id, str(c.span)))
        d = dict(c.st)
        for k, msg in (("ended", "before the filter's output was read to its end"), ("waited", "without the filter having been found to have succeeded"), ("fed", "although not all of its contents may have gone into the filter")):
            if not d[k]:
                c.report(f"store-{k}", f"a filtered file is stored {msg}")
        return [(c.st, OK), (c.st, ERR)]


@rule("E03", "what went through a filter is used only if the filter got all of it and succeeded")
def e03(P, R):
    w = [f for f in P.fns.values() if re.match(r"^<backpak::backend::filter::\w+ as backpak::backend::Backend>::write$", f.def_)]
    r = [f for f in P.fns.values() if re.match(r"^<backpak::backend::filter::\w+ as std::io::Read>::read\w*$", f.def_)]
    if not w or not r:
        raise AnchorError("no filtering backend")
    for f, kind in [(f, k) for f in w for k in KINDS]:
        sp = Piped(P)
        sp.other = kind
        it = Interp(P, sp)
        res = it.run(f, [None] * f.body["argc"], fresh(ended=False, waited=False, fed=False, late=False, closed=False), {})
        R.absorb(it)
        R.need("places a filtered file is stored", len(sp.stores))
        R.ob("storing through a filter: steps", len(sp.n))
        for (st, tg), _v in res.items():
            if not err_tag(tg) and not sp.stores:
                R.violation("not-stored", "filtering can succeed without anything stored", [P.loc(f)])
    for f, kind in [(f, k) for f in r for k in KINDS]:
        sp = Piped(P)
        sp.other = kind
        it = Interp(P, sp)
        res = it.run(f, [None] * f.body["argc"], fresh(ended=False, waited=False, fed=False, late=False, closed=False), {})
        R.absorb(it)
        if sp.asked and not any(not err_tag(tg) and dict(st)["ended"] and dict(st)["late"] for (st, tg) in res):
            R.violation("read-late", "reading a filtered file fails if the thread feeding the filter ends after the filter does, though nothing is wrong", [P.loc(f)])
        R.need("reads of a filter's output", len(sp.n), 3)
        n = 0
        for (st, tg), _v in res.items():
            d = dict(st)
            if err_tag(tg) or not d["ended"]:
                continue
            n += 1
            if not d["waited"]:
                R.violation("read-waited", "the end of a filtered file is reported without the filter having been found to have succeeded", [P.loc(f)])
            if not d["fed"]:
                R.violation("read-fed", "the end of a filtered file is reported although not all of it may have gone into the filter", [P.loc(f)])
        R.need("ends of a filtered file reported", n)
        R.ob(f"{f.def_}: ends reported", n)


# ------------------------------------------------------------------------------------------ E04
def exists(c):
    v = c.deref(c.args[0])
    bad = v is not None and v[0] == "E" and v[1][0][0] == 1
    if v is None or v[0] != "E" or len(v[1]) != 1:
        return None
    yes = bad == c.fn.def_.endswith("is_err")
    return [(() if bad and c.st and c.st[0] == "failed" and c.st[2].endswith("symlink_metadata") else c.st, TRUE if yes else FALSE)]


@rule("E04", "a command fails if anything it did in the file system failed")
def e04(P, R):
    ops = [f for f in foreign(P) if not f.def_.startswith("rusqlite::")]
    around = [f for m in ("read", "write", "remove", "list") for f in cached(P, m)] + one(P, "backpak::backend::open")
    n = 0
    for cmd in COMMANDS:
        fn = command(P, cmd)
        sp = Steps(P, ops)
        sp.on(around, lambda c: [(c.st, OK), (c.st, ERR)])
        # an unreadable entry is an entry
        sp.on([f for f in P.fns.values() if f.def_ == "std::iter::Iterator::count"], lambda c: [(c.st, None)])
        # asking whether there is anything at a path, like `exists`
        sp.on([f for f in P.fns.values() if re.match(r"^std::result::Result::<.*>::is_(ok|err)$", f.def_) and f.ga and isinstance(f.ga[0], int) and P.ts(f.ga[0]) == "std::fs::Metadata"], exists)
        it, res = judge(P, R, fn, sp, what=f"the command `{cmd}`", key=cmd)
        n += len(sp.n)
        R.ob(f"{cmd}: fails if a step in the file system does", len(sp.n))
    R.need("steps in the file system", n, 150)
