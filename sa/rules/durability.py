"""Crash safety of everything that writes a repository."""
import re

from ..common import *
from ..report import rule


def cached(P, op):
    fs = [f for f in P.fns.values() if re.match(r"^backpak::backend::CachedBackend::%s$" % op, f.def_)]
    if not fs:
        raise AnchorError(f"no CachedBackend::{op}")
    return fs


def writers(P):
    """Threads that may still be storing things: closures from which a repository write is reachable."""
    return P.reaching(ids(backend_op(P, "write")) | ids(cached(P, "write")))


class Quiesce(Spec):
    """State: (threads that may still be writing, 'some of them were joined', 'a worker is known to have failed')."""

    def __init__(s, P):
        super().__init__(P)
        s.w = ids(cached(P, "write"))
        s.join = ids(join_fns(P))
        s.sp = ids(spawn_fns(P))
        s.writers = writers(P)
        s.events = s.w | s.join | s.sp
        s.seen = []

    def on_spawn(s, it, ctx):
        clo = None
        for t in ctx.argtypes[::-1]:
            c = it.closure_fn(t)
            if c is not None:
                clo = c
                break
        pend, j, bad = ctx.st
        h = ("Y", ("thread", clo.id if clo else None))
        wrap = (lambda h: E(0, {0: h})) if "Builder" in ctx.fn.def_ else (lambda h: h)
        if clo is None or clo.id in s.writers:
            pend = pend | {clo.id if clo else -1}
        return [((pend, j, bad), wrap(S({0: h})), ctx.mem)]

    def on_scope_end(s, ctx, st):
        return (frozenset(), st[1] or bool(st[0]), st[2])

    def on_call(s, ctx):
        f = ctx.fn.id
        if f in s.sp:
            return None
        if f in s.join:
            v = ctx.args[0]
            while v is not None and v[0] == "S":
                v = dict(v[1]).get(0)
            pend, j, bad = ctx.st
            if v is not None and v[0] == "Y":
                tid = v[1][1]
                if tid in pend:
                    return [((pend - {tid}, True, bad), E(0)), ((pend - {tid}, True, True), E(1))]
                return [(ctx.st, E(0)), (ctx.st, E(1))]
            # some thread we lost track of: it may or may not be a writer
            return [((pend, j, bad), E(0)), ((pend, j, True), E(1))]
        if f in s.w:
            name = ctx.args[1]
            name = ctx.deref(name) if name is not None and name[0] == "R" else name
            t = template(name)
            s.seen.append((t, ctx.st))
            if not (t.endswith((".pack}", ".index}")) or t.endswith((".pack", ".index"))):
                pend, j, bad = ctx.st
                c = ctx.caller.def_
                if pend:
                    ctx.report(f"published-early:{s.cmd}", "a snapshot is stored while threads that store its data and index may still be running")
                elif bad:
                    ctx.report(f"published-after-failure:{s.cmd}", "a snapshot is stored although a thread storing its data panicked")
                elif not j:
                    ctx.report(f"published-unjoined:{s.cmd}", "a snapshot is stored without its data pipeline ever having run to completion")
            return [(ctx.st, OK), (ctx.st, ERR)]
        return None


class WorkerFailure(Auto):
    """State: a worker (packer, indexer, uploader, or the storage beneath) has returned an error."""

    def __init__(s, P):
        super().__init__(P)
        s.on(cached(P, "write"), s.write)
        for w in ("pack::pack", "index::index"):
            s.on([f for f in P.fns.values() if f.def_ == "backpak::" + w], s.worker)
        s.on(ids(spawn_fns(P)), lambda ctx: None)
        s.on(ids(join_fns(P)), lambda ctx: [(ctx.st, join_result(ctx))])
        s.seen = set()
        s.workers = set()

    on_spawn = threads_inline

    def worker(s, c):
        s.workers.add(c.fn.def_)
        return [(c.st, E(0)), (True, E(1))]

    def write(s, c):
        name = c.args[1]
        name = c.deref(name) if name is not None and name[0] == "R" else name
        t = template(name)
        if ".snapshot" in t:
            s.seen.add((c.caller.id, str(c.span)))
            if c.st:
                c.report(f"published-after-error:{s.cmd}", "a snapshot is stored although packing, indexing or uploading what it refers to failed")
            return [(c.st, OK), (c.st, ERR)]
        s.workers.add("storage write")
        return [(c.st, OK), (True, ERR)]


@rule("D01", "a snapshot is stored only after every thread storing its data has been joined successfully")
def d01(P, R):
    for c in ("backup", "copy", "filter_snapshot"):
        fn = command(P, c)
        sp = Quiesce(P)
        sp.cmd = c
        it = Interp(P, sp)
        a, m = args_value(P, fn, {})
        it.run(fn, a, (frozenset(), False, False), m)
        R.absorb(it)
        snaps = [x for x in sp.seen if ".snapshot" in x[0] or not x[0]]
        R.ob(f"{c}: storing the snapshot", len(snaps))
        R.need(f"snapshot store in {c}", len(snaps))
        sp = WorkerFailure(P)
        sp.cmd = c
        it = Interp(P, sp)
        a, m = args_value(P, fn, {})
        it.run(fn, a, False, m)
        R.absorb(it)
        R.need(f"snapshot store in {c} with workers running", len(sp.seen))
        R.need(f"kinds of worker in {c}", len(sp.workers), 3)
    R.assume("thread handles are joined by the function that spawned them or by the end of their scope")


# ------------------------------------------------------------------------------------------ D03
FILEISH = re.compile(r"std::fs::File\b|tempfile::file::NamedTempFile")
WRITEFN = re.compile(r"as std::io::Write>::(write|write_all|write_vectored|write_all_vectored|write_fmt|flush)$|^std::io::Write::(write|write_all|write_fmt|write_vectored)$")


def file_writers(P):
    """Functions that put bytes into a file (directly, or through an encoder or hasher wrapped around one)."""
    out = []
    for f in P.fns.values():
        if WRITEFN.search(f.def_):
            if f.ga and FILEISH.search(P.ts(f.ga[0])) or re.match(r"^<&?(mut )?(std::fs::File|tempfile::.*NamedTempFile(<.*>)?) as", f.def_):
                if not f.def_.endswith("::flush") or "Encoder" in f.name:
                    out.append(f)
        elif f.def_ == "std::io::copy" and len(f.ga) > 1 and FILEISH.search(P.ts(f.ga[1])):
            out.append(f)
        elif re.search(r"::into_writer$", f.def_) and FILEISH.search(f.name):
            out.append(f)
        elif re.search(r"::Encoder::<.*>::(finish|do_finish|try_finish)$", f.def_) and FILEISH.search(f.name):
            out.append(f)
        elif re.search(r"^std::fs::File::set_len$", f.def_):
            out.append(f)
    return out


class Synced(Auto):
    """State: the set of files (by creation site) with bytes that may not have reached the disk."""

    def __init__(s, P):
        super().__init__(P)
        s.n = {"publish": set(), "sync": set(), "write": set()}
        s.on(file_writers(P), s.write)
        s.on(defs(P, r"^std::fs::File::(sync_all|sync_data)$"), s.sync)
        s.on(defs(P, r"^tempfile::.*(tempfile_in|NamedTempFile::new(_in)?)$|^tempfile::Builder::<.*>::tempfile$"), s.create)
        s.on(defs(P, r"^std::fs::(File::(create|create_new)|OpenOptions::open)$"), s.create_file)
        s.on(defs(P, r"^std::fs::File::open$"), s.open_ro)
        s.on([f for f in P.fns.values() if re.search(r"NamedTempFile(::<.*>)?::(as_file|as_file_mut|reopen)$", f.def_)], s.view)
        s.on([f for f in P.fns.values() if re.search(r"NamedTempFile(::<.*>)?::(persist|persist_noclobber|keep)$", f.def_)], s.persist)
        s.on(chan(P, "send", r"std::fs::File"), s.send)
        s.on(ids(spawn_fns(P)), lambda ctx: None)
        s.on(ids(join_fns(P)), lambda ctx: [(ctx.st, join_result(ctx)), (ctx.st, E(1))])
        # what is stored is read from where the file is; reading back is not of interest here
        s.on([f for f in P.fns.values() if re.match(r"^backpak::(progress|counters|prettify)::.*", f.def_) and not f.def_.startswith("backpak::progress::Atomic") and "Thread" in f.def_], lambda ctx: [(ctx.st, None)])

    on_spawn = threads_inline

    def tok(s, ctx, v):
        n = 0
        while v is not None and n < 6:
            if v[0] == "Y":
                return v[1][1] if v[1][0] == "set" else None
            if v[0] == "R":
                v = ctx.deref(v)
            elif v[0] == "S":
                v = next((x for _k, x in v[1] if x is not None), None)
            else:
                return None
            n += 1
        return None

    def fresh(s, ctx):
        # one token per kind of creation site: loops re-use it, which is sound because creation makes it dirty again
        return frozenset({("file", ctx.caller.id, tuple(ctx.span) if ctx.span else None)})

    @staticmethod
    def val(t):
        return ("Y", ("set", t)) if t else None

    def create(s, ctx):
        t = s.fresh(ctx)
        return [(ctx.st | t, E(0, {0: s.val(t)})), (ctx.st, E(1))]

    def create_file(s, ctx):
        t = s.fresh(ctx)
        return [(ctx.st | t, E(0, {0: s.val(t)})), (ctx.st, E(1))]

    def open_ro(s, ctx):
        t = s.fresh(ctx)
        return [(ctx.st - t, E(0, {0: s.val(t)})), (ctx.st, E(1))]

    def view(s, ctx):
        t = s.tok(ctx, ctx.args[0])
        v = s.val(t)
        if ctx.fn.def_.endswith("reopen"):
            return [(ctx.st, E(0, {0: v} if v else {})), (ctx.st, E(1))]
        return [(ctx.st, v)]

    def write(s, ctx):
        s.n["write"].add((ctx.caller.id, str(ctx.span)))
        i = 1 if ctx.fn.def_ in ("std::io::copy",) or ctx.fn.def_.endswith("into_writer") else 0
        t = s.tok(ctx, ctx.args[i]) if len(ctx.args) > i else None
        st = ctx.st | (t if t else {("file", "?")})
        if "Encoder" in ctx.fn.def_ and ctx.fn.def_.endswith("finish"):
            return [(st, E(0)), (st, E(1))]
        return [(st, OK), (st, ERR)]

    def sync(s, ctx):
        s.n["sync"].add((ctx.caller.id, str(ctx.span)))
        t = s.tok(ctx, ctx.args[0])
        good = (ctx.st - t - {("file", "?")}) if t else frozenset()
        return [(good, OK), (ctx.st, ERR)]

    def dirty(s, ctx, v):
        t = s.tok(ctx, v)
        if t:
            return bool(t & ctx.st) or ("file", "?") in ctx.st
        return bool(ctx.st)

    def persist(s, ctx):
        s.n["publish"].add((ctx.caller.id, str(ctx.span)))
        if s.dirty(ctx, ctx.args[0]):
            ctx.report(f"unsynced:{ctx.caller.def_}", "a file is given its final name while bytes written to it may not have reached the disk")
        t = s.tok(ctx, ctx.args[0])
        v = s.val(t)
        return [(ctx.st, E(0, {0: v} if v else {})), (ctx.st, E(1))]

    def send(s, ctx):
        s.n["publish"].add((ctx.caller.id, str(ctx.span)))
        v = ctx.args[1]
        f = field(v, 1) if v is not None and v[0] == "S" else v
        if s.dirty(ctx, f):
            ctx.report(f"unsynced-upload:{ctx.caller.def_}", "a file is handed over for storage while bytes written to it may not have reached the disk")
        return [(ctx.st, OK), (ctx.st, ERR)]


def publish_fns(P):
    return [f for f in P.fns.values() if re.search(r"NamedTempFile(::<.*>)?::(persist|persist_noclobber|keep)$", f.def_)] + chan(P, "send", r"std::fs::File")


def create_fns(P):
    return (defs(P, r"^tempfile::.*(tempfile_in|NamedTempFile::new(_in)?)$|^tempfile::Builder::<.*>::tempfile$")
            + defs(P, r"^std::fs::(File::(create|create_new|open)|OpenOptions::open)$"))


def scopes(P, goals, needs):
    """For every workspace function calling a goal: the lowest functions at or above it from which one of
    `needs` is reachable too (the scope in which the object's whole life can be seen)."""
    goals, needs = ids(goals), ids(needs)
    can = P.reaching(needs)
    roots = {}
    for f in [f for f in P.fns.values() if f.krate.startswith("backpak") and f.body is not None and f.succ & goals]:
        seen, todo = set(), [f.id]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in can:
                roots.setdefault(x, set()).add(f.id)
            else:
                todo += list(P.pred.get(x, ()))
    return roots


@rule("D03", "every file is flushed to disk before it gets its final name or is handed over for storage")
def d03(P, R):
    pubs = set()
    roots = scopes(P, publish_fns(P), create_fns(P))
    for r in sorted(roots):
        fn = P.fns[r]
        sp = Synced(P)
        it = Interp(P, sp)
        it.run(fn, [None] * fn.body["argc"], frozenset(), {})
        R.absorb(it)
        pubs |= sp.n["publish"]
        R.ob(f"{fn.def_}: files renamed into place or handed to the uploader", len(sp.n["publish"]))
        missing = roots[r] - {c for c, _ in sp.n["publish"]}
        for x in missing:
            R.violation(f"unreached:{P.fns[x].def_}", "a publication of a file was not covered by the analysis", [P.loc(P.fns[x])])
    R.need("publication of a file", len(pubs), 4)
    R.assume("File::sync_all makes a file's contents durable; directory entries are not claimed to be durable")
