"""Threads: a command doesn't wait for one of its own that can't end."""
import re

from ..common import *
from ..interp import Interp
from ..report import rule
from .backends import stds
from .destructive import T
from .pipeline import ff, fresh
from .walks import deep

FLAG = r"^std::sync::atomic::(Atomic::<bool>|AtomicBool)::"
WAITS = r"^atomic_wait::wait$|^std::sync::(poison::)?condvar::Condvar::wait(_\w+)?$|^std::sync::(poison::)?Condvar::wait(_\w+)?$|^std::sync::(barrier::)?Barrier::wait$|^std::thread::(functions::)?park$"


def runs_on(P):
    """Functions from which one is reached that goes on until it is told to stop."""
    seen = ids(one(P, "backpak::progress::periodically"))
    todo = list(seen)
    while todo:
        for g in P.pred.get(todo.pop(), ()):
            # (whatever goes through a vtable could be anything)
            if g not in seen and P.fns[g].kind != "virtual":
                seen.add(g)
                todo.append(g)
    return seen


class Untold(Auto):
    """Threads that go on until told to stop. State: run - how many of them haven't been told."""

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.long = runs_on(P)
        s.on(spawn_fns(P), lambda c: None)
        s.on(stds(P, FLAG + "(store|swap|fetch_or)$"), s.tell)
        s.on(join_fns(P), s.join)

    def on_spawn(s, it, ctx):
        clo = None
        for t in ctx.argtypes[::-1]:
            clo = it.closure_fn(t)
            if clo is not None:
                break
        wrap = (lambda h: E(0, {0: h})) if "Builder" in ctx.fn.def_ else (lambda h: h)
        st, h = ctx.st, ("Y", ("thread", clo.id if clo else None))
        if clo is not None and clo.id in s.long:
            s.n.add(("spawn", it.current_command, str(ctx.span)))
            st = ff(st, run=min(dict(st)["run"] + 1, 3))
            h = ("Y", ("until told", clo.id))
        return [(st, wrap(S({0: h})), ctx.mem)]

    def tell(s, c):
        if len(c.args) > 1 and c.args[1] == FALSE:
            return None
        d = dict(c.st)
        if d["run"]:
            s.n.add(("told", c.it.current_command, str(c.span)))
        return [(ff(c.st, run=max(d["run"] - 1, 0)), None)]

    def join(s, c):
        v = c.args[0]
        while v is not None and v[0] == "S":
            v = dict(v[1]).get(0)
        if v is not None and v[0] == "Y" and v[1][0] == "until told":
            s.n.add(("joined", c.it.current_command, str(c.span)))
            if dict(c.st)["run"]:
                c.report("untold", "a thread is waited for that goes on until it's told to stop, and wasn't")
        return [(c.st, E(0)), (c.st, ERR)]

    def on_scope_end(s, ctx, st):
        n = dict(ctx.st)["run"]
        if dict(st)["run"] > n:
            ctx.report("untold", "a thread is waited for that goes on until it's told to stop, and wasn't")
        return ff(st, run=n)


class Told(Auto):
    """Goes on until told to stop. State: told."""

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(stds(P, FLAG + "load$"), s.load)
        s.on([f for f in P.fns.values() if re.search(r"^std::thread::(functions::)?(park|park_timeout|sleep)$", f.def_)], s.wait)

    def load(s, c):
        s.n.add((c.caller.id, str(c.span)))
        if dict(c.st)["told"]:
            c.report("goes-on", "a thread that's told to stop can go on")
            return [(c.st, TRUE)]
        return [(ff(c.st, told=True), TRUE), (c.st, FALSE)]

    def wait(s, c):
        if dict(c.st)["told"]:
            c.report("goes-on", "a thread that's told to stop can go on")
        return [(c.st, None)]


class Stages(Auto):
    """Starts the stages of the pipeline. State: some - has one been started, held - was something waited for since."""

    START = dict(some=False, held=False)

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(spawn_fns(P), lambda c: None)
        s.on([f for f in P.fns.values() if re.match(WAITS, f.def_)], s.wait)
        s.on(join_fns(P), s.wait)
        s.on([f for f in P.fns.values() if re.match(r"^std::sync::mpsc::(Sync)?(Sender|Receiver)::<T>::(recv|recv_timeout|send)$", f.def_) or CHAN_ITER.match(f.def_)], s.wait)

    def on_spawn(s, it, ctx):
        s.n.add(str(ctx.span))
        if dict(ctx.st)["held"]:
            ctx.report("held-back", "a stage of the pipeline is only started after waiting, while those before it can wait for it")
        wrap = (lambda h: E(0, {0: h})) if "Builder" in ctx.fn.def_ else (lambda h: h)
        return [(ff(ctx.st, some=True), wrap(S({0: ("Y", ("thread", None))})), ctx.mem)]

    def wait(s, c):
        if dict(c.st)["some"]:
            return [(ff(c.st, held=True), None)]
        return [(c.st, None)]

    def on_scope_end(s, ctx, st):
        return ff(st, held=True) if dict(st)["some"] else st


SENDERS = ("chunk_tx", "tree_tx", "upload_tx")


class Ending(Auto):
    """Ends the pipeline. State: gone - which ways into it are closed."""

    taint = True

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(drop_glue(P, r"^std::sync::mpsc::SyncSender<"), s.drop)
        s.on(join_fns(P), s.join)

    def drop(s, c):
        g = dict(c.st)["gone"] | {l[3:] for l in deep(c, c.args[0]) if l.startswith("tx:")}
        s.n |= g
        return [(ff(c.st, gone=g), UNIT)]

    def join(s, c):
        if "threads" in deep(c, c.args[0]):
            s.n.add("join")
            for k in SENDERS:
                if k not in dict(c.st)["gone"]:
                    c.report("open:" + k, "the pipeline is waited for while there is still a way into it, so that it can't end")
        return [(c.st, E(0)), (c.st, ERR)]


@rule("L01", "a command never waits for one of its own threads while that can't end")
def l01(P, R):
    n = {}
    long = runs_on(P)
    for name in COMMANDS:
        fn = command(P, name)
        if fn.id not in long:
            continue
        sp = Untold(P)
        it = Interp(P, sp)
        it.current_command = name
        it.run(fn, [None] * fn.body["argc"], fresh(run=0), {})
        R.absorb(it, name + ":")
        n[name] = sp.n
        R.need(f"threads that {name} tells to stop", len([1 for x in sp.n if x[0] == "told"]) if any(x[0] == "spawn" for x in sp.n) else 1)
    R.need("commands with threads that go on until told to stop", len([1 for x in n.values() if x]), 2)
    sp = Told(P)
    it = Interp(P, sp)
    f = one(P, "backpak::progress::periodically")
    for g in f:
        it.run(g, [None] * g.body["argc"], fresh(told=False), {})
    R.absorb(it)
    R.need("threads that go on until told to stop", len(sp.n))
    f = one(P, "backpak::backup::backup_master_thread")[0]
    sp = Stages(P)
    it = Interp(P, sp)
    it.run(f, [None] * f.body["argc"], fresh(**Stages.START), {})
    R.absorb(it)
    R.need("places where stages of the pipeline are started", len(sp.n))
    f = [f for f in P.fns.values() if re.match(r"^backpak::backup::Backup::<.*>::join$", f.def_)]
    if not f:
        raise AnchorError("nothing ends the pipeline")
    from .resume import struct_value
    sp = Ending(P)
    it = Interp(P, sp)
    v = struct_value(P, "backpak::backup::Backup", {**{k: T("tx:" + k) for k in SENDERS}, "threads": T("threads")})
    it.run(f[0], [v], fresh(gone=frozenset()), {})
    R.absorb(it)
    R.need("steps of ending the pipeline", len(sp.n), 4)
    R.ob("threads started and told to stop", sum(len(x) for x in n.values()))
