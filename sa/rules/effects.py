"""What commands may change: dry runs and read-only commands."""
import re

from ..common import *
from ..report import rule
from .durability import cached, writers
from .destructive import text
from .pipeline import wip_names, two

READS = r"^backpak::backend::CachedBackend::(read|list)\w*$"
FSMUT = re.compile(
    r"^std::fs::(write|remove_file|remove_dir|remove_dir_all|rename|create_dir|create_dir_all|hard_link|copy|set_permissions|soft_link|File::(create|create_new|create_buffered|set_len|set_permissions|set_times|set_modified)|OpenOptions::open|DirBuilder::create)$"
    r"|^std::os::unix::fs::(symlink|chown|fchown|lchown|mkfifo)$"
    r"|^(rustix|nix|libc|filetime)::.*(utimens|utimes|utime|chown|chmod|unlink|rename|mkdir|rmdir|symlink|link|truncate|set_file_\w*times?|set_symlink_file_times|mknod\w*|setxattr|fchmod)\w*$"
    r"|NamedTempFile(::<.*>)?::(persist|persist_noclobber|keep)$|^tempfile::.*(tempfile_in|tempdir_in)$"
)


def fs_mutations(P):
    return [f for f in P.fns.values() if FSMUT.search(f.def_)]


EXISTING = ("Y", ("existing",))


class DryRun(Auto):
    """Any change to the repository, or to what the dry run is a rehearsal of, is a violation.
    So is handing a file that was there before to the uploader, which in a dry run deletes what it gets."""

    def __init__(s, P, cmd, wip):
        super().__init__(P)
        s.cmd, s.wip = cmd, wip
        s.n = set()
        s.on([f for f in P.fns.values() if re.match(READS, f.def_)], lambda c: [(c.st, E(0)), (c.st, E(1))])
        s.on(cached(P, "write"), lambda c: s.bad(c, "write", "something is stored in the repository by a dry run"))
        rm = [f for f in P.fns.values() if re.match(r"^backpak::backend::CachedBackend::remove\w*$", f.def_)]
        s.on(rm, lambda c: s.bad(c, "remove", "something is removed from the repository by a dry run"))
        s.on(backend_op(P, "write") + backend_op(P, "remove"), lambda c: s.bad(c, "backend", "the storage backend is changed by a dry run"))
        s.on(ids(spawn_fns(P)), lambda c: None)
        s.on(ids(join_fns(P)), lambda c: [(c.st, join_result(c))])
        s.on(fs_mutations(P), s.local)
        # opening the repository (its configuration, the cache directory) is not what a dry run is about; reading files is harmless
        s.on(one(P, "backpak::backend::open"), lambda c: [(c.st, E(0)), (c.st, E(1))])
        s.on(defs(P, r"^std::fs::File::open$"), lambda c: [(c.st, E(0, {0: EXISTING})), (c.st, E(1))])
        s.on(chan(P, "send", r"std::fs::File"), s.send)
        s.sends = set()

    on_spawn = threads_inline

    def bad(s, c, k, msg):
        c.report(f"dry-{k}:{s.cmd}", msg)
        return [(c.st, E(0)), (c.st, E(1))]

    def send(s, c):
        s.sends.add((c.caller.id, str(c.span)))
        v = c.args[1]
        if v is not None and v[0] == "S" and EXISTING in dict(v[1]).values():
            c.report(f"dry-leftover:{s.cmd}", "a dry run hands a file that an interrupted run left behind to the uploader, which deletes it")
        return [(c.st, OK), (c.st, ERR)]

    def local(s, c):
        s.n.add((c.caller.id, str(c.span)))
        if s.cmd == "restore":
            c.report(f"dry-fs:{c.caller.def_}", "a dry run of restore changes the file system")
        elif any(text(c, a) in s.wip for a in c.args):
            c.report(f"dry-wip:{s.cmd}:{c.caller.def_}", "a dry run changes the resume file that an interrupted run left behind")
        if "tempfile" in c.fn.def_ or c.fn.def_.endswith(("open", "create", "create_new", "persist")):
            return [(c.st, E(0)), (c.st, E(1))]
        return [(c.st, E(0)), (c.st, E(1))]


@rule("R01", "a dry run stores, removes and (for restore) changes nothing")
def r01(P, R):
    wip = wip_names(P)
    n = 0
    for cmd in COMMANDS:
        fn = command(P, cmd)
        if not has_option(P, fn, "dry_run"):
            R.ob(f"{cmd}: no dry run")
            continue
        n += 1
        a, m = args_value(P, fn, {"dry_run": TRUE})
        sp = DryRun(P, cmd, wip)
        it = Interp(P, sp)
        res = it.run(fn, a, 0, m)
        R.absorb(it)
        R.ob(f"{cmd}: dry run explored to the end", len(res))
        R.need(f"{cmd}: dry run comes to an end", len(res))
        # the same command for real reaches what is forbidden here, so the question was not vacuous
        live = P.reaching(ids(cached(P, "write")) | ids([f for f in P.fns.values() if re.match(r"^backpak::backend::CachedBackend::remove\w*$", f.def_)]) | ids(fs_mutations(P)))
        R.need(f"{cmd}: changes something when live", int(fn.id in live))
    R.need("commands with a dry run", n, 7)


READONLY = ["cat", "check", "diff", "dump", "ls", "snapshots", "usage", "restore"]


@rule("R02", "commands that only read a repository cannot write to or remove from it")
def r02(P, R):
    goals = {
        "store to": ids(cached(P, "write")) | ids(backend_op(P, "write")),
        "remove from": ids([f for f in P.fns.values() if re.match(r"^backpak::backend::CachedBackend::remove\w*$", f.def_)]) | ids(backend_op(P, "remove")),
    }
    for cmd in READONLY:
        fn = command(P, cmd)
        seen = P.reach([fn.id])
        for what, g in goals.items():
            p = P.path(fn.id, g)
            R.ob(f"{cmd}: {len(seen)} reachable functions, none {'stores to' if what[0] == 's' else 'removes from'} the repository")
            if p:
                R.violation(f"{cmd}:{what}", f"the command `{cmd}` can {what} the repository", [P.fns[i].def_ for i in p])
        R.analysed |= {P.fns[i].def_ for i in seen if P.fns[i].krate.startswith("backpak")}
    # the commands that do write are seen to
    for cmd, what in (("backup", "store to"), ("prune", "remove from"), ("forget", "remove from"), ("copy", "store to")):
        R.need(f"{cmd} can {what} the repository", int(bool(P.path(command(P, cmd).id, goals[what]))))
