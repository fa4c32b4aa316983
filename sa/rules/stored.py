"""What is stored says all that it is made from, and is read back as it was stored."""
import re

from ..common import *
from ..interp import Interp, MIXED
from ..report import rule
from .backends import stds, behind
from .destructive import T, lab
from .files import it_labels
from .pipeline import ff, fresh
from .resume import struct_value
from .walks import deep, fields_of, sure

SER = re.compile(r"^backpak::[\w:]*<impl serde_core::ser::Serialize for (backpak::[\w:]+)>::serialize$")
READ = re.compile(r"^<backpak::[\w:]*<impl serde_core::de::Deserialize<'de> for (backpak::[\w:]+)>::deserialize::__(Field)?Visitor<?.*>? as serde_core::de::Visitor<.*>>::(visit_map|visit_str)$")
# what goes into snapshots, indexes, packs, and a repository's configuration
STORED = ["backpak::snapshot::SnapshotV2", "backpak::index::Index", "backpak::pack::PackManifestEntry", "backpak::tree::Node", "backpak::tree::NodeContents", "backpak::tree::PosixMetadata", "backpak::backend::ConfigFile"]


def types(P):
    return {a["name"]: a for a in P.adts}


class Storing(Auto):
    """State: done - fields that were written, empty - those found to be empty."""

    taint = True

    def __init__(s, P, root):
        super().__init__(P)
        s.n, s.keys = set(), {}
        s.on(stds(P, r"serde_core::ser::(SerializeStruct|SerializeMap|SerializeStructVariant)>?::(serialize_field|serialize_entry)(::<.*>)?$"), s.field)
        s.on([f for f in stds(P, r"ser::Serialize( for .*)?>?::serialize$|^serde::(__private|private)::ser::serialize_tagged_newtype$") if f.id != root.id], s.whole)
        s.on(stds(P, r"^std::(collections|vec|string|option)::.*::(is_empty|is_none)$"), s.vacant)

    def mine(s, c, v):
        return {l[2:] for l in deep(c, v) if isinstance(l, str) and l.startswith("f:")}

    def field(s, c):
        fs = s.mine(c, c.args[2])
        k = c.deref(c.args[1]) if c.args[1] is not None and c.args[1][0] == "R" else c.args[1]
        if not fs:
            return None
        s.n.add(str(c.span))
        key = k[1] if k is not None and k[0] == "B" else None
        for f in fs:
            s.keys.setdefault(f, set()).add(key)
        return [(ff(c.st, done=dict(c.st)["done"] | fs), OK), (c.st, ERR)]

    def whole(s, c):
        fs = set().union(*[s.mine(c, a) for a in c.args])
        if not fs:
            return None
        s.n.add(str(c.span))
        return [(ff(c.st, done=dict(c.st)["done"] | fs), OK), (c.st, ERR)]

    def vacant(s, c):
        fs = s.mine(c, c.args[0])
        if len(fs) != 1:
            return None
        return [(ff(c.st, empty=dict(c.st)["empty"] | fs), TRUE), (c.st, FALSE)]


class Reading(Auto):
    """State: k - which key the value to be read belongs to."""

    taint = True

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(stds(P, r"serde_core::de::MapAccess(<.*>)?>?::next_key(::<.*>)?$"), s.key)
        s.on(stds(P, r"serde_core::de::MapAccess(<.*>)?>?::next_value(::<.*>)?$"), s.value)
        s.on([f for f in P.fns.values() if re.search(r"str as std::cmp::PartialEq(<.*>)?>::(eq|ne)$|core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$|^<\[A\] as std::cmp::PartialEq|<impl std::cmp::PartialEq<\[U\]> for \[T\]>::(eq|ne)$", f.def_)], s.same)

    def key(s, c):
        t = c.fn.body["lt"][0] if c.fn.body is not None else None
        for d in ("std::result::Result", "std::option::Option"):
            if t is None or s.prog.types[t].get("d") != d:
                return None
            t = s.prog.types[t]["a"][0]
        a = types(s.prog).get(s.prog.types[t].get("d"))
        if a is None:
            return None
        s.n.add(str(c.span))
        d = dict(c.st)
        return [(ff(c.st, k=i), E(0, {0: E(1, {0: E(i)})})) for i in range(len(a["variants"]))] + [(ff(c.st, k=None), E(0, {0: NONE})), (c.st, ERR)]

    def value(s, c):
        return [(c.st, E(0, {0: T(f"v:{dict(c.st)['k']}")})), (c.st, ERR)]

    def same(s, c):
        v = [c.deref(a) if a is not None and a[0] == "R" else a for a in c.args]
        if any(x is None or x[0] != "B" for x in v):
            return None
        return [(c.st, TRUE if (v[0][1] == v[1][1]) == c.fn.def_.endswith("eq") else FALSE)]


class Kept(Auto):
    """A snapshot on its way to or from where it is stored."""

    taint = True

    def __init__(s, P, form=None):
        super().__init__(P)
        s.n, s.got = set(), []
        s.form = form
        made = {i for i, t in enumerate(P.types) if re.match(r"^(std::result::Result<)?backpak::snapshot::Snapshot(V2)?\b", t["s"])}
        s.on([f for f in P.fns.values() if f.krate == "backpak" and f.body is not None and f.body["lt"][0] in made and not f.def_.endswith("::clone")], s.inside)
        s.on(stds(P, r"^ciborium::(ser::)?into_writer(::<.*>)?$"), s.write)
        s.on(stds(P, r"^ciborium::(de::)?from_reader(::<.*>)?$"), s.read)
        # less than an instant
        s.on(stds(P, r"^std::iter::Iterator::(take|skip|filter|filter_map|step_by|take_while|skip_while|map_while|scan|flat_map)$"), lambda c: [(c.st, T("thinned"))] if deep(c, c.args[0]) else None)
        s.on(stds(P, r"^std::iter::Iterator::collect$|std::iter::FromIterator(<.*>)?( for .*)?>?::from_iter$"), lambda c: [(c.st, T(*(deep(c, c.args[0]) - {"~"})))] if deep(c, c.args[0]) else None)
        s.on(stds(P, r"^jiff::.*::(as_second|as_millisecond|as_microsecond|round|datetime|date|truncate)$"), lambda c: [(c.st, T("rounded"))] if deep(c, c.args[0]) else None)

    def inside(s, c):
        return c.it.inline(c.caller, c.fn, c.args, c.st, dict(c.mem), c.frame, c.span, ("form", c.fn.id))

    def fields(s, c, v):
        n = 0
        while v is not None and v[0] == "R" and n < 4:
            v, n = c.deref(v), n + 1
        return v

    def write(s, c):
        v = s.fields(c, c.args[0])
        t = next((s.prog.ts(t) for t in c.argtypes[:1]), "")
        name = re.sub(r"^&+", "", t)
        s.n.add(("write", str(c.span)))
        s.got.append((c, name, v))
        return [(c.st, OK), (c.st, ERR)]

    def read(s, c):
        t = c.fn.body["lt"][0] if c.fn.body is not None else None
        if t is None or s.prog.types[t].get("d") != "std::result::Result":
            return None
        name = s.prog.types[s.prog.types[t]["a"][0]].get("d")
        if name not in ("backpak::snapshot::Snapshot", "backpak::snapshot::SnapshotV2"):
            return None
        if name != s.form:
            return [(c.st, ERR)]
        s.n.add(("read", str(c.span)))
        return [(c.st, E(0, {0: struct_value(s.prog, name, {k: T("f:" + k) for k in fields_of(s.prog, name)})})), (c.st, ERR)]


class Instant(Auto):
    """An instant on its way to or from where it is stored: nothing smaller than a nanosecond is cut off."""

    taint = True

    def __init__(s, P):
        super().__init__(P)
        s.n = set()
        s.on(stds(P, r"ser::Serialize( for .*)?>?::serialize$"), s.write)
        s.on(stds(P, r"de::Deserialize(<.*>)?( for .*)?>?::deserialize$"), s.read)
        s.on(stds(P, r"^jiff::.*::(as_\w+|round|datetime|date|truncate|subsec_\w+|from_\w+|new)$"), s.turn)

    def turn(s, c):
        ls = deep(c, c.args[0])
        if "t" not in ls:
            return None
        ok = re.search(r"::(as|from)_nanosecond$", c.fn.def_)
        v = T("t") if ok else T("rounded")
        return [(c.st, E(0, {0: v})), (c.st, ERR)] if "::from_" in c.fn.def_ or c.fn.def_.endswith("::new") else [(c.st, v)]

    def write(s, c):
        s.n.add(str(c.span))
        if deep(c, c.args[0]) != {"t"}:
            c.report("cut", "an instant is stored less exactly than to the nanosecond")
        return [(c.st, OK), (c.st, ERR)]

    def read(s, c):
        s.n.add(str(c.span))
        opt = c.fn.body is not None and "std::option::Option" in s.prog.ts(c.fn.body["lt"][0])
        v = T("t")
        return [(c.st, E(0, {0: E(1, {0: v})}))] + [(c.st, E(0, {0: NONE})), (c.st, ERR)] if opt else [(c.st, E(0, {0: v})), (c.st, ERR)]


@rule("S06", "what is stored is stored with all of its fields, and read back as it was stored")
def s06(P, R):
    MIXED[0] = "~"
    try:
        _s06(P, R)
    finally:
        MIXED[0] = None


def _s06(P, R):
    ty = types(P)
    sers = {}
    for f in P.fns.values():
        m = SER.match(f.def_)
        if m and f.body is not None and m[1] in STORED:
            sers.setdefault(m[1], []).append(f)
    keys = {}
    for name in STORED:
        a = ty.get(name)
        R.need(f"how a {name} is stored", len(sers.get(name, ())))
        if a is None or name not in sers:
            continue
        fns = sorted(sers[name], key=lambda f: ("ciborium" not in f.name, f.name))
        f = fns[0]
        for i, (var, _d, names) in enumerate(v[:3] for v in a["variants"]):
            sp = Storing(P, f)
            it = Interp(P, sp)
            mem = {}
            fs = {j: T("f:" + k) for j, k in enumerate(names)}
            arg = behind(mem, 0, E(i, fs) if a["kind"] == "Enum" else S(fs))
            res = it.run(f, [arg] + [None] * (f.body["argc"] - 1), fresh(done=frozenset(), empty=frozenset()), mem)
            R.absorb(it)
            n = 0
            for (st, tg), _v in res.items():
                if err_tag(tg):
                    continue
                n += 1
                d = dict(st)
                for k in names:
                    if k not in d["done"] | d["empty"]:
                        R.violation(f"unstored:{name}:{k}", f"the {k} of a {name} isn't stored with it", [P.loc(f)])
            R.need(f"ways of storing a {name}", n)
            R.ob(f"fields of a {name} stored", len(names))
            for k, ks in sp.keys.items():
                keys.setdefault((name, i), {})[k] = ks
            used = [x for ks in sp.keys.values() for x in ks]
            if len(used) != len(set(used)):
                R.violation(f"same-key:{name}", f"two fields of a {name} are stored under the same name", [P.loc(f)])
    # and back
    for name in STORED:
        a = ty.get(name)
        if a is None or a["kind"] != "Struct":
            continue
        vis = {"visit_map": [], "visit_str": []}
        for f in P.fns.values():
            m = READ.match(f.def_)
            if m and m[1] == name and f.body is not None:
                vis[m[3]].append(f)
        names = a["variants"][0][2]
        R.need(f"how a {name} is read", len(vis["visit_map"]))
        R.need(f"how the names of a {name}'s fields are read", len(vis["visit_str"]))
        if not vis["visit_map"] or not vis["visit_str"]:
            continue
        at = {}
        f = sorted(vis["visit_str"], key=lambda f: f.name)[0]
        for k, ks in keys.get((name, 0), {}).items():
            for key in ks - {None}:
                sp = Reading(P)
                it = Interp(P, sp)
                mem = {}
                for (st, tg), (ret, m) in it.run(f, [None, ("B", key)], fresh(k=None), mem).items():
                    if not err_tag(tg):
                        at.setdefault(k, set()).add(str(ret))
        at = {k: {int(x) for r in rs for x in re.findall(r"^\('E', \(\(0, \(\(0, \('E', \(\((\d+), \(\)\),\)\)\),\)\),\)\)$", r)} for k, rs in at.items()}
        f = sorted(vis["visit_map"], key=lambda f: ("ciborium" not in f.name, f.name))[0]
        sp = Reading(P)
        it = Interp(P, sp)
        res = it.run(f, [None] * f.body["argc"], fresh(k=None), {})
        R.absorb(it)
        R.need(f"keys of a {name}", len(sp.n))
        n = 0
        for (st, tg), (ret, m) in res.items():
            if err_tag(tg) or ret is None or ret[0] != "E":
                continue
            v = dict(dict(ret[1]).get(0, ())).get(0)
            if v is None or v[0] != "S":
                continue
            n += 1
            for j, k in enumerate(names):
                ls = {l for l in it_labels(it, m, dict(v[1]).get(j)) if isinstance(l, str) and l.startswith("v:")}
                want = {f"v:{i}" for i in at.get(k, ())}
                if not want:
                    continue  # what's flattened into it
                if ls != want:
                    R.violation(f"unread:{name}:{k}", f"the {k} of a {name} isn't read from what was stored as that", [P.loc(f)])
        R.need(f"ways of reading a {name}", n)
        R.ob(f"fields of a {name} read", len(at))
    # snapshots are stored in another form
    f = one(P, "backpak::snapshot::upload")[0]
    sp = Kept(P)
    it = Interp(P, sp)
    snap = "backpak::snapshot::Snapshot"
    mem = {}
    it.run(f, [behind(mem, 0, struct_value(P, snap, {k: T("f:" + k) for k in fields_of(P, snap)}))] + [None] * (f.body["argc"] - 1), fresh(), mem)
    R.absorb(it)
    R.need("places a snapshot is stored", len(sp.got))
    for c, name, v in sp.got:
        a = ty.get(name)
        if a is None or v is None or v[0] != "S":
            R.violation("form", "something else is stored than a snapshot", [c.site()])
            continue
        names = a["variants"][0][2]
        for k in fields_of(P, snap):
            if k not in names or not sure(c, dict(v[1]).get(names.index(k)), "f:" + k):
                R.violation(f"other:{k}", f"a snapshot is stored with another {k} than its own", [c.site()])
        for k in names:
            if k not in fields_of(P, snap) and not sure(c, dict(v[1]).get(names.index(k)), "f:time"):
                R.violation(f"other:{k}", f"a snapshot is stored with another {k} than its own", [c.site()])
        R.ob("what is stored of a snapshot", len(names))
    f = one(P, "backpak::snapshot::load")[0]
    for form in (snap, snap + "V2"):
        sp = Kept(P, form)
        it = Interp(P, sp)
        n = 0
        for (st, tg), (ret, m) in it.run(f, [None] * f.body["argc"], fresh(), {}).items():
            if err_tag(tg) or ret is None or ret[0] != "E":
                continue
            v = dict(dict(ret[1]).get(0, ())).get(0)
            n += 1
            for j, k in enumerate(fields_of(P, snap)):
                ls = {l for l in it_labels(it, m, dict(v[1]).get(j) if v is not None and v[0] == "S" else None)}
                if ls != {"f:" + k} | ({"f:tz"} if k == "time" and form != snap else set()):
                    R.violation(f"loaded:{k}", f"a snapshot is loaded with another {k} than was stored", [P.loc(f)])
        R.absorb(it)
        R.need(f"places a {form} is read", len([1 for x in sp.n if x[0] == "read"]))
        R.need(f"ways of loading a {form}", n)
        R.ob(f"what is read of a {form}", len(fields_of(P, snap)))
    # instants have forms of their own
    for f in [f for f in P.fns.values() if re.match(r"^backpak::prettify::\w+::(serialize|deserialize)$", f.def_) and f.body is not None and ("deserialize" in f.def_ or "json" not in f.name)]:
        sp = Instant(P)
        it = Interp(P, sp)
        mem = {}
        out = not f.def_.endswith("::deserialize")
        opt = "Option<" in P.ts(f.body["lt"][1 if out else 0])
        a = [behind(mem, 0, E(1, {0: T("t")}) if opt else T("t"))] if out else []
        res = it.run(f, a + [None] * (f.body["argc"] - len(a)), fresh(), mem)
        for (st, tg), (ret, m) in res.items():
            if out or err_tag(tg) or ret is None or ret[0] != "E":
                continue
            ls = it_labels(it, m, dict(dict(ret[1]).get(0, ())).get(0))
            if ls - {"t", "~"} or not ls and not opt:
                R.violation("cut", "an instant is read less exactly than to the nanosecond", [P.loc(f)])
        R.absorb(it)
        R.need(f"steps of {f.def_}", len(sp.n))
        R.ob(f"{f.name[:100]}: to the nanosecond", len(sp.n))
