"""Random edits of an abstract declaration: the next version of a schema, with the list of edits made."""

from __future__ import annotations

import random
from typing import Callable, Dict, List, Optional, Tuple

import specgen as sg
from specgen import NOVALUE, Enum, Features, Fld, Modes, Module, Struct, Table, World


def uses(ty: tuple) -> List[tuple]:
    """References (module, name) to declared objects within a type."""
    k = ty[0]
    if k in ("ref", "enum", "xenum", "struct"):
        return [ty[1]]
    if k == "duni":
        return list(ty[1])
    if k in ("list", "set"):
        return uses(ty[1])
    return []


def drop_users(world: World, ref: tuple) -> None:
    """Removes every column that refers to an object which is going away."""
    for _, t in world.all_tables():
        t.fields = [f for f in t.fields if ref not in uses(f.ty)]
    for mi, m in enumerate(world.modules):
        for s in list(m.structs):
            s.fields = [f for f in s.fields if ref not in uses(f.ty)]
            if not s.fields and (mi, s.name) != ref:
                m.structs.remove(s)
                drop_users(world, (mi, s.name))


def arrange(world: World, dialect: str) -> World:
    for m in world.modules:
        for t in m.tables:
            t.fields.sort(key=lambda f: f.default is not NOVALUE)
        for s in m.structs:
            s.fields.sort(key=lambda f: f.default is not NOVALUE)
    return sg.normalise(world, dialect)


NUMBERS = {"int", "int8", "int16", "int32", "int64", "uint8", "float", "float32", "float64", "decimal"}


def castable(dialect: str, a: tuple, b: tuple) -> bool:
    """Whether the server itself converts a column of one type to the other."""
    if dialect == "postgresql":
        if a[0] in NUMBERS and b[0] in NUMBERS or b[0] == "str" or a[0] == b[0]:
            return True
        return (a[0], b[0]) in {("date", "datetime"), ("datetime", "date"), ("datetime", "time")} or {a[0], b[0]} <= {"ip", "ipv4", "ipv6"}
    if dialect == "oracle":
        return ("str",) not in (a, b) and ("bytes",) not in (a, b)
    return True


SIMPLE = NUMBERS | {"bool", "str", "bytes", "datetime", "date", "time", "uuid", "ip", "ipv4", "ipv6"}


def plain(world: World, ty: tuple) -> tuple:
    """The type of the values of a column: that of the key it refers to."""
    while ty[0] == "ref":
        ty = world.table(ty[1]).pk.ty
    return ty


def named(world: World, ty: tuple) -> tuple:
    """A type with references by schema and name instead of the position of the module."""
    if ty[0] in ("enum", "xenum", "struct") or ty[0] == "ref":
        return (ty[0], world.modules[ty[1][0]].schema, ty[1][1])
    if ty[0] in ("list", "set"):
        return (ty[0], named(world, ty[1]))
    if ty[0] == "duni":
        return (ty[0], tuple((world.modules[r[0]].schema, r[1]) for r in ty[1]))
    return ty


def convertible(dialect: str, w1: World, a: tuple, w2: World, b: tuple) -> bool:
    if named(w1, a) == named(w2, b):
        return True
    a, b = plain(w1, a), plain(w2, b)
    return a[0] in SIMPLE and b[0] in SIMPLE and castable(dialect, a, b)


def acceptable(first: World, w: World, dialect: str, modes: Modes) -> bool:
    """Whether a version is within the domain: see the known findings of C01 and C03."""
    before = {(first.modules[mi].schema, t.name): t for mi, t in first.all_tables()}
    for mi, t in w.all_tables():
        old = before.get((w.modules[mi].schema, t.name))
        if old is None:
            continue
        if old.pk.name != t.pk.name:
            return False  # a new primary key is not noticed
        if old.pk.ty != t.pk.ty and dialect != "postgresql":
            return False  # the type of a column cannot change while foreign keys refer to it
        cols = {f.name: f for f in old.fields}
        for f in t.fields:
            if f.name in cols and not convertible(dialect, first, cols[f.name].ty, w, f.ty):
                return False
            if dialect == "mssql" and f.name in cols and cols[f.name].unique and f.unique and cols[f.name].ty != f.ty:
                return False  # the type of a column cannot change while a constraint refers to it
    if modes.enum == "relation" and modes.init:
        values = {(first.modules[mi].schema, e.name): e.values for mi, m in enumerate(first.modules) for e in m.enums}
        for mi, m in enumerate(w.modules):
            for e in m.enums:
                if values.get((m.schema, e.name), e.values) != e.values:
                    return False  # values of an existing lookup table are not maintained
    if dialect == "oracle":
        owner = {}
        for v in (first, w):
            for m in v.modules:
                for e in m.enums:
                    if owner.setdefault(e.name, m.schema) != m.schema:
                        return False  # names of constraints of lookup tables collide
    if dialect == "mssql":
        owner = {}
        for v in (first, w):
            for mi, t in v.all_tables():
                for f in t.fields:
                    if f.default is not NOVALUE and owner.setdefault((v.modules[mi].schema, f.name), t.name) != t.name:
                        return False
    return True


def refusable(dialect: str, modes: Modes, first: World, w: World) -> List[str]:
    """Reasons for which synchronization may refuse to go from one version to the other."""
    out = []
    before = {(first.modules[mi].schema, t.name): t for mi, t in first.all_tables()}
    for mi, t in w.all_tables():
        old = before.get((w.modules[mi].schema, t.name))
        if old is None:
            continue
        cols = {f.name: f for f in old.fields}
        for f in t.fields:
            o = cols.get(f.name)
            if o is None:
                continue
            if o.identity != f.identity and dialect in ("mssql", "oracle"):
                out.append("identity")
            if o.ty != f.ty and named(first, o.ty) != named(w, f.ty):
                if o.ty[0] == "ref" and f.ty[0] == "ref":
                    out.append("reference")
                if plain(first, o.ty)[0] == "str" and plain(w, f.ty)[0] in NUMBERS | ({"bool"} if dialect == "mysql" else set()):
                    out.append("text to number")
    values = {(first.modules[mi].schema, e.name): e.values for mi, m in enumerate(first.modules) for e in m.enums}
    for m in w.modules:
        for e in m.enums:
            if set(values.get((m.schema, e.name), ())) - set(e.values):
                out.append("enumeration values")
    return out


def isolate(world: World, at: int) -> World:
    """Removes every reference between the module at an index and the others."""
    for mi, m in enumerate(world.modules):
        for x in m.tables + m.structs:
            x.fields = [f for f in x.fields if all((r[0] == at) == (mi == at) for r in uses(f.ty))]
    for mi, m in enumerate(world.modules):
        for s in list(m.structs):
            if not s.fields and s in m.structs:
                m.structs.remove(s)
                drop_users(world, (mi, s.name))
    return world


class Editor:
    def __init__(self, rng: random.Random, dialect: str, modes: Modes, feats: Features):
        self.rng, self.dialect, self.modes, self.feats = rng, dialect, modes, feats
        self.log: List[Tuple[str, str]] = []

    def tables(self, w):
        return [(mi, t) for mi, t in w.all_tables()]

    def fields(self, w, pred: Callable[[Fld], bool] = lambda f: True):
        return [(mi, t, f) for mi, t in w.all_tables() for f in t.fields if not f.pk and pred(f)]

    def refs(self, w, mi):
        """Tables a table of module `mi` may refer to without a cycle between modules."""
        return [(i, t.name) for i, t in w.all_tables() if i <= mi]

    def earlier(self, w, mi, t):
        """Tables declared before a table (names that are defined when its class is)."""
        out = []
        for i, x in w.all_tables():
            if x is t:
                break
            if i <= mi:
                out.append((i, x.name))
        return out

    def used_names(self, w):
        return {x.name.lower() for m in w.modules for x in m.tables + m.enums + m.structs}

    # -------------------------------------------------------------------------------- edits; return a description or None
    def add_table(self, w):
        mi = self.rng.randrange(len(w.modules))
        n = sg.pick_names(self.rng, sg.PLAIN_TABLES, 1, self.used_names(w))[0]
        w.modules[mi].tables.append(sg.gen_table(self.rng, self.dialect, self.modes, self.feats, w, mi, n, self.refs(w, mi)))
        return n

    def remove_table(self, w):
        ts = self.tables(w)
        if len(ts) < 2:
            return None
        mi, t = self.rng.choice(ts)
        w.modules[mi].tables.remove(t)
        drop_users(w, (mi, t.name))
        return t.name

    def add_field(self, w):
        ts = self.tables(w)
        if not ts:
            return None
        mi, t = self.rng.choice(ts)
        n = sg.pick_names(self.rng, sg.PLAIN_COLS, 1, {f.name.lower() for f in t.fields})[0]
        f = sg.gen_field(self.rng, self.dialect, self.modes, self.feats, w, mi, n, self.earlier(w, mi, t), self.feats.scalars or sg.scalar_types(self.dialect))
        if f is None:
            return None
        if self.feats.docs and self.rng.random() < 0.4 and not sg.is_relation(self.modes, f):
            f.doc = self.rng.choice(sg.DOCS)
        t.fields.insert(self.rng.randint(0, len(t.fields)), f)
        return f"{t.name}.{n} {f.ty}"

    def remove_field(self, w):
        fs = self.fields(w)
        if not fs:
            return None
        mi, t, f = self.rng.choice(fs)
        t.fields.remove(f)
        return f"{t.name}.{f.name} {f.ty}"

    def move_field(self, w):
        ts = [t for _, t in self.tables(w) if len(t.fields) > 2]
        if not ts:
            return None
        t = self.rng.choice(ts)
        self.rng.shuffle(t.fields)
        return t.name

    def nullable(self, w):
        fs = self.fields(w, lambda f: not (f.ty[0] in ("list", "set") and sg.is_relation(self.modes, f)) and not f.unique and not f.identity)
        if not fs:
            return None
        mi, t, f = self.rng.choice(fs)
        f.nullable = not f.nullable
        return f"{t.name}.{f.name}={f.nullable}"

    def default(self, w):
        fs = self.fields(w, lambda f: f.ty[0] in ("bool", "int", "int64", "int32", "int16", "int8", "uint8", "float", "float64", "float32", "str", "decimal", "datetime", "intrange") and not f.unique and not f.identity)
        if self.feats.default_types is not None:
            fs = [x for x in fs if x[2].ty[0] in self.feats.default_types]
        if not fs or not self.feats.defaults:
            return None
        mi, t, f = self.rng.choice(fs)
        old = f.default
        f.default = NOVALUE if old is not NOVALUE and self.rng.random() < 0.4 else sg.gen_default(self.rng, self.dialect, f.ty, w)
        if old is NOVALUE and f.default is NOVALUE or (old is not NOVALUE and f.default is not NOVALUE and old == f.default):
            return None
        return f"{t.name}.{f.name} {old!r}->{f.default!r}"

    def change_type(self, w):
        scal = self.feats.scalars or sg.scalar_types(self.dialect)
        fs = self.fields(w, lambda f: f.ty in scal and not f.unique and not f.identity)
        if not fs:
            return None
        mi, t, f = self.rng.choice(fs)
        old = f.ty
        f.ty = self.rng.choice([s for s in scal if s != old])
        if not castable(self.dialect, old, f.ty):
            return None
        f.default = NOVALUE
        return f"{t.name}.{f.name} {old}->{f.ty}"

    def widen_type(self, w):
        """A change every server performs on stored values."""
        ladder = {("int16",): [("int32",), ("int64",)], ("int32",): [("int64",)], ("int8",): [("int32",)], ("str", 1): [("str", 80), ("str", 255)], ("str", 40): [("str", 80)], ("str", 80): [("str", 255)], ("decimal", 5, 0): [("decimal", 10, 2)], ("float32",): [("float64",)]}
        fs = self.fields(w, lambda f: f.ty in ladder and not f.identity and not (self.dialect == "mssql" and f.unique))
        if not fs:
            return None
        mi, t, f = self.rng.choice(fs)
        old = f.ty
        f.ty = self.rng.choice(ladder[old])
        return f"{t.name}.{f.name} {old}->{f.ty}"

    def unique(self, w):
        ks = self.feats.keys or sg.key_types(self.dialect)
        fs = self.fields(w, lambda f: f.ty in ks and not f.nullable and f.default is NOVALUE)
        if not fs:
            return None
        mi, t, f = self.rng.choice(fs)
        f.unique = not f.unique
        return f"{t.name}.{f.name}={f.unique}"

    def reference(self, w):
        """A column becomes a reference, refers elsewhere, or stops being one."""
        fs = self.fields(w, lambda f: f.ty[0] == "ref" or f.ty in (("int",), ("int64",), ("int32",), ("uuid",)))
        if not fs:
            return None
        mi, t, f = self.rng.choice(fs)
        old = f.ty
        if f.unique or f.default is not NOVALUE:
            return None
        if old[0] == "ref":
            others = [r for r in self.refs(w, mi) if w.table(r).pk.ty == w.table(old[1]).pk.ty and r != old[1]]
            f.ty = ("ref", self.rng.choice(others)) if others and self.rng.random() < 0.5 else w.table(old[1]).pk.ty
            if f.ty[0] == "ref" and w.table(f.ty[1]).pk.ty[0] == "ref":
                return None
        else:
            cands = [r for r in self.refs(w, mi) if w.table(r).pk.ty == old]
            if not cands:
                return None
            f.ty = ("ref", self.rng.choice(cands))
        return f"{t.name}.{f.name} {old}->{f.ty}"

    def docs(self, w):
        if not self.feats.docs:
            return None
        pick: List = [t for _, t in self.tables(w)] + [f for _, _, f in self.fields(w) if not sg.is_relation(self.modes, f)] + [t.pk for _, t in self.tables(w)]
        for m in w.modules:
            for s in m.structs:
                pick += [s] + s.fields
        o = self.rng.choice(pick)
        old = o.doc
        o.doc = self.rng.choice([d for d in (sg.DOCS if isinstance(o, sg.Fld) else sg.LONG_DOCS) + [None] if d != old])
        return f"{o.name} {old!r}->{o.doc!r}"

    def enum_add(self, w):
        if self.modes.enum == "relation" and self.modes.init:
            return None
        es = [(mi, e) for mi, m in enumerate(w.modules) for e in m.enums if not e.name.startswith("X")]
        if not es:
            return None
        mi, e = self.rng.choice(es)
        pool = self.feats.enum_values or (sg.ENUM_VALUES_ASCII if self.dialect == "mysql" or not self.feats.hostile else sg.ENUM_VALUES)
        if e.record:
            pool = [(v, 7) for v in pool]
        elif e.numeric:
            pool = list(range(-3, 12))
        known = [v for _, v in e.members]
        pool = [v for v in pool if v not in known]
        if not pool:
            return None
        for v in self.rng.sample(pool, min(len(pool), self.rng.randint(1, 2))):
            e.members.insert(self.rng.randint(0, len(e.members)) if self.feats.enum_insert else len(e.members), (f"n{len(e.members)}_{self.rng.randrange(10**6)}", v))
        return f"{e.name} {e.values}"

    def enum_remove(self, w):
        if self.modes.enum == "relation" and self.modes.init:
            return None  # values of an existing lookup table are not maintained (known finding)
        es = [(mi, e) for mi, m in enumerate(w.modules) for e in m.enums if not e.name.startswith("X") and len(e.members) > 2]
        if not es:
            return None
        mi, e = self.rng.choice(es)
        v = self.rng.choice(e.members)
        e.members.remove(v)
        return f"{e.name} without {v[1]!r}"

    def enum_new(self, w):
        ts = self.tables(w)
        if not self.feats.enums or not ts:
            return None
        mi, t = self.rng.choice(ts)
        n = sg.pick_names(self.rng, sg.ENUM_NAMES, 1, self.used_names(w))[0]
        w.modules[mi].enums.append(sg.gen_enum(self.rng, n, self.feats, self.dialect))
        c = sg.pick_names(self.rng, sg.PLAIN_COLS, 1, {f.name.lower() for f in t.fields})[0]
        t.fields.append(Fld(c, ("enum", (mi, n)), nullable=self.rng.random() < 0.5))
        return f"{n} in {t.name}.{c}"

    def enum_drop(self, w):
        es = [(mi, e) for mi, m in enumerate(w.modules) for e in m.enums]
        if not es:
            return None
        mi, e = self.rng.choice(es)
        drop_users(w, (mi, e.name))
        w.modules[mi].enums.remove(e)
        return e.name

    def struct_new(self, w):
        ts = self.tables(w)
        if not self.feats.structs or not ts:
            return None
        mi, t = self.rng.choice(ts)
        n = sg.pick_names(self.rng, sg.STRUCT_NAMES, 1, self.used_names(w))[0]
        w.modules[mi].structs.append(Struct(n, [Fld(c, self.rng.choice([("int",), ("str",), ("bool",)])) for c in sg.pick_names(self.rng, sg.PLAIN_COLS, self.rng.randint(1, 3), set())], None))
        c = sg.pick_names(self.rng, sg.PLAIN_COLS, 1, {f.name.lower() for f in t.fields})[0]
        t.fields.append(Fld(c, ("struct", (mi, n)), nullable=self.rng.random() < 0.5))
        return f"{n} in {t.name}.{c}"

    def types_new(self, w):
        """An enumeration, a composite type that has a member of it, and one that has a member of that."""
        ts = self.tables(w)
        if not self.feats.structs or not self.feats.enums or not self.feats.nested or not ts:
            return None
        mi, t = self.rng.choice(ts)
        e, x, y = sg.pick_names(self.rng, sg.ENUM_NAMES, 1, self.used_names(w)) + sg.pick_names(self.rng, sg.STRUCT_NAMES, 2, self.used_names(w))
        m = w.modules[mi]
        inner = [Fld("count", ("int",))]
        if not (self.modes.struct == "type" and self.modes.enum in ("relation", "inline")):
            m.enums.append(sg.gen_enum(self.rng, e, self.feats, self.dialect))
            inner.append(Fld("kind", ("enum", (mi, e)), nullable=self.rng.random() < 0.5))
        m.structs += [Struct(x, inner, None), Struct(y, [Fld("part", ("struct", (mi, x))), Fld("label", ("str", 40))], None)]
        c = sg.pick_names(self.rng, sg.PLAIN_COLS, 1, {f.name.lower() for f in t.fields})[0]
        t.fields.append(Fld(c, ("struct", (mi, y)), nullable=self.rng.random() < 0.5))
        return f"{e}, {x} and {y} in {t.name}.{c}"

    def types_drop(self, w):
        """A composite type and the types of its members."""
        ss = [(mi, s) for mi, m in enumerate(w.modules) for s in m.structs]
        if not ss:
            return None
        mi, s = self.rng.choice(ss)
        names = []
        for r in [(mi, s.name)] + [r for f in s.fields for r in uses(f.ty)]:
            m = w.modules[r[0]]
            for kind in (m.structs, m.enums):
                for x in [x for x in kind if x.name == r[1]]:
                    drop_users(w, r)
                    kind.remove(x)
                    names.append(x.name)
        return ", ".join(names)

    def struct_change(self, w):
        ss = [(mi, s) for mi, m in enumerate(w.modules) for s in m.structs]
        if not ss:
            return None
        mi, s = self.rng.choice(ss)
        k = self.rng.choice(["add", "remove", "type"])
        if k == "type" and self.modes.struct == "type" and self.dialect == "postgresql":
            # refused by the server while columns of the type exist (known finding)
            used = {r for m in w.modules for x in m.tables for f in x.fields for r in uses(f.ty)}
            used |= {r for m in w.modules for x in m.structs for f in x.fields for r in uses(f.ty)}
            if not getattr(self.feats, "loose", False):
                ss = [(i, x) for i, x in ss if (i, x.name) not in used]
            if not ss:
                return None
            mi, s = self.rng.choice(ss)
        if k == "add":
            c = sg.pick_names(self.rng, sg.PLAIN_COLS, 1, {f.name.lower() for f in s.fields})[0]
            s.fields.append(Fld(c, self.rng.choice([("int",), ("str",), ("bool",), ("str", 40), self.rng.choice(s.fields).ty]), nullable=self.rng.random() < 0.3))
            if self.feats.docs and self.rng.random() < 0.4:
                s.fields[-1].doc = self.rng.choice(sg.DOCS)
        elif k == "remove":
            if len(s.fields) < 2:
                return None
            s.fields.remove(self.rng.choice(s.fields))
        else:
            f = self.rng.choice(s.fields)
            f.ty = self.rng.choice([x for x in [("int",), ("str",), ("bool",), ("str", 40), ("int32",)] if x != f.ty])
        return f"{s.name} {k}"

    def struct_drop(self, w):
        ss = [(mi, s) for mi, m in enumerate(w.modules) for s in m.structs]
        if not ss:
            return None
        mi, s = self.rng.choice(ss)
        drop_users(w, (mi, s.name))
        w.modules[mi].structs.remove(s)
        return s.name

    def add_module(self, w):
        names = [s for s in (self.feats.schemas or sg.SCHEMAS[self.dialect]) if s not in {m.schema for m in w.modules}]
        if not names or len(w.modules) > 3:
            return None
        w.modules.append(Module(self.rng.choice(names)))
        mi = len(w.modules) - 1
        for n in sg.pick_names(self.rng, sg.PLAIN_TABLES, self.rng.randint(1, 2), self.used_names(w)):
            w.modules[mi].tables.append(sg.gen_table(self.rng, self.dialect, self.modes, self.feats, w, mi, n, self.refs(w, mi)))
        return w.modules[mi].schema

    def remove_module(self, w):
        ms = [mi for mi, m in enumerate(w.modules) if m.tables]
        if len(ms) < 2:
            return None
        mi = self.rng.choice(ms)
        m = w.modules[mi]
        for o in m.tables + m.enums + m.structs:
            drop_users(w, (mi, o.name))
        m.tables, m.enums, m.structs = [], [], []
        return m.schema

    def identity(self, w):
        ts = [(mi, t) for mi, t in self.tables(w) if t.pk.ty[0] in ("int", "int64", "int32")]
        if not ts:
            return None
        mi, t = self.rng.choice(ts)
        t.pk.identity = not t.pk.identity
        return f"{t.name}.{t.pk.name}={t.pk.identity}"

    def aspect(self, w, what: str):
        """A single property of a single object is added, changed or removed."""
        kind, target, action = what.split("-")
        if kind == "doc":
            if not self.feats.docs:
                return None
            pick = {
                "table": lambda: [t for _, t in self.tables(w)],
                "key": lambda: [t.pk for _, t in self.tables(w)],
                "column": lambda: [f for _, _, f in self.fields(w) if not sg.is_relation(self.modes, f)],
                "struct": lambda: [s for m in w.modules for s in m.structs],
                "member": lambda: [f for m in w.modules for s in m.structs for f in s.fields],
            }[target]()
            pick = [o for o in pick if (o.doc is None) == (action == "add")]
            if not pick:
                return None
            o = self.rng.choice(pick)
            old = o.doc
            o.doc = None if action == "remove" else self.rng.choice([d for d in (sg.DOCS if isinstance(o, sg.Fld) else sg.LONG_DOCS) if d != old])
            return f"{o.name} {old!r}->{o.doc!r}"
        if kind == "default":
            types = ("bool", "int", "int64", "int32", "int16", "int8", "uint8", "float", "float64", "float32", "str", "decimal", "datetime", "intrange")
            fs = self.fields(w, lambda f: f.ty[0] in types and not f.unique and not f.identity and f.nullable == (target == "optional") and (f.default is NOVALUE) == (action == "add"))
            if self.feats.default_types is not None:
                fs = [x for x in fs if x[2].ty[0] in self.feats.default_types]
            if not fs or not self.feats.defaults:
                return None
            mi, t, f = self.rng.choice(fs)
            old = f.default
            f.default = NOVALUE if action == "remove" else sg.gen_default(self.rng, self.dialect, f.ty, w)
            if action != "remove" and (f.default is NOVALUE or (old is not NOVALUE and old == f.default)):
                return None
            return f"{t.name}.{f.name} {old!r}->{f.default!r}"
        fs = self.fields(w, lambda f: not (f.ty[0] in ("list", "set") and sg.is_relation(self.modes, f)) and not f.unique and not f.identity and (f.default is NOVALUE) == (target == "plain") and f.nullable == (action == "remove"))
        if not fs:
            return None
        mi, t, f = self.rng.choice(fs)
        f.nullable = not f.nullable
        return f"{t.name}.{f.name}={f.nullable}"

    ASPECTS = [f"doc-{t}-{a}" for t in ("table", "key", "column", "struct", "member") for a in ("add", "change", "remove")]
    ASPECTS += [f"default-{t}-{a}" for t in ("optional", "mandatory") for a in ("add", "change", "remove")]
    ASPECTS += [f"null-{t}-{a}" for t in ("plain", "default") for a in ("add", "remove")]

    WEIGHTS: Dict[str, float] = {
        "add_table": 3, "remove_table": 3, "add_field": 5, "remove_field": 4, "move_field": 0.5, "nullable": 3, "default": 3, "change_type": 2, "widen_type": 2, "unique": 3, "reference": 3,
        "docs": 2, "enum_add": 2, "enum_remove": 0.5, "enum_new": 1, "enum_drop": 1, "struct_new": 1, "struct_change": 2, "struct_drop": 1, "types_new": 1, "types_drop": 0.7, "add_module": 1, "remove_module": 1, "identity": 0.5,
    }


def evolve(rng: random.Random, world: World, dialect: str, modes: Modes, feats: Optional[Features] = None, n: Optional[int] = None, without=(), only=None, frozen=None):
    """The next version of a declaration; returns (world, [(kind, description)])."""
    feats = feats or Features()
    if not hasattr(feats, "enum_insert"):
        feats.enum_insert = True
    ed = Editor(rng, dialect, modes, feats)
    kinds = [k for k in ed.WEIGHTS if k not in without and (only is None or k in only)] + [k for k in ed.ASPECTS if only and k in only]
    w = world.clone()
    todo = n if n is not None else rng.choice([1, 1, 2, 3, 5, 8])
    tries = 0
    while todo and tries < 60:
        tries += 1
        k = rng.choices(kinds, [ed.WEIGHTS.get(x, 1) for x in kinds])[0]
        nxt = w.clone()
        what = ed.aspect(nxt, k) if "-" in k else getattr(ed, k)(nxt)
        if what is None:
            continue
        nxt = arrange(nxt, dialect)
        if not acceptable(world, nxt, dialect, modes):
            continue
        if frozen is not None and (nxt.modules[frozen] != w.modules[frozen] or any((r[0] == frozen) != (mi == frozen) for mi, m in enumerate(nxt.modules) for x in m.tables + m.structs for f in x.fields for r in uses(f.ty))):
            continue
        w = nxt
        ed.log.append((k, what))
        todo -= 1
    return w, ed.log
