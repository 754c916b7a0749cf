"""Data workloads: declarations with data, values as the library takes them, and what the server then holds."""

from __future__ import annotations

import asyncio
import datetime as dt
import decimal
import ipaddress
import random
import uuid
from typing import Any, Dict, List, Optional

import scenario as sc
from harness import Violation
import specgen as sg
from specgen import NOVALUE, Enum, Fld, Module, Struct, Table, World

NoneType = type(None)
PY = {
    "bool": bool, "int": int, "int8": int, "int16": int, "int32": int, "int64": int, "uint8": int, "uint16": int, "uint32": int, "uint64": int, "intrange": int,
    "float": float, "float32": float, "float64": float, "str": str, "literal": str, "decimal": decimal.Decimal, "datetime": dt.datetime, "date": dt.date, "time": dt.time,
    "uuid": uuid.UUID, "ipv4": ipaddress.IPv4Address, "ipv6": ipaddress.IPv6Address, "ip": ipaddress.IPv4Address, "bytes": bytes, "xenum": str,
}


def lookup(modes, ty) -> bool:
    return ty[0] == "xenum" or (ty[0] == "enum" and modes.enum == "relation")


def field_type(rendered: sg.Rendered, modes, ty: tuple) -> type:
    """The type that a caller states for a record field."""
    k = ty[0]
    if lookup(modes, ty):
        return str
    if k == "enum":
        return rendered.cls(ty[1])
    if k in ("ref", "duni"):
        return field_type(rendered, modes, rendered.world.table(ty[1] if k == "ref" else ty[1][0]).pk.ty)
    return {"list": list, "set": set, "struct": dict}.get(k) or PY[k]


def record_value(rendered: sg.Rendered, modes: sg.Modes, ty: tuple, v: Any) -> Any:
    """A canonical value as an item of a record tuple."""
    if v is None or lookup(modes, ty):
        return v if v is None else str(v)  # a value of a lookup table is known by its text
    k = ty[0]
    if k in ("ref", "duni"):
        return record_value(rendered, modes, rendered.world.table(ty[1] if k == "ref" else ty[1][0]).pk.ty, v)
    if k == "enum":
        return rendered.cls(ty[1])(v)
    if k == "set":
        return set(v)
    if k == "struct" and modes.struct == "type":
        return tuple(v[f.name] for f in rendered.world.struct(ty[1]).fields)
    if k == "list" and ty[1][0] == "struct":
        if modes.struct == "type" and modes.array == "array":
            return [tuple(e[f.name] for f in rendered.world.struct(ty[1][1]).fields) for e in v]
        return [without_none(e) for e in v]
    if k == "struct":
        return without_none(v)
    if k == "list" and ty[1][0] == "enum" and modes.array == "array" and modes.enum != "check":
        return [str(e) for e in v]  # values of an enumeration type are texts
    return list(v) if k == "list" else v


def without_none(v: dict) -> dict:
    """Absent members of a structure, as objects are written, and not members that are null."""
    return {k: x for k, x in v.items() if x is not None}


def storable(path: str, dialect: str, modes: sg.Modes, ty: tuple) -> bool:
    """Whether values of this type can be stored in this way at all (the rest is refused loudly; findings of C11)."""
    k = ty[0]
    if k == "xenum" and modes.enum == "type":
        return False  # creation fails (C01)
    if k in ("list", "set") and modes.array == "relation":
        return False
    if k == "set" and modes.array == "array":
        return False
    if k == "list" and modes.array == "array" and modes.enum == "relation" and ty[1][0] == "enum":
        return False
    if k == "list" and modes.array == "array" and modes.struct == "json" and ty[1][0] == "struct":
        return False
    if path == "objects":
        if lookup(modes, ty):
            return False
        if dialect == "postgresql" and modes.struct == "type" and (k == "struct" or (k == "list" and ty[1][0] == "struct" and modes.array == "array")):
            return False
    return True


LEVEL = Enum("Level", [("low", "low"), ("mid", "it's"), ("high", "Ünï"), ("top", "x; --")])
COLOR = Enum("Color", [("red", "red"), ("green", "green"), ("blue", "blue")])
RANK = Enum("Rank", [("third", 3), ("none", 0), ("first", 1), ("least", -1)])
POINT = Struct("Point", [Fld("x", ("int",)), Fld("y", ("str",)), Fld("z", ("float",), True)])


def enums(dialect):
    lev = Enum("Level", list(LEVEL.members))
    if dialect in ("mssql", "oracle"):
        lev.members = [(m, v if v.isascii() else "Uni") for m, v in lev.members]
    return [lev, Enum("Color", list(COLOR.members)), Enum("Rank", list(RANK.members))]


def all_types(dialect: str, modes: sg.Modes, stable=True) -> List[tuple]:
    ts = list(sc.stable_features(dialect).scalars) if stable else list(sg.scalar_types(dialect))
    ts += [("enum", (0, "Level")), ("enum", (0, "Color")), ("enum", (0, "Rank")), ("literal", ("aa", "b", "it's"))]
    ts += [("xenum", (0, "Color"))] if modes.enum != "type" else []
    ts += [("struct", (0, "Point"))]
    ts += [("list", e) for e in sg.element_types(dialect, modes) + [("enum", (0, "Level")), ("enum", (0, "Rank")), ("struct", (0, "Point"))]]
    ts += [("set", ("int",)), ("set", ("str",))]
    return ts


def table_world(rng: random.Random, dialect: str, modes: sg.Modes, path: str, *, n=None, keys=None, identity=0.15, stable=True, ref=0.4, types=None, defaults=True, schema="s1", unique=0.0, absent=0.0) -> World:
    """Two tables: `Thing` with random fields, and `Other` that it may refer to."""
    pool = [t for t in (types or all_types(dialect, modes, stable)) if storable(path, dialect, modes, t)]
    keys = keys or sg.key_types(dialect)
    used: set = set()
    ident = rng.random() < identity
    names = rng.sample(sg.PLAIN_COLS, 12)
    other = Table("Other", [Fld("id", rng.choice(keys), pk=True), Fld("note", ("str", 80), unique=True) if rng.random() < 0.2 else Fld("note", ("str", 80), True)])
    pk = Fld("id", ("int64",) if ident else rng.choice(keys), pk=True, identity=ident)
    fields = []
    for _ in range(rng.randint(1, 7) if n is None else n):
        if rng.random() < ref / 3:
            f = Fld(names.pop(), ("ref", (0, "Other")), rng.random() < 0.5)
        else:
            f = Fld(names.pop(), rng.choice(pool), rng.random() < 0.4)
        if defaults and f.ty[0] in (sc.stable_features(dialect).default_types or {"int", "int32", "bool", "str", "decimal", "float"}) and rng.random() < 0.3 and not f.nullable:
            f.default = sg.gen_default(rng, dialect, f.ty, None)
        fields.append(f)
    if rng.random() < unique:
        fields.insert(0, Fld(names.pop(), rng.choice(keys), absent > 0 and rng.random() < absent, unique=True))
    for f in fields:
        f.note = f.ty[0] in sg.NOTED and rng.random() < 0.1
    # data-classes take fields with a default value last
    fields.sort(key=lambda f: f.default is not NOVALUE)
    thing = Table("Thing", [pk, *fields])
    if rng.random() < 0.1:
        thing.base = rng.randint(1, len(thing.fields))
    return World([Module(schema, enums(dialect), [Struct("Point", list(POINT.fields))], [other, thing])])


def permuted(rng, world: World) -> World:
    """The same declaration with the fields of `Thing` in another order (a data-class order is kept valid)."""
    w = world.clone()
    t = w.table((0, "Thing"))
    rng.shuffle(t.fields)
    t.fields.sort(key=lambda f: f.default is not NOVALUE)
    return w


class Session:
    """One open session of the library over a simulated server that has the declaration in place."""

    def __init__(self, dialect, modes, world):
        self.dialect, self.modes, self.world = dialect, modes, world


async def prepare(rng, dialect, modes, world, state: str, b=None):
    """A server with the tables of the declaration; for any `state` but "created" made by an earlier session."""
    b = b or sc.backend(dialect)
    if state == "created":
        return b
    first = permuted(rng, world) if state != "same" else world
    if state == "added":
        t = first.table((0, "Thing"))
        late = [f for f in t.fields if not f.pk and (f.nullable)]
        for f in late[: rng.randint(0, len(late))]:
            t.fields.remove(f)
    with sg.Rendered(first) as R:
        conn = sc.connection(dialect, modes, R.namespaces())
        async with conn as ctx:
            await sc.create(conn, ctx, R)
    return b


async def enter(rng, dialect, modes, conn, ctx, R, state):
    """Brings the session to where it knows the tables."""
    if state == "created":
        await sc.create(conn, ctx, R)
    elif state in ("discovered", "same"):
        await sc.engine(dialect).create_explorer(ctx).discover(modules=list(R.modules))
    elif state in ("synchronized", "added"):
        await sc.engine(dialect).create_explorer(ctx).synchronize(modules=list(R.modules))
    else:
        raise KeyError(state)


STATES = ["created", "discovered", "synchronized", "added"]


def new_key(rng, world, dialect, ty, used: set):
    for _ in range(200):
        v = sg.gen_value(rng, world, dialect, ty)
        if v not in used and not (isinstance(v, str) and v != v.strip()):
            used.add(v)
            return v
    raise RuntimeError("no more keys")


def thing_record(rng, world, dialect, modes, pool: Dict[tuple, list], key=NOVALUE, only=None) -> Dict[str, Any]:
    """Canonical values of a record of `Thing`."""
    t = world.table((0, "Thing"))
    rec = {}
    for f in t.fields:
        if f.pk:
            if key is not NOVALUE:
                rec[f.name] = key
            continue
        if only is not None and f.name not in only:
            continue
        v = sg.gen_value(rng, world, dialect, f.ty, f.nullable, pool)
        if v is NOVALUE:
            raise RuntimeError(f"no value for {f}")
        rec[f.name] = sg.canon(world, f.ty, v)
    return rec


async def fill_other(rng, world, dialect, modes, ctx, R, n=4) -> Dict[tuple, list]:
    """Rows of `Other`; their keys by table."""
    other = world.table((0, "Other"))
    used: set = set()
    ks = [new_key(rng, world, dialect, other.pk.ty, used) for _ in range(n)]
    await ctx.insert_rows(ctx.get_table(R.cls((0, "Other"))), [(record_value(R, modes, other.pk.ty, k), f"note {i}") for i, k in enumerate(ks)], field_types=(field_type(R, modes, other.pk.ty), str), field_names=("id", "note"))
    return {(0, "Other"): ks}


def to_object(R, cls, world, rec: Dict[str, Any]):
    t = world.table((0, "Thing"))
    return cls(**{f.name: sg.to_python(R, f.ty, rec[f.name]) for f in t.fields if f.name in rec})


def stored(world, dialect, modes, server, name="Thing") -> List[Dict[str, Any]]:
    """Rows of a table as canonical values; identity columns as they are."""
    t = world.table((0, name))
    tab = server.find_table(sg.db_name(dialect, world.modules[0].schema, name))
    out = []
    for row in server.dump_rows(tab):
        out.append({f.name: sg.canon(world, f.ty, sg.decode(world, dialect, modes, f.ty, server, row[f.name])) for f in t.fields})
    return out


def raw(world, dialect, server, name="Thing") -> List[Dict[str, Any]]:
    return server.dump_rows(server.find_table(sg.db_name(dialect, world.modules[0].schema, name)))


def shaped(rng, data: list, kinds=("list", "tuple", "generator", "iterator", "async", "slow")):
    """The same data as some kind of source; returns (kind, source)."""
    kind = rng.choice(kinds)
    if kind == "list":
        return kind, list(data)
    if kind == "tuple":
        return kind, tuple(data)
    if kind == "generator":
        return kind, (x for x in data)
    if kind == "iterator":
        return kind, iter(list(data))
    if kind == "view":
        return kind, {i: x for i, x in enumerate(data)}.values()

    async def source():
        for x in data:
            if kind == "slow":
                await asyncio.sleep(0)
            yield x

    return kind, source()


def freeze(v):
    if isinstance(v, dict):
        return tuple(sorted((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    return (type(v).__name__ if isinstance(v, bool) else "", repr(v) if not isinstance(v, (int, float, decimal.Decimal)) else float(v) if not isinstance(v, int) else v)


def find_same(rows: List[dict], rec: dict, skip=()) -> Optional[int]:
    for i, r in enumerate(rows):
        if all(sg.same(r[k], v) for k, v in rec.items() if k not in skip):
            return i
    return None


def as_records(rng, R, dialect, modes, table, fields, recs, omittable=lambda f: f.nullable or f.default is not NOVALUE, mode=None):
    """Records as tuples with fields in any order, some left out, some marked as omitted; returns (mode, fields omitted, tuples, keyword arguments)."""
    mode = mode or rng.choice(["declared", "shuffled", "subset", "marked", "named none"])
    fields = list(fields)
    if mode != "declared":
        rng.shuffle(fields)
    omitted = []
    if mode in ("subset", "marked", "named none"):
        omitted = [f for f in fields if omittable(f) and rng.random() < 0.5]
        if len(omitted) == len(fields):
            omitted.pop()
    slots = []  # (name, type, function of the record)
    for f in fields:
        if f in omitted:
            if mode == "marked":
                slots.append(("", rng.choice([str, int, object, NoneType]), lambda rec: rng.choice([None, 1, "junk", object()])))
            elif mode == "named none":
                slots.append((f.name, NoneType, lambda rec: rng.choice([None, 1, "junk"])))
            continue
        slots.append((f.name, field_type(R, modes, f.ty), lambda rec, f=f: record_value(R, modes, f.ty, rec[f.name])))
    if mode == "marked":
        for _ in range(rng.randint(0, 3)):
            slots.insert(rng.randint(0, len(slots)), ("", rng.choice([str, int, NoneType]), lambda rec: "extra"))
    data = [tuple(fn(rec) for _, _, fn in slots) for rec in recs]
    if rng.random() < 0.1:
        data = [list(x) for x in data] if dialect != "mssql" else data
    names = tuple(s[0] for s in slots)
    keywords = dict(field_types=tuple(s[1] for s in slots), field_names=names)
    if mode == "declared" and list(table.columns.keys()) == list(names) and rng.random() < 0.5:
        del keywords["field_names"]
        mode = "positional"
    return mode, omitted, data, keywords


def default_of(world, f):
    """What a row holds in a column for which nothing was supplied when it was added."""
    return sg.canon(world, f.ty, f.default) if f.default is not NOVALUE else None


def table_differs(world, dialect, modes, server, model: Dict[Any, dict]) -> Optional[str]:
    """How the table `Thing` differs from the model (by frozen key), if it does."""
    t = world.table((0, "Thing"))
    rows = stored(world, dialect, modes, server)
    seen: set = set()
    for r in rows:
        k = freeze(r[t.pk.name])
        if k in seen:
            return f"two rows with key {r[t.pk.name]!r}"
        seen.add(k)
        want = model.get(k)
        if want is None:
            return f"a row with key {r[t.pk.name]!r} which should not be there"
        for name, v in want.items():
            if not sg.same(r[name], v):
                return f"row {r[t.pk.name]!r} holds {r[name]!r} in {name} instead of {v!r}"
    for k, rec in model.items():
        if k not in seen:
            return f"no row with key {rec[t.pk.name]!r}"
    return None


def closed(b) -> None:
    """Each session was closed, and what it did is there for others."""
    if any(c.closed_count != 1 for c in b.conns):
        raise Violation("connection not closed")
    if b.server.lost:
        raise Violation("rows are lost when the connection is closed, as the transaction is not committed")
