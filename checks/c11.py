"""C11: values reach the database in the form its columns take, distinct values stay distinct, None alone becomes NULL."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import datetime as dt
import json
import random
import typing
from decimal import Decimal

import harness
from harness import Check, Obs, Violation
import datawork as dw
import probes as pb
import scenario as sc
import specgen as sg
from specgen import NOVALUE

import pysqlsync.base

DIALECTS = sg.DIALECTS
EMPTY = {
    "bool": [False, True], "int": [0], "int8": [0], "int16": [0], "int32": [0], "int64": [0], "uint8": [0], "float": [0.0], "float32": [0.0], "float64": [0.0], "str": [""],
    "decimal": [Decimal(0)], "bytes": [b"", b"\0", b"'", b"\\x00", b"\xff\xfe"], "list": [[]], "set": [[]], "time": [dt.time(0, 0)],
}


def values(rng, world, dialect, f, pool, n):
    """Values of a field: falsy ones, extremes, random ones; None only if it may be."""
    out = []
    for v in EMPTY.get(f.ty[0], ()):
        if dialect == "oracle" and f.ty[0] in ("str", "bytes") and not v:
            continue  # Oracle stores no empty text
        out.append(v)
    while len(out) < n:
        v = sg.gen_value(rng, world, dialect, f.ty, False, pool)
        out.append(v)
    if f.nullable:
        for i in rng.sample(range(n), max(1, n // 4)):
            out[i] = None
    out = out[:n]
    rng.shuffle(out)
    return [sg.canon(world, f.ty, v) for v in out]


def is_null(v):
    return v is None


def store(obs: Obs, dialect: str, seed: int, path: str):
    """The same values stored from objects and from records, or from records alone."""
    rng = random.Random(f"c11/{dialect}/{seed}/{path}")
    modes = sc.random_modes(rng, dialect)
    world = dw.table_world(rng, dialect, modes, path, n=rng.randint(3, 8), stable=False, identity=0, defaults=False, ref=0.8)
    t = world.table((0, "Thing"))
    n = rng.randint(4, 14)
    size = rng.choice([2, 5, 100000])
    saved, pysqlsync.base.BATCH_SIZE = pysqlsync.base.BATCH_SIZE, size
    state = rng.getstate()
    ways = ["insert_rows", "upsert_rows"] + (["insert_data", "upsert_data"] if path == "objects" else [])
    ways = rng.sample(ways, 2 if path == "records" else 3)
    desc = f"{dialect} {modes.key()[:3]} {[(f.name, f.ty, 'null' if f.nullable else '') for f in t.fields]}"

    async def one(way):
        r = random.Random(f"{seed}/{way}")
        v = random.Random(f"{seed}/values")
        b = sc.backend(dialect)
        with sg.Rendered(world) as R:
            conn = sc.connection(dialect, modes, R.namespaces())
            async with conn as ctx:
                await sc.create(conn, ctx, R)
                pool = await dw.fill_other(v, world, dialect, modes, ctx, R)
                cls = R.cls((0, "Thing"))
                used: set = set()
                cols = {f.name: values(v, world, dialect, f, pool, n) for f in t.fields if not f.pk}
                keys = [dw.new_key(v, world, dialect, t.pk.ty, used) for _ in range(n)]
                recs = [{t.pk.name: keys[i], **{k: c[i] for k, c in cols.items()}} for i in range(n)]
                if way.endswith("data"):
                    kind, source = dw.shaped(r, [dw.to_object(R, cls, world, rec) for rec in recs], ("list", "generator"))
                    await getattr(ctx, way)(cls, source)
                else:
                    mode, omitted, data, kw = dw.as_records(r, R, dialect, modes, ctx.get_table(cls), t.fields, recs, omittable=lambda f: False, mode=r.choice(["declared", "shuffled", "marked"]))
                    kind, source = dw.shaped(r, data)
                    await getattr(ctx, way)(ctx.get_table(cls), source, **kw)
                judge(obs, world, dialect, modes, b.server, recs, f"{way} {desc}")
                raw = dw.raw(world, dialect, b.server)
                return {dw.freeze(row[t.pk.name]): row for row in raw}, {f.name: named(b.server, modes, f) for f in t.fields}

    def named(server, modes, f):
        """Identifiers of lookup values depend on the order in which they are first seen."""
        return dw.lookup(modes, f.ty)

    async def body():
        first = None
        for way in ways:
            got, via = await one(way)
            if first is not None:
                for k, row in got.items():
                    other = first[0].get(k)
                    if other is None:
                        raise Violation(f"key stored by {way} differs from the one stored by {first[1]}: {desc}")
                    for f in t.fields:
                        a, b = row[f.name], other[f.name]
                        if not via[f.name] and not (type(a) is type(b) and repr(a) == repr(b)) and not loose(f, a, b):
                            raise Violation(f"{way} stores {a!r} and {first[1]} stores {b!r} in {f.name} ({f.ty}): {desc}")
                        obs.count("values stored in two ways")
            else:
                first = (got, way)
            obs.see((dialect, way), 0)

    try:
        sc.run(body())
    finally:
        pysqlsync.base.BATCH_SIZE = saved
    obs.sample(desc)


def loose(f, a, b):
    """Sets have no order."""
    if f.ty[0] == "set":
        x, y = (json.loads(getattr(v, "text", v) if isinstance(v, (str, bytes)) else str(getattr(v, "text", v))) for v in (a, b))
        return sorted(map(repr, x)) == sorted(map(repr, y))
    return False


def judge(obs, world, dialect, modes, server, recs, what):
    t = world.table((0, "Thing"))
    raw = dw.raw(world, dialect, server)
    rows = dw.stored(world, dialect, modes, server)
    if len(rows) != len(recs):
        raise Violation(f"{len(rows)} rows for {len(recs)} records: {what}")
    at = {dw.freeze(r[t.pk.name]): i for i, r in enumerate(rows)}
    seen: dict = {}
    for rec in recs:
        i = at.get(dw.freeze(rec[t.pk.name]))
        if i is None:
            raise Violation(f"key {rec[t.pk.name]!r} cannot be recovered: {what}")
        for f in t.fields:
            v, got, held = rec[f.name], rows[i][f.name], raw[i][f.name]
            if is_null(held) != (v is None):
                raise Violation(f"{v!r} is stored as {held!r} in {f.name} ({f.ty}): {what}")
            if not sg.same(got, v):
                raise Violation(f"{v!r} stored as {held!r} in {f.name} ({f.ty}) reads {got!r}: {what}")
            if f.ty[0] != "set":
                was = seen.setdefault((f.name, dw.freeze(getattr(held, "text", held))), v)
                if not sg.same(was, v):
                    raise Violation(f"{was!r} and {v!r} are both stored as {held!r} in {f.name} ({f.ty}): {what}")
            obs.see((dialect, what.split()[0], dw.lookup(modes, f.ty) or modes.key()[:3] if f.ty[0] in ("enum", "struct", "list", "set") else "", f.ty, f.nullable, v is None, not v), kind="values")


PLAIN = '''
class Level(enum.Enum):
    low = "low"
    mid = "it's"
@dataclass
class Point:
    x: int
    y: str
@dataclass
class Other:
    id: PrimaryKey[uuid.UUID]
@dataclass
class Thing:
    id: PrimaryKey[int]
    b: bool
    i: int
    s: str
    f: float
    d: decimal.Decimal
    t: datetime.datetime
    da: datetime.date
    u: uuid.UUID
    ip4: ipaddress.IPv4Address
    ip6: ipaddress.IPv6Address
    e: Level
    l: list[int]
    le: list[Level]
    p: Point
    o: Other
    ob: Optional[bool]
    oi: Optional[int]
    os: Optional[str]
    ou: Optional[uuid.UUID]
    oip: Optional[ipaddress.IPv4Address]
    oe: Optional[Level]
    ol: Optional[list[int]]
    op: Optional[Point]
    oo: Optional[Other]
'''


def redshift(obs: Obs, seed: int):
    """The conversions of the Redshift dialect, of which there is no simulated server."""
    from pysqlsync.base import GeneratorOptions
    from pysqlsync.factory import get_dialect
    import redshift as rs

    rs.install()
    rng = random.Random(f"c11r/{seed}")
    m = pb.module(PLAIN)
    engine = get_dialect("redshift")
    gen = engine.create_generator(GeneratorOptions(namespaces={m: "s1"}))
    gen.create(modules=[m])
    W = dw.table_world(rng, "postgresql", sg.DEFAULT_MODES["postgresql"], "records", n=1)

    def val(ty, nullable=False):
        return sg.gen_value(rng, W, "postgresql", ty, nullable)

    lv = lambda: rng.choice(list(m.Level))
    maybe = lambda fn: None if rng.random() < 0.3 else fn()
    point = lambda: m.Point(val(("int",)), val(("str",)))
    objs = []
    for _ in range(12):
        objs.append(m.Thing(val(("int",)), val(("bool",)), val(("int",)), val(("str",)), val(("float",)), val(("decimal", 10, 2)), val(("datetime",)), val(("date",)), val(("uuid",)), val(("ipv4",)), val(("ipv6",)), lv(), [val(("int",)) for _ in range(rng.randint(0, 3))], [lv() for _ in range(rng.randint(0, 3))], point(), val(("uuid",)), val(("bool",), True), val(("int",), True), val(("str",), True), val(("uuid",), True), val(("ipv4",), True), maybe(lv), maybe(lambda: [val(("int",)) for _ in range(rng.randint(0, 2))]), maybe(point), val(("uuid",), True)))

    def back(name, v):
        if v is None:
            return None
        if name in ("u", "ou", "o", "oo"):
            return m.uuid.UUID(bytes=v)
        if name in ("ip4", "oip"):
            return m.ipaddress.IPv4Address(v)
        if name == "ip6":
            return m.ipaddress.IPv6Address(v)
        if name in ("e", "oe"):
            return m.Level(v)
        if name in ("l", "ol"):
            return json.loads(v) if isinstance(v, str) else v
        if name == "le":
            return [m.Level(x) for x in (json.loads(v) if isinstance(v, str) else v)]
        if name in ("p", "op"):
            return m.Point(**json.loads(v))
        return v

    import dataclasses

    names = [f.name for f in dataclasses.fields(m.Thing)]
    for rec, o in zip(gen.get_dataclasses_as_records(m.Thing, objs), objs):
        if len(rec) != len(names):
            raise Violation(f"record of {len(rec)} items for {len(names)} fields")
        for name, v in zip(names, rec):
            want = getattr(o, name)
            got = back(name, v)
            if type(got) is not type(want) or got != want:
                raise Violation(f"redshift: {want!r} of field {name} becomes {v!r}")
            obs.see(("redshift", name, want is None, not want), kind="values")
        if gen.get_dataclass_as_record(m.Thing, o) != rec:
            raise Violation("redshift: one object and a list of objects convert differently")


# -- reproductions --------------------------------------------------------------------------------------------------------

ONE = """
class Level(enum.Enum):
    low = "low"
    mid = "it's"
@dataclass
class Point:
    x: int
    y: str
class Rank(enum.Enum):
    third = 3
    first = 1
    second = 2
@dataclass
class Thing:
    id: PrimaryKey[int]
    v: %s
"""


def objects(value, want=None):
    async def act(ctx, mods, srv):
        m = mods[0]
        v = value(m)
        await pb.attempt(ctx.insert_data(m.Thing, [m.Thing(1, v)]), f"storing {v!r} from an object")
        got = pb.dump(srv)[0]["v"]
        if (got is None) != (v is None):
            raise Violation(f"{v!r} is stored as {got!r}")
        if want is not None and not want(got):
            raise Violation(f"{v!r} is stored as {got!r}")

    return act


def rows(ty, value, want=None):
    async def act(ctx, mods, srv):
        m = mods[0]
        v = value(m)
        await pb.attempt(ctx.insert_rows(ctx.get_table(m.Thing), [(1, v)], field_types=(int, ty(m)), field_names=("id", "v")), f"storing {v!r} from a record")
        got = pb.dump(srv)[0]["v"]
        if want is not None and not want(got):
            raise Violation(f"{v!r} is stored as {got!r}")

    return act


def main():
    c = Check(
        "C11",
        "distinct (dialect, way of storing, modes for composite types, type, may be NULL, is None, is empty)",
        [
            "empty text on Oracle, trailing blanks in text on SQL Server, fractions of unconstrained decimals and fractions of seconds of MySQL columns without precision are outside: the server does not keep them",
            "fields of the type JsonType are outside (objects of it cannot be inserted at all)",
            "storing from an object and from a record is compared for types that can be stored both ways; what is refused is listed as findings",
            "Redshift: conversion of values only, there is no simulated server",
        ],
    )
    for d in DIALECTS:
        for s in c.seeds(c.pick(450, 9000), 1):
            c.add(store, dialect=d, seed=s, path="objects")
        for s in c.seeds(c.pick(250, 5000), 2):
            c.add(store, dialect=d, seed=s, path="records")
    for s in c.seeds(c.pick(40, 600), 3):
        c.add(redshift, seed=s)
    uid = lambda m: m.uuid.UUID(int=9)
    for d in DIALECTS:
        use = lambda ty, act, **kw: pb.uses(d, ONE % ty, act, modes=pb.defaults(d, **kw))
        if d != "postgresql":
            c.probe(f"{d}-optional-uuid", use("Optional[uuid.UUID]", objects(uid)))
        c.probe(f"{d}-optional-enum", use("Optional[Level]", objects(lambda m: m.Level.mid), enum={"postgresql": "type", "mysql": "inline"}.get(d, "check")))
        c.probe(f"{d}-json-list", use("list[int]", objects(lambda m: [1, 2]), array="json"))
        c.probe(f"{d}-json-list-of-enum", use("list[Level]", objects(lambda m: [m.Level.mid]), array="json", enum={"postgresql": "type", "mysql": "inline"}.get(d, "check")))
        if d != "oracle":
            for k, top in (("uint16", 2**16 - 1), ("uint32", 2**32 - 1), ("uint64", 2**64 - 1)):
                c.probe(f"{d}-{k}", use(k, rows(lambda m: int, lambda m, top=top: top)))
        c.probe(f"{d}-enum-object", use("Level", objects(lambda m: m.Level.mid), enum="relation"))
    c.probe("oracle-time", pb.uses("oracle", ONE % "datetime.time", objects(lambda m: m.datetime.time(12, 30))))
    c.probe("oracle-time-zone", pb.uses("oracle", ONE % "datetime.time", rows(lambda m: m.datetime.time, lambda m: m.datetime.time(12, 30, tzinfo=m.datetime.timezone.utc))))
    for d, mode in (("postgresql", "type"), ("mysql", "inline")):
        kw = dict(modes=pb.defaults(d, enum=mode))
        is3 = lambda got: str(got) == "3"
        c.probe(f"{d}-numeric-enum-object", pb.uses(d, ONE % "Rank", objects(lambda m: m.Rank.third, is3), **kw))
        c.probe(f"{d}-numeric-enum-record", pb.uses(d, ONE % "Rank", rows(lambda m: m.Rank, lambda m: m.Rank.third, is3), **kw))
    d = "postgresql"
    c.probe("postgresql-struct-object", pb.uses(d, ONE % "Point", objects(lambda m: m.Point(1, "a")), modes=pb.defaults(d, struct="type")))
    c.probe("postgresql-struct-list-object", pb.uses(d, ONE % "list[Point]", objects(lambda m: [m.Point(1, "a")]), modes=pb.defaults(d, struct="type", array="array")))
    c.probe("postgresql-enum-list-array", pb.uses(d, ONE % "list[Level]", objects(lambda m: [m.Level.mid]), modes=pb.defaults(d, enum="type", array="array")))
    c.probe("postgresql-enum-list-relation", pb.uses(d, ONE % "list[Level]", rows(lambda m: list, lambda m: ["it's"]), modes=pb.defaults(d, enum="relation", array="array")))
    c.probe("postgresql-json-struct-list-array", pb.uses(d, ONE % "list[Point]", rows(lambda m: list, lambda m: [{"x": 1, "y": "a"}]), modes=pb.defaults(d, struct="json", array="array")))
    c.require(values=4000, **{"values stored in two ways": 20000})
    c.finish()


main()
