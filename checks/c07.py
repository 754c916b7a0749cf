"""C07: inserting stores every record exactly once, each value in its own column."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random

import harness
from harness import Check, Obs, Violation
import datawork as dw
import probes as pb
import scenario as sc
import specgen as sg
from specgen import NOVALUE

import pysqlsync.base
from pysqlsync.base import BaseContext

DIALECTS = sg.DIALECTS


def describe(t):
    return [(f.name, f.ty, "null" if f.nullable else "", f.default if f.default is not NOVALUE else "") for f in t.fields]


def compare(obs, world, dialect, modes, server, expected, what):
    """The table holds exactly the expected records; omitted fields have their default or NULL."""
    t = world.table((0, "Thing"))
    rows = dw.stored(world, dialect, modes, server)
    if len(rows) != len(expected):
        raise Violation(f"{len(rows)} rows stored for {len(expected)} records: {what}")
    identity = t.pk.identity
    if identity:
        ids = [r[t.pk.name] for r in rows]
        if len(set(ids)) != len(ids) or any(not isinstance(i, int) for i in ids):
            raise Violation(f"generated keys {ids}: {what}")
        left = list(rows)
        for rec in expected:
            i = dw.find_same(left, rec)
            if i is None:
                raise Violation(f"no row holds {rec!r}: {what}; rows {left[:3]!r}")
            left.pop(i)
            obs.count("values", len(rec))
    else:
        by = {dw.freeze(r[t.pk.name]): r for r in rows}
        for rec in expected:
            r = by.get(dw.freeze(rec[t.pk.name]))
            if r is None:
                raise Violation(f"no row for key {rec[t.pk.name]!r}: {what}")
            for k, v in rec.items():
                if not sg.same(r[k], v):
                    raise Violation(f"field {k} holds {r[k]!r} instead of {v!r}: {what}")
            obs.count("values", len(rec))
    obs.count("rows", len(rows))


def insert(obs: Obs, dialect: str, seed: int, path: str):
    rng = random.Random(f"c07/{dialect}/{seed}/{path}")
    modes = sc.random_modes(rng, dialect)
    state = rng.choice(dw.STATES)
    while modes.enum == "check" and state != "created":
        modes = sc.random_modes(rng, dialect)  # check constraints are made again (finding of C04)
    world = dw.table_world(rng, dialect, modes, path)
    t = world.table((0, "Thing"))
    size = rng.choice([1, 2, 3, 5, 8, 100000])
    saved, pysqlsync.base.BATCH_SIZE = pysqlsync.base.BATCH_SIZE, size

    async def body():
        b = await dw.prepare(rng, dialect, modes, world, state)
        with sg.Rendered(world) as R:
            conn = sc.connection(dialect, modes, R.namespaces())
            async with conn as ctx:
                await dw.enter(rng, dialect, modes, conn, ctx, R, state)
                pool = await dw.fill_other(rng, world, dialect, modes, ctx, R)
                others = dw.raw(world, dialect, b.server, "Other")
                tab = b.server.find_table(sg.db_name(dialect, "s1", "Thing"))
                moved = [c.name for c in tab.cols] != [f.name for f in t.fields]
                cls = R.cls((0, "Thing"))
                used: set = set()
                expected: list = []
                for step in range(rng.randint(1, 4)):
                    n = rng.choice([0, 1, 2, 3, min(size, 9) - 1, min(size, 9), min(size, 9) + 1, 2 * min(size, 9) + 1, rng.randint(0, 20)])
                    recs = [dw.thing_record(rng, world, dialect, modes, pool, NOVALUE if t.pk.identity else dw.new_key(rng, world, dialect, t.pk.ty, used)) for _ in range(n)]
                    if path == "objects":
                        how, expect = await objects(rng, ctx, R, world, cls, t, recs)
                    else:
                        how, expect = await records(rng, ctx, R, world, dialect, modes, cls, t, recs)
                    expected += expect
                    what = f"{dialect} {modes.key()[:3]} {path} {how} n={n} batch={size} state={state} moved={moved} {describe(t)}"
                    compare(obs, world, dialect, modes, b.server, expected, what)
                    obs.see((dialect, path, how[0], how[1], state, moved, min(n, 3) if n < size else ("=" if n == size else ">"), t.pk.identity), kind="insertions")
                    if moved:
                        obs.count("insertions into reordered tables")
                    if n > size:
                        obs.count("insertions of several batches")
                if dw.raw(world, dialect, b.server, "Other") != others:
                    raise Violation(f"another table has changed: {dialect} {path}")
                obs.sample(f"{dialect} {path} {state} {describe(t)}: {len(expected)} rows")
        dw.closed(b)

    try:
        sc.run(body())
    finally:
        pysqlsync.base.BATCH_SIZE = saved


async def objects(rng, ctx, R, world, cls, t, recs):
    data = [dw.to_object(R, cls, world, {**rec, **({t.pk.name: 7} if t.pk.identity else {})}) for rec in recs]
    if t.pk.identity:
        from pysqlsync.model.key_types import DEFAULT

        for o in data:
            setattr(o, t.pk.name, DEFAULT)
    kind, source = dw.shaped(rng, data, ("list", "tuple", "generator", "iterator", "view"))
    await ctx.insert_data(cls, source)
    return ("insert_data", kind), recs


async def records(rng, ctx, R, world, dialect, modes, cls, t, recs):
    """Records with fields in any order, some left out, some marked as omitted."""
    table = ctx.get_table(cls)
    fields = [f for f in t.fields if not (f.pk and f.identity)]
    mode, omitted, data, keywords = dw.as_records(rng, R, dialect, modes, table, fields, recs)
    kind, source = dw.shaped(rng, data)
    await ctx.insert_rows(table, source, **keywords)
    expect = []
    for rec in recs:
        out = {}
        for f in t.fields:
            if f.pk and f.identity:
                continue
            if f not in omitted:
                out[f.name] = rec[f.name]
            elif f.default is not NOVALUE:
                out[f.name] = sg.canon(world, f.ty, f.default)
            else:
                out[f.name] = None
        expect.append(out)
    return ("insert_rows/" + mode, kind), expect


def real_batch(obs: Obs, dialect: str, seed: int):
    """The real batch size, with more records than one batch takes."""
    rng = random.Random(f"c07b/{dialect}/{seed}")
    modes = sg.DEFAULT_MODES[dialect]
    world = dw.table_world(rng, dialect, modes, "records", n=2, types=[("int",), ("str", 80), ("bool",), ("date",)], identity=0, keys=[("int64",)], ref=0)
    t = world.table((0, "Thing"))
    size = pysqlsync.base.BATCH_SIZE

    async def body():
        b = sc.backend(dialect)
        with sg.Rendered(world) as R:
            conn = sc.connection(dialect, modes, R.namespaces())
            async with conn as ctx:
                await sc.create(conn, ctx, R)
                cls = R.cls((0, "Thing"))
                n = rng.choice([size - 1, size, size + 1, 2 * size, size + rng.randint(1, 50)]) if size <= 20000 else rng.randint(1000, 3000)
                recs = [dw.thing_record(rng, world, dialect, modes, {}, i) for i in range(n)]
                if rng.random() < 0.5:
                    kind, src = dw.shaped(rng, [dw.to_object(R, cls, world, rec) for rec in recs], ("list", "generator"))
                    await ctx.insert_data(cls, src)
                else:
                    fields = t.fields
                    kind, src = dw.shaped(rng, [tuple(rec[f.name] for f in fields) for rec in recs])
                    await ctx.insert_rows(ctx.get_table(cls), src, field_types=tuple(dw.field_type(R, modes, f.ty) for f in fields), field_names=tuple(f.name for f in fields))
                compare(obs, world, dialect, modes, b.server, recs, f"{dialect} {n} records, {kind}")
                obs.see((dialect, "real batch", (n > size) - (n < size)), kind="insertions")

    sc.run(body())


FLIP = """
@dataclass
class Thing:
    id: PrimaryKey[int]
    %s
"""


async def flipped(ctx, mods, srv):
    await pb.attempt(ctx.insert_data(mods[0].Thing, [mods[0].Thing(1, 2, 3)]), "inserting objects")
    row = pb.dump(srv)[0]
    if (row["a"], row["b"]) != (2, 3):
        raise Violation(f"object (a=2, b=3) is stored as {row}")


async def left_out(ctx, mods, srv):
    table = ctx.get_table(mods[0].Thing)
    await pb.attempt(ctx.insert_rows(table, [(1, 5, None)], field_types=(int, int, type(None)), field_names=("id", "a", "b")), "inserting a record with an omitted field")
    row = pb.dump(srv)[0]
    if (row["a"], row["b"]) != (5, None):
        raise Violation(f"record (a=5, b omitted) is stored as {row}")


async def referring(ctx, mods, srv):
    m = mods[0]
    key = m.uuid.UUID(int=77)
    await pb.attempt(ctx.insert_data(m.Other, [m.Other(key)]), "inserting an object with a UUID key")
    await pb.attempt(ctx.insert_data(m.Thing, [m.Thing(1, key)]), "inserting an object that refers to an entity with a UUID key")


COUNTRY = """
@dataclass
class Other:
    code: PrimaryKey[Annotated[str, MaxLength(2)]]
    name: Unique[Annotated[str, MaxLength(80)]]
@dataclass
class Thing:
    id: PrimaryKey[int]
    other: Other
"""


async def text_key(ctx, mods, srv):
    await ctx.insert_rows(ctx.get_table(mods[0].Other), [("hu", "Hungary")], field_types=(str, str), field_names=("code", "name"))
    await pb.attempt(ctx.insert_rows(ctx.get_table(mods[0].Thing), [(1, "hu")], field_types=(int, str), field_names=("id", "other")), "inserting a record that refers to a row with a text key and a unique column")
    if [r["other"] for r in pb.dump(srv)] != ["hu"]:
        raise Violation(f"stored as {pb.dump(srv)}")


def main():
    c = Check(
        "C07",
        "distinct (dialect, way of inserting, kind of source, where the session's knowledge of the table comes from, physical order differs, number of records against batch size, generated key)",
        [
            "types, and ways to pass them, that the library refuses to store (with an error) are outside; see findings of C11",
            "keys in the inserted collections are new and distinct",
        ],
    )
    for d in DIALECTS:
        for s in c.seeds(c.pick(220, 6000), 1):
            c.add(insert, dialect=d, seed=s, path="objects")
        for s in c.seeds(c.pick(300, 8000), 2):
            c.add(insert, dialect=d, seed=s, path="records")
        for s in c.seeds(c.pick(1, 6), 3):
            c.add(real_batch, dialect=d, seed=s)
    for d in DIALECTS:
        c.probe(f"{d}-field-order", pb.uses(d, FLIP % "a: int\n    b: int", flipped, before=FLIP % "b: int\n    a: int"))
        c.probe(f"{d}-named-none", pb.uses(d, FLIP % "a: int\n    b: Optional[int]", left_out))
        c.probe(f"{d}-text-key", pb.uses(d, COUNTRY, text_key))
    for d in ("mysql", "mssql", "oracle"):
        c.probe(f"{d}-uuid-reference", pb.uses(d, "@dataclass\nclass Other:\n    id: PrimaryKey[uuid.UUID]\n" + FLIP % "other: Other", referring))
        c.probe(f"{d}-annotated-reference", pb.uses(d, "@dataclass\nclass Other:\n    id: PrimaryKey[uuid.UUID]\n" + FLIP % "other: Annotated['Other', Note('x')]", referring))
    c.require(insertions=2000, rows=5000, values=20000, **{"insertions into reordered tables": 300, "insertions of several batches": 300})
    c.finish()


main()
