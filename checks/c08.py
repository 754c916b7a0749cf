"""C08: upserting updates matching rows, adds new ones, leaves the rest, and is idempotent."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random

import harness
from harness import Check, Obs, Violation
import datawork as dw
import probes as pb
import scenario as sc
import specgen as sg
from specgen import NOVALUE

import pysqlsync.base

DIALECTS = sg.DIALECTS
MERGE = ("mssql", "oracle")


def describe(t):
    return [(f.name, f.ty, "null" if f.nullable else "", "unique" if f.unique else "", f.default if f.default is not NOVALUE else "") for f in t.fields]


class History:
    def __init__(self, rng, dialect, modes, world, path):
        self.rng, self.dialect, self.modes, self.world, self.path = rng, dialect, modes, world, path
        self.t = world.table((0, "Thing"))
        self.unique = next((f for f in self.t.fields if f.unique), None)
        self.keys: set = set()
        self.uniques: set = set()
        self.model: dict = {}
        self.gone: list = []
        self.log: list = []

    def record(self, key):
        """A record for the key; unique values are never shared between keys."""
        rec = dw.thing_record(self.rng, self.world, self.dialect, self.modes, self.pool, key)
        u = self.unique
        if u is not None:
            old = self.model.get(dw.freeze(key)) if key is not NOVALUE else None
            earlier = self.taken.get(dw.freeze(key)) if key is not NOVALUE else None
            if self.dialect in MERGE and key is not NOVALUE and dw.freeze(key) in self.taken:
                rec[u.name] = earlier  # unique values of rows are never changed (known finding)
            elif self.dialect in MERGE and old is not None:
                rec[u.name] = old[u.name]
            elif u.nullable and self.rng.random() < 0.4 and (self.dialect != "mssql" or not self.absent and all(r[u.name] is not None for r in self.model.values())):
                self.absent = True
                rec[u.name] = None  # any number of rows may have no value (a single one on SQL Server)
            else:
                rec[u.name] = sg.canon(self.world, u.ty, dw.new_key(self.rng, self.world, self.dialect, u.ty, self.uniques))
            self.taken[dw.freeze(key)] = rec[u.name]
        return rec

    def fresh(self):
        return dw.new_key(self.rng, self.world, self.dialect, self.t.pk.ty, self.keys)

    def apply(self, recs, omitted=()):
        for rec in recs:
            k = dw.freeze(rec[self.t.pk.name])
            row = self.model.get(k)
            if row is None:
                row = self.model[k] = {f.name: dw.default_of(self.world, f) for f in self.t.fields}
            for f in self.t.fields:
                if f not in omitted:
                    row[f.name] = rec[f.name]


async def session(obs, h: History, b, R, state, steps):
    rng, dialect, modes, world, t = h.rng, h.dialect, h.modes, h.world, h.t
    conn = sc.connection(dialect, modes, R.namespaces())
    async with conn as ctx:
        await dw.enter(rng, dialect, modes, conn, ctx, R, state)
        cls = R.cls((0, "Thing"))
        table = ctx.get_table(cls)
        if not h.pool:
            h.pool = await dw.fill_other(rng, world, dialect, modes, ctx, R)
            h.others = dw.raw(world, dialect, b.server, "Other")
        for _ in range(steps):
            h.taken, h.absent = {}, False
            op = rng.choice(["insert", "upsert", "upsert", "upsert", "upsert", "delete"]) if h.model else "insert"
            if op == "insert":
                await insert(h, ctx, cls, table, R, b)
            elif op == "delete":
                present = [r[t.pk.name] for r in h.model.values()]
                keys = rng.sample(present, rng.randint(0, min(3, len(present))))
                await ctx.delete_rows(table, dw.field_type(R, modes, t.pk.ty), list(keys))
                for k in keys:
                    del h.model[dw.freeze(k)]
                    h.gone.append(k)
                h.log.append(f"delete {len(keys)}")
            else:
                await upsert(obs, h, ctx, cls, table, R, b, state)
            bad = dw.table_differs(world, dialect, modes, b.server, h.model)
            if bad:
                raise Violation(f"{bad}: {dialect} {modes.key()[:3]} {state} {describe(t)} after {h.log[-4:]}")
            if dw.raw(world, dialect, b.server, "Other") != h.others:
                raise Violation(f"another table has changed: {dialect} {h.log[-3:]}")
            obs.count("rows compared", len(h.model))


async def insert(h, ctx, cls, table, R, b):
    rng, t = h.rng, h.t
    n = rng.randint(1, 6)
    if t.pk.identity:
        if len(t.fields) == 1:
            raise RuntimeError("nothing to insert")
        recs = [h.record(NOVALUE) for _ in range(n)]
        for rec in recs:
            rec.pop(t.pk.name, None)
        before = {r[t.pk.name] for r in dw.raw(h.world, h.dialect, b.server)}
        fields = [f for f in t.fields if not f.pk]
        mode, omitted, data, kw = dw.as_records(rng, R, h.dialect, h.modes, table, fields, recs, mode="shuffled")
        await ctx.insert_rows(table, data, **kw)
        for row in dw.stored(h.world, h.dialect, h.modes, b.server):
            if row[t.pk.name] not in before:
                h.model[dw.freeze(row[t.pk.name])] = row
    else:
        recs = [h.record(h.fresh()) for _ in range(n)]
        mode, omitted, data, kw = dw.as_records(rng, R, h.dialect, h.modes, table, t.fields, recs, mode="shuffled")
        await ctx.insert_rows(table, data, **kw)
        h.apply(recs)
    h.log.append(f"insert {n}")


async def upsert(obs, h, ctx, cls, table, R, b, state):
    rng, t, dialect = h.rng, h.t, h.dialect
    size = pysqlsync.base.BATCH_SIZE
    present = [r[t.pk.name] for r in h.model.values()]
    n = rng.choice([0, 1, 2, 3, size - 1, size, size + 1, 2 * size + 1]) if size < 9 else rng.randint(0, 8)
    keys = []
    for _ in range(n):
        x = rng.random()
        if present and x < 0.45 or t.pk.identity:
            keys.append(rng.choice(present))
        elif keys and x < 0.6:
            keys.append(rng.choice(keys))
        elif h.gone and x < 0.7:
            keys.append(rng.choice(h.gone))
        else:
            keys.append(h.fresh())
    recs = [h.record(k) for k in keys]
    known = {dw.freeze(k) for k in present}
    news = any(dw.freeze(k) not in known for k in keys)
    again = len({dw.freeze(k) for k in keys}) < len(keys)

    kept = rng.choice(t.fields[1:]).name if t.pk.identity else None

    def omittable(f):
        if f.pk or f.name == kept or (f.unique and dialect in MERGE):
            return False  # supplying nothing but a generated key is no upsert
        if f.nullable or f.default is not NOVALUE:
            return True
        return dialect in MERGE and not news and not f.unique

    if h.path == "objects":
        mode, omitted = "objects", []
        data = [dw.to_object(R, cls, h.world, rec) for rec in recs]
        kinds = ("list", "tuple", "generator", "iterator", "view")
    else:
        mode, omitted, data, kw = dw.as_records(rng, R, dialect, h.modes, table, t.fields, recs, omittable)
        kinds = ("list", "tuple", "generator", "iterator", "async", "slow")

    async def act():
        kind, source = dw.shaped(rng, data, kinds)
        if h.path == "objects":
            await ctx.upsert_data(cls, source)
        else:
            await ctx.upsert_rows(table, source, **kw)
        return kind

    kind = await act()
    h.log.append(f"upsert/{mode}/{kind} of {n} in batches of {size}, new={news}, repeated keys={again}, without {[f.name for f in omitted]}")
    h.apply(recs, omitted)
    bad = dw.table_differs(h.world, dialect, h.modes, b.server, h.model)
    if bad:
        raise Violation(f"{bad}: {dialect} {h.modes.key()[:3]} {state} {describe(t)} after {h.log[-4:]}")
    if rng.random() < 0.5:
        before = dw.raw(h.world, dialect, b.server)
        await act()
        if dw.raw(h.world, dialect, b.server) != before and sorted(map(repr, dw.raw(h.world, dialect, b.server))) != sorted(map(repr, before)):
            raise Violation(f"repeating an upsert changes the table: {dialect} {describe(t)} {h.log[-1]}")
        obs.count("repeated upserts")
    obs.see((dialect, mode, kind, state, news, again, bool(omitted), (n > size) - (n < size), t.pk.identity, len(t.fields) == 1, h.unique is not None), kind="upserts")
    obs.count("upserted records", n)
    if omitted and known:
        obs.count("upserts of some columns")


def history(obs: Obs, dialect: str, seed: int, path: str):
    rng = random.Random(f"c08/{dialect}/{seed}/{path}")
    modes = sc.random_modes(rng, dialect)
    states = [rng.choice(dw.STATES) for _ in range(rng.randint(1, 2))]
    states[1:] = [rng.choice(["discovered", "synchronized"]) for _ in states[1:]]
    while modes.enum == "check" and states != ["created"]:
        modes = sc.random_modes(rng, dialect)  # check constraints are made again (finding of C04)
    n = rng.choice([0, 1, 2, 3, 5, 7])
    ident = 0.25 if n else 0
    world = dw.table_world(rng, dialect, modes, path, n=n, unique=0.25 if n else 0.1, absent=0.4, identity=ident)
    size = rng.choice([1, 2, 3, 5, 100000])
    saved, pysqlsync.base.BATCH_SIZE = pysqlsync.base.BATCH_SIZE, size

    async def body():
        h = History(rng, dialect, modes, world, path)
        h.pool, h.taken, h.absent = {}, {}, False
        b = await dw.prepare(rng, dialect, modes, world, states[0])
        for state in states:
            with sg.Rendered(world) as R:
                await session(obs, h, b, R, state, rng.randint(2, 6))
        dw.closed(b)
        obs.sample(f"{dialect} {path} {describe(h.t)}: {h.log}")

    try:
        sc.run(body())
    finally:
        pysqlsync.base.BATCH_SIZE = saved


THING = """
@dataclass
class Thing:
    id: PrimaryKey[int]
    a: Optional[int]
    b: Optional[int]
"""


async def some_columns(ctx, mods, srv):
    table = ctx.get_table(mods[0].Thing)
    await ctx.insert_rows(table, [(1, 2, 3)], field_types=(int, int, int), field_names=("id", "a", "b"))
    await pb.attempt(ctx.upsert_rows(table, [(1, 5)], field_types=(int, int), field_names=("id", "a")), "upserting some columns")
    row = pb.dump(srv)[0]
    if (row["a"], row["b"]) != (5, 3):
        raise Violation(f"after upserting column a of row (2, 3), the row holds {row}")


UNIQUE = """
@dataclass
class Thing:
    id: PrimaryKey[int]
    code: Unique[int]
    a: int
"""


async def unique_value(ctx, mods, srv):
    T = mods[0].Thing
    await ctx.insert_data(T, [T(1, 10, 100)])
    await pb.attempt(ctx.upsert_data(T, [T(1, 20, 200)]), "upserting")
    row = pb.dump(srv)[0]
    if (row["code"], row["a"]) != (20, 200):
        raise Violation(f"upserting (1, 20, 200) over (1, 10, 100) leaves {row}")


def main():
    c = Check(
        "C08",
        "distinct (dialect, way of upserting, kind of source, state, new keys, repeated keys, columns left out, number against batch size, generated key, only a key, a unique column)",
        [
            "a unique value is never supplied for another key than the one that has it",
            "generated keys are supplied only for rows that exist",
            "where the server refuses NULL in a column that an upsert leaves out before it looks for the row (PostgreSQL, MySQL), only columns that may be NULL or have a default are left out",
        ],
    )
    for d in DIALECTS:
        for s in c.seeds(c.pick(220, 6000), 1):
            c.add(history, dialect=d, seed=s, path="objects")
        for s in c.seeds(c.pick(300, 8000), 2):
            c.add(history, dialect=d, seed=s, path="records")
        c.probe(f"{d}-some-columns", pb.uses(d, THING, some_columns))
        c.probe(f"{d}-unique-value", pb.uses(d, UNIQUE, unique_value))
    c.require(upserts=3000, **{"repeated upserts": 1500, "upserts of some columns": 500, "rows compared": 10000})
    c.finish()


main()
