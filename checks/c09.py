"""C09: deleting by key removes exactly the rows with those keys."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random

import harness
from harness import Check, Obs, Violation
import datawork as dw
import probes as pb
import scenario as sc
import specgen as sg
from specgen import NOVALUE

import pysqlsync.base

DIALECTS = sg.DIALECTS


def keys_of(dialect, modes):
    out = list(sg.key_types(dialect))
    extra = [("int8",), ("int16",), ("date",), ("datetime", 6), ("ipv4",), ("ipv6",), ("time", 6), ("time",), ("decimal", 10, 2), ("uint8",)]
    out += [t for t in extra if t in sg.scalar_types(dialect)]
    if modes.enum != "relation":
        out.append(("enum", (0, "Level")))
    return out


async def add(rng, dialect, modes, world, ctx, R, b, h, n):
    t = world.table((0, "Thing"))
    table = ctx.get_table(R.cls((0, "Thing")))
    if t.pk.identity:
        recs = [dw.thing_record(rng, world, dialect, modes, h["pool"]) for _ in range(n)]
        mode, omitted, data, kw = dw.as_records(rng, R, dialect, modes, table, [f for f in t.fields if not f.pk], recs, mode="shuffled")
    else:
        recs = []
        for _ in range(n):
            if t.pk.ty[0] == "enum" and len(h["used"]) == len(world.enum(t.pk.ty[1]).members):
                break
            recs.append(dw.thing_record(rng, world, dialect, modes, h["pool"], dw.new_key(rng, world, dialect, t.pk.ty, h["used"])))
        mode, omitted, data, kw = dw.as_records(rng, R, dialect, modes, table, t.fields, recs, mode="shuffled")
    await ctx.insert_rows(table, data, **kw)


def delete(obs: Obs, dialect: str, seed: int, path: str):
    rng = random.Random(f"c09/{dialect}/{seed}/{path}")
    modes = sc.random_modes(rng, dialect)
    states = [rng.choice(dw.STATES)] + [rng.choice(["discovered", "synchronized"]) for _ in range(rng.randint(0, 1))]
    while modes.enum == "check" and states != ["created"]:
        modes = sc.random_modes(rng, dialect)  # check constraints are made again (finding of C04)
    world = dw.table_world(rng, dialect, modes, "records", n=rng.choice([1, 2, 3, 5]), keys=keys_of(dialect, modes), ref=0.8)
    t = world.table((0, "Thing"))
    size = rng.choice([1, 2, 3, 5, 100000])
    saved, pysqlsync.base.BATCH_SIZE = pysqlsync.base.BATCH_SIZE, size
    h = {"pool": None, "used": set()}

    async def body():
        b = await dw.prepare(rng, dialect, modes, world, states[0])
        for state in states:
            with sg.Rendered(world) as R:
                conn = sc.connection(dialect, modes, R.namespaces())
                async with conn as ctx:
                    await dw.enter(rng, dialect, modes, conn, ctx, R, state)
                    if h["pool"] is None:
                        n = min(4, len(world.enum(world.table((0, "Other")).pk.ty[1]).members)) if world.table((0, "Other")).pk.ty[0] == "enum" else 4
                        h["pool"] = await dw.fill_other(rng, world, dialect, modes, ctx, R, n)
                    cls = R.cls((0, "Thing"))
                    table = ctx.get_table(cls)
                    for _ in range(rng.randint(1, 3)):
                        await add(rng, dialect, modes, world, ctx, R, b, h, rng.choice([1, 3, 6, min(size, 9), 2 * min(size, 9) + 1]))
                        await remove(obs, rng, dialect, modes, world, ctx, R, b, h, cls, table, path, state, size)
        dw.closed(b)

    try:
        sc.run(body())
    finally:
        pysqlsync.base.BATCH_SIZE = saved


async def remove(obs, rng, dialect, modes, world, ctx, R, b, h, cls, table, path, state, size):
    t = world.table((0, "Thing"))
    before = dw.stored(world, dialect, modes, b.server)
    raw = dw.raw(world, dialect, b.server)
    others = dw.raw(world, dialect, b.server, "Other")
    present = [r[t.pk.name] for r in before]
    n = rng.choice([0, 1, 2, 3, size - 1, size, size + 1, 2 * size, 2 * size + 1, len(present)]) if size < 9 else rng.randint(0, len(present) + 2)
    keys = []
    missing = 0
    for _ in range(n):
        x = rng.random()
        if keys and x < 0.15:
            keys.append(rng.choice(keys))
        elif present and x < 0.75:
            keys.append(rng.choice(present))
        elif t.pk.identity:
            keys.append(rng.randint(1000, 9000))
            missing += 1
        elif t.pk.ty[0] == "enum":
            keys.append(rng.choice([v for _, v in world.enum(t.pk.ty[1]).members]))
        else:
            keys.append(dw.new_key(rng, world, dialect, t.pk.ty, h["used"]))
            missing += 1
    values = [dw.record_value(R, modes, t.pk.ty, k) for k in keys]
    kind, source = dw.shaped(rng, values, ("list", "tuple", "generator", "iterator", "view"))
    what = f"{dialect} {modes.key()[:3]} {path} {kind} n={len(keys)} of {len(present)} rows, {missing} missing, batches of {size}, state {state}, key {t.pk.ty}{' identity' if t.pk.identity else ''}"
    if path == "objects":
        await ctx.delete_data(cls, source)
    else:
        await ctx.delete_rows(table, dw.field_type(R, modes, t.pk.ty), source)
    gone = {dw.freeze(k) for k in keys}
    after = dw.raw(world, dialect, b.server)
    want = [x for x, r in zip(raw, before) if dw.freeze(r[t.pk.name]) not in gone]
    if sorted(map(repr, after)) != sorted(map(repr, want)):
        left = [r[t.pk.name] for r in dw.stored(world, dialect, modes, b.server)]
        kept = [k for k in left if dw.freeze(k) in gone]
        lost = [r[t.pk.name] for r in before if dw.freeze(r[t.pk.name]) not in gone and dw.freeze(r[t.pk.name]) not in {dw.freeze(k) for k in left}]
        raise Violation(f"keys {kept[:3]!r} not deleted, rows {lost[:3]!r} deleted though not asked for: {what}")
    if dw.raw(world, dialect, b.server, "Other") != others:
        raise Violation(f"another table has changed: {what}")
    obs.see((dialect, path, kind, state, t.pk.ty, t.pk.identity, bool(missing), len(gone) < len(keys), (len(keys) > size) - (len(keys) < size), len(want) == 0), kind="deletions")
    obs.count("rows deleted", len(raw) - len(want))
    obs.count("rows kept", len(want))
    if len(keys) > size:
        obs.count("deletions of several batches")
    obs.sample(what)


def referenced(obs: Obs, dialect: str, seed: int):
    """A row that others refer to: either the deletion is refused as a whole statement says, or nothing refers to what is gone."""
    rng = random.Random(f"c09r/{dialect}/{seed}")
    modes = sg.DEFAULT_MODES[dialect]
    world = dw.table_world(rng, dialect, modes, "records", n=2, types=[("ref", (0, "Other"))], ref=0, identity=0)
    t = world.table((0, "Thing"))

    async def body():
        b = sc.backend(dialect)
        with sg.Rendered(world) as R:
            conn = sc.connection(dialect, modes, R.namespaces())
            async with conn as ctx:
                await dw.enter(rng, dialect, modes, conn, ctx, R, "synchronized")
                pool = await dw.fill_other(rng, world, dialect, modes, ctx, R)
                used: set = set()
                table = ctx.get_table(R.cls((0, "Thing")))
                recs = [dw.thing_record(rng, world, dialect, modes, pool, dw.new_key(rng, world, dialect, t.pk.ty, used)) for _ in range(3)]
                mode, omitted, data, kw = dw.as_records(rng, R, dialect, modes, table, t.fields, recs, mode="declared")
                await ctx.insert_rows(table, data, **kw)
                targets = {dw.freeze(r[f.name]) for r in recs for f in t.fields if f.ty[0] == "ref" and r[f.name] is not None}
                okey = world.table((0, "Other")).pk
                for k in pool[(0, "Other")]:
                    before = dw.raw(world, dialect, b.server)
                    there = len(dw.raw(world, dialect, b.server, "Other"))
                    try:
                        await ctx.delete_data(R.cls((0, "Other")), [dw.record_value(R, modes, okey.ty, k)])
                        ok = True
                    except Exception:
                        ok = False
                    used_ = dw.freeze(k) in targets
                    if ok == used_:
                        raise Violation(f"deleting a row that {'is' if used_ else 'is not'} referred to {'succeeds' if ok else 'fails'}: {dialect} key {okey.ty}")
                    if dw.raw(world, dialect, b.server) != before or len(dw.raw(world, dialect, b.server, "Other")) != there - ok:
                        raise Violation(f"rows differ after deleting a row that {'is' if used_ else 'is not'} referred to: {dialect}")
                    obs.see((dialect, "referenced", used_, okey.ty), kind="deletions")

    sc.run(body())


UUID = "@dataclass\nclass Thing:\n    id: PrimaryKey[uuid.UUID]\n    a: int\n"


async def by_uuid(ctx, mods, srv):
    m = mods[0]
    table = ctx.get_table(m.Thing)
    keys = [m.uuid.UUID(int=i) for i in (7, 8)]
    await ctx.insert_rows(table, [(k, 1) for k in keys], field_types=(m.uuid.UUID, int), field_names=("id", "a"))
    await pb.attempt(ctx.delete_data(m.Thing, keys[:1]), "deleting by a UUID key")
    if len(pb.dump(srv)) != 1:
        raise Violation(f"after deleting one of two rows by a UUID key, {len(pb.dump(srv))} rows are left")


def main():
    c = Check(
        "C09",
        "distinct (dialect, way of deleting, kind of source, state, key type, generated key, missing keys, repeated keys, number against batch size, nothing left)",
        ["keys backed by a lookup table are outside (keys are identifiers there)"],
    )
    for d in DIALECTS:
        for s in c.seeds(c.pick(220, 6000), 1):
            c.add(delete, dialect=d, seed=s, path="objects")
        for s in c.seeds(c.pick(220, 6000), 2):
            c.add(delete, dialect=d, seed=s, path="records")
        for s in c.seeds(c.pick(10, 200), 3):
            c.add(referenced, dialect=d, seed=s)
        c.probe(f"{d}-uuid", pb.uses(d, UUID, by_uuid))
    c.require(deletions=3000, **{"rows deleted": 5000, "rows kept": 3000, "deletions of several batches": 300})
    c.finish()


main()
