"""C10: lookup tables map every distinct value to one identifier, for good."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import asyncio
import random

import harness
from harness import Check, Obs, Violation
import datawork as dw
import probes as pb
import scenario as sc
import specgen as sg
from specgen import NOVALUE, Enum, Fld, Module, Table, World

from simdb.lexer import SqlError

import pysqlsync.base
from pysqlsync.formation.object_types import ConstraintReference, ForeignConstraint
from pysqlsync.model.id_types import LocalId

DIALECTS = sg.DIALECTS
WORDS = ["low", "mid", "high", "red", "green", "it's", 'say "x"', "100%", "%s", "a;b", "-- c", "/* d */", "Low", "LOW", "back\\slash", "new\nline", "tab\there", "null", "NULL", "None", "0", "1", "{}", ":1", "?", "$1", " lead", "é", "日本", "x" * 60]


def words(dialect):
    ws = list(WORDS)
    if dialect in ("mssql", "oracle"):
        ws = [w for w in ws if w.isascii()]
    if dialect != "oracle":
        ws.append("")
    return ws


def lookup_world(rng, dialect):
    enums = [Enum("Level", [("low", "low"), ("mid", "it's"), ("high", "100%")]), Enum("Color", [("red", "red"), ("green", "green")])]
    tables = []
    kinds = [("enum", (0, "Level")), ("xenum", (0, "Color"))]
    if rng.random() < 0.5:
        tables.append(Table("Tag", [Fld("id", ("int64",), pk=True, identity=True), Fld("name", ("str", 64), unique=True)]))
        kinds.append(("ref", (0, "Tag")))
    names = rng.sample(["a", "b", "c", "d", "e", "select", "Order"], 7)
    fields = [Fld("id", rng.choice([("int",), ("uuid",), ("str", 40)]), pk=True)]
    for _ in range(rng.randint(1, 4)):
        fields.append(Fld(names.pop(), rng.choice(kinds), rng.random() < 0.5))
    if rng.random() < 0.5:
        fields.append(Fld(names.pop(), ("int",), True))
    return World([Module("s1", enums, [], [Table("Thing", fields), *tables])])


class Monitor:
    """Watches the lookup tables at every statement the server is given."""

    def __init__(self, world, dialect, server):
        self.world, self.dialect, self.server = world, dialect, server
        self.known: dict = {}  # table -> {id: value}
        self.events = 0
        self.allowed: dict = {}  # table -> values that somebody supplied
        self.inner = server.fail
        self.problem = None
        server.fail = self

    def __call__(self, kind, text):
        self.events += 1
        if self.problem is None:
            self.problem = self.look()
        return self.inner(kind, text) if callable(self.inner) else None

    def table(self, name):
        try:
            return self.server.find_table(sg.db_name(self.dialect, "s1", name))
        except SqlError:
            return None

    def entries(self, name):
        tab = self.table(name)
        if tab is None:
            return {}
        key = next(tab.names(k.cols)[0] for k in tab.cons if k.kind == "p")
        value = next(c.name for c in tab.cols if c.name != key)
        return {r[key]: r[value] for r in self.server.dump_rows(tab)}

    def look(self):
        for name in ("Level", "Color", "Tag"):
            tab = self.table(name)
            if tab is None:
                continue
            rows = self.server.dump_rows(tab)
            now = self.entries(name)
            if len(now) != len(rows):
                return f"an identifier of {name} is given twice"
            values = list(now.values())
            if len(set(map(repr, values))) != len(values):
                return f"a value of {name} is stored twice: {sorted(map(repr, values))}"
            if None in values:
                return f"NULL is stored as a value of {name}"
            for i, v in self.known.get(name, {}).items():
                if i not in now:
                    return f"identifier {i} ({v!r}) of {name} is gone"
                if now[i] != v:
                    return f"identifier {i} of {name} meant {v!r} and means {now[i]!r}"
            stray = [v for v in values if v not in self.allowed.get(name, ())]
            if stray:
                return f"{name} has the value {stray[0]!r} that nobody supplied"
            self.known[name] = now
        return None

    def check(self, what):
        bad = self.problem or self.look()
        if bad:
            raise Violation(f"{bad}: {what}")


def lookup_name(f):
    return f.ty[1][1]


def resolved(mon, world, dialect, server, modes):
    """Rows of `Thing` with the values that their references stand for."""
    t = world.table((0, "Thing"))
    out = {}
    for row in dw.raw(world, dialect, server):
        r = {}
        for f in t.fields:
            if f.ty[0] in ("enum", "xenum", "ref"):
                entries = mon.entries(lookup_name(f))
                v = row[f.name]
                if v is not None and v not in entries:
                    raise Violation(f"{f.name} refers to identifier {v!r}, which {lookup_name(f)} does not have")
                r[f.name] = None if v is None else entries[v]
            else:
                r[f.name] = sg.canon(world, f.ty, sg.decode(world, dialect, modes, f.ty, server, row[f.name]))
        out[dw.freeze(r["id"])] = r
    return out


def new_record(rng, world, dialect, pool, key):
    rec = {"id": key}
    for f in world.table((0, "Thing")).fields[1:]:
        if f.nullable and rng.random() < 0.35:
            rec[f.name] = None
        elif f.ty[0] == "int":
            rec[f.name] = rng.randint(-5, 5)
        else:
            rec[f.name] = rng.choice(pool)
    return rec


def as_tuples(rng, R, modes, t, recs, keep=()):
    """Records as tuples; values that go through a lookup table are strings."""
    fields = list(t.fields)
    omitted = []
    if rng.random() < 0.7:
        rng.shuffle(fields)
        omitted = [f for f in fields if f.nullable and rng.random() < 0.25]
    slots = []
    for f in fields:
        if f in omitted:
            if rng.random() < 0.5:
                slots.append(("", rng.choice([str, int]), lambda rec: rng.choice(["low", "stray value", None, 7])))
            elif rng.random() < 0.5:
                slots.append((f.name, dw.NoneType, lambda rec: "another stray value"))
        elif f.ty[0] in ("enum", "xenum", "ref"):
            slots.append((f.name, str, lambda rec, f=f: rec[f.name]))
        else:
            slots.append((f.name, dw.field_type(R, modes, f.ty), lambda rec, f=f: dw.record_value(R, modes, f.ty, rec[f.name])))
    data = [tuple(fn(rec) for _, _, fn in slots) for rec in recs]
    return omitted, data, dict(field_types=tuple(s[1] for s in slots), field_names=tuple(s[0] for s in slots))


def pick_modes(rng, dialect):
    modes = sc.random_modes(rng, dialect)
    modes.enum = "relation"
    modes.foreign = True
    return modes


def shuffle_lookup(rng, server):
    """The columns of lookup tables come in either order in a database that was not created just now."""
    for t in server.tables():
        if len(t.cols) == 2 and sum(k.kind in "pu" for k in t.cons) == 2 and rng.random() < 0.5:
            t.cols.reverse()


def history(obs: Obs, dialect: str, seed: int):
    rng = random.Random(f"c10/{dialect}/{seed}")
    modes = pick_modes(rng, dialect)
    world = lookup_world(rng, dialect)
    t = world.table((0, "Thing"))
    pool = rng.sample(words(dialect), rng.randint(2, 12))
    size = rng.choice([1, 2, 3, 5, 100000])
    states = ["created"] + [rng.choice(["discovered", "synchronized"]) for _ in range(rng.randint(0, 2))]
    if rng.random() < 0.3:
        states[0] = rng.choice(["discovered", "synchronized"])
    saved, pysqlsync.base.BATCH_SIZE = pysqlsync.base.BATCH_SIZE, size
    log: list = []

    async def body():
        b = await dw.prepare(rng, dialect, modes, world, states[0])
        shuffle_lookup(rng, b.server)
        mon = Monitor(world, dialect, b.server)
        used: set = set()
        model: dict = {}
        declared = {"Level": [v for _, v in world.enum((0, "Level")).members], "Color": [v for _, v in world.enum((0, "Color")).members]}
        mon.allowed = {"Level": set(declared["Level"]), "Color": set(declared["Color"]), "Tag": set()}
        for n, state in enumerate(states):
            if n and state == "synchronized" and rng.random() < 0.5:
                # the enumeration has another member by now
                e = world.enum((0, rng.choice(["Level", "Color"])))
                w = rng.choice([w for w in words(dialect) if w and w not in [v for _, v in e.members]])
                e.members.insert(rng.randint(0, len(e.members)), (f"added{n}", w))
                mon.allowed[e.name].add(w)
                log.append(f"member {w!r} of {e.name}")
            with sg.Rendered(world) as R:
                conn = sc.connection(dialect, modes, R.namespaces())
                async with conn as ctx:
                    await dw.enter(rng, dialect, modes, conn, ctx, R, state)
                    mon.check(f"{dialect} entering {state} after {log[-3:]}")
                    if modes.init and n == 0 and state == "created":  # (later members are not added; finding of C03)
                        for e in world.modules[0].enums:
                            missing = {v for _, v in e.members} - set(mon.entries(e.name).values()) if mon.table(e.name) is not None else set()
                            if missing and any(f.ty[0] in ("enum", "xenum") and lookup_name(f) == e.name for f in t.fields):
                                raise Violation(f"declared value {missing} of {e.name} is not in the lookup table: {dialect} {state} {log[-2:]}")
                    table = ctx.get_table(R.cls((0, "Thing")))
                    for _ in range(rng.randint(1, 4)):
                        await step(obs, rng, dialect, modes, world, ctx, R, table, b, mon, model, used, pool, size, state, log)
        obs.count("statements watched", mon.events)
        dw.closed(b)
        obs.sample(f"{dialect} {modes.key()[:3]} {[f.ty[0] for f in t.fields]} {log}")

    try:
        sc.run(body())
    finally:
        pysqlsync.base.BATCH_SIZE = saved


async def step(obs, rng, dialect, modes, world, ctx, R, table, b, mon, model, used, pool, size, state, log):
    t = world.table((0, "Thing"))
    op = rng.choice(["insert", "insert", "upsert", "delete"]) if model else "insert"
    if op == "delete":
        keys = rng.sample([r["id"] for r in model.values()], rng.randint(1, min(3, len(model))))
        await ctx.delete_rows(table, dw.field_type(R, modes, t.pk.ty), [dw.record_value(R, modes, t.pk.ty, k) for k in keys])
        for k in keys:
            del model[dw.freeze(k)]
        log.append(f"delete {len(keys)}")
        fresh = False
        omitted = []
        n = len(keys)
    else:
        n = rng.choice([1, 2, 3, min(size, 6), min(size, 6) + 1, 2 * min(size, 6) + 1])
        keys = []
        for _ in range(n):
            if op == "upsert" and rng.random() < 0.5:
                keys.append(rng.choice([r["id"] for r in model.values()]))
            else:
                keys.append(dw.new_key(rng, world, dialect, t.pk.ty, used))
        recs = [new_record(rng, world, dialect, pool, k) for k in keys]
        omitted, data, kw = as_tuples(rng, R, modes, t, recs)
        fresh = False
        for rec in recs:
            for f in t.fields:
                if f.ty[0] in ("enum", "xenum", "ref") and f not in omitted and rec[f.name] is not None:
                    if rec[f.name] not in mon.entries(lookup_name(f)).values():
                        fresh = True
                    mon.allowed[lookup_name(f)].add(rec[f.name])
        kind, source = dw.shaped(rng, data)
        log.append(f"{op} {n} {kind} by {size} without {[f.name for f in omitted]}")
        await (ctx.insert_rows if op == "insert" else ctx.upsert_rows)(table, source, **kw)
        for rec in recs:
            row = model.setdefault(dw.freeze(rec["id"]), {f.name: None for f in t.fields})
            row.update({f.name: rec[f.name] for f in t.fields if f not in omitted})
    what = f"{dialect} {modes.key()[:3]} state {state} {[(f.name, f.ty, f.nullable) for f in t.fields]} after {log[-3:]}"
    mon.check(what)
    rows = resolved(mon, world, dialect, b.server, modes)
    if set(rows) != set(model):
        raise Violation(f"keys of the table differ: {what}")
    for k, want in model.items():
        for f in t.fields:
            if rows[k][f.name] != want[f.name]:
                raise Violation(f"{f.name} of row {want['id']!r} stands for {rows[k][f.name]!r} instead of {want[f.name]!r}: {what}")
            obs.count("references resolved", f.ty[0] in ("enum", "xenum", "ref"))
    obs.see((dialect, op, state, fresh, bool(omitted), (n > size) - (n < size), tuple(sorted({f.ty[0] for f in t.fields})), modes.init, len([f for f in t.fields if f.ty[0] != "int"])), kind="steps")


def together(obs: Obs, dialect: str, seed: int):
    """Several sessions store overlapping new values at the same time."""
    rng = random.Random(f"c10t/{dialect}/{seed}")
    modes = pick_modes(rng, dialect)
    world = lookup_world(rng, dialect)
    t = world.table((0, "Thing"))
    pool = rng.sample(words(dialect), 6)
    size = rng.choice([1, 2, 5])
    saved, pysqlsync.base.BATCH_SIZE = pysqlsync.base.BATCH_SIZE, size

    async def body():
        b = await dw.prepare(rng, dialect, modes, world, "discovered")
        shuffle_lookup(rng, b.server)
        mon = Monitor(world, dialect, b.server)
        b.yields = lambda *a: rng.randint(0, 3)
        mon.allowed = {e.name: {v for _, v in e.members} | set(pool) for e in world.modules[0].enums}
        mon.allowed["Tag"] = set(pool)
        used: set = set()
        model: dict = {}
        with sg.Rendered(world) as R:
            work = []
            for _ in range(rng.randint(2, 4)):
                recs = [new_record(rng, world, dialect, pool, dw.new_key(rng, world, dialect, t.pk.ty, used)) for _ in range(rng.randint(1, 5))]
                work.append(recs)

            async def one(recs):
                conn = sc.connection(dialect, modes, R.namespaces())
                async with conn as ctx:
                    await dw.enter(rng, dialect, modes, conn, ctx, R, "discovered")
                    table = ctx.get_table(R.cls((0, "Thing")))
                    omitted, data, kw = as_tuples(rng, R, modes, t, recs)
                    kind, source = dw.shaped(rng, data)
                    await rng.choice([ctx.insert_rows, ctx.upsert_rows])(table, source, **kw)
                    for rec in recs:
                        model[dw.freeze(rec["id"])] = {f.name: rec[f.name] if f not in omitted else None for f in t.fields}

            await asyncio.gather(*[one(recs) for recs in work])
        what = f"{dialect} {len(work)} sessions at once, batches of {size}, {[(f.name, f.ty) for f in t.fields]}"
        mon.check(what)
        rows = resolved(mon, world, dialect, b.server, modes)
        if rows != model:
            raise Violation(f"rows {[(k, rows.get(k), v) for k, v in model.items() if rows.get(k) != v][:2]!r}: {what}")
        order = tuple(e.session for e in b.server.events)
        obs.see((dialect, "together", len(work), hash(order)), kind="steps")
        obs.count("interleaved runs", len([1 for x, y in zip(order, order[1:]) if x != y]) > len(work))
        obs.count("statements watched", mon.events)

    try:
        sc.run(body())
    finally:
        pysqlsync.base.BATCH_SIZE = saved


LISTS = '''
class Level(enum.Enum):
    low = "low"
    mid = "it's"
    high = "100%"
@dataclass
class Thing:
    id: PrimaryKey[int]
    one: Optional[Level]
    many: Optional[list[Level]]
'''


def lists(obs: Obs, seed: int):
    """Lists of values for a column that is known to refer to a lookup table."""
    rng = random.Random(f"c10l/{seed}")
    size = rng.choice([1, 2, 3, 100000])
    pool = rng.sample(words("postgresql"), 6)
    saved, pysqlsync.base.BATCH_SIZE = pysqlsync.base.BATCH_SIZE, size

    async def act(ctx, mods, srv):
        table = ctx.get_table(mods[0].Thing)
        reference = table.get_constraint(table.columns["one"].name)
        table.constraints.add(ForeignConstraint(LocalId("fk_many"), (LocalId("many"),), reference))
        data = []
        for i in range(rng.randint(1, 9)):
            many = None if rng.random() < 0.2 else [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            data.append((i, rng.choice([None, rng.choice(pool)]), many))
        kind, source = dw.shaped(rng, data)
        await (ctx.insert_rows if rng.random() < 0.5 else ctx.upsert_rows)(table, source, field_types=(int, str, rng.choice([list, list, set])), field_names=("id", "one", "many"))
        entries = {r["id"]: r["value"] for r in pb.dump(srv, "Level")}
        if len(set(entries.values())) != len(entries):
            raise Violation(f"a value is stored twice: {entries}")
        got = [(r["id"], entries[r["one"]] if r["one"] is not None else None, [entries[x] for x in r["many"]] if r["many"] is not None else None) for r in pb.dump(srv)]
        if got != data:
            raise Violation(f"lists {data!r} are stored as {got!r} (batches of {size}, {kind})")
        extra = set(entries.values()) - {x for _, o, m in data for x in [o, *(m or [])]} - {"low", "it's", "100%"}
        if extra:
            raise Violation(f"the lookup table has {extra} that nobody supplied")
        obs.see(("lists", size, kind, len(data), seed), kind="steps")
        obs.count("lists", len(data))

    try:
        pb.uses("postgresql", LISTS, act, modes=pb.defaults("postgresql", enum="relation"))(Obs())
    finally:
        pysqlsync.base.BATCH_SIZE = saved


async def nothing(ctx, mods, srv):
    table = ctx.get_table(mods[0].Thing)
    reference = table.get_constraint(table.columns["one"].name)
    table.constraints.add(ForeignConstraint(LocalId("fk_many"), (LocalId("many"),), reference))
    await pb.attempt(ctx.insert_rows(table, [(1, "low", None)], field_types=(int, str, list), field_names=("id", "one", "many")), "storing NULL for a list of values")
    if pb.dump(srv)[0]["many"] is not None:
        raise Violation(f"NULL for a list of values is stored as {pb.dump(srv)[0]['many']!r}")


def main():
    c = Check(
        "C10",
        "distinct (dialect, operation, state, new values, columns left out, number against batch size, kinds of lookup columns, values initialized, number of columns), and the distinct interleavings of sessions",
        [
            "values are given as text; members of enumerations given as such are refused (finding of C11)",
            "a list column is made to refer to the lookup table in the session's knowledge of the database, as no dialect declares such a constraint",
        ],
    )
    for d in DIALECTS:
        for s in c.seeds(c.pick(350, 8000), 1):
            c.add(history, dialect=d, seed=s)
    for d in ("postgresql", "mysql"):
        for s in c.seeds(c.pick(100, 2500), 2):
            c.add(together, dialect=d, seed=s)
    for s in c.seeds(c.pick(60, 1500), 3):
        c.add(lists, seed=s)
    c.probe("list-null", pb.uses("postgresql", LISTS, nothing, modes=pb.defaults("postgresql", enum="relation")))
    c.require(steps=4000, lists=200, **{"statements watched": 20000, "references resolved": 10000, "interleaved runs": 100})
    c.finish()


main()
