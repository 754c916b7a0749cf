"""C03: synchronizing any earlier schema either is refused up front or converges to the declared schema."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy
import functools
import random

import harness
from harness import Check, Obs, Skip, Violation
import evolve
import probes
import scenario as sc
import specgen as sg

from pysqlsync.formation.object_types import FormationError


def modes_for(rng, dialect):
    while True:
        m = sc.random_modes(rng, dialect, foreign=1.0)
        if m.enum != "check":
            return m


def managed(R, frozen):
    return [m for i, m in enumerate(R.modules) if i != frozen]


async def step(obs, dialect, modes, srv, first, world, log, frozen, rng, again=True):
    """One synchronization in a session of its own; returns False if it was refused."""
    with sg.Rendered(world) as R:
        before = srv.describe()
        n = len(srv.events)
        conn = sc.connection(dialect, modes, R.namespaces(rng))
        async with conn as ctx:
            modules = managed(R, frozen)
            rng.shuffle(modules)
            explorer = sc.engine(dialect).create_explorer(ctx)
            try:
                await explorer.synchronize(modules=modules)
            except FormationError as e:
                m = sc.mutating(srv.events[n:])
                if m:
                    raise Violation(f"refused after a statement had run: {sc.brief(m[0].text)}: {e}; edits {log}")
                reasons = evolve.refusable(dialect, modes, first, world)
                if not reasons:
                    raise Violation(f"a change that is possible was refused: {e}: {e.__cause__}; edits {log}")
                if srv.describe() != before:
                    raise Violation(f"refused, yet the database changed; edits {log}")
                obs.see((dialect, "refused", tuple(sorted(set(reasons)))), kind="refused")
                return False
            except Exception as e:
                bad = sc.failed(srv.events[n:])
                what = f"statement refused by the server: {sc.brief(bad[0].text)}: {bad[0].error}" if bad else f"{type(e).__name__}: {e.__cause__ or e}"
                raise Violation(f"{what}; edits {log}")
            bad = sc.failed(srv.events[n:])
            if bad:
                raise Violation(f"statement refused by the server: {sc.brief(bad[0].text)}: {bad[0].error}; edits {log}")
            for e in sc.mutating(srv.events[n:]):
                obs.see((dialect, e.kind), kind="migration_statements")
            diff = sg.compare_catalogue(world, dialect, modes, srv)
            if diff:
                raise Violation(f"{len(diff)} differences from the target, first: {diff[:3]}; edits {log}")
            obs.see(None, sum(len(t.cols) for t in srv.tables()), kind="objects_compared")
            # the model the session now holds is that of the target
            held = sc.model(conn.generator.state)
            fresh = sc.connection(dialect, modes, R.namespaces())
            with_types = [t for m in managed(R, frozen) for t in sg_entities(m)]
            if with_types:
                fresh.generator.create(tables=with_types)
                diff = sc.difference(bits(dialect, held), bits(dialect, sc.model(fresh.generator.state)))
                if diff:
                    raise Violation(f"the session believes in another schema than the target: {diff[:3]}; edits {log}")
            if again:
                n = len(srv.events)
                await explorer.synchronize(modules=modules)
                m = sc.mutating(srv.events[n:])
                if m:
                    raise Violation(f"synchronizing again in the session: {sc.brief(m[0].text)}; edits {log}")
        for k, _ in log:
            obs.keys.add(f"{dialect}/{k}/{modes.enum}/{modes.struct}/{modes.array}")
        if not log:
            obs.keys.add(f"{dialect}/none")
        obs.see(None, len(log) or 1, kind="edits")
    return True


def sg_entities(module):
    from pysqlsync.formation.inspection import get_entity_types

    return get_entity_types([module])


def bits(dialect, m):
    if dialect == "mssql":
        for ns in m.values():
            for t in ns["tables"].values():
                for c in t["columns"].values():
                    c["default"] = {"TRUE": "1", "FALSE": "0"}.get(c["default"], c["default"])
    for ns in m.values():
        for e in ns["enums"].values():
            e.sort()  # added values come last in the database
        for t in ns["tables"].values():
            t.pop("order")  # added columns come last in the database
    return m


async def start(dialect, modes, world, rng):
    b = sc.backend(dialect)
    srv = b.server
    with sg.Rendered(world) as R:
        conn = sc.connection(dialect, modes, R.namespaces(rng))
        async with conn as ctx:
            try:
                await sc.create(conn, ctx, R, rng)
            except Exception as e:
                raise Skip(f"creation fails (C01): {e}")
    if sc.failed(srv.events) or sg.compare_catalogue(world, dialect, modes, srv):
        raise Skip("creation fails (C01)")
    return srv


def rewired(obs: Obs, dialect: str, seed: int):
    """The same modules refer to each other in other ways, perhaps in the opposite direction."""
    rng = random.Random(f"c03/rewired/{dialect}/{seed}")
    modes = modes_for(rng, dialect)
    names = sg.linked_names(rng, dialect)
    first = sg.linked_world(rng, dialect, modes, names)

    async def body():
        world, srv = first, await start(dialect, modes, first, rng)
        for _ in range(2):
            before, world = world, sg.linked_world(rng, dialect, modes, names)
            if not await step(obs, dialect, modes, srv, before, world, [("rewired", "")], None, rng):
                return

    sc.run(body())


def history(obs: Obs, dialect: str, seed: int, steps: int = 3, only=None, structs: bool = False, auto: bool = False):
    """A schema goes through several versions, next to a schema that is not managed."""
    rng = random.Random(f"c03/{dialect}/{seed}/{steps}/{only}{'/auto' if auto else ''}")
    while True:
        modes = modes_for(rng, dialect)
        modes.auto = auto
        features = functools.partial(sc.stable_auto_features, modes=modes) if auto else sc.stable_features
        feats = features(dialect, max_tables=rng.choice([2, 4]), max_modules=3, extras=rng.random() < 0.3)
        world = sg.gen_world(rng, dialect, modes, feats)
        if not structs or modes.struct == "type" and any(m.structs for m in world.modules):
            break
    frozen = len(world.modules) - 1 if len(world.modules) > 1 and rng.random() < 0.5 else None
    if frozen is not None:
        evolve.isolate(world, frozen)
        world = evolve.arrange(world, dialect)

    async def body():
        w = world
        srv = await start(dialect, modes, w, rng)
        if frozen is not None:
            obs.count("with_unmanaged")
        for i in range(steps):
            w2, log = evolve.evolve(rng, w, dialect, modes, feats, frozen=frozen, only=only, n=1 if only else None)
            if await step(obs, dialect, modes, srv, w, w2, log, frozen, rng, again=rng.random() < 0.5):
                w = w2
            else:
                # the schema still is the old one, and still can be synchronized
                await step(obs, dialect, modes, srv, w, w, [], frozen, rng)
        obs.sample(f"{dialect} {modes.key()}: {steps} versions, last edits {[k for k, _ in log]}")

    sc.run(body())


def from_nothing(obs: Obs, dialect: str, seed: int):
    """Synchronization of an empty database, and back to an empty declaration."""
    rng = random.Random(f"c03/0/{dialect}/{seed}")
    modes = modes_for(rng, dialect)
    feats = sc.stable_features(dialect, max_tables=3, max_modules=3, extras=rng.random() < 0.5)
    world = sg.gen_world(rng, dialect, modes, feats)
    empty = sg.World([sg.Module(m.schema) for m in world.modules])

    async def body():
        srv = sc.backend(dialect).server
        assert await step(obs, dialect, modes, srv, empty, world, [("from_empty", "")], None, rng)
        if rng.random() < 0.7:
            if not await step(obs, dialect, modes, srv, world, empty, [("to_empty", "")], None, rng):
                raise Violation("removal of everything refused")
            assert await step(obs, dialect, modes, srv, empty, world, [("from_empty", "")], None, rng)

    sc.run(body())


def alone(catalog):
    """The types of a model, without the tables that use them."""
    catalog = copy.deepcopy(catalog)
    for ns in catalog.namespaces.values():
        for name in list(ns.tables.keys()):
            ns.tables.remove(name)
    return catalog


def types_of(srv):
    return {
        s: ({n: sorted(v) for n, v in d["enums"].items()}, {n: (v["comment"], sorted(v["members"], key=str)) for n, v in d["structs"].items()})
        for s, d in srv.describe().items()
        if d["enums"] or d["structs"]
    }


def types_alone(obs: Obs, seed: int):
    """Types that no table uses go from one version to another (PostgreSQL permits changes of composite types in no other case)."""
    rng = random.Random(f"c03/types/{seed}")
    dialect = "postgresql"
    while True:
        modes = modes_for(rng, dialect)
        feats = sc.stable_features(dialect, max_tables=3, max_modules=2)
        feats.loose = True
        world = sg.gen_world(rng, dialect, modes, feats)
        if modes.struct == "type" and any(m.structs for m in world.modules):
            break
    target, log = evolve.evolve(rng, world, dialect, modes, feats, only=["struct_change", "docs", "enum_add", "struct_new"], n=rng.choice([1, 2, 5, 8]))
    models = []
    for w in (world, target):
        with sg.Rendered(w) as R:
            gen = sc.connection(dialect, modes, R.namespaces(rng)).generator
            gen.create(tables=[t for m in R.modules for t in sg_entities(m)])
            models.append(alone(gen.state))
    before, after = models
    want, srv = sc.backend(dialect).server, sc.backend(dialect).server
    want.run_script(str(after))
    srv.run_script(str(before))
    held = sc.model(before), sc.model(after)
    try:
        stmt = gen.mutator.mutate_catalog_stmt(before, after)
    except FormationError as e:
        raise Violation(f"a change that is possible was refused: {e}; edits {log}")
    n = len(srv.events)
    if stmt:
        srv.run_script(stmt)
    bad = sc.failed(srv.events[n:])
    if bad:
        raise Violation(f"statement refused by the server: {sc.brief(bad[0].text)}: {bad[0].error}; edits {log}")
    a, b = types_of(srv), types_of(want)
    if a != b:
        for s in set(a) | set(b):
            for i in (0, 1):
                x, y = a.get(s, ({}, {}))[i], b.get(s, ({}, {}))[i]
                for k in set(x) | set(y):
                    if x.get(k) != y.get(k):
                        raise Violation(f"type {s}.{k} is {x.get(k)} instead of {y.get(k)}; edits {log}; {stmt}")
    if (sc.model(before), sc.model(after)) != held:
        raise Violation(f"comparing models changed them; edits {log}")
    for k, what in log:
        obs.keys.add(f"types/{k}/{what.split()[-1] if k == 'struct_change' else ''}")
    obs.see(None, sum(len(x[1]) for x in b.values()), kind="types_compared")


TWO = """
@dataclass
class Other:
    id: PrimaryKey[int]

@dataclass
class Thing:
    id: PrimaryKey[int]
    %s
"""
LEVEL = """
class Level(enum.Enum):
    low = "low"
    high = "high"
"""


def has_primary_key(column):
    def judge(srv):
        keys = [k["cols"] for k in probes.constraints(srv) if k["kind"] == "p"]
        if [tuple(k) for k in keys] != [(column,)]:
            raise Violation(f"primary key {keys} instead of {column!r}")

    return judge


def lookup_values(expected, table="Level"):
    def judge(srv):
        t = next(t for t in srv.tables() if t.name == table or t.name.endswith("__" + table))
        got = sorted(r["value"] for r in srv.dump_rows(t))
        if got != sorted(expected):
            raise Violation(f"values of the lookup table {got} instead of {sorted(expected)}")

    return judge


def probe_all(c):
    ONE = probes.ONE
    ev = probes.evolves
    # recorded defects, still present
    c.probe("postgresql-no-cast", ev("postgresql", ONE % "value: uuid.UUID", ONE % "value: datetime.date", refusal=True))
    c.probe("oracle-lob", ev("oracle", ONE % "value: str", ONE % "value: Annotated[str, MaxLength(80)]", refusal=True))
    part = "@dataclass\nclass Part:\n    a: %s\n    b: int\n"
    c.probe("postgresql-composite-in-use", ev("postgresql", part % "int" + ONE % "value: Part", part % "str" + ONE % "value: Part", refusal=True))
    c.probe("mssql-unique-type", ev("mssql", ONE % "value: Unique[int32]", ONE % "value: Unique[int64]", refusal=True))
    for d in ("mysql", "mssql"):
        c.probe(f"referred-key-type-{d}", ev(d, (TWO % "ref: Other").replace("[int]", "[int32]"), TWO % "ref: Other", refusal=True))
    renamed = "@dataclass\nclass Thing:\n    key: PrimaryKey[int]\n    value: int\n"
    for d in sg.DIALECTS:
        c.probe(f"primary-key-{d}", ev(d, ONE % "value: int", renamed, judge=has_primary_key("key"), refusal=True))
        m = probes.defaults(d, enum="relation", init=True)
        c.probe(f"lookup-values-{d}", ev(d, LEVEL + ONE % "value: Level", LEVEL + "    top = 'top'\n" + ONE % "value: Level", m, judge=lookup_values(["low", "high", "top"]), refusal=True))
    # repaired defects
    ref = "ref: Other"
    two = "a: Other\n    b: Optional['Thing']"
    for d in sg.DIALECTS:
        if d != "mysql":
            c.probe(f"drop-referring-column-{d}", ev(d, TWO % ref, TWO % "value: int"))
        if d in ("mysql", "oracle"):
            c.probe(f"drop-referring-tables-{d}", ev(d, [TWO % two, ONE.replace("Thing", "Kept") % "value: int"], ["", ONE.replace("Thing", "Kept") % "value: int"]))
        mutual = "@dataclass\nclass A:\n    id: PrimaryKey[int]\n    b: Optional['B']\n\n@dataclass\nclass B:\n    id: PrimaryKey[int]\n    a: A\n"
        c.probe(f"drop-mutual-tables-{d}", ev(d, mutual + ONE % "value: int", ONE % "value: int"))
        if d != "mysql":
            c.probe(f"referred-table-of-other-schema-{d}", ev(d, [TWO % "value: int", ONE.replace("Thing", "User") % "x: M0.Other"], [ONE % "value: int", ONE.replace("Thing", "User") % "y: int"]))
        if d in ("postgresql", "mssql"):
            c.probe(f"new-schema-refers-to-new-table-{d}", ev(d, [ONE % "value: int", ""], [TWO % "value: int", ONE.replace("Thing", "User") % "x: M0.Other"]))
    described = '@dataclass\nclass Part:\n    """\n    %s\n\n    :param a: %s\n    :param b: %s\n    """\n\n    a: int\n    b: int\n'

    def member_comments(srv):
        got = [m[2] for d in srv.describe().values() for t in d["structs"].values() for m in t["members"]]
        if got != ["First.", "Other."]:
            raise Violation(f"comments of members {got}")

    c.probe("postgresql-member-comments", ev("postgresql", described % ("A part.", "First.", "Second.") + ONE % "value: Part", described % ("A part.", "First.", "Other.") + ONE % "value: Part", judge=member_comments))
    parts = "@dataclass\nclass Inner:\n    a: int\n\n@dataclass\nclass Outer:\n    b: Inner\n"
    c.probe("drop-composite-types-postgresql", ev("postgresql", parts + ONE % "value: Outer\n    other: int", ONE % "other: int"))
    chain = "@dataclass\nclass P0:\n    a: int\n\n" + "".join(f"@dataclass\nclass P{i}:\n    p: P{i - 1}\n\n" for i in range(1, 7))
    c.probe("unordered-composite-types-postgresql", ev("postgresql", chain + ONE % "value: P6\n    other: int", ONE % "other: int"))
    c.probe("oracle-identity", ev("oracle", ONE % "value: int", (ONE % "value: int").replace("PrimaryKey[int]", "PrimaryKey[Identity[int]]"), refusal=True))
    c.probe("mssql-default-and-type", ev("mssql", ONE % "value: int32 = 1", ONE % "value: int64 = 1"))
    c.probe("mssql-new-default-and-type", ev("mssql", ONE % "value: int32", ONE % "value: int64 = 1"))
    c.probe("mssql-reference-and-type", ev("mssql", TWO % "ref: Other", TWO % "ref: Annotated[str, MaxLength(40)]"))
    for d in ("postgresql", "mysql", "mssql"):
        c.probe(f"text-to-number-{d}", ev(d, ONE % "value: Annotated[str, MaxLength(80)]", ONE % "value: int", refusal=True))
    c.probe("oracle-two-constraints", ev("oracle", TWO % "ref: Other\n    other: Other", TWO % "value: int"))


def main():
    c = Check(
        "C03",
        "distinct (dialect, kind of edit, representation modes), (dialect, migration statement kind) and (dialect, reason of refusal) observed in synchronizations whose resulting catalogue was compared with the target",
        [
            "servers are simulated: lib/simdb executes the statements in the order received, refusing what the dialect's server refuses (dependent objects, missing objects, impossible casts)",
            "edits that the library attempts although the server must refuse them are known findings and left out of the generated histories",
            "check constraints are left out (not read back, finding of C04)",
        ],
    )
    for d in sg.DIALECTS:
        for s in c.seeds(c.pick(50, 1500), 1):
            c.add(history, dialect=d, seed=s)
        for s in c.seeds(c.pick(12, 300), 2):
            c.add(history, dialect=d, seed=s, steps=8)
        if d in ("postgresql", "oracle"):
            for s in c.seeds(c.pick(20, 300), 8):
                c.add(history, dialect=d, seed=s, auto=True)
        for s in c.seeds(c.pick(40, 1000), 9):
            c.add(rewired, dialect=d, seed=s)
        for s in c.seeds(c.pick(15, 200), 3):
            c.add(from_nothing, dialect=d, seed=s)
        for k in evolve.Editor.WEIGHTS:
            for s in c.seeds(c.pick(4, 60), 4):
                c.add(history, dialect=d, seed=s, steps=2, only=[k])
        for k in evolve.Editor.ASPECTS:
            if k.startswith("doc-") and (d in ("mssql", "oracle") or d == "mysql" and k.split("-")[1] in ("struct", "member")):
                continue  # no comments
            for s in c.seeds(c.pick(4, 60), 7):
                c.add(history, dialect=d, seed=s, steps=2, only=[k])
    for s in c.seeds(c.pick(25, 400), 5):  # composite types gain and lose members
        c.add(history, dialect="postgresql", seed=s, steps=6, only=["struct_change"], structs=True)
    for s in c.seeds(c.pick(60, 2000), 6):
        c.add(types_alone, seed=s)
    probe_all(c)
    c.require(types_compared=50, migration_statements=1000, objects_compared=1000, refused=10, with_unmanaged=50)
    c.finish()


main()
