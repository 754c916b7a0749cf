"""C01: creation scripts run on an empty database and build what was declared; drop scripts undo them."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random

import harness
import probes
from harness import Check, Obs, Violation
import scenario as sc
import specgen as sg

from pysqlsync.formation.object_types import FormationError
from pysqlsync.model.id_types import LocalId


def leftovers(server):
    d = server.describe()
    out = []
    for name, s in d.items():
        for k in ("tables", "enums", "structs"):
            out += [f"{k[:-1]} {name}.{x}" for x in s[k]]
    return out


def judge(obs, dialect, modes, world, rendered, rng=None):
    async def body():
        b = sc.backend(dialect)
        before = {k for k in b.server.describe()}
        conn = sc.connection(dialect, modes, rendered.namespaces(rng))
        async with conn as ctx:
            stmt = await sc.create(conn, ctx, rendered, rng)
            bad = sc.failed(b.server.events)
            if bad:
                raise Violation(f"statement refused by the server: {sc.brief(bad[0].text)}: {bad[0].error}")
            diff = sg.compare_catalogue(world, dialect, modes, b.server, order=True)
            if diff:
                raise Violation(f"{len(diff)} differences from the declaration, first: {diff[:4]}")
            for e in sc.mutating(b.server.events):
                obs.see((dialect, e.kind), kind="created")
            d = b.server.describe()
            nt = sum(len(s["tables"]) for s in d.values())
            nc = sum(len(t["columns"]) for s in d.values() for t in s["tables"].values())
            nk = sum(len(t["constraints"]) for s in d.values() for t in s["tables"].values())
            obs.see(None, nt + nc + nk, kind="objects_compared")
            for s in d.values():
                for t in s["tables"].values():
                    for c in t["columns"].values():
                        obs.keys.add(f"{dialect}/{c['type']}/{c['nullable']}/{c['default'] is not None}/{c['identity']}")
                    for c in t["constraints"].values():
                        obs.keys.add(f"{dialect}/{c['kind']}/{len(c['cols']) if c.get('cols') else 0}")
            obs.keys.add(f"{dialect}/{modes.key()}")
            obs.sample(f"{dialect} {modes.key()}: {nt} tables, {nc} columns, {nk} constraints; {sc.brief(stmt, 200)}")
            # a user's own objects are there as well: they must survive the drop script
            n = len(b.server.events)
            drop = conn.generator.drop()
            if drop is not None:
                await ctx.execute(drop)
            bad = sc.failed(b.server.events[n:])
            if bad:
                raise Violation(f"drop statement refused by the server: {sc.brief(bad[0].text)}: {bad[0].error}")
            left = leftovers(b.server)
            if left:
                raise Violation(f"drop script left {left[:6]}")
            extra = {k for k in b.server.describe()} - before
            if extra:
                raise Violation(f"drop script left schemas {sorted(extra)}")
            obs.see(None, nt, kind="dropped_tables")

    sc.run(body())


def generated(obs: Obs, dialect: str, seed: int):
    rng = random.Random(f"c01/{dialect}/{seed}")
    modes = sc.random_modes(rng, dialect, foreign=0.85)
    world = sg.gen_world(rng, dialect, modes, sg.Features(extras=seed % 2 == 0))
    with sg.Rendered(world) as R:
        judge(obs, dialect, modes, world, R, rng if seed % 3 else None)


def large(obs: Obs, dialect: str, seed: int):
    """Many interdependent modules and tables: ordering of schemas, types, tables and constraints."""
    rng = random.Random(f"c01/large/{dialect}/{seed}")
    modes = sc.random_modes(rng, dialect, foreign=1.0)
    feats = sg.Features(max_modules=4, max_tables=7, max_fields=12, extras=seed % 2 == 0)
    world = sg.gen_world(rng, dialect, modes, feats)
    with sg.Rendered(world) as R:
        judge(obs, dialect, modes, world, R, rng if seed % 3 else None)


def automatic(obs: Obs, dialect: str, seed: int):
    """Mandatory columns without a declared default get one from the generator, others do not."""
    rng = random.Random(f"c01/auto/{dialect}/{seed}")
    modes = sc.random_modes(rng, dialect, foreign=0.8)
    modes.auto = True
    world = sg.gen_world(rng, dialect, modes, sg.auto_features(dialect, modes))
    with sg.Rendered(world) as R:
        judge(obs, dialect, modes, world, R, rng)
        obs.count("automatic_defaults", sum(1 for m in world.modules for t in m.tables for f in t.fields if f.default is sg.NOVALUE and sg.declared_default(world, dialect, modes, f) is not sg.NOVALUE))


def cross_module(obs: Obs, dialect: str, seed: int):
    """Types declared in one module and used in others, alone and as array elements and structure members."""
    rng = random.Random(f"c01/cross/{dialect}/{seed}")
    modes = sc.random_modes(rng, dialect, foreign=1.0)
    feats = sg.Features(max_modules=4, max_tables=2, max_fields=4, refs=rng.random() < 0.3, entity_lists=False, scalars=[("int",), ("str", 80)], literals=False, docs=False, extras=rng.random() < 0.3)
    world = sg.gen_world(rng, dialect, modes, feats)
    with sg.Rendered(world) as R:
        judge(obs, dialect, modes, world, R, rng)


def linked(obs: Obs, dialect: str, seed: int):
    """Modules ordered by a single kind of reference, through a column, a type of a column or a member of a composite type."""
    rng = random.Random(f"c01/linked/{dialect}/{seed}")
    modes = sc.random_modes(rng, dialect, foreign=0.9)
    world = sg.linked_world(rng, dialect, modes)
    with sg.Rendered(world) as R:
        judge(obs, dialect, modes, world, R, rng)


def limits(obs: Obs, dialect: str, seed: int):
    """Types whose parameters are at the limits of what the server permits."""
    rng = random.Random(f"c01/limits/{dialect}/{seed}")
    modes = sc.random_modes(rng, dialect, foreign=1.0)
    world = sg.limit_world(rng, dialect, modes)
    with sg.Rendered(world) as R:
        judge(obs, dialect, modes, world, R, rng)
        obs.count("limits", sum(1 for _, t in world.all_tables() for f in t.fields))


def extra_numbers(obs: Obs, seed: int):
    """With the extra numeric types of a PostgreSQL extension, each integer type of fixed width is spelled with the same width and sign."""
    from pysqlsync.formation.py_to_sql import DataclassConverter, DataclassConverterOptions, NamespaceMapping

    rng = random.Random(f"c01/extra/{seed}")
    spelled = {"int8": "int1", "int16": "smallint", "int32": "integer", "int64": "bigint", "uint8": "uint1", "uint16": "uint2", "uint32": "uint4", "uint64": "uint8", "int": "bigint"}
    kinds = [rng.choice(sorted(spelled)) for _ in range(rng.randint(2, 9))]
    null = [rng.random() < 0.3 for _ in kinds]
    import probes

    m = probes.module("from strong_typing.auxiliary import *\n" + probes.ONE % "\n    ".join(f"c{i}: {f'Optional[{k}]' if o else k}" for i, (k, o) in enumerate(zip(kinds, null))))
    conv = DataclassConverter(options=DataclassConverterOptions(extra_numeric_types=True, namespaces=NamespaceMapping({m: "my"})))
    table = conv.dataclass_to_table(m.Thing)
    for i, (k, o) in enumerate(zip(kinds, null)):
        c = table.columns[f"c{i}"]
        found = str(c.data_type).replace('"', "")
        if found != spelled[k] or c.nullable != o:
            raise Violation(f"{k} of {list(zip(kinds, null))} is {found}, nullable {c.nullable}, instead of {spelled[k]}, {o}")
        obs.see(("extra", k, o), kind="extra_numbers")


def every_mode(obs: Obs, dialect: str, index: int, seed: int):
    """Each combination of modes in turn, with and without foreign keys and initial data."""
    rng = random.Random(f"c01/mode/{dialect}/{index}/{seed}")
    modes = sg.all_modes(dialect)[index]
    modes.foreign, modes.init = seed % 2 == 0, (seed // 2) % 2 == 0
    world = sg.gen_world(rng, dialect, modes, sg.Features(max_modules=2, max_tables=5, extras=seed % 2 == 0))
    with sg.Rendered(world) as R:
        judge(obs, dialect, modes, world, R, rng if seed % 3 else None)


def repository_examples(obs: Obs, dialect: str, module: str):
    """The model modules shipped with the repository, created together with everything they refer to."""
    import importlib

    from pysqlsync.python_types import module_to_code  # noqa: F401  (import check)

    mod = importlib.import_module(module)

    async def body():
        b = sc.backend(dialect)
        modes = sg.DEFAULT_MODES[dialect]
        if module.endswith("country"):
            modes = sg.Modes("relation", modes.struct, modes.array)
        conn = sc.connection(dialect, modes, {mod: "sample"})
        async with conn as ctx:
            stmt = conn.generator.create(modules=[mod])
            await ctx.execute(stmt)
            for e in b.server.events:
                if not e.ok:
                    raise Violation(f"{e.error}: {sc.brief(e.text)}")
                obs.see((dialect, module, e.kind), kind="created")
            await ctx.execute(conn.generator.drop())
            bad = sc.failed(b.server.events)
            if bad:
                raise Violation(f"{bad[0].error}: {sc.brief(bad[0].text)}")
            left = leftovers(b.server)
            if left:
                raise Violation(f"drop script left {left[:6]}")

    sc.run(body())


TWO = """
@dataclass
class Other:
    id: PrimaryKey[int]

@dataclass
class Thing:
    id: PrimaryKey[int]
    a: Other
    b: Other
"""
LEVEL = """
class Level(enum.Enum):
    low = "low"
    high = "high"
"""


def has_unique(srv):
    if not any(k["kind"] == "u" for k in probes.constraints(srv)):
        raise Violation("no unique constraint")


def single_member(obs: Obs, dialect: str, seed: int):
    """Enumerations of a single member."""
    rng = random.Random(f"c01/single/{dialect}/{seed}")
    modes = sc.random_modes(rng, dialect, foreign=0.9)
    feats = sg.Features(max_modules=3, max_tables=3, max_fields=6)
    world = sg.gen_world(rng, dialect, modes, feats)
    for m in world.modules:
        for e in m.enums:
            if rng.random() < 0.7:
                del e.members[1:]
    used = {n for mi, n in sg.used_enums(world) if not n.startswith("X") and len(world.enum((mi, n)).members) == 1}
    with sg.Rendered(world) as R:
        judge(obs, dialect, modes, world, R, rng)
    if used:
        obs.see((dialect, modes.key()), len(used), kind="single")


def probe_all(c):
    ONE = probes.ONE
    cr = probes.creates
    # recorded defects, still present
    other = ONE.replace("Thing", "Other")
    c.probe("mssql-default-name", cr("mssql", ONE % "value: int = 1" + other % "value: int = 2"))
    for d in sg.DIALECTS:
        modes = probes.defaults(d)
        modes.foreign = False
        c.probe(f"unique-without-foreign-{d}", cr(d, ONE % "value: Unique[int]", modes=modes, judge=has_unique))
    c.probe("oracle-enum-of-two-modules", cr("oracle", LEVEL + ONE % "value: Level", LEVEL + other % "value: Level"))
    # a mandatory date column: its automatic default has no SQL form
    auto = {d: probes.defaults(d, auto=True) for d in sg.DIALECTS}
    for kind in ("datetime.date", "datetime.time", "uuid.UUID", "bytes"):
        c.probe(f"auto-default-{kind.split('.')[-1].lower()}", cr("postgresql", ONE % f"value: {kind}", modes=auto["postgresql"]))
    # repaired defects
    c.probe("auto-default-forward-reference", cr("postgresql", (ONE % "value: Annotated['Later', Note('x')]") + ONE.replace("Thing", "Later") % "name: str", modes=auto["postgresql"]))
    for d in ("mssql", "oracle"):
        c.probe(f"auto-default-lookup-{d}", cr(d, LEVEL + ONE % "value: Level", modes=auto[d]))
    c.probe("mysql-doc-backslash", cr("mysql", ONE.replace("class Thing:", "class Thing:\n    'trailing \\\\'\n") % "value: int"))
    c.probe("mssql-bool-default", cr("mssql", ONE % "value: bool = True"))
    c.probe("oracle-two-constraints", cr("oracle", TWO))
    c.probe("drop-namespaces-postgresql", cr("postgresql", LEVEL + ONE % "value: int", other % "ref: M0.Level"))
    c.probe("postgresql-array-of-other-module", cr("postgresql", "@dataclass\nclass Part:\n    a: int\n", ONE % "value: list[M0.Part]"))
    c.probe("postgresql-enum-only-module", cr("postgresql", LEVEL, ONE % "value: M0.Level"))
    c.probe("postgresql-skipped-annotation", cr("postgresql", ONE % 'value: Annotated[uuid.UUID, Note("x")]\n    small: Annotated[int8, Note("y")]'))
    c.probe("large-text", large_text)
    SINGLE = '@enum.unique\nclass Kind(enum.Enum):\n    only = "only"\n'
    c.probe("single-member-enum", cr("postgresql", SINGLE + ONE % "value: Kind\n    values: list[Kind]"))
    c.probe("postgresql-json-array-item", cr("postgresql", "@dataclass\nclass Part:\n    a: int\n" + ONE % "value: list[Part]", modes=probes.defaults("postgresql", struct="json")))


def long_comments(obs: Obs, dialect: str, seed: int):
    """Descriptions of a length at and beyond what the server permits for a comment."""
    rng = random.Random(f"c01/comments/{dialect}/{seed}")
    top = 1024 if dialect == "mysql" else 100000
    sizes = [rng.choice([1, 2, 60, 255, 256, 1000, 1023, 1024, 1025, 1026, 3000][: 8 if rng.random() < 0.7 else 11]) for _ in range(rng.randint(1, 4))]
    texts = ["".join(rng.choice("abcdé'%_") for _ in range(n - 2)) for n in sizes]
    texts = ["x" if n == 1 else f"a{t}z" for n, t in zip(sizes, texts)]
    doc = "\n".join(f"    :param c{i}: {t}" for i, t in enumerate(texts))
    fields = "\n".join(f"    c{i}: int" for i in range(len(texts)))
    m = probes.module(f"@dataclass\nclass Thing:\n    '''\n    Title.\n\n    :param id: Key.\n".replace("'''", "r\"\"\"") + doc + '\n    """\n    id: PrimaryKey[int]\n' + fields + "\n")
    b = sc.backend(dialect)

    async def body():
        conn = sc.connection(dialect, probes.defaults(dialect), {m: "my"})
        async with conn as ctx:
            if dialect == "postgresql":
                await ctx.create_schema(LocalId("my"))
            n = len(b.server.events)
            try:
                await ctx.create_objects([m.Thing])
            except FormationError:
                if max(sizes) <= top:
                    raise Violation(f"{dialect}: descriptions of {sizes} characters are refused")
                if sc.mutating(b.server.events[n:]):
                    raise Violation(f"{dialect}: statements were sent although a description is refused")
                obs.see((dialect, "refused"), kind="comments")
                return
            probes.refused(b.server)
            if max(sizes) > top:
                raise Violation(f"{dialect}: descriptions of {sizes} characters are accepted")
            got = {c.name: c.comment for c in b.server.tables()[0].cols}
            for i, t in enumerate(texts):
                if got[f"c{i}"] != t:
                    raise Violation(f"{dialect}: the comment of column c{i} is {got[f'c{i}']!r} instead of {t!r}")
                obs.see((dialect, len(t)), kind="comments")

    sc.run(body())


def large_text(obs):
    for dialect, sizes in (("mssql", (8000, 8001, 9000)), ("mysql", (16383, 16384, 20000, 65535, 65536)), ("oracle", (4000, 4001))):
        for n in sizes:
            probes.creates(dialect, probes.ONE % f"value: Annotated[str, MaxLength({n})]")(obs)


def main():
    c = Check(
        "C01",
        "distinct (dialect, statement kind), (dialect, column type, nullability, default, identity), (dialect, constraint kind) and (dialect, mode combination) observed in server catalogues that were compared with the declaration",
        [
            "servers are simulated: lib/simdb executes the SQL the real drivers receive, with the dialect's lexical, catalogue and constraint rules",
            "PostgreSQL, MySQL, SQL Server and Oracle; the remaining dialects have no executable server model",
            "with foreign_constraints=False unique constraints are not judged (known finding)",
        ],
    )
    for d in sg.DIALECTS:
        for s in c.seeds(c.pick(500, 4000), 1):
            c.add(generated, dialect=d, seed=s)
        for s in c.seeds(c.pick(40, 300), 2):
            c.add(large, dialect=d, seed=s)
        for s in c.seeds(c.pick(60, 600), 5):
            c.add(automatic, dialect=d, seed=s)
        for s in c.seeds(c.pick(200, 2000), 3):
            c.add(cross_module, dialect=d, seed=s)
        for s in c.seeds(c.pick(100, 1000) * (5 if d == "postgresql" else 1), 6):
            c.add(linked, dialect=d, seed=s)
        for s in c.seeds(c.pick(60, 600), 7):
            c.add(limits, dialect=d, seed=s)
        for i in range(len(sg.all_modes(d))):
            for s in range(c.pick(16, 60)):
                c.add(every_mode, dialect=d, index=i, seed=c.seed * 1000 + s)
        for m in ("tests.model.country", "tests.model.school", "tests.model.user", "tests.model.event"):
            c.add(repository_examples, dialect=d, module=m)
    for s in c.seeds(c.pick(20, 200), 8):
        c.add(extra_numbers, seed=s)
    probe_all(c)
    for d in ("mysql", "postgresql"):
        for s in c.seeds(c.pick(60, 600), 9):
            c.add(long_comments, dialect=d, seed=s)
    for d in sg.DIALECTS:
        for s in c.seeds(c.pick(60, 600), 10):
            c.add(single_member, dialect=d, seed=s)
    c.require(comments=100, single=60, limits=300, created=500, objects_compared=2000, dropped_tables=200)
    c.finish()


main()
