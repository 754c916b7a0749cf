"""C04: exploring a database reads back what was declared; synchronizing again sends no modifying statement."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy
import functools
import random

import harness
from harness import Check, Obs, Skip, Violation
import evolve
import probes
import scenario as sc
import specgen as sg

SIMILAR = {
    "my": ["myx", "my_"],
    "a_b": ["axb", "a_bc"],
    "sample": ["sample_", "sampl_"],
    "s1": ["s_", "s12"],
}


def modes_for(rng, dialect):
    while True:
        m = sc.random_modes(rng, dialect, foreign=1.0)
        if m.enum != "check":
            return m


def quiet(obs, server, n, what):
    """Judges the statements the server received after event `n`."""
    for e in server.events[n:]:
        obs.see((e.kind, what), kind="observed_statements")
    bad = sc.failed(server.events[n:])
    if bad:
        raise Violation(f"{what}: {sc.brief(bad[0].text)}: {bad[0].error}")
    m = sc.mutating(server.events[n:])
    if m:
        raise Violation(f"{what} modified the database: {sc.brief(m[0].text)} (+{len(m) - 1} more)")


def compare(obs, dialect, found, declared, what):
    if dialect == "mssql":
        declared = copy.deepcopy(declared)
        for ns in declared.values():
            for t in ns["tables"].values():
                for c in t["columns"].values():
                    c["default"] = {"TRUE": "1", "FALSE": "0"}.get(c["default"], c["default"])  # a BIT literal
    diff = sc.difference(found, declared)
    n = sum(len(t["columns"]) + len(t["constraints"]) for ns in declared.values() for t in ns["tables"].values())
    obs.see(None, n, kind="discovered_objects")
    if diff:
        raise Violation(f"{what}: {len(diff)} differences discovered/declared, first: {diff[:3]}")
    for ns in declared.values():
        for t in ns["tables"].values():
            for c in t["columns"].values():
                obs.keys.add(f"{c['type']}/{c['nullable']}/{c['identity']}/{c['default'] is not None}")
            for c in t["constraints"]:
                obs.keys.add(f"{c[0]}/{len(c[1])}")


async def explore_names(obs, dialect, ctx, world, modes, conn, server):
    """The look-up functions of the explorer agree with the catalogue."""
    ex = sc.engine(dialect).create_explorer(ctx)
    declared = conn.generator.state
    names = {(q.scope_id or "", q.local_id) for q in await ex.get_table_names()}
    for ns in declared.namespaces.values():
        for t in ns.tables.values():
            if not any(n[1] == t.name.local_id for n in names):
                raise Violation(f"get_table_names misses {t.name}: {sorted(names)[:6]}")
            if not await ex.has_table(t.name):
                raise Violation(f"has_table denies {t.name}")
            cols = list(t.columns.values())
            if not await ex.has_column(t.name, cols[-1].name):
                raise Violation(f"has_column denies {t.name}.{cols[-1].name}")
            from pysqlsync.model.id_types import LocalId

            if await ex.has_column(t.name, LocalId("no_such_column")):
                raise Violation(f"has_column confirms a column {t.name} does not have")
            back = await ex.get_table(t.name)
            if [c.name.id for c in back.columns.values()] != [c.name.id for c in cols]:
                raise Violation(f"get_table({t.name}) has columns {[c.name.id for c in back.columns.values()]}")
            obs.see((dialect, "names"), kind="lookups")
    for n in ("no_such_table", "No%", "_"):
        if await ex.has_table(ex.get_qualified_id(next(iter(declared.namespaces.values())).name.id, n)):
            raise Violation(f"has_table confirms {n!r}")


def roundtrip(obs: Obs, dialect: str, seed: int, auto: bool = False, limits: bool = False):
    rng = random.Random(f"c04/{dialect}/{seed}{'/auto' if auto else ''}{'/limits' if limits else ''}")
    modes = modes_for(rng, dialect)
    modes.auto = auto
    features = functools.partial(sc.stable_auto_features, modes=modes) if auto else sc.stable_features
    if limits:
        world = sg.limit_world(rng, dialect, modes, [t for t in sg.limit_types(dialect) if t[0] != "intrange" and t[0] not in {u[0] for u in sc._UNSTABLE.get(dialect, ())}])
    else:
        world = sg.gen_world(rng, dialect, modes, features(dialect, max_tables=rng.choice([2, 4, 6]), max_modules=rng.choice([1, 2, 3]), extras=rng.random() < 0.4))
    with sg.Rendered(world) as R:

        async def body():
            b = sc.backend(dialect)
            srv = b.server
            conn = sc.connection(dialect, modes, R.namespaces(rng))
            async with conn as ctx:
                if rng.random() < 0.5:
                    await sc.create(conn, ctx, R, rng)
                    same = sc.engine(dialect).create_explorer(ctx)
                else:
                    same = sc.engine(dialect).create_explorer(ctx)
                    await same.synchronize(modules=R.modules)
                bad = sc.failed(srv.events)
                if bad:
                    raise Skip("creation fails (C01)")
                declared = sc.model(conn.generator.state)
                n = len(srv.events)
                await same.synchronize(modules=R.modules)
                quiet(obs, srv, n, "second synchronization in the session")
            conn = sc.connection(dialect, modes, R.namespaces(rng))
            async with conn as ctx:
                ex = sc.engine(dialect).create_explorer(ctx)
                n = len(srv.events)
                await ex.discover(modules=R.modules)
                quiet(obs, srv, n, "discovery")
                compare(obs, dialect, sc.model(conn.generator.state), declared, "discovered model")
                if dialect != "oracle" and rng.random() < 0.3:  # not implemented for Oracle
                    n = len(srv.events)
                    await explore_names(obs, dialect, ctx, world, modes, conn, srv)
                    quiet(obs, srv, n, "look-up")
                n = len(srv.events)
                await sc.synchronize(dialect, conn, ctx, R, rng)
                quiet(obs, srv, n, "synchronization in a new session")
                # what the session believes afterwards is what is there
                compare(obs, dialect, sc.model(conn.generator.state), declared, "model held after synchronization")
            obs.keys.add(f"{dialect}/{modes.key()}")
            obs.sample(f"{dialect} {modes.key()}: {len(srv.tables())} tables read back, second synchronization silent")

        sc.run(body())


#: types in the spelling of the server, such that the model has a type of its own for each; {n} is a number of fraction digits, {p} and {s} precision and scale, {l} a length
SERVER_TYPES = {
    "postgresql": "bigint|integer|smallint|boolean|real|double precision|numeric|numeric({p},{s})|text|varchar({l})|char({l})|timestamp|timestamp({n})|timestamp with time zone|timestamp({n}) with time zone|time|time({n})|time with time zone|time({n}) with time zone|date|interval|uuid|json|jsonb|inet|bigint[]|text[]|uuid[]|varchar({l})[]|char({l})[]|timestamp({n})[]|timestamp({n}) with time zone[]|numeric({p},{s})[]",
    "mysql": "tinyint|smallint|int|bigint|double|decimal({p},{s})|date|datetime|datetime({n})|timestamp|time|time({n})|char({l})|varchar({l})|mediumtext|longtext|binary({l})|varbinary({l})|mediumblob|longblob|json",
    "mssql": "bit|tinyint|smallint|int|bigint|real|float|decimal({p},{s})|date|time({n})|datetime2|char({l})|varchar({l})|varchar(max)|nvarchar({l})|nvarchar(max)|binary({l})|varbinary({l})",
    "oracle": "number|varchar2({l})|char({l})|clob|blob|raw({l})|date|timestamp|interval day to second",
}


def server_types(obs: Obs, dialect: str, seed: int):
    """Columns with types given in the spelling of the server: a table made from what is read back has the same types."""
    rng = random.Random(f"c04/types/{dialect}/{seed}")
    cols = []
    for i in range(rng.randint(3, 9)):
        t = rng.choice(SERVER_TYPES[dialect].split("|"))
        top = 7 if dialect == "mssql" else 6
        # the default number of digits is that of a type without the parameter
        p = rng.randint(1, 38)
        t = t.format(n=rng.choice([x for x in range(0 if dialect == "postgresql" else 1, top + 1)]), p=p, s=rng.randint(0, min(p, 30)), l=rng.choice([1, 2, 7, 64, 250]))
        cols.append((f"c{i}", t, rng.random() < 0.5))
    types_round(obs, dialect, cols)


def types_round(obs, dialect, cols):
    q = "`" if dialect == "mysql" else '"'
    m = probes.module(probes.ONE % "value: int")
    name = {"postgresql": '"my"."Thing"', "mssql": '"my"."Thing"', "mysql": "`my__Thing`", "oracle": '"my__Thing"'}[dialect]
    lines = [f"{q}id{q} {'number' if dialect == 'oracle' else 'bigint'} NOT NULL"] + [f"{q}{n}{q} {t}{'' if null else ' NOT NULL'}" for n, t, null in cols]
    sql = f"CREATE TABLE {name} (\n" + ",\n".join(lines) + f",\nCONSTRAINT {q}pk_Thing{q} PRIMARY KEY ({q}id{q})\n);"

    async def body():
        b = sc.backend(dialect)
        conn = sc.connection(dialect, probes.defaults(dialect), {m: "my"})
        async with conn as ctx:
            if dialect in ("postgresql", "mssql"):
                await ctx.execute('CREATE SCHEMA "my";')
            await ctx.execute(sql)
            n = len(b.server.events)
            await sc.engine(dialect).create_explorer(ctx).discover(modules=[m])
            quiet(obs, b.server, n, "discovery")
            found = conn.generator.state
            there = {c.name: (c.type, c.nullable) for c in b.server.tables()[0].cols}
        text = str(found)
        b = sc.backend(dialect)
        conn = sc.connection(dialect, probes.defaults(dialect), {m: "my"})
        async with conn as ctx:
            try:
                await ctx.execute(text)
            except Exception as e:
                raise Violation(f"types {cols}: what is read back cannot be created: {sc.brief(text)}: {e.__cause__ or e}")
            again = {c.name: (c.type, c.nullable) for c in b.server.tables()[0].cols}
        if again != there:
            n = next(n for n in there if again.get(n) != there[n])
            raise Violation(f"column {n} of {cols}: {there[n]} is read back as {again.get(n)}")
        for _, t, null in cols:
            obs.see((dialect, t.partition("(")[0], null), kind="server_types")

    sc.run(body())


def neighbours(obs: Obs, dialect: str, seed: int):
    """Schemas with similar names hold other versions of the same tables: never mistaken, never touched."""
    rng = random.Random(f"c04/n/{dialect}/{seed}")
    modes = modes_for(rng, dialect)
    base = rng.choice(sorted(SIMILAR))
    other = rng.choice(SIMILAR[base])
    if dialect in ("mysql", "oracle") and other.endswith("_"):
        other = other[:-1] + "_z"  # a trailing underscore is ambiguous with name prefixes (known finding)
    if rng.random() < 0.5:
        base, other = other, base
    feats = sc.stable_features(dialect, schemas=[base], max_modules=1, max_tables=4)
    if dialect == "oracle":
        feats.enums = feats.xenums = False  # names of constraints of lookup tables collide (known finding of C01)
    world = sg.gen_world(rng, dialect, modes, feats)
    world2 = copy.deepcopy(world)
    world2.modules[0].schema = other
    if rng.random() < 0.7:
        world2, _ = evolve.evolve(rng, world2, dialect, modes, feats, without=("add_module", "remove_module"))
    with sg.Rendered(world) as R, sg.Rendered(world2) as Q:

        async def body():
            b = sc.backend(dialect)
            srv = b.server
            for X in rng.sample([R, Q], 2):
                conn = sc.connection(dialect, modes, X.namespaces())
                async with conn as ctx:
                    await sc.create(conn, ctx, X)
                    if X is R:
                        declared = sc.model(conn.generator.state)
                    else:
                        theirs = sc.model(conn.generator.state)
            if sc.failed(srv.events):
                raise Skip("creation fails (C01)")
            before = srv.describe()
            conn = sc.connection(dialect, modes, R.namespaces())
            async with conn as ctx:
                ex = sc.engine(dialect).create_explorer(ctx)
                n = len(srv.events)
                await ex.discover(modules=R.modules)
                quiet(obs, srv, n, "discovery")
                compare(obs, dialect, sc.model(conn.generator.state), declared, f"discovered model of {base!r} next to {other!r}")
                n = len(srv.events)
                await sc.synchronize(dialect, conn, ctx, R)
                quiet(obs, srv, n, f"synchronization of {base!r} next to {other!r}")
                # dropping what was discovered leaves the neighbour
                n = len(srv.events)
                await ctx.drop_objects()
                if sc.failed(srv.events[n:]):
                    raise Violation(f"drop refused: {sc.brief(sc.failed(srv.events[n:])[0].text)}")
            conn = sc.connection(dialect, modes, Q.namespaces())
            async with conn as ctx:
                ex = sc.engine(dialect).create_explorer(ctx)
                await ex.discover(modules=Q.modules)
                compare(obs, dialect, sc.model(conn.generator.state), theirs, f"{other!r} after {base!r} was dropped")
            obs.see((dialect, base, other), kind="neighbours")

        sc.run(body())


def trailing_underscore(obs: Obs, dialect: str):
    """A module mapped to `my` takes the tables of the one mapped to `my_` for its own."""
    m = probes.module(probes.ONE % "value: int")
    n = probes.module(probes.ONE % "value: int")

    async def body():
        b = sc.backend(dialect)
        conn = sc.connection(dialect, probes.defaults(dialect), {m: "my", n: "my_"})
        async with conn as ctx:
            await ctx.execute(conn.generator.create(modules=[m, n]))
        conn = sc.connection(dialect, probes.defaults(dialect), {m: "my"})
        async with conn as ctx:
            await sc.engine(dialect).create_explorer(ctx).discover(modules=[m])
            tables = [t.name.local_id for ns in conn.generator.state.namespaces.values() for t in ns.tables.values()]
            obs.see(None)
            if len(tables) != 1:
                raise Violation(f"schema 'my' read back as {tables}")

    sc.run(body())


def main():
    c = Check(
        "C04",
        "distinct (column type, nullability, identity, default), (constraint kind, width), (dialect, mode combination) and (statement kind, phase) observed while the catalogue was read back",
        [
            "servers are simulated: lib/simdb answers the library's catalogue queries from its own catalogue, in the spelling documented for the dialect",
            "check constraints are not read back (known finding): integer ranges and the CHECK representation of enumerations are left out",
            "column types and defaults listed as known findings are left out of the generated declarations",
        ],
    )
    for d in sg.DIALECTS:
        for s in c.seeds(c.pick(260, 3000), 1):
            c.add(roundtrip, dialect=d, seed=s)
        for s in c.seeds(c.pick(40, 500), 5):
            c.add(roundtrip, dialect=d, seed=s, auto=True)
        for s in c.seeds(c.pick(60, 600), 2):
            c.add(neighbours, dialect=d, seed=s)
        for s in c.seeds(c.pick(40, 400), 7):
            c.add(server_types, dialect=d, seed=s)
        for s in c.seeds(c.pick(40, 400), 6):
            c.add(roundtrip, dialect=d, seed=s, limits=True)
    # recorded defects, still present
    ONE = probes.ONE
    for d in sg.DIALECTS:
        c.probe(f"check-constraint-{d}", probes.again(d, ONE % "value: Annotated[int, IntegerRange(-5, 100)]"))
    c.probe("postgresql-auto-enum", probes.again("postgresql", "class Level(enum.Enum):\n    low = 'low'\n    high = 'high'\n\n" + ONE % "value: Level", probes.defaults("postgresql", auto=True)))
    c.probe("mysql-real", probes.again("mysql", ONE % "value: float32"))
    c.probe("mysql-default-str", probes.again("mysql", ONE % "value: Annotated[str, MaxLength(80)] = 'a'"))
    c.probe("mysql-default-bool", probes.again("mysql", ONE % "value: bool = True"))
    c.probe("mysql-default-float", probes.again("mysql", ONE % "value: float = 0.0"))
    c.probe("mysql-default-decimal", probes.again("mysql", ONE % "value: Annotated[decimal.Decimal, Precision(10, 2)] = decimal.Decimal('0.5')"))
    c.probe("mysql-default-datetime", probes.again("mysql", ONE % "value: datetime.datetime = datetime.datetime(1989, 10, 24, 23, 59, 59)"))
    c.probe("mssql-time", probes.again("mssql", ONE % "value: datetime.time"))
    c.probe("mssql-datetime-precision", probes.again("mssql", ONE % "value: Annotated[datetime.datetime, TimePrecision(6)]"))
    c.probe("oracle-float", probes.again("oracle", ONE % "value: float"))
    c.probe("oracle-float32", probes.again("oracle", ONE % "value: float32"))
    c.probe("oracle-smallint", probes.again("oracle", ONE % "value: uint8"))
    c.probe("oracle-decimal", probes.again("oracle", ONE % "value: Annotated[decimal.Decimal, Precision(10, 2)]"))
    c.probe("oracle-datetime-precision", probes.again("oracle", ONE % "value: Annotated[datetime.datetime, TimePrecision(6)]"))
    c.probe("oracle-default-datetime", probes.again("oracle", ONE % "value: datetime.datetime = datetime.datetime(1989, 10, 24, 23, 59, 59)"))
    for d in ("mysql", "oracle"):
        c.probe(f"trailing-underscore-{d}", lambda obs, d=d: trailing_underscore(obs, d))
    # repaired defects
    for k, t, v in (("bool", "bool", "True"), ("str", "str", "'it''s'"), ("int", "int", "-5"), ("float", "float", "-1.5"), ("decimal", "Annotated[decimal.Decimal, Precision(10, 2)]", "decimal.Decimal('-0.5')")):
        c.probe(f"postgresql-default-{k}", probes.again("postgresql", ONE % f"value: {t} = {v}"))
    c.probe("postgresql-interval", probes.again("postgresql", ONE % "value: datetime.timedelta"))
    c.probe("postgresql-time-precision", probes.again("postgresql", ONE % "value: Annotated[datetime.time, TimePrecision(3)]"))
    c.probe("postgresql-struct-array", probes.again("postgresql", "@dataclass\nclass Part:\n    id: int\n    items: list[int]\n" + ONE % "value: Part"))
    c.probe("mysql-enum-apostrophe", probes.again("mysql", "class Kind(enum.Enum):\n    a = \"it's\"\n    b = 'b'\n" + ONE % "value: Kind", probes.defaults("mysql", enum="inline")))
    for k, t, v in (("bool", "bool", "True"), ("str", "Annotated[str, MaxLength(80)]", "'a'"), ("int", "int", "-5")):
        c.probe(f"mssql-default-{k}", probes.again("mssql", ONE % f"value: {t} = {v}"))
    c.probe("array-element-parameters", probes.again("postgresql", ONE % "value: list[Annotated[str, MaxLength(10)]]\n    other: list[Annotated[decimal.Decimal, Precision(10, 2)]]"))
    c.probe("timestamptz", lambda obs: types_round(obs, "postgresql", [("a", "timestamp with time zone", False), ("b", "time with time zone", True)]))
    c.probe("mssql-double", probes.again("mssql", ONE % "value: float"))
    c.require(server_types=500, discovered_objects=2000, observed_statements=1000, neighbours=20, lookups=50)
    c.finish()


main()
