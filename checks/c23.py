"""C23: operations of a session on schemas and tables do exactly what they name."""

import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import harness  # noqa: F401
from harness import Check, Obs, Violation
import probes
import scenario as sc
import specgen as sg

from pysqlsync.model.id_types import LocalId, PrefixedId, QualifiedId

SCHEMAS = ["shop", "shop2", "sh%", "sh_p", "my_shop", "Größe", "order", "a b", "it's"]
TABLES = ["Item", "Order", "Item_2", "item s", "It%m", "Ünit"]
PLAIN = ["loose", "shop_item", "shopx_Item"]  # tables outside of the schemas that a session manages


def name_of(dialect, schema, table):
    return QualifiedId(schema, table) if dialect in ("postgresql", "mssql") else PrefixedId(schema, table)


def stored_name(dialect, schema, table):
    """Where the server has the table."""
    return (schema, table) if dialect in ("postgresql", "mssql") else ("*", f"{schema}__{table}")


def listed(dialect, server):
    """All tables, each with its columns, constraints and rows, and all schemas."""
    d = server.describe()
    tables = {}
    for s, content in d.items():
        for t, v in content["tables"].items():
            tables[(s if dialect in ("postgresql", "mssql") else "*", t)] = repr((v, server.dump_rows(server.find_table((s, t)))))
    return tables, set(d) if dialect in ("postgresql", "mssql") else set()


def quoted(dialect, text):
    return "`" + text.replace("`", "``") + "`" if dialect == "mysql" else '"' + text.replace('"', '""') + '"'


def history(obs: Obs, dialect: str, seed: int):
    """Operations in any order over schemas with similar names, tables that refer to each other, and tables of others."""
    rng = random.Random(f"c23/{dialect}/{seed}")
    qualified = dialect in ("postgresql", "mssql")
    b = sc.backend(dialect)
    server = b.server
    schemas = rng.sample(SCHEMAS, rng.randint(2, 5))
    integer = "number" if dialect == "oracle" else "bigint"
    there: dict = {}  # (schema, table) -> columns
    made: set = set()  # schemas

    def sql_name(schema, table):
        return f"{quoted(dialect, schema)}.{quoted(dialect, table)}" if qualified else quoted(dialect, f"{schema}__{table}")

    def make(schema, table):
        """A table written by hand, which may refer to another one of its schema."""
        others = [t for s, t in there if s == schema]
        columns = ["id", "value"] + rng.sample(["note", "Note 2", "va_ue"], rng.randint(0, 2))
        q = lambda x: quoted(dialect, x)  # noqa: E731
        lines = [f"{q(c)} {integer}{' NOT NULL' if c == 'id' else ''}" for c in columns]
        tag = f"{schemas.index(schema)}_{TABLES.index(table)}"
        lines.append(f"CONSTRAINT {q('pk_' + tag)} PRIMARY KEY ({q('id')})")
        server.run_script(f"CREATE TABLE {sql_name(schema, table)} ({', '.join(lines)});")
        if others and rng.random() < 0.7:
            to = rng.choice(others)
            server.run_script(f"ALTER TABLE {sql_name(schema, table)} ADD CONSTRAINT {q('fk_' + tag)} FOREIGN KEY ({q('value')}) REFERENCES {sql_name(schema, to)} ({q('id')});")
            back.setdefault((schema, to), set()).add((schema, table))
        else:
            server.run_script(f"INSERT INTO {sql_name(schema, table)} ({q('id')}) VALUES ({rng.randint(1, 99)});")
        there[(schema, table)] = columns

    back: dict = {}  # table -> tables that refer to it

    def expect(before, what, gone=(), schema_gone=(), schema_new=()):
        tables, names = listed(dialect, server)
        was, were = before
        want = set(was) - {stored_name(dialect, s, t) for s, t in gone}
        if set(tables) != want:
            raise Violation(f"{dialect}: {what}: gone are {sorted(set(was) - set(tables))}, new are {sorted(set(tables) - set(was))}, expected to go {sorted(set(was) - want)}")
        touched = {stored_name(dialect, *r) for k in gone for r in back.get(k, ())}  # these lose a foreign key
        for k in tables:
            if k not in touched and tables[k] != was[k]:
                raise Violation(f"{dialect}: {what}: table {k} changed from {sc.brief(was[k])} to {sc.brief(tables[k])}")
        if names != (were - set(schema_gone)) | set(schema_new):
            raise Violation(f"{dialect}: {what}: schemas {sorted(were)} became {sorted(names)}")
        for k in gone:
            there.pop(k, None)
            back.pop(k, None)
            for v in back.values():
                v.discard(k)

    async def body():
        conn = sc.connection(dialect, sc.random_modes(rng, dialect), {})
        async with conn as ctx:
            explorer = sc.engine(dialect).create_explorer(ctx)
            for t in PLAIN:
                server.run_script(f"CREATE TABLE {quoted(dialect, t)} (id {integer} NOT NULL, CONSTRAINT {quoted(dialect, 'pk_' + t)} PRIMARY KEY (id));")
            for schema in rng.sample(schemas, rng.randint(0, len(schemas))):
                if qualified:
                    server.run_script(f"CREATE SCHEMA {quoted(dialect, schema)};")
                    made.add(schema)
                for table in rng.sample(TABLES, rng.randint(0, 4)):
                    make(schema, table)
            for step in range(rng.randint(6, 20)):
                schema, table = rng.choice(schemas), rng.choice(TABLES)
                ops = ["fill", "fill", "fill", "fill", "drop_schema", "drop_table", "ask", "ask"] + (["create_schema", "create_schema"] if qualified else [])
                op = rng.choice(ops)
                before = listed(dialect, server)
                n = len(server.events)
                what = f"step {step}: {op} {schema!r} {table!r}"
                if op == "create_schema":
                    await ctx.create_schema(LocalId(schema))
                    expect(before, what, schema_new=[schema])
                    made.add(schema)
                elif op == "fill":
                    if qualified and schema not in made:
                        continue
                    if (schema, table) not in there:
                        make(schema, table)
                    continue
                elif op == "drop_schema":
                    await ctx.drop_schema(LocalId(schema))
                    expect(before, what, gone=[k for k in there if k[0] == schema], schema_gone=[schema])
                    made.discard(schema)
                elif op == "drop_table":
                    if qualified and schema not in made:
                        continue
                    if dialect != "oracle" and any(r != (schema, table) for r in back.get((schema, table), ())):
                        continue  # refused, as other tables refer to it
                    await ctx.drop_table_if_exists(name_of(dialect, schema, table))
                    expect(before, what, gone=[k for k in [(schema, table)] if k in there])
                elif dialect != "oracle":
                    got = {((x.scope_id or "*") if qualified else "*", x.local_id) for x in await explorer.get_table_names()}
                    want = {stored_name(dialect, *k) for k in there}
                    if qualified and got & {(s, t) for s in schemas for t in TABLES} != want or not qualified and {x for x in got if "__" in x[1]} != want:
                        raise Violation(f"{dialect}: {what}: get_table_names gives {sorted(got)}, there are {sorted(want)}")
                    if not qualified and not {("*", t) for t in PLAIN} <= got:
                        raise Violation(f"{dialect}: {what}: get_table_names gives {sorted(got)} without {PLAIN}")
                    for s in schemas:
                        for t in rng.sample(TABLES, 4):
                            ident = name_of(dialect, s, t)
                            if await explorer.has_table(ident) != ((s, t) in there):
                                raise Violation(f"{dialect}: {what}: has_table denies what is there, or confirms what is not: {s!r}.{t!r}")
                            for c in ("value", "note", "va_ue", "Note 2", "VALUE2"):
                                if (s, t) in there and await explorer.has_column(ident, LocalId(c)) != (c in there[(s, t)]):
                                    raise Violation(f"{dialect}: {what}: has_column is wrong about {c!r} of {s!r}.{t!r}")
                            obs.count("answers", 6)
                    if sc.mutating(server.events[n:]):
                        raise Violation(f"{dialect}: {what}: a question modifies the database")
                    expect(before, what)
                obs.see((dialect, op, (schema, table) in there, schema in made), kind="operations")
            if dialect != "oracle":  # a block handles the error that there is no such table
                probes.refused(server)

    sc.run(body())


def objects(obs: Obs, dialect: str, seed: int):
    """Creating and dropping the tables of classes beside tables of others."""
    rng = random.Random(f"c23/o/{dialect}/{seed}")
    modes = sc.random_modes(rng, dialect)
    world = sg.gen_world(rng, dialect, modes, sc.stable_features(dialect))
    b = sc.backend(dialect)
    integer = "number" if dialect == "oracle" else "bigint"

    async def body():
        with sg.Rendered(world) as R:
            conn = sc.connection(dialect, modes, R.namespaces())
            async with conn as ctx:
                for t in PLAIN:
                    b.server.run_script(f"CREATE TABLE {quoted(dialect, t)} (id {integer} NOT NULL, CONSTRAINT {quoted(dialect, 'pk_' + t)} PRIMARY KEY (id));")
                    b.server.run_script(f"INSERT INTO {quoted(dialect, t)} (id) VALUES (7);")
                before = listed(dialect, b.server)
                await sc.create(conn, ctx, R, rng)
                during = listed(dialect, b.server)
                for k, v in before[0].items():
                    if during[0].get(k) != v:
                        raise Violation(f"{dialect}: creating objects changes {k}")
                await ctx.drop_objects()
                after = listed(dialect, b.server)
                if after != before:
                    raise Violation(f"{dialect}: dropping objects leaves {sorted(set(after[0]) ^ set(before[0]))} {sorted(after[1] ^ before[1])}")
                obs.see((dialect, len(during[0]), len(during[1])), len(during[0]), kind="objects")
            probes.refused(b.server)

    sc.run(body())


def main():
    c = Check(
        "C23",
        "a situation is an operation on a schema or table, with whether either is there",
        ["the server is a stand-in, whose catalogue and rows are compared before and after each operation", "Oracle: schemas are prefixes of table names, and the library answers no questions about tables"],
    )
    for d in ("postgresql", "mysql", "mssql", "oracle"):
        for s in c.seeds(c.pick(150, 3000), 1):
            c.add(history, dialect=d, seed=s)
        for s in c.seeds(c.pick(40, 800), 2):
            c.add(objects, dialect=d, seed=s)
    c.require(operations=1500, answers=5000, objects=300)
    c.finish()


main()
