"""C02: names and text reach the server as single, exact tokens."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random

import harness
import probes
import datawork as dw
import evolve as ev
import renaming as rn
import scenario as sc
import specgen as sg
from harness import Check, Obs, Skip, Violation
from simdb.lexer import SqlError

from pysqlsync.base import GeneratorOptions
from pysqlsync.model.id_types import LocalId

EXECUTED = sg.DIALECTS
PRINTED = ["redshift", "snowflake", "delta", "trino"]


def compare(obs, dialect, labels, plain, hostile, what):
    """Aligns two lists of (kind, statement)."""
    try:
        seen = rn.align(labels, [s for _, s in plain], [s for _, s in hostile], dialect)
    except rn.Mismatch as e:
        raise Violation(f"{what}: {e}")
    if sorted(k for k, _ in plain) != sorted(k for k, _ in hostile):
        raise Violation(f"{what}: {len(hostile)} instead of {len(plain)} calls; different: {[(p[0], h[0], sc.brief(h[1], 150)) for p, h in zip(plain, hostile) if p[0] != h[0]][:3]}")
    obs.count("statements", len(plain))
    for s, n in seen.items():
        obs.count("labels", n)
        obs.see((dialect, what, s), kind="positions")


DATA = ("get_table_insert_stmt", "get_table_upsert_stmt", "get_table_merge_stmt", "delete")


def as_driver(kind, sql):
    """What the MySQL driver makes of a statement with parameters: `%` is a format character in all but the last part."""
    if kind not in DATA or sql.startswith("\n"):
        return sql
    from aiomysql.cursors import RE_INSERT_VALUES

    m = RE_INSERT_VALUES.match(sql)
    return "\n" + (m.group(1) % () + m.group(2) + (m.group(3) or "") if m else sql % (("NULL",) if kind == "delete" else ()))


def statements(dialect, catalog, generator):
    """Everything that a generator can say about the objects of a catalogue."""
    out = [("create", catalog.create_stmt()), ("drop", catalog.drop_stmt())]
    for ns in catalog.namespaces.values():
        for t in ns.tables.values():
            out += [("if exists", t.drop_if_exists_stmt()), ("constraints", t.add_constraints_stmt()), ("constraints", t.drop_constraints_stmt())]
            cols = list(t.columns.values())
            ids = [x.name.id for x in cols]
            if not all(x.identity for x in cols):  # otherwise there is no data to enter
                out += [(f.__name__, f(t, list(ids))) for f in ((generator.get_table_insert_stmt, generator.get_table_upsert_stmt, generator.get_table_merge_stmt) if t.primary_key else (generator.get_table_insert_stmt,))]
            if t.primary_key:
                out.append(("delete", generator.get_table_delete_stmt(t)))
            if dialect == "mysql":
                out = [(k, as_driver(k, s)) for k, s in out]
            for c in cols:
                out += [("column", f"ALTER TABLE {t.name} {s}") for s in (c.create_stmt(), c.drop_stmt(), c.soft_drop_stmt(), c.hard_drop_stmt(), c.rename_stmt("other"))]
        for o in list(ns.enums.values()) + list(ns.structs.values()):
            out += [("create", o.create_stmt()), ("drop", o.drop_stmt())]
        for o in ns.enums.values():
            out += [("rename", o.soft_drop_stmt()), ("rename", o.hard_drop_stmt()), ("rename", o.rename_stmt("other"))]
    return [(k, s) for k, s in out if s is not None]


def features(dialect, **kw):
    base = dict(hostile=False, max_tables=3, max_fields=6)
    base.update(kw)
    return sg.Features(**base)


def draw(rng, dialect, modes, feats, change):
    world = sg.gen_world(rng, dialect, modes, feats)
    if not change:
        return world, None
    after, ops = ev.evolve(rng, world, dialect, modes, feats, n=rng.randint(1, 4))
    return world, after


# ---------------------------------------------------------------------------------------------------------------------
# generated statements of labelled catalogues


def generated(obs: Obs, dialect: str, seed: int):
    """Statements for schema models with hostile names and texts, token by token."""
    rng = random.Random(f"generated/{dialect}/{seed}")
    base = dialect if dialect in EXECUTED else "postgresql"
    modes = sc.random_modes(rng, base) if dialect in EXECUTED else sg.Modes("relation", "json", "json")
    feats = features(base, structs=dialect in EXECUTED, identity=True)
    world, after = draw(rng, base, modes, feats, True)
    junk = rn.junk(rng, 60, dialect)
    runs = []
    known: dict = {}
    for hostile in (False, True):
        labels = rn.Labels(junk, hostile, known)
        out = []
        cats = []
        gen = None
        for w in (world, after):
            with sg.Rendered(rn.relabel_world(w, labels)) as r:
                if dialect in EXECUTED:
                    conn = sc.connection(dialect, modes, r.namespaces())
                    gen = conn.generator
                else:
                    ns = {m: (s or m.__name__) for m, s in r.namespaces().items()}
                    try:
                        extra = dict(initialize_tables=True, foreign_constraints=True) if seed % 2 else {}
                        gen = sc.engine(dialect).create_generator(GeneratorOptions(namespaces=ns, **extra))
                    except TypeError as e:
                        raise Skip(str(e))
                try:
                    cats.append(rn.relabel(gen.converter.dataclasses_to_catalog(r.entity_types()), labels, base))
                except (TypeError, NotImplementedError) as e:
                    if dialect in EXECUTED:
                        raise
                    raise Skip(f"{dialect}: {e}")
        for c in cats:
            try:
                out += statements(dialect, c, gen)
            except NotImplementedError as e:
                if dialect in EXECUTED:
                    raise
                out += [("create", c.create_stmt()), ("drop", c.drop_stmt())]
        try:
            gen.state = cats[0]
            out.append(("mutate", gen.get_mutate_stmt(cats[1]) or ""))
        except Exception as e:
            out.append((f"mutate: {type(e).__name__}", ""))
        runs.append((out, labels))
    (plain, labels), (hostile, _) = runs
    compare(obs, dialect, labels, plain, hostile, "generated")
    obs.sample(f"{dialect}: {sc.brief(hostile[0][1], 250)}")


# ---------------------------------------------------------------------------------------------------------------------
# execution


def calls_of(b):
    return [(m, s) for _, m, s, _ in b.calls if m != "close" and "copy" not in m]


def failed_text(b):
    bad = sc.failed(b.server.events)
    return f"{sc.brief(bad[0].text)}: {bad[0].error}" if bad else None


async def lifecycle(dialect, modes, worlds, labels, b):
    """Creates, fills, reads back, changes and drops objects with labelled names."""
    cats = []
    conn = None
    ex = None
    out = []
    for w in worlds:
        with sg.Rendered(rn.relabel_world(w, labels)) as r:
            conn = sc.connection(dialect, modes, r.namespaces())
            cats.append(rn.relabel(conn.generator.converter.dataclasses_to_catalog(r.entity_types()), labels, dialect))
    async with conn as ctx:
        explorer = sc.engine(dialect).create_explorer(ctx)
        gen = conn.generator
        await ctx.execute(cats[0].create_stmt())
        gen.state = cats[0]
        for ns in cats[0].namespaces.values():
            for t in ns.tables.values():
                if t.is_lookup_table():
                    values = [labels.label("text", f"value {i}") for i in range(3)]
                    out.append({t.name.local_id: sorted(await ctx._merge_lookup_table(t, set(values))) if hasattr(ctx, "_merge_lookup_table") else None})
        out = [{k: v for d in out for k, v in d.items()}, b.server.describe()]
        for ns in sorted(cats[0].namespaces.values(), key=lambda ns: rn.number(ns.name.id)):
            found = await explorer.get_namespace(ns.name) if ns.name.id else None
            if found is not None:
                out.append({ns.name.id: _model(found)})
            for t in ns.tables.values():
                if dialect != "oracle":
                    out.append(await explorer.has_table(t.name))
                    for c in t.columns.values():
                        out.append(await explorer.has_column(t.name, c.name))
        if len(cats) > 1:
            try:
                stmt = gen.get_mutate_stmt(cats[1])
            except Exception as e:
                raise Skip(f"change refused: {e}")
            if stmt:
                await ctx.execute(stmt)
            gen.state = cats[1]
            out.append(b.server.describe())
        await ctx.execute(cats[-1].drop_stmt())
        out.append(b.server.describe())
    return out


def _model(ns):
    d = {"enums": {}, "structs": {}, "tables": {}}
    for e in ns.enums.values():
        d["enums"][e.name.local_id] = list(e.values)
    for s in ns.structs.values():
        d["structs"][s.name.local_id] = ([(m.name.id, m.description) for m in s.members.values()], s.description)
    for t in ns.tables.values():
        d["tables"][t.name.local_id] = {
            "columns": [(c.name.id, str(type(c.data_type)), c.nullable, c.identity, c.default is None, c.description) for c in t.columns.values()],
            "key": [c.id for c in t.primary_key],
            "constraints": sorted((type(c).__name__, c.name.id, _refs(c)) for c in t.constraints.values()),
            "text": t.description,
        }
    return d


def _refs(c):
    out = [x.id for x in getattr(c, "unique_columns", ())] + [x.id for x in getattr(c, "foreign_columns", ())]
    ref = getattr(c, "reference", None)
    return tuple(out + ([ref.table.local_id, ref.table.scope_id or ""] + [x.id for x in ref.columns] if ref else []))


def executed(obs: Obs, dialect: str, seed: int):
    """Objects with hostile names are created, discovered, changed and dropped like those with plain names."""
    rng = random.Random(f"executed/{dialect}/{seed}")
    modes = sc.random_modes(rng, dialect)
    feats = features(dialect)
    world, after = draw(rng, dialect, modes, feats, rng.random() < 0.6)
    junk = rn.junk(rng, 60, dialect, most=2)
    results = []
    known: dict = {}
    for hostile in (False, True):
        labels = rn.Labels(junk, hostile, known)
        b = sc.backend(dialect)
        try:
            out = sc.run(lifecycle(dialect, modes, [world] + ([after] if after else []), labels, b))
        except (Skip, Violation):
            raise
        except Exception as e:
            if not hostile:
                raise Skip(f"refused with plain names as well: {type(e).__name__}: {sc.brief(str(e), 150)}")
            raise Violation(f"refused with hostile names only: {type(e).__name__}: {sc.brief(str(e), 300)}; {failed_text(b)}")
        results.append((out, calls_of(b), labels, failed_text(b)))
    (p, pc, labels, pf), (h, hc, _, hf) = results
    if hf and not pf:
        raise Violation(f"refused with hostile names only: {hf}")
    compare(obs, dialect, labels, pc, hc, "executed")
    diff = sc.difference(_plain(labels.deep(p)), _plain(h))
    if diff:
        raise Violation(f"the objects differ: {diff[:3]}")
    obs.count("objects_compared", len(h))
    obs.sample(f"{dialect}: {len(hc)} statements, e.g. {sc.brief(hc[len(hc) // 2][1], 200)}")


def _plain(x):
    """Lists of results by index; names of constraints may spell a dot differently."""
    if isinstance(x, str):
        return rn.derived(x)
    if isinstance(x, dict):
        return {_plain(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return {str(i): _plain(v) for i, v in enumerate(x)}
    return x


# ---------------------------------------------------------------------------------------------------------------------
# the ways in which a caller supplies names and texts: schemas of modules, enumeration values, literals and defaults


def steady_lookups(server):
    """Rows of lookup tables get a number of their value, whatever the order in which they are added."""
    insert = server.do_insert

    def do_insert(t, row):
        names = {c.name: c.uid for c in t.cols}
        if set(names) == {"id", "value"}:
            m = rn.MARK_START.search(str(row.get(names["value"])))
            if m:
                row = {**row, names["id"]: 1000 + int(m.group(1))}
        return insert(t, row)

    server.do_insert = do_insert


async def work(rng, dialect, modes, world, state, b):
    out = []
    await dw.prepare(rng, dialect, modes, world, state, b)
    with sg.Rendered(world) as R:
        conn = sc.connection(dialect, modes, R.namespaces())
        async with conn as ctx:
            await dw.enter(rng, dialect, modes, conn, ctx, R, state)
            out.append(b.server.describe())
            pool = await dw.fill_other(rng, world, dialect, modes, ctx, R)
            t = world.table((0, "Thing"))
            cls = R.cls((0, "Thing"))
            table = ctx.get_table(cls)
            used: set = set()
            recs = [dw.thing_record(rng, world, dialect, modes, pool, dw.new_key(rng, world, dialect, t.pk.ty, used)) for _ in range(rng.randint(2, 6))]
            mode, omitted, data, kw = dw.as_records(rng, R, dialect, modes, table, t.fields, recs, mode="shuffled")
            await ctx.insert_rows(table, data, **kw)
            out.append(dw.stored(world, dialect, modes, b.server))
            again = [dw.thing_record(rng, world, dialect, modes, pool, k) for k in (recs[0][t.pk.name], dw.new_key(rng, world, dialect, t.pk.ty, used))]
            mode, omitted, data, kw = dw.as_records(rng, R, dialect, modes, table, t.fields, again, mode="shuffled")
            await ctx.upsert_rows(table, data, **kw)
            out.append(dw.stored(world, dialect, modes, b.server))
            await ctx.delete_rows(table, dw.field_type(R, modes, t.pk.ty), [dw.record_value(R, modes, t.pk.ty, recs[-1][t.pk.name])])
            out.append(dw.stored(world, dialect, modes, b.server))
            if dialect != "oracle":
                out.append(sorted(x.local_id for x in await sc.engine(dialect).create_explorer(ctx).get_table_names()))
            for ns in {m.schema for m in world.modules if m.schema}:
                if dialect != "oracle":
                    await ctx.create_schema(LocalId(ns))
                await ctx.drop_schema(LocalId(ns))
            out.append(b.server.describe())
    return out


def supplied(obs: Obs, dialect: str, seed: int):
    """The whole life of tables in schemas with hostile names, with hostile enumeration values and defaults."""
    rng = random.Random(f"supplied/{dialect}/{seed}")
    modes = sc.random_modes(rng, dialect)
    state = rng.choice(dw.STATES)
    while modes.enum == "check" and state != "created":
        modes = sc.random_modes(rng, dialect)
    world = dw.table_world(rng, dialect, modes, "records", identity=0)
    for t in world.modules[0].tables:
        for f in t.fields:
            if f.default is not sg.NOVALUE and rng.random() < 0.5:
                f.ty, f.default = ("str", 80), rng.choice(["abc", "def"])
    junk = rn.junk(rng, 60, dialect, most=3)
    if dialect in ("mssql", "oracle"):
        junk = [j for j in junk if j.isascii()]  # lengths of columns are in bytes
    results = []
    known: dict = {}
    for hostile in (False, True):
        labels = rn.Labels(junk, hostile, known)
        b = sc.backend(dialect)
        steady_lookups(b.server)
        try:
            out = sc.run(work(random.Random(f"supplied/work/{seed}"), dialect, modes, rn.relabel_world(world, labels, schemas=True), state, b))
        except Violation:
            raise
        except Exception as e:
            if not hostile:
                raise Skip(f"refused with plain names as well: {type(e).__name__}: {sc.brief(str(e), 150)}")
            raise Violation(f"refused with hostile names only: {type(e).__name__}: {sc.brief(str(e), 300)}; {failed_text(b)}")
        results.append((out, calls_of(b), labels))
    (p, pc, labels), (h, hc, _) = results
    compare(obs, dialect, labels, pc, hc, "supplied")
    diff = sc.difference(_plain(labels.deep(p)), _plain(h))
    if diff:
        raise Violation(f"the objects or rows differ: {diff[:3]}")
    obs.count("objects_compared", len(h))
    obs.sample(f"{dialect} {modes.key()[:3]} {state}: {len(hc)} statements, e.g. {sc.brief(hc[len(hc) // 2][1], 200)}")


# ---------------------------------------------------------------------------------------------------------------------
# searches by name


def near(rng, name: str, dialect: str) -> set:
    """Names that a pattern made of a name without escapes might match as well, and other similar names."""
    out = set()
    for i, c in enumerate(name):
        for r in ("x", "xx", "", "_", "%", "\\", c.swapcase()):
            out.add(name[:i] + r + name[i + 1:])
    out |= {name + "x", "x" + name, name + "_x", name[:1] + "x", name.replace("\\", ""), name.replace("~", ""), "x"}
    return {n for n in out if n and n != name and valid_schema(n, dialect)}


def valid_schema(n, dialect):
    return "__" not in n and not n.endswith("_") and not (dialect == "oracle" and '"' in n) and n == n.strip()


def patterns(obs: Obs, dialect: str, seed: int):
    """Discovery and removal of a schema concern the objects of exactly that schema."""
    rng = random.Random(f"patterns/{dialect}/{seed}")
    while True:
        name = "".join(rng.choice("ab_%~\\'\"[]^-.?*") for _ in range(rng.randint(1, 5)))
        if valid_schema(name, dialect):
            break
    others = sorted(near(rng, name, dialect))
    rng.shuffle(others)
    others = others[: rng.randint(4, 10)]
    b = sc.backend(dialect)
    own = rng.sample(["Apple", "Pear", "Plum", "a_b"], rng.randint(1, 3))

    def full(schema, table):
        return rn.quoted(f"{schema}__{table}") if dialect in ("mysql", "oracle") else f"{rn.quoted(schema)}.{rn.quoted(table)}"

    def put(schema, tables):
        if dialect in ("postgresql", "mssql"):
            b.server.schemas.setdefault(schema, {})
        for t in tables:
            for st in (f'CREATE TABLE {full(schema, t)} ("id" {"number" if dialect == "oracle" else "integer"} NOT NULL, CONSTRAINT {rn.quoted("pk_" + schema + t)} PRIMARY KEY ("id"))',):
                b.server.run_script(st)

    if dialect in ("mysql", "oracle"):
        b.server.run_script(f'CREATE TABLE "plain" ("id" {"number" if dialect == "oracle" else "integer"} NOT NULL, CONSTRAINT "pk_plain" PRIMARY KEY ("id"))')
    put(name, own)
    for o in others:
        put(o, rng.sample(["Apple", "Pear", "Plum"], rng.randint(1, 2)))
    before = b.server.describe()

    def split(d):
        mine, rest = {}, {}
        for s, content in d.items():
            for t, v in content["tables"].items():
                is_own = s == name if dialect in ("postgresql", "mssql") else t in {f"{name}__{x}" for x in own}
                (mine if is_own else rest)[(s, t)] = v
        return mine, rest

    mine, rest = split(before)
    conn = sc.connection(dialect, sc.random_modes(rng, dialect), {})

    async def body():
        async with conn as ctx:
            ns = await sc.engine(dialect).create_explorer(ctx).get_namespace(LocalId(name))
            got = sorted((t.name.namespace, t.name.id) for t in ns.tables.values())
            want = sorted((name, x) for x in own)
            if got != want:
                raise Violation(f"{dialect}: discovery of schema {name!r} finds {got} instead of {want}")
            if dialect in ("mysql", "oracle"):
                ns = await sc.engine(dialect).create_explorer(ctx).get_namespace_flat(None) if dialect == "mysql" else None
                if ns is not None and [t.name.local_id for t in ns.tables.values()] != ["plain"]:
                    raise Violation(f"tables outside of schemas: {[t.name.local_id for t in ns.tables.values()]}")
            if dialect != "oracle":
                ex = sc.engine(dialect).create_explorer(ctx)
                for x in ("Apple", "Pear", "Plum"):
                    if await ex.has_table(ex.get_qualified_id(name, x)) != (x in own):
                        raise Violation(f"{dialect}: has_table({name!r}, {x!r}) is wrong")
                    if await ex.has_column(ex.get_qualified_id(name, x), LocalId("id")) != (x in own):
                        raise Violation(f"{dialect}: has_column({name!r}, {x!r}) is wrong")
            await ctx.drop_schema(LocalId(name))

    sc.run(body())
    left, kept = split(b.server.describe())
    if left:
        raise Violation(f"{dialect}: tables of dropped schema {name!r} are still there: {sorted(left)}")
    diff = sc.difference(rest, kept)
    if diff:
        raise Violation(f"{dialect}: removal of schema {name!r} affects other objects: {diff[:3]}")
    obs.see((dialect, "".join(sorted({c for c in name if not c.isalnum()}))), len(others), kind="schemas_distinguished")
    obs.sample(f"{dialect}: schema {name!r} among {others}")


ENUM = """
class Kind(enum.Enum):
    one = "a\\\\b"
    two = "c\\\\"
    three = "it's\\n"

@dataclass
class Thing:
    id: PrimaryKey[int]
    kind: Kind
"""


def found_again(schema, insert=False):
    async def act(ctx, mods, srv):
        m = mods[0]
        if insert:
            await probes.attempt(ctx.insert_data(m.Thing, [m.Thing(1, "a"), m.Thing(2, "b")]), "insert data")
            await probes.attempt(ctx.upsert_data(m.Thing, [m.Thing(2, "c"), m.Thing(3, "d")]), "upsert data")
            if len(probes.dump(srv)) != 3:
                raise Violation(f"rows of a table in schema {schema!r} are missing")
            return
        ns = await sc.engine("mysql").create_explorer(ctx).get_namespace(LocalId(schema))
        if [t.name.id for t in ns.tables.values()] != ["Thing"]:
            raise Violation(f"objects of schema {schema!r} are not found")
        await ctx.drop_schema(LocalId(schema))
        if any(srv.describe()[s]["tables"] for s in srv.describe()):
            raise Violation(f"tables of schema {schema!r} are still there")

    return act


async def each_value(ctx, mods, srv):
    m = mods[0]
    await probes.attempt(ctx.insert_data(m.Thing, [m.Thing(i, k) for i, k in enumerate(m.Kind)]), "insert each value of an enumeration")


async def dropped(ctx, mods, srv):
    await probes.attempt(ctx.execute(ctx.get_table(mods[0].Thing).drop_if_exists_stmt()), "drop a table if it exists")
    if srv.tables():
        raise Violation("a dropped table is still there")


def printed_default(dialect, what, ty, default):
    def probe(obs):
        m = probes.module(probes.ONE % f"x: {ty} = {default!r}")
        gen = sc.engine(dialect).create_generator(GeneratorOptions(namespaces={m: "s"}))
        sql = gen.create(tables=[m.Thing]) or ""
        if "'" + default.replace("\\", "\\\\").replace("'", "\\'") + "'" not in sql and "'" + default.replace("\\", "\\\\").replace("'", "''") + "'" not in sql:
            raise Violation(f"{dialect}: the default value {default!r} is not a literal of {sql!r}")

    return probe


def add_probes(c):
    one = probes.ONE % "x: str"
    c.probe("mssql-schema-quote", probes.creates("mssql", one, schemas=["it's"]))
    c.probe("oracle-drop-quote", probes.uses("oracle", one, dropped, schemas=["it's"]))
    c.probe("mysql-backslash-lookup", probes.uses("mysql", one, found_again("a\\b"), schemas=["a\\b"]))
    c.probe("mysql-percent-name", probes.uses("mysql", one, found_again("50%s", True), schemas=["50%s"]))
    c.probe("mysql-check-backslash", probes.uses("mysql", ENUM, each_value, modes=probes.defaults("mysql", enum="check")))
    c.probe("mysql-enum-escapes", probes.again("mysql", ENUM, modes=probes.defaults("mysql", enum="inline")))
    c.probe("snowflake-default-text", printed_default("snowflake", "default", "str", "a\\"))
    c.probe("oracle-script-semicolon", probes.creates("oracle", probes.ONE % 'x: Annotated[str, MaxLength(80)] = "a;\\nb"'))


def main():
    c = Check(
        "C02",
        "each statement sent or generated with hostile names and texts has exactly the tokens of the same statement with plain labels, each label replaced by the original characters",
        ["dialect lexers of lib/simdb", "names without `__` in dialects without schemas, no NUL, no double quote and no dollar sign in Oracle names"],
    )
    for d in EXECUTED + PRINTED:
        for s in c.seeds(c.pick(60, 900), 1):
            c.add(generated, dialect=d, seed=s)
    for d in EXECUTED:
        for s in c.seeds(c.pick(80, 1500), 2):
            c.add(executed, dialect=d, seed=s)
    for d in EXECUTED:
        for s in c.seeds(c.pick(80, 1500), 3):
            c.add(supplied, dialect=d, seed=s)
        for s in c.seeds(c.pick(100, 2000), 4):
            c.add(patterns, dialect=d, seed=s)
    add_probes(c)
    c.require(schemas_distinguished=300, statements=2000, labels=20000, positions=100)
    return c.finish()


main()
