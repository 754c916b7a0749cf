"""C05: schema synchronization preserves the data of everything retained."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy
import random
from decimal import Decimal

import evolve
import harness
import populate
import probes
import scenario as sc
import specgen as sg
from harness import Check, Obs, Skip, Violation

from pysqlsync.formation.object_types import FormationError

NUM = set(sg.INT_NEED) | {"intrange", "decimal", "float", "float64", "float32"}


def where(world, mi, t):
    return (world.modules[mi].schema, t.name)


def flat(world, ty):
    """A field type with everything that it refers to spelt out."""
    k = ty[0]
    if k in ("ref", "duni"):
        ref = ty[1] if k == "ref" else ty[1][0]
        return ("ref", world.modules[ref[0]].schema, ref[1], flat(world, world.table(ref).pk.ty))
    if k in ("enum", "xenum"):
        return (k, world.modules[ty[1][0]].schema, ty[1][1])
    if k == "struct":
        return (k, world.modules[ty[1][0]].schema, ty[1][1], tuple((f.name, flat(world, f.ty)) for f in sorted(world.struct(ty[1]).fields, key=lambda f: f.name)))
    if k in ("list", "set"):
        return (k, flat(world, ty[1]))
    return ty


def comparable(world, a, world2, b) -> bool:
    """Whether values of a field keep their meaning when its type changes."""
    a, b = flat(world, a), flat(world2, b)
    if a == b:
        return True
    if a[0] == "ref" or b[0] == "ref":
        return (a[3] if a[0] == "ref" else a) == (b[3] if b[0] == "ref" else b)
    if a[0] in NUM and b[0] in NUM and "float32" not in (a[0], b[0]):
        return a[0] in sg.INT_NEED and b[0] in sg.INT_NEED
    if a[0] == "str" and b[0] == "enum":
        return True
    return a[0] == "str" and b[0] == "str" or a[0] == b[0] and a[0] in ("enum", "xenum", "datetime")


def agree(a, b) -> bool:
    if isinstance(a, (int, Decimal)) and isinstance(b, (int, Decimal)) and not isinstance(a, bool) and not isinstance(b, bool):
        return a == b
    return sg.same(a, b)


LEFT = object()  # a value that a change of type has left without a meaning


def stored(world, dialect, modes, server):
    """The canonical rows of every table, by key."""
    out = {}
    for mi, t in world.all_tables():
        rows = {}
        for row in server.dump_rows(populate.find(world, dialect, server, mi, t.name)):
            r = {}
            for f in t.fields:
                if not sg.is_relation(modes, f):
                    try:
                        r[f.name] = sg.canon(world, f.ty, sg.decode(world, dialect, modes, f.ty, server, row[f.name]))
                    except (TypeError, ValueError):
                        r[f.name] = LEFT
            rows[repr(r[t.pk.name])] = r
        out[where(world, mi, t)] = rows
    return out


def joins(world, dialect, modes, server):
    """The pairs in every join table."""
    out = {}
    for mi, t in world.all_tables():
        for f in t.fields:
            if sg.is_relation(modes, f):
                right = f.ty[1][1]
                tab = populate.find(world, dialect, server, mi, f"{t.name}_{f.name}_{right[1]}")
                out[(where(world, mi, t), f.name, world.modules[right[0]].schema, right[1], f.ty[0])] = sorted(repr(tuple(r.values())) for r in server.dump_rows(tab))
    return out


def judge(obs, dialect, modes, server, first, before, pairs, world, modes2, log, complete=True):
    """Every row of every retained table still has its values."""
    tables2 = {where(world, mi, t): (mi, t) for mi, t in world.all_tables()}
    for mi, t in first.all_tables():
        at = where(first, mi, t)
        if at not in tables2:
            continue
        mi2, t2 = tables2[at]
        if t2.pk.name != t.pk.name:
            continue
        try:
            tab = populate.find(world, dialect, server, mi2, t2.name)
        except Exception as e:
            raise Violation(f"retained table {at} is gone: {e}; edits {log}")
        rows = server.dump_rows(tab)
        if len(rows) != len(before[at]):
            raise Violation(f"{len(rows)} rows instead of {len(before[at])} in retained table {at}; edits {log}")
        old = {f.name: f for f in t.fields}
        for row in rows:
            try:
                k = sg.canon(world, t2.pk.ty, sg.decode(world, dialect, modes2, t2.pk.ty, server, row[t2.pk.name]))
            except Exception as e:
                raise Violation(f"key of table {at}: {e!r}; edits {log}")
            was = before[at].get(repr(k))
            if was is None:
                raise Violation(f"row {k!r} appears in retained table {at}; edits {log}")
            for f in t2.fields:
                if sg.is_relation(modes2, f):
                    continue
                if f.name not in row:
                    if not complete and f.name not in old:
                        continue
                    raise Violation(f"column {at}.{f.name} is missing; edits {log}")
                o = old.get(f.name)
                if o is None or sg.is_relation(modes, o):
                    if complete:
                        check_new(obs, dialect, modes2, server, world, at, f, row[f.name], log)
                    continue
                if was[f.name] is LEFT or not comparable(first, o.ty, world, f.ty) or not complete and flat(first, o.ty) != flat(world, f.ty):
                    continue
                try:
                    got = sg.canon(world, f.ty, sg.decode(world, dialect, modes2, f.ty, server, row[f.name]))
                except Exception as e:
                    raise Violation(f"{at}.{f.name}: stored value {row[f.name]!r} instead of {was[f.name]!r}: {e!r}; edits {log}")
                if not agree(was[f.name], got):
                    raise Violation(f"{at}.{f.name} of row {k!r}: {got!r} instead of {was[f.name]!r} ({o.ty} -> {f.ty}); edits {log}")
                obs.see((dialect, modes.enum if f.ty[0] == "enum" else f.ty[0], was[f.name] is None, o.ty == f.ty), kind="values" if complete else "values_after_failure")
        obs.count("tables")
    if complete or dialect:
        now = joins(world, dialect, modes2, server) if complete else {}
        for k, v in now.items():
            if k in pairs and modes.array == modes2.array:
                if v != pairs[k]:
                    raise Violation(f"pairs of join table {k}: {v} instead of {pairs[k]}; edits {log}")
                obs.see((dialect, "pairs", k[-1]), len(v), kind="pairs")


def check_new(obs, dialect, modes, server, world, at, f, v, log):
    if v is None and f.nullable and dialect == "mssql":
        return  # the server adds a nullable column without values, even if the column has a default
    if f.default is not sg.NOVALUE and f.default is not None:
        want = sg.canon(world, f.ty, getattr(f.default, "value", f.default))
        if f.ty[0] == "enum" and modes.enum == "relation":
            return
        got = sg.canon(world, f.ty, sg.decode(world, dialect, modes, f.ty, server, v))
        if not agree(got, want) and not (f.ty[0] in ("enum",) and str(got) == str(f.default)):
            raise Violation(f"new column {at}.{f.name} has {got!r} instead of its default {want!r}; edits {log}")
        obs.see((dialect, "new", "default", f.ty[0]), kind="new_values")
    elif f.nullable:
        if v is not None:
            raise Violation(f"new column {at}.{f.name} has {v!r} instead of NULL; edits {log}")
        obs.see((dialect, "new", "null", f.ty[0]), kind="new_values")


def tame(rng, dialect, modes, server, first, before, world):
    """Most of the time, only changes that the stored rows permit."""
    if rng.random() < 0.1:
        return False
    old = {where(first, mi, t): t for mi, t in first.all_tables()}
    for mi, t in world.all_tables():
        at = where(world, mi, t)
        if at not in old or not before[at]:
            continue
        cols = {f.name: f for f in old[at].fields}
        for f in t.fields:
            if f.pk or sg.is_relation(modes, f):
                continue
            o = cols.get(f.name)
            if o is None:
                if f.default is sg.NOVALUE:
                    f.nullable = True
                    f.unique = False
                else:
                    f.unique = False
                continue
            vals = [r.get(f.name) for r in before[at].values()]
            if o.nullable and not f.nullable and None in vals:
                f.nullable = True
            if f.unique and not o.unique:
                f.unique = False
            if f.ty[0] == "ref" and o.ty != f.ty and flat(first, o.ty)[0] != "ref":
                f.ty = o.ty  # values that refer to nothing
    return True


def retyped(first, world) -> bool:
    old = {(where(first, mi, t), f.name): flat(first, f.ty) for mi, t in first.all_tables() for f in t.fields}
    return any(old.get((where(world, mi, t), f.name), flat(world, f.ty)) != flat(world, f.ty) for mi, t in world.all_tables() for f in t.fields)


async def synchronize(obs, dialect, modes, srv, first, world, log, rng, modes2=None, **sync):
    """One synchronization in a session of its own, whose effect on the rows is judged. Returns whether the schema is that of `world`."""
    modes2 = modes2 or modes
    before = stored(first, dialect, modes, srv)
    pairs = joins(first, dialect, modes, srv)
    error = None
    with sg.Rendered(world) as R:
        conn = sc.connection(dialect, modes2, R.namespaces(rng), **sync)
        n = len(srv.events)
        async with conn as ctx:
            try:
                await sc.synchronize(dialect, conn, ctx, R, rng)
            except Exception as e:
                error = e
    bad = sc.failed(srv.events[n:])
    if error is None and bad:
        raise Violation(f"{bad[0].error} is not reported: {sc.brief(bad[0].text)}; edits {log}")
    if isinstance(error, FormationError):
        judge(obs, dialect, modes, srv, first, before, pairs, first, modes, log)
        obs.count("refused")
        return False
    if error is not None:
        if not bad:
            raise Violation(f"{type(error).__name__}: {error.__cause__ or error}; edits {log}")
        obs.keys.add(f"{dialect}/failed/{bad[0].error.code if hasattr(bad[0].error, 'code') else str(bad[0].error).split(':')[0]}")
        judge(obs, dialect, modes, srv, first, before, pairs, world, modes2, log, complete=False)
        obs.count("failed")
        return None
    judge(obs, dialect, modes, srv, first, before, pairs, world, modes2, log)
    for k, _ in log:
        obs.keys.add(f"{dialect}/{k}")
    obs.count("completed")
    return True


async def start(dialect, modes, world, rng, most=6):
    b = sc.backend(dialect)
    srv = b.server
    with sg.Rendered(world) as R:
        conn = sc.connection(dialect, modes, R.namespaces(rng))
        async with conn as ctx:
            try:
                await sc.create(conn, ctx, R, rng)
            except Exception as e:
                raise Skip(f"creation fails (C01): {e}")
    if sc.failed(srv.events) or sg.compare_catalogue(world, dialect, modes, srv):
        raise Skip("creation fails (C01)")
    populate.fill(rng, world, dialect, modes, srv, most)
    return srv


def history(obs: Obs, dialect: str, seed: int, steps: int = 2, only=None, most: int = 6):
    rng = random.Random(f"c05/{dialect}/{seed}/{steps}/{only}")
    modes = sc.random_modes(rng, dialect, foreign=1.0, init=0.3)
    if modes.enum == "check":
        modes.enum = "relation"
    feats = sc.stable_features(dialect, max_tables=rng.choice([2, 4]), max_modules=2, hostile=rng.random() < 0.5)
    world = sg.gen_world(rng, dialect, modes, feats)

    async def body():
        w = world
        srv = await start(dialect, modes, w, rng, most)
        for i in range(steps):
            before = stored(w, dialect, modes, srv)
            w2, log = evolve.evolve(rng, w, dialect, modes, feats, only=only, n=rng.choice([1, 2]) if only else None)
            tamed = tame(rng, dialect, modes, srv, w, before, w2)
            r = await synchronize(obs, dialect, modes, srv, w, w2, log, rng)
            if r is None:
                if tamed and not retyped(w, w2) and "enum_remove" not in {k for k, _ in log}:
                    bad = sc.failed(srv.events)[0]
                    raise Violation(f"a change that the rows permit fails: {sc.brief(bad.text)}: {bad.error}; edits {log}")
                return
            if r:
                w = w2
        obs.sample(f"{dialect} {modes.key()}: {sum(len(x) for x in before.values())} rows, {steps} synchronizations, last edits {[k for k, _ in log]}")

    sc.run(body())


def representation(obs: Obs, dialect: str, seed: int, source: str):
    """Enumerations kept in types, inline types or checked columns move to lookup tables."""
    rng = random.Random(f"c05/r/{dialect}/{source}/{seed}")
    modes = sg.DEFAULT_MODES[dialect]
    modes = sg.Modes("relation" if source == "text" else source, modes.struct, rng.choice(["json"] if dialect != "postgresql" else ["json", "array"]))
    modes.foreign, modes.init = True, rng.random() < 0.5
    modes2 = copy.deepcopy(modes)
    modes2.enum = "relation"
    feats = sc.stable_features(dialect, max_tables=3, max_modules=2, hostile=rng.random() < 0.5, lists=False, sets=False, entity_lists=False, structs=False, defaults=False, uniques=False, xenums=rng.random() < 0.3)
    feats.enum_insert = False
    world = sg.gen_world(rng, dialect, modes, feats)
    for mi, m in enumerate(world.modules):
        if not m.enums:
            m.enums.append(sg.gen_enum(rng, "Choice" + "AB"[mi], feats, dialect))
    enums = [(mi, e.name) for mi, m in enumerate(world.modules) for e in m.enums if not e.name.startswith("X")]
    for mi, t in world.all_tables():
        for i in range(rng.randint(0, 2)):
            ref = rng.choice([e for e in enums if e[0] <= mi] or [None])
            if ref is not None:
                at = next((i for i, f in enumerate(t.fields) if f.default is not sg.NOVALUE), len(t.fields))
                t.fields.insert(at, sg.Fld(sg.pick_names(rng, ["choice", "Pick", "opt"], 1, {f.name.lower() for f in t.fields})[0], ("enum", ref), nullable=True))
    nullable = rng.random() < 0.8 or dialect == "postgresql"
    for mi, t in world.all_tables():
        for f in t.fields:
            if f.ty[0] == "enum" and nullable:
                f.nullable = True  # PostgreSQL: a column that must have a value cannot be added to rows (known finding)

    world1 = world.clone()
    if source == "text":
        for mi, t in world1.all_tables():
            for f in t.fields:
                if f.ty[0] == "enum":
                    f.ty = ("str", 40)

    async def body():
        srv = await start(dialect, modes, world1, rng, rng.choice([6, 20]))
        r = await synchronize(obs, dialect, modes, srv, world1, world, [(f"from_{source}", "")], rng, modes2)
        if r:
            diff = sg.compare_catalogue(world, dialect, modes2, srv)
            diff = [x for x in diff if "comment" not in x and "lookup values" not in x]
            if diff:
                raise Violation(f"schema after migration: {diff[:3]}")
            for mi, m in enumerate(world.modules):
                for e in m.enums:
                    if (mi, e.name) in sg.used_enums(world):
                        tab = populate.find(world, dialect, srv, mi, e.name)
                        vals = [r["value"] for r in srv.dump_rows(tab)]
                        if len(set(vals)) != len(vals) or not set(vals) <= set(e.values) | (set(vals) if e.name.startswith("X") or source == "text" else set()):
                            raise Violation(f"lookup table of {e.name}: {vals}, declared {e.values}")
            obs.count("migrated")
        elif r is False and dialect in ("mssql", "oracle"):
            obs.count("migration_refused")
        else:
            raise Violation(f"migration fails: {[str(e.error) + sc.brief(e.text, 200) for e in sc.failed(srv.events)[:1]] or r}")

    sc.run(body())


LEVEL = """
class Level(enum.Enum):
    low = "low"
    high = "it's"
"""


def values_are(*expected):
    def judge(srv):
        t = next(t for t in srv.tables() if t.name == "Thing" or t.name.endswith("__Thing"))
        lt = next(t for t in srv.tables() if t.name == "Level" or t.name.endswith("__Level"))
        names = {r["id"]: r["value"] for r in srv.dump_rows(lt)}
        got = [names.get(r["value"]) if r["value"] is not None else None for r in sorted(srv.dump_rows(t), key=lambda r: r["id"])]
        if got != list(expected):
            raise Violation(f"values {got} instead of {list(expected)}")

    return judge


def probe_all(c):
    ONE = probes.ONE
    ev = probes.evolves
    text = ONE % "value: Optional[Annotated[str, MaxLength(64)]]"
    level = LEVEL + ONE % "value: Optional[Level]"
    rows = {"mysql": 's1__Thing', "oracle": 's1__Thing'}

    def insert(d, *values):
        table = '"s1"."Thing"' if d in ("postgresql", "mssql") else '"s1__Thing"'
        if d == "mysql":
            table = table.replace('"', "`")
        q = "`" if d == "mysql" else '"'
        return "\n".join(f"INSERT INTO {table} ({q}id{q}, {q}value{q}) VALUES ({i}, {v});" for i, v in enumerate(values, 1))

    rel = {d: probes.defaults(d, enum="relation") for d in sg.DIALECTS}
    # recorded defects, still present
    must = LEVEL + ONE % "value: Level"
    c.probe("postgresql-migrate-not-null", ev("postgresql", must, must, probes.defaults("postgresql", enum="type"), rel["postgresql"], rows=insert("postgresql", "'low'"), judge=values_are("low"), refusal=True))
    c.probe("mysql-migrate-checked", ev("mysql", level, level, probes.defaults("mysql", enum="check"), rel["mysql"], rows=insert("mysql", "'low'"), judge=values_are("low"), refusal=True))
    # repaired defects
    for d in sg.DIALECTS:
        c.probe(f"text-to-lookup-{d}", ev(d, text, level, rel[d], rows=insert(d, "'low'", "NULL", "'other'"), judge=values_are("low", None, "other"), refusal=True))


def main():
    c = Check(
        "C05",
        "distinct (dialect, kind of field, NULL or not, type changed or not) of stored values compared before and after a synchronization, (dialect, kind of new column) and (dialect, kind of edit)",
        [
            "servers are simulated: lib/simdb executes the migration statements on stored rows",
            "rows are put into the simulated server directly, not through the library",
            "when the server refuses a statement because of the rows, the rows must survive as well, but the schema need not be that of the declaration",
        ],
    )
    for d in sg.DIALECTS:
        for s in c.seeds(c.pick(60, 1500), 1):
            c.add(history, dialect=d, seed=s)
        for k in evolve.Editor.WEIGHTS:
            for s in c.seeds(c.pick(4, 60), 2):
                c.add(history, dialect=d, seed=s, steps=2, only=[k])
    for d, sources in (("postgresql", ("type", "check", "text")), ("mysql", ("inline", "text")), ("mssql", ("text",)), ("oracle", ("text",))):
        for source in sources:
            for s in c.seeds(c.pick(60, 1000), 3):
                c.add(representation, dialect=d, seed=s, source=source)
    probe_all(c)
    c.require(completed=100, values=1000, tables=100)
    c.finish()


main()
