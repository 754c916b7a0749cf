"""C14: query results map to the requested shape without mixing columns."""

import dataclasses
import datetime as dt
import decimal
import os
import random
import sys
import types
import uuid
from typing import Any, Optional

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import harness  # noqa: F401
from harness import Check, Obs, Violation
import scenario as sc
import specgen as sg
from simdb.drivers import MsRow, PgRecordReal
from pysqlsync.base import QueryException
from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_object, resultset_unwrap_tuple

NAMES = ["id", "name", "value", "a", "b", "count", "index", "keys", "items", "x1", "UPPER", "camelCase", "ünï", "z_last", "data", "order", "get", "values"]


def cell(rng, t=None):
    if rng.random() < 0.2:
        return None
    k = t or rng.choice(["int", "str", "float", "bool", "bytes", "date", "dec", "uuid"])
    return {
        "int": lambda: rng.choice([0, 1, -1, 2**63 - 1, rng.randint(-1000, 1000)]),
        "str": lambda: rng.choice(["", "a", "NULL", "é漢", "x\ty", "0", str(rng.random())]),
        "float": lambda: rng.choice([0.0, -1.5, 1e300, rng.random()]),
        "bool": lambda: rng.random() < 0.5,
        "bytes": lambda: bytes(rng.randrange(256) for _ in range(rng.randint(0, 5))),
        "date": lambda: dt.datetime(2000 + rng.randrange(30), 1, 1),
        "dec": lambda: decimal.Decimal(rng.randint(0, 999)) / 100,
        "uuid": lambda: uuid.UUID(int=rng.getrandbits(128)),
    }[k]()


PY = {"int": int, "str": str, "float": float, "bool": bool, "bytes": bytes, "date": dt.datetime, "dec": decimal.Decimal, "uuid": uuid.UUID}


def unwrap(d, v):
    """MySQL has no Boolean type; everything else arrives as the driver produced it."""
    return int(v) if d == "mysql" and isinstance(v, bool) else v


def equal(a, b):
    return type(a) is type(b) and a == b


def plan(rng, shape):
    kinds = list(PY)
    if shape == "scalar":
        k = rng.choice(["int", "str", "float", "bool"])
        return [rng.choice(NAMES)], [k], PY[k]
    n = rng.choice([1, 2, 3, 3, 5, 9])
    names = rng.sample(NAMES, n)
    ks = [rng.choice(kinds) for _ in range(n)]
    if shape == "tuple":
        return names, ks, tuple[tuple(PY[k] for k in ks)]
    fields = [(nm, Optional[PY[k]]) for nm, k in zip(names, ks)]
    return names, ks, dataclasses.make_dataclass("Row", fields)


def judge(obs, key, got, rows, names, order, sig, shape, d=None):
    """rows: delivered values in the delivered order; order: position of each declared field among the delivered columns."""
    if not isinstance(got, list):
        raise Violation(f"{key}: result is a {type(got).__name__}")
    if len(got) != len(rows):
        raise Violation(f"{key}: {len(got)} items for {len(rows)} rows")
    for i, (g, r) in enumerate(zip(got, rows)):
        r = [unwrap(d, v) for v in r]
        if shape == "scalar":
            ok = equal(g, r[0])
        elif shape == "tuple":
            ok = isinstance(g, tuple) and len(g) == len(r) and all(equal(a, b) for a, b in zip(g, r))
        else:
            ok = type(g) is sig and all(equal(getattr(g, nm), r[order[j]]) for j, nm in enumerate(names))
        if not ok:
            raise Violation(f"{key}: row {i} {r!r} mapped to {g!r}")
    obs.see((key, len(names), min(len(rows), 3), any(v is None for r in rows for v in r)), kind="results")
    obs.count("rows", len(rows))


def rows_for(rng, names, ks, shape):
    """Delivered column names, rows, and for each field its delivered position."""
    perm = list(range(len(names)))
    if shape == "dataclass":
        rng.shuffle(perm)
    delivered = [names[p] for p in perm]
    order = [perm.index(j) for j in range(len(names))]
    rows = [tuple(cell(rng, ks[p]) for p in perm) for _ in range(rng.choice([0, 1, 2, 3, 7, 40]))]
    return delivered, rows, order


def through_driver(obs: Obs, dialect: str, seed: int):
    rng = random.Random(f"c14/{dialect}/{seed}")

    async def body():
        b = sc.backend(dialect)
        conn = sc.connection(dialect, sg.DEFAULT_MODES[dialect], {})
        async with conn as ctx:
            for q in range(12):
                shape = rng.choice(["scalar", "tuple", "tuple", "dataclass", "dataclass"])
                names, ks, sig = plan(rng, shape)
                delivered, rows, order = rows_for(rng, names, ks, shape)
                if dialect == "oracle" and shape == "dataclass":
                    # known finding: positions decide
                    delivered, rows, order = names, [tuple(r[o] for o in order) for r in rows], list(range(len(names)))
                sql = f"SELECT q{q}"
                b.server.canned[sql] = (list(delivered), [tuple(r) for r in rows])
                got = await ctx.query_all(sig, sql)
                judge(obs, (dialect, shape), got, rows, names, order, sig, shape, dialect)
                # single record
                try:
                    one = await ctx.query_one(sig, sql)
                except Exception as e:
                    if rows:
                        raise Violation(f"query_one with {len(rows)} rows raised {e!r}")
                    obs.see((dialect, "one-empty"), kind="single")
                else:
                    if not rows:
                        raise Violation(f"query_one returned {one!r} for an empty result")
                    judge(obs, (dialect, shape, "one"), [one], rows[:1], names, order, sig, shape, dialect)
                # a wrong number of columns is refused
                if rows and shape != "dataclass":
                    wide = (list(delivered) + ["extra_col"], [tuple(r) + (1,) for r in rows])
                    narrow = (list(delivered)[:-1], [tuple(r)[:-1] for r in rows])
                    for bad in (wide, narrow) if len(delivered) > 1 else (wide,):
                        b.server.canned[sql] = bad
                        try:
                            got = await ctx.query_all(sig, sql)
                        except QueryException:
                            obs.see((dialect, shape, len(bad[0]) > len(delivered)), kind="refused")
                        else:
                            raise Violation(f"{len(bad[0])} columns accepted for {sig}: {got[:2]!r}")
                if rows and shape == "dataclass" and len(names) > 1 and dialect != "oracle":
                    # a declared field is missing from the result
                    b.server.canned[sql] = (list(delivered)[:-1], [tuple(r)[:-1] for r in rows])
                    try:
                        got = await ctx.query_all(sig, sql)
                    except QueryException:
                        obs.see((dialect, shape, "missing"), kind="refused")
                    else:
                        raise Violation(f"column {delivered[-1]} is missing but {got[:1]!r} returned")

    sc.run(body())


def through_table(obs: Obs, dialect: str, seed: int):
    """Rows stored by the library and selected with columns in any order."""
    rng = random.Random(f"c14t/{dialect}/{seed}")
    name = f"c14mod{os.getpid()}"
    m = types.ModuleType(name)
    sys.modules[name] = m
    src = "@dataclass\nclass Item:\n    id: PrimaryKey[int64]\n    num: int64\n    title: Optional[Annotated[str, MaxLength(50)]]\n    score: float64\n"
    exec(compile(sg.PRELUDE + src, name, "exec"), m.__dict__)
    cols = ["id", "num", "title", "score"]
    conv = {"id": int, "num": int, "title": lambda v: v, "score": float}

    async def body():
        b = sc.backend(dialect)
        conn = sc.connection(dialect, sg.DEFAULT_MODES[dialect], {m: "s1"})
        async with conn as ctx:
            await ctx.create_objects([m.Item])
            data = [m.Item(i, rng.randint(-9, 9), rng.choice([None, "t", f"v{i}"]), i / 4) for i in range(rng.randint(0, 6))]
            if data:
                await ctx.insert_data(m.Item, data)
            t = ctx.get_table(m.Item)
            for _ in range(6):
                pick = rng.sample(cols, rng.randint(1, 4))
                if dialect == "oracle":
                    pick = [x for x in cols if x in pick]
                sel = ", ".join(str(t.columns[c].name) for c in pick)
                sql = f"SELECT {sel} FROM {t.name}"
                tys = {"id": int, "num": int, "title": Optional[str], "score": float}
                got = await ctx.query_all(tuple[tuple(tys[c] for c in pick)], sql)
                if [tuple(conv[c](v) for c, v in zip(pick, r)) for r in got] != [tuple(getattr(o, c) for c in pick) for o in data]:
                    raise Violation(f"{sql}: {got} for {data}")
                fields = rng.sample(pick, len(pick)) if dialect != "oracle" else pick
                cls = dataclasses.make_dataclass("R", [(c, tys[c]) for c in fields])
                got = await ctx.query_all(cls, sql)
                if [tuple(conv[c](getattr(r, c)) for c in cols if c in pick) for r in got] != [tuple(getattr(o, c) for c in cols if c in pick) for o in data]:
                    raise Violation(f"{sql} into fields {fields}: {got} for {data}")
                one = rng.choice(["num", "title"])
                got = await ctx.query_all(tys[one] if one == "num" else str, f"SELECT {t.columns[one].name} FROM {t.name}")
                if [conv[one](v) for v in got] != [getattr(o, one) for o in data]:
                    raise Violation(f"scalar {one}: {got} for {data}")
                obs.see((dialect, tuple(pick) == tuple(fields), len(pick)), n=3, kind="table_queries")

    try:
        sc.run(body())
    finally:
        del sys.modules[name]


class Obj:
    def __init__(self, names, values):
        for n, v in zip(names, values):
            setattr(self, n, v)


def direct(obs: Obs, seed: int):
    """The mapping functions on every kind of row container drivers use, given as lists and as one-shot iterators."""
    rng = random.Random(f"c14d/{seed}")
    for _ in range(15):
        shape = rng.choice(["scalar", "tuple", "dataclass"])
        names, ks, sig = plan(rng, shape)
        delivered, rows, order = rows_for(rng, names, ks, shape)
        once = rng.choice([list, iter, tuple, lambda x: (y for y in x)])
        if shape == "dataclass":
            make = rng.choice(["dict", "pg", "ms", "obj"])
            if make == "dict":
                got = resultset_unwrap_dict(sig, once([dict(zip(delivered, r)) for r in rows]))
            elif make == "pg":
                got = resultset_unwrap_dict(sig, once([PgRecordReal(delivered, r) for r in rows]))
            elif make == "ms":
                got = resultset_unwrap_object(sig, once([MsRow(delivered, r) for r in rows]))
            else:
                got = resultset_unwrap_object(sig, once([Obj(delivered, r) for r in rows]))
        else:
            make = rng.choice(["tuple", "list", "pg", "ms"])
            wrap = {"tuple": tuple, "list": list, "pg": lambda r: PgRecordReal(delivered, r), "ms": lambda r: MsRow(delivered, r)}[make]
            got = resultset_unwrap_tuple(sig, once([wrap(r) for r in rows]))
        judge(obs, ("direct", shape, make), got, rows, names, order, sig, shape)
    for bad in (list[int], dict, dt.date, Any, bytes):
        for recs in ([], [(1,)]):
            try:
                r = resultset_unwrap_tuple(bad, recs)
            except TypeError:
                obs.see(("signature", str(bad)), kind="refused")
            else:
                raise Violation(f"unsupported signature {bad} accepted, returned {r}")


def oracle_position(obs):
    cls = dataclasses.make_dataclass("R", [("a", int), ("b", int)])

    async def body():
        b = sc.backend("oracle")
        async with sc.connection("oracle", sg.DEFAULT_MODES["oracle"], {}) as ctx:
            b.server.canned["Q"] = (["b", "a"], [(2, 1)])
            got = await ctx.query_all(cls, "Q")
            if got != [cls(1, 2)]:
                raise Violation(f"columns b=2, a=1 mapped to {got}")

    sc.run(body())


def main():
    c = Check(
        "C14",
        "distinct (dialect or row container, shape, number of columns, number of rows, NULLs present), column orders and refusals observed, each compared value by value with the delivered rows",
        ["drivers are stand-ins delivering rows as the real drivers do (asyncpg.Record, pymysql tuples and dictionaries, pyodbc.Row, oracledb row factories)", "column names within a result are distinct"],
    )
    for d in sg.DIALECTS:
        for s in c.seeds(c.pick(120, 2500), 1):
            c.add(through_driver, dialect=d, seed=s)
        for s in c.seeds(c.pick(40, 600), 2):
            c.add(through_table, dialect=d, seed=s)
    for s in c.seeds(c.pick(200, 4000), 3):
        c.add(direct, seed=s)
    c.probe("oracle-position", oracle_position)
    c.require(results=2000, refused=500, table_queries=200, single=50)
    c.finish()


main()
