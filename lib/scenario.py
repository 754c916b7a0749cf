"""Shared scenario building blocks: engines over simulated servers, synchronisation, event monitors."""

from __future__ import annotations

import asyncio
import contextlib
import logging
import random
from typing import List, Optional

import harness  # noqa: F401  (sets up sys.path)
import specgen as sg
from harness import Obs, Skip, Violation
from simdb.drivers import Backend, install, route
from simdb.server import MUTATING

install()
logging.disable(logging.CRITICAL)

from pysqlsync.base import ConnectionParameters  # noqa: E402
from pysqlsync.factory import get_dialect  # noqa: E402

PARAMS = dict(host="db.example", port=1234, username="user", password="secret", database="testdb")
DIALECTS = sg.DIALECTS
MUT = MUTATING | {"copy"}


def backend(dialect: str, server=None) -> Backend:
    b = Backend(dialect, server)
    route(dialect, b)
    return b


def engine(dialect):
    return get_dialect(dialect)


def connection(dialect: str, modes: sg.Modes, namespaces: dict, **sync):
    return get_dialect(dialect).create_connection(ConnectionParameters(**PARAMS), sg.generator_options(modes, namespaces, **sync))


def run(coro):
    return asyncio.run(coro)


async def create(conn, ctx, rendered, rng=None):
    """Creates the objects of a world from its generated creation script; returns the script."""
    conn.generator.reset()
    stmt = conn.generator.create(tables=rendered.entity_types(rng))
    if stmt is not None:
        await ctx.execute(stmt)
    return stmt


def mutating(events) -> List:
    return [e for e in events if e.kind in MUT]


def failed(events) -> List:
    return [e for e in events if not e.ok]


def random_modes(rng: random.Random, dialect: str, *, foreign=0.9, init=0.5) -> sg.Modes:
    m = rng.choice(sg.all_modes(dialect))
    m.foreign = rng.random() < foreign
    m.init = rng.random() < init
    return m


def brief(stmt: Optional[str], n=400) -> str:
    return " ".join((stmt or "").split())[:n]


# types and defaults whose catalogue description differs from the declaration (open findings of C04)
_UNSTABLE = {
    "mysql": {("float32",)},
    "mssql": {("time",), ("datetime", 6)},
    "oracle": {("uint8",), ("float",), ("float32",), ("float64",), ("decimal", 10, 2), ("decimal", 5, 0), ("datetime", 6)},
}
_STABLE_DEFAULTS = {
    "mysql": {"int", "int8", "int16", "int32", "int64", "uint8"},
    "oracle": {"int", "int32", "int64", "bool", "str", "decimal"},
}


def stable_features(dialect: str, **kw) -> sg.Features:
    """Declarations that the library reads back from the catalogue as declared."""
    base = dict(
        scalars=[t for t in sg.scalar_types(dialect) if t[0] != "intrange" and t not in _UNSTABLE.get(dialect, ())],
        default_types=_STABLE_DEFAULTS.get(dialect),
    )
    base.update(kw)
    return sg.Features(**base)


def stable_auto_features(dialect: str, modes, **kw) -> sg.Features:
    """Declarations with automatic defaults that the library reads back from the catalogue as declared."""
    base = sg.auto_features(dialect, modes)
    out = {t for t in base.scalars if t[0] == "intrange" or t in _UNSTABLE.get(dialect, ())}
    if dialect == "oracle":
        out |= {t for t in base.scalars if t[0] == "datetime"}
    base.scalars = [t for t in base.scalars if t not in out]
    base.default_types = _STABLE_DEFAULTS.get(dialect)
    for k, v in kw.items():
        setattr(base, k, v)
    if modes.enum == "type":
        # a value added to an enumeration cannot be the new default within the same transaction; numbers cannot be values of an enumeration type
        base.enum_insert = base.extras = False
    return base


async def synchronize(dialect, conn, ctx, rendered, rng=None):
    modules = list(rendered.modules)
    if rng is not None:
        rng.shuffle(modules)
    await engine(dialect).create_explorer(ctx).synchronize(modules=modules)


# ---------------------------------------------------------------------------------------------------------------------
# comparison of two schema models of the library


def _key(name) -> tuple:
    return (name.scope_id or "", name.local_id)


def _ref(r) -> tuple:
    return (_key(r.table), tuple(c.id for c in r.columns))


def model(catalog) -> dict:
    """A schema model of the library as plain data, without names of constraints and without comments."""
    out = {}
    for ns in catalog.namespaces.values():
        d = {"enums": {}, "structs": {}, "tables": {}}
        for e in ns.enums.values():
            d["enums"][e.name.local_id] = list(e.values)
        for s in ns.structs.values():
            d["structs"][s.name.local_id] = [(m.name.id, str(m.data_type)) for m in s.members.values()]
        for t in ns.tables.values():
            cons = []
            for c in t.constraints.values():
                k = type(c).__name__
                if "Unique" in k:
                    cons.append(("unique", tuple(sorted(x.id for x in c.unique_columns))))
                elif "Foreign" in k:
                    cons.append(("foreign", tuple(x.id for x in c.foreign_columns), _ref(c.reference)))
            d["tables"][t.name.local_id] = {
                "columns": {c.name.id: {"type": str(c.data_type), "nullable": bool(c.nullable), "identity": bool(c.identity), "default": c.default} for c in t.columns.values()},
                "order": [c.name.id for c in t.columns.values()],
                "primary_key": tuple(c.id for c in t.primary_key),
                "constraints": sorted(cons, key=repr),
            }
        out[ns.name.id] = d
    return {k: v for k, v in out.items() if v["tables"] or v["enums"] or v["structs"]}


def difference(a, b, path="") -> list:
    """Paths at which two plain structures differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in a:
            out += difference(a[k], b[k], f"{path}/{k}") if k in b else [f"{path}/{k} only in the first"]
        out += [f"{path}/{k} only in the second" for k in b if k not in a]
        return out
    return [] if a == b else [f"{path}: {a!r} / {b!r}"]
