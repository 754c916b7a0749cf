"""Building blocks of deterministic reproductions of single defects."""

from __future__ import annotations

import itertools
import sys
import types

import scenario as sc
import specgen as sg
from harness import Obs, Violation

from pysqlsync.formation.object_types import FormationError

_count = itertools.count(1)


def module(src: str, name: str = "") -> types.ModuleType:
    name = name or f"probe_module_{next(_count)}"
    m = types.ModuleType(name)
    sys.modules[name] = m
    exec(compile(sg.PRELUDE + src, name, "exec"), m.__dict__)
    return m


def defaults(dialect: str, **kw) -> sg.Modes:
    import copy

    m = copy.deepcopy(sg.DEFAULT_MODES[dialect])
    m.foreign = True
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def refused(srv, n=0):
    bad = sc.failed(srv.events[n:])
    if bad:
        raise Violation(f"statement refused by the server: {sc.brief(bad[0].text, 200)}: {bad[0].error}")


def modules(sources) -> list:
    """Modules of which later ones refer to earlier ones as M0, M1, ..."""
    out = []
    for s in [sources] if isinstance(sources, str) else sources:
        head = ""
        for i, m in enumerate(out):
            if f"M{i}." in s:
                head += f"import {m.__name__}\n"
                s = s.replace(f"M{i}.", m.__name__ + ".")
        out.append(module(head + s))
    return out


SCHEMAS = ("s1", "s2", "s3", "s4")


def creates(dialect: str, *sources: str, modes=None, schemas=SCHEMAS, drop=True, judge=None):
    """The creation script of modules runs, then the drop script."""

    def probe(obs: Obs):
        modes_ = modes or defaults(dialect)
        mods = modules(sources)
        ns = {m: schemas[i] for i, m in enumerate(mods)}

        async def body():
            b = sc.backend(dialect)
            conn = sc.connection(dialect, modes_, ns)
            async with conn as ctx:
                try:
                    await ctx.execute(conn.generator.create(modules=mods))
                except Exception as e:
                    refused(b.server)
                    raise Violation(f"{type(e).__name__}: {e.__cause__ or e}")
                refused(b.server)
                if judge is not None:
                    judge(b.server)
                if drop:
                    try:
                        await ctx.execute(conn.generator.drop())
                    except Exception as e:
                        refused(b.server)
                        raise Violation(f"{type(e).__name__}: {e.__cause__ or e}")
                    refused(b.server)
            obs.see(None)

        sc.run(body())

    return probe


def evolves(dialect: str, before, after, modes=None, modes_after=None, schemas=SCHEMAS, silent=False, judge=None, rows=None, refusal=False, **sync):
    """A database created from one version of the modules is synchronized with another (or the same: `silent`)."""

    def probe(obs: Obs):
        modes_ = modes or defaults(dialect)
        a = modules(before)
        z = modules(after)

        async def body():
            b = sc.backend(dialect)
            srv = b.server
            conn = sc.connection(dialect, modes_, {m: schemas[i] for i, m in enumerate(a)})
            async with conn as ctx:
                await attempt(ctx.execute(conn.generator.create(modules=a)), "create")
            if rows:
                srv.run_script(rows)
            n = len(srv.events)
            conn = sc.connection(dialect, modes_after or modes_, {m: schemas[i] for i, m in enumerate(z)}, **sync)
            async with conn as ctx:
                try:
                    await sc.engine(dialect).create_explorer(ctx).synchronize(modules=z)
                except Exception as e:
                    refused(srv, n)
                    if refusal and isinstance(e, FormationError) and not sc.mutating(srv.events[n:]):
                        return
                    raise Violation(f"{type(e).__name__}: {e.__cause__ or e}")
                refused(srv, n)
                m = sc.mutating(srv.events[n:])
                if silent and m:
                    raise Violation(f"synchronizing again: {sc.brief(m[0].text, 200)}")
                if judge is not None:
                    judge(srv)
            obs.see(None)

        sc.run(body())

    return probe


def again(dialect: str, src: str, modes=None):
    return evolves(dialect, src, src, modes, silent=True)


ONE = '''
@dataclass
class Thing:
    id: PrimaryKey[int]
    %s
'''


def columns(srv, table="Thing") -> dict:
    """Columns of the table whose name ends as given."""
    for s in srv.describe().values():
        for n, t in s["tables"].items():
            if n == table or n.endswith("__" + table):
                return t["columns"]
    raise Violation(f"table {table} is missing")


def constraints(srv, table="Thing") -> list:
    for s in srv.describe().values():
        for n, t in s["tables"].items():
            if n == table or n.endswith("__" + table):
                return list(t["constraints"].values())
    raise Violation(f"table {table} is missing")


def uses(dialect: str, source, act, before=None, modes=None, schemas=SCHEMAS):
    """A session (over tables made by itself, or by an earlier version of the modules) does `await act(ctx, modules, server)`."""

    def probe(obs: Obs):
        modes_ = modes or defaults(dialect)
        old = modules(before) if before is not None else None
        mods = modules(source)

        async def body():
            b = sc.backend(dialect)
            if old is not None:
                conn = sc.connection(dialect, modes_, {m: schemas[i] for i, m in enumerate(old)})
                async with conn as ctx:
                    await ctx.execute(conn.generator.create(modules=old))
            conn = sc.connection(dialect, modes_, {m: schemas[i] for i, m in enumerate(mods)})
            async with conn as ctx:
                if old is None:
                    await attempt(sc.engine(dialect).create_explorer(ctx).synchronize(modules=mods), "create by synchronization")
                else:
                    await sc.engine(dialect).create_explorer(ctx).discover(modules=mods)
                await act(ctx, mods, b.server)
            obs.see(None)

        sc.run(body())

    return probe


def dump(srv, table="Thing") -> list:
    """Rows of the table whose name ends as given, with stored values."""
    for s, d in srv.describe().items():
        for n in d["tables"]:
            if n == table or n.endswith("__" + table):
                return srv.dump_rows(srv.find_table((s, n)))
    raise Violation(f"table {table} is missing")


async def attempt(action, what: str):
    """The action works; whatever it raises is the violation."""
    try:
        return await action
    except Exception as e:
        raise Violation(f"{what}: {type(e).__name__}: {e.__cause__ or e}")
