"""C17: every failure surfaces with its cause, native connections are closed exactly once, nothing is believed done that is not."""

import asyncio
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import dataclasses
import random
import types

import harness
from harness import Check, Obs, Skip, Violation
import evolve
import probes
import redshift
import scenario as sc
import specgen as sg
from simdb import drivers

import asyncpg
import oracledb
import pymysql
import pyodbc

import pysqlsync.base
from pysqlsync.base import ConnectionParameters
from pysqlsync.factory import get_dialect
from pysqlsync.formation.object_types import FormationError
from pysqlsync.model.id_types import LocalId

DIALECTS = sg.DIALECTS
FAULTS = {
    "postgresql": [lambda m: asyncpg.exceptions.PostgresError(m), lambda m: asyncpg.exceptions.UniqueViolationError(m), lambda m: asyncpg.exceptions.InterfaceError(m), lambda m: asyncpg.exceptions.ConnectionDoesNotExistError(m)],
    "mysql": [lambda m: pymysql.err.OperationalError(2013, m), lambda m: pymysql.err.IntegrityError(1062, m), lambda m: pymysql.err.ProgrammingError(1064, m), lambda m: pymysql.err.InternalError(1, m), lambda m: pymysql.err.DataError(1, m)],
    "mssql": [lambda m: pyodbc.Error("HY000", m), lambda m: pyodbc.IntegrityError("23000", m), lambda m: pyodbc.ProgrammingError("42000", m), lambda m: pyodbc.OperationalError("08S01", m), lambda m: pyodbc.DataError("22003", m)],
    "oracle": [lambda m: oracledb.DatabaseError(m), lambda m: oracledb.IntegrityError(m), lambda m: oracledb.InterfaceError(m), lambda m: oracledb.OperationalError(m)],
    "redshift": [],
}
COMMON = [lambda m: OSError(5, m), lambda m: ConnectionResetError(104, m), lambda m: RuntimeError(m), lambda m: ValueError(m), lambda m: KeyError(m), lambda m: TypeError(m), lambda m: AttributeError(m), lambda m: NotImplementedError(m), lambda m: IndexError(m), lambda m: AssertionError(m), lambda m: TimeoutError(110, m), lambda m: BrokenPipeError(32, m), lambda m: EOFError(m), lambda m: LookupError(m), lambda m: MemoryError(m), lambda m: UnicodeError(m), lambda m: BufferError(m)]


def causes(e):
    seen, todo, out = set(), [e], []
    while todo:
        x = todo.pop(0)
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        out.append(x)
        todo += [x.__cause__, None if x.__suppress_context__ else x.__context__]
        if isinstance(x, BaseExceptionGroup):
            todo += list(x.exceptions)
    return out


def carries(err, injected, token):
    """The error is the injected one, or has it (or its text) among its causes."""
    return any(x is injected or token in str(x) or token in repr(x.args) for x in causes(err))


# the explorer asks whether these exist by running a query (open finding: any failure is taken for their absence)
CAPABILITY = (
    "SELECT COUNT(*) FROM information_schema.table_constraints",
    "SELECT COUNT(*) FROM information_schema.referential_constraints",
    "SELECT COUNT(*) FROM information_schema.key_column_usage",
    "SELECT COUNT(column_name), COUNT(data_type), COUNT(is_nullable)",
)


def sc_brief(text):
    return " ".join(str(text).split())


class Faults:
    """Raises one exception at the k-th event and remembers that it did."""

    def __init__(self, at, make, token):
        self.at, self.n, self.token = at, 0, token
        self.exc = make(token) if make else None
        self.fired = None
        self.armed = True

    def __call__(self, a, b):
        if not self.armed or sc_brief(b).startswith(CAPABILITY):
            return None
        self.n += 1
        if self.n == self.at and self.exc is not None:
            self.fired = (a, sc.brief(str(b), 120))
            return self.exc
        return None


SRC = '''
class Level(enum.Enum):
    low = "low"
    mid = "mid"
    high = "high"


@dataclass
class Item:
    id: PrimaryKey[int64]
    num: int64
    title: Optional[Annotated[str, MaxLength(60)]]


@dataclass
class Tagged:
    id: PrimaryKey[int64]
    code: Annotated[str, MaxLength(20)]
    level: Level
'''


class Op:
    def __init__(self, name, fn, needs=(), mutates=True):
        self.name, self.fn, self.needs = name, fn, needs


async def many(n, start, m):
    for i in range(n):
        yield (start + i, i, f"v{i}")


def operations(dialect, ctx, m, rng):
    explorer = lambda: get_dialect(dialect).create_explorer(ctx)  # noqa: E731
    t = lambda: ctx.get_table(m.Item)  # noqa: E731
    g = lambda: ctx.get_table(m.Tagged)  # noqa: E731
    ph = lambda i: ctx.connection.generator.placeholder(i)  # noqa: E731

    def items(a, b):
        return [m.Item(i, i * 2, None if i % 3 else f"t{i}") for i in range(a, b)]

    def q(*cols):
        tab = t()
        return f"SELECT {', '.join(str(tab.columns[c].name) for c in cols)} FROM {tab.name}"

    fields = dict(field_types=(int, int, str), field_names=("id", "num", "title"))
    ops = [
        ("create_objects", lambda: ctx.create_objects([m.Item, m.Tagged])),
        ("insert_data", lambda: ctx.insert_data(m.Item, items(0, 7))),
        ("upsert_data", lambda: ctx.upsert_data(m.Item, items(3, 9))),
        ("insert_rows", lambda: ctx.insert_rows(t(), [(i, i, f"x{i}") for i in range(20, 27)], **fields)),
        ("insert_rows/async", lambda: ctx.insert_rows(t(), many(8, 40, m), **fields)),
        ("upsert_rows", lambda: ctx.upsert_rows(t(), [(i, i, f"y{i}") for i in range(22, 30)], **fields)),
        ("upsert_rows/async", lambda: ctx.upsert_rows(t(), many(5, 44, m), **fields)),
        ("insert_rows/lookup", lambda: ctx.insert_rows(g(), [(1, "a", "low"), (2, "b", "mid"), (3, "c", "low"), (4, "d", "high")], field_types=(int, str, str), field_names=("id", "code", "level"))),
        ("upsert_rows/lookup", lambda: ctx.upsert_rows(g(), [(2, "b", "low"), (5, "e", "high"), (6, "f", "mid"), (7, "g", "mid")], field_types=(int, str, str), field_names=("id", "code", "level"))),
        ("query_all/tuple", lambda: ctx.query_all(tuple[int, int], q("id", "num"))),
        ("query_all/scalar", lambda: ctx.query_all(int, q("id"))),
        ("query_all/dataclass", lambda: ctx.query_all(m.Item, q("id", "num", "title"))),
        ("query_one", lambda: ctx.query_one(int, q("num"))),
        ("execute", lambda: ctx.execute(f"UPDATE {t().name} SET {t().columns['num'].name} = 1;")),
        ("execute_all", lambda: ctx.execute_all(f"UPDATE {t().name} SET {t().columns['num'].name} = {ph(1)} WHERE {t().columns['id'].name} = {ph(2)};", [(i, i) for i in range(5)])),
        ("delete_rows", lambda: ctx.delete_rows(t(), int, [20, 21, 22, 23, 24])),
        ("delete_data", lambda: ctx.delete_data(m.Item, [0, 1, 2])),
        ("current_schema", lambda: ctx.current_schema()),
        ("get_table_names", lambda: explorer().get_table_names()),
        ("has_table", lambda: explorer().has_table(t().name)),
        ("has_column", lambda: explorer().has_column(t().name, LocalId("id"))),
        ("get_table", lambda: explorer().get_table(t().name)),
        ("discover", lambda: explorer().discover(modules=[m])),
        ("synchronize", lambda: explorer().synchronize(modules=[m])),
        ("drop_objects", lambda: ctx.drop_objects()),
        ("create_schema", lambda: ctx.create_schema(LocalId("extra"))),
        ("drop_schema", lambda: ctx.drop_schema(LocalId("extra"))),
        ("synchronize/again", lambda: explorer().synchronize(modules=[m])),
        ("drop_schema/full", lambda: ctx.drop_schema(LocalId("s1"))),
    ]
    if dialect == "oracle":
        ops = [o for o in ops if o[0] not in ("get_table_names", "has_table", "has_column", "create_schema")]  # not offered
    return ops


class Caller(Exception):
    """An error of the code that uses the library."""


_modules = {}


def app():
    if "m" not in _modules:
        _modules["m"] = probes.module(SRC)
    return _modules["m"]


def api(obs: Obs, dialect: str, seed: int, site: str, pick: int, ending: str):
    """All operations of a session, one of whose driver calls (or server statements) fails."""
    rng = random.Random(f"c17/{dialect}/{seed}/{site}/{pick}/{ending}")
    saved, pysqlsync.base.BATCH_SIZE = pysqlsync.base.BATCH_SIZE, 3
    try:
        total, _ = attempt(obs, dialect, rng, site, None, "normal", dry=True)
        # every fault position of this residue class
        for k in range(1 + pick, total + 1, 6):
            make = rng.choice(FAULTS[dialect] + COMMON)
            n, fired = attempt(obs, dialect, rng, site, Faults(k, make, f"tok{rng.getrandbits(40):x}"), ending)
            if not fired:
                raise Violation(f"fault {k} of {total} was never reached")
    finally:
        pysqlsync.base.BATCH_SIZE = saved


def attempt(obs, dialect, rng, site, fault, ending, dry=False):
    m = app()
    b = sc.backend(dialect)
    fault = fault or Faults(0, None, "-")
    fault.armed = site != "statement"  # statements count from inside the session
    if site == "statement":
        b.server.fail = fault
    else:
        b.call_fault = fault
    caller = Caller("mine")
    close_error = RuntimeError("cannot close")
    if ending in ("close", "caller+close"):
        b.close_fault = close_error
    log, inside = [], []

    async def body():
        modes = probes.defaults(dialect, enum="relation", init=True)
        conn = sc.connection(dialect, modes, {m: "s1"})
        async with conn as ctx:
            inside.append(1)
            fault.armed = True
            broken = False
            for name, fn in operations(dialect, ctx, m, rng):
                before = fault.fired
                state = sc.model(conn.generator.state)
                err = None
                try:
                    await fn()
                except Exception as e:
                    err = e
                if fault.fired is not None and before is None:
                    where = f"{name}, at {fault.fired}"
                    if err is None:
                        raise Violation(f"a failure is not reported: {fault.exc!r} in {where}")
                    if not carries(err, fault.exc, fault.token):
                        raise Violation(f"error without its cause: {err!r} for {fault.exc!r} in {where}")
                    if name in ("create_objects", "drop_objects") and sc.model(conn.generator.state) != state:
                        raise Violation(f"the session believes {name} succeeded: {where}")
                    obs.see((dialect, site, name, fault.fired[0], type(fault.exc).__name__, ending), kind="faults surfaced")
                    broken = True
                elif err is not None and not broken:
                    raise Violation(f"workload fails without a fault: {name}: {err!r} {[repr(x) for x in causes(err)][1:3]}")
                log.append((name, err is None))
                if broken and ending in ("caller", "caller+close"):
                    raise caller
                if broken and ending == "uncaught":
                    raise err

    error = None
    try:
        sc.run(body())
    except Violation:
        raise
    except Exception as e:
        error = e
    fired_in_open = fault.fired is not None and not inside
    if dry:
        if error is not None:
            raise error
    elif fired_in_open:
        if error is None or not carries(error, fault.exc, fault.token):
            raise Violation(f"a failure while connecting is not reported: {fault.exc!r}, got {error!r}")
        obs.see((dialect, "open", type(fault.exc).__name__), kind="faults surfaced")
    elif ending in ("caller", "caller+close"):
        if error is not caller:
            raise Violation(f"the caller's error was replaced with {error!r} ({ending})")
        obs.count("caller's errors kept")
    elif ending == "close":
        if error is None or not carries(error, close_error, "cannot close"):
            raise Violation(f"a failure to close is not reported: {error!r}")
        obs.count("failures to close reported")
    elif ending == "uncaught":
        if error is None or not carries(error, fault.exc, fault.token):
            raise Violation(f"an error that leaves the scope was replaced: {error!r}")
        obs.count("library's errors kept")
    elif error is not None:
        raise Violation(f"{error!r} after everything was handled")
    closed(obs, b, f"{dialect} {fault.fired} {ending}")
    return fault.n, fault.fired is not None


def closed(obs, b, what):
    if not b.conns:
        raise Violation("no connection was opened")
    for c in b.conns:
        if c.closed_count != 1:
            raise Violation(f"a native connection was closed {c.closed_count} times: {what}")
        if c.used_after_close:
            raise Violation(f"a native connection was used after it was closed: {what}")
        obs.see(None, kind="connections closed once")


def scope(obs: Obs, dialect: str, seed: int):
    """Sessions that end in all kinds of ways without any driver failure."""
    rng = random.Random(f"c17s/{dialect}/{seed}")

    class Stop(BaseException):
        pass

    for how in ["normal", "Caller", "KeyError", "ValueError", "Stop", "CancelledError", "StopIteration", "empty", "return", "failing statement", "two sessions", "cancel from outside"]:
        b = backend(dialect)
        out = {}

        async def session(n=0):
            conn = get_dialect(dialect).create_connection(ConnectionParameters(host="h", port=1, username="u", password="p", database="d"))
            async with conn as ctx:
                if how == "empty":
                    return
                if rng.random() < 0.5:
                    b.server.canned["SELECT 41"] = (["x"], [(41,)])
                    assert await ctx.query_one(int, "SELECT 41") == 41
                if how == "return":
                    return 7
                if how == "two sessions" and n == 0:
                    await session(1)
                if how == "cancel from outside":
                    await asyncio.sleep(30)
                e = {"Caller": Caller("x"), "KeyError": KeyError("x"), "ValueError": ValueError("x"), "Stop": Stop("x"), "CancelledError": asyncio.CancelledError("x"), "StopIteration": RuntimeError("x")}.get(how)
                if e is not None:
                    out["e"] = e
                    raise e
                if how == "failing statement":
                    b.call_fault = lambda *_: RuntimeError("bad")
                    try:
                        await ctx.execute("THIS FAILS;")
                    except Exception as e:
                        out["e"] = e
                        raise
                    raise Violation("a failing statement is not reported")

        async def body():
            if how == "cancel from outside":
                task = asyncio.ensure_future(session())
                await asyncio.sleep(0.02 if dialect in ("postgresql", "mysql") else 0.05)
                task.cancel()
                try:
                    await task
                except asyncio.CancelledError:
                    out["cancelled"] = True
                return
            await session()

        got = None
        try:
            sc.run(body())
        except Violation:
            raise
        except BaseException as e:
            got = e
        if how == "cancel from outside":
            if not out.get("cancelled"):
                raise Violation("a cancelled session did not end with the cancellation")
        elif got is not out.get("e") and not (how == "CancelledError" and isinstance(got, asyncio.CancelledError)):
            raise Violation(f"{how}: {got!r} left the scope instead of {out.get('e')!r}")
        closed(obs, b, how)
        obs.see((dialect, "scope", how), kind="scopes ended")


def backend(dialect):
    if dialect == "redshift":
        redshift.install()
        b = drivers.Backend("postgresql")
        drivers.route("redshift", b)
        return b
    return sc.backend(dialect)


def red(obs: Obs, seed: int):
    """The Redshift session over canned answers."""
    rng = random.Random(f"c17r/{seed}")
    m = app()
    for at in range(1, 9):
        for ending in ("normal", "caller", "caller+close", "close", "uncaught"):
            b = backend("redshift")
            fault = Faults(at, rng.choice(COMMON), f"tok{rng.getrandbits(40):x}")
            b.call_fault = fault
            caller = Caller("mine")
            if ending in ("close", "caller+close"):
                b.close_fault = RuntimeError("cannot close")
            b.server.canned["SELECT 1"] = (["x"], [(1,)])

            async def body():
                conn = get_dialect("redshift").create_connection(ConnectionParameters(host="h", username="u"), pysqlsync.base.GeneratorOptions(namespaces={m: "s1"}))
                conn.generator.create(tables=[m.Item])
                async with conn as ctx:
                    hit = False
                    for name, fn in [
                        ("execute", lambda: ctx.execute("CREATE TABLE a (x int);\nCREATE TABLE b (x int);\nCREATE TABLE c (x int);\n")),
                        ("execute_all", lambda: ctx.execute_all("INSERT INTO a VALUES (:1)", [(1,), (2,)])),
                        ("query_all", lambda: ctx.query_all(int, "SELECT 1")),
                        ("query_one", lambda: ctx.query_one(int, "SELECT 1")),
                        ("insert_data", lambda: ctx.insert_data(m.Item, [m.Item(1, 2, "x")])),
                        ("execute/1", lambda: ctx.execute("DROP TABLE a;")),
                    ]:
                        err, before = None, fault.fired
                        try:
                            await fn()
                        except Exception as e:
                            err = e
                        if fault.fired and not before:
                            hit = True
                            if err is None:
                                raise Violation(f"a failure is not reported: {fault.exc!r} in {name}")
                            if not carries(err, fault.exc, fault.token):
                                raise Violation(f"error without its cause: {err!r} for {fault.exc!r} in {name}")
                            obs.see(("redshift", name, type(fault.exc).__name__, ending), kind="faults surfaced")
                            if ending in ("caller", "caller+close"):
                                raise caller
                            if ending == "uncaught":
                                raise err
                        elif err is not None:
                            raise Violation(f"workload fails without a fault: {name}: {err!r}")
                    return hit

            error = None
            try:
                sc.run(body())
            except Violation:
                raise
            except Exception as e:
                error = e
            if fault.fired:
                if ending in ("caller", "caller+close") and error is not caller:
                    raise Violation(f"the caller's error was replaced with {error!r}")
                if ending == "uncaught" and not carries(error, fault.exc, fault.token):
                    raise Violation(f"an error that leaves the scope was replaced: {error!r}")
                if ending == "normal" and error is not None:
                    raise Violation(f"{error!r} after everything was handled")
                if ending == "close" and error is None:
                    raise Violation("a failure to close is not reported")
            closed(obs, b, f"redshift {ending}")


# --- synchronization --------------------------------------------------------------------------------------------------


def sync(obs: Obs, dialect: str, seed: int, site: str):
    """A synchronization fails somewhere; the session does not take the target for the present schema."""
    rng = random.Random(f"c17y/{dialect}/{seed}/{site}")
    while True:
        modes = sc.random_modes(rng, dialect, foreign=1.0)
        if modes.enum != "check":
            break
    feats = sc.stable_features(dialect, max_tables=3, max_modules=2)
    world = sg.gen_world(rng, dialect, modes, feats)
    first = rng.random() < 0.25
    target, edits = (world, [("create", "")]) if first else evolve.evolve(rng, world, dialect, modes, feats)

    async def prepared():
        b = sc.backend(dialect)
        if not first:
            with sg.Rendered(world) as R:
                conn = sc.connection(dialect, modes, R.namespaces())
                async with conn as ctx:
                    await sc.create(conn, ctx, R)
        return b

    async def one(k, make):
        b = await prepared()
        if sc.failed(b.server.events):
            raise Skip("creation fails (C01)")
        original = b.server.describe()
        fault = Faults(k, make, f"tok{rng.getrandbits(40):x}")
        fault.armed = False
        result = {}
        with sg.Rendered(target) as R:
            conn = sc.connection(dialect, modes, R.namespaces())
            wanted = sc.connection(dialect, modes, R.namespaces()).generator
            wanted.create(tables=R.entity_types())
            want = sc.model(wanted.state)
            n0 = len(b.server.events)
            initial = sc.model(conn.generator.state)
            async with conn as ctx:
                if site == "statement":
                    b.server.fail = fault
                else:
                    b.call_fault = fault
                fault.armed = True
                explorer = get_dialect(dialect).create_explorer(ctx)
                err = None
                try:
                    await explorer.synchronize(modules=R.modules)
                except FormationError:
                    if fault.fired:
                        raise Violation("a failure is reported as a refused change")
                    raise Skip("refused")
                except Exception as e:
                    err = e
                fault.armed = False
                if fault.fired is None:
                    if err is not None:
                        raise Skip(f"synchronization fails (C03): {err}")
                    return fault.n, False
                ran = sc.mutating(b.server.events[n0:])
                where = f"synchronize, at {fault.fired}; edits {[e for e, _ in edits]}"
                if err is None:
                    raise Violation(f"a failure is not reported: {fault.exc!r} in {where}")
                if not carries(err, fault.exc, fault.token):
                    raise Violation(f"error without its cause: {err!r} for {fault.exc!r} in {where}")
                now = b.server.describe()
                held = sc.model(conn.generator.state)
                there = not sg.compare_catalogue(target, dialect, modes, b.server)
                if held == want and held != initial and not there and any(kind != "docs" for kind, _ in edits):
                    b.call_fault = b.server.fail = None
                    other = sc.connection(dialect, modes, R.namespaces())
                    async with other as ctx2:
                        await get_dialect(dialect).create_explorer(ctx2).discover(modules=R.modules)
                    truth = sc.model(other.generator.state)
                    # a part of the database that has been read, and is as it should be, is all right
                    if any(truth.get(ns) != held[ns] for ns in held):
                        raise Violation(f"the session believes that the target schema is in place: {where}")
                if dialect == "postgresql" and now != original:
                    raise Violation(f"a failed migration left changes behind: {where}")
                obs.see((dialect, site, "synchronize", fault.fired[0], len(ran) > 0, type(fault.exc).__name__), kind="faults surfaced")
                obs.count("beliefs checked")
                # trying again in the same session does the work, or says that it cannot
                try:
                    await explorer.synchronize(modules=R.modules)
                except Exception as e:
                    if now == original:
                        raise Violation(f"trying again fails though nothing had changed: {e!r} {causes(e)[1:2]}; {where}")
                    obs.count("second attempts that failed")
                else:
                    diff = sg.compare_catalogue(target, dialect, modes, b.server)
                    if diff and now == original:
                        raise Violation(f"trying again reports success, yet: {diff[:2]}; {where}")
                    obs.count("second attempts that " + ("differ" if diff else "succeeded"))
            closed(obs, b, where)
        return fault.n, True

    async def body():
        n, _ = await one(0, None)
        ks = list(range(1, n + 1))
        rng.shuffle(ks)
        for k in ks[:6]:
            await one(k, rng.choice(FAULTS[dialect] + COMMON))
        obs.sample(f"{dialect}: {n} {site} events, edits {[e for e, _ in edits]}")

    sc.run(body())


def rejected(obs: Obs, dialect: str, seed: int):
    """Statements that the server itself rejects, alone and in the middle of scripts and batches."""
    rng = random.Random(f"c17e/{dialect}/{seed}")
    m = app()
    saved, pysqlsync.base.BATCH_SIZE = pysqlsync.base.BATCH_SIZE, 4
    b = sc.backend(dialect)

    async def body():
        conn = sc.connection(dialect, probes.defaults(dialect, enum="relation", init=True), {m: "s1"})
        async with conn as ctx:
            await ctx.create_objects([m.Item, m.Tagged])
            t = ctx.get_table(m.Item)
            c = {k: v.name for k, v in t.columns.items()}
            fields = dict(field_types=(int, int, str), field_names=("id", "num", "title"))
            rows = [(i, i, f"r{i}") for i in range(10)]
            await ctx.insert_rows(t, rows, **fields)
            good = [f"UPDATE {t.name} SET {c['num']} = 5 WHERE {c['id']} = 1", f"INSERT INTO {t.name} ({c['id']}, {c['num']}) VALUES (77, 1)", f"DELETE FROM {t.name} WHERE {c['id']} = 77"]
            bad = {
                "no such table": "DELETE FROM nonesuch",
                "no such column": f"UPDATE {t.name} SET nonesuch = 1",
                "null": f"INSERT INTO {t.name} ({c['id']}) VALUES (99)",
                "duplicate": f"INSERT INTO {t.name} ({c['id']}, {c['num']}) VALUES (3, 1)",
                "not sql": "THIS IS NOT SQL",
            }
            for name, stmt in bad.items():
                scripts = [[stmt], [good[0], stmt], [good[0], good[1], good[2], stmt], [stmt, good[0]]]
                for script in scripts:
                    n = len(b.server.events)
                    try:
                        await ctx.execute(";\n".join(script) + ";")
                    except Exception as e:
                        bad_events = [x for x in b.server.events[n:] if not x.ok]
                        if not bad_events:
                            raise Violation(f"an error without a rejected statement: {e!r}")
                        if len(causes(e)) < 2:
                            raise Violation(f"an error without cause: {e!r}")
                        obs.see((dialect, "script", name, len(script), script.index(stmt)), kind="rejections reported")
                    else:
                        raise Violation(f"a rejected statement ({name}) in a script is reported as success: {script}")
            for at in (0, 4, 9):
                for name, row in {"duplicate": lambda i: (5, 1, "d"), "null": lambda i: (200 + i, None, "n")}.items():
                    data = [(300 + i, i, f"n{i}") for i in range(10)]
                    data[at] = row(at)
                    for shape in ("list", "generator", "async"):
                        src = list(data) if shape == "list" else (r for r in data) if shape == "generator" else aiter_of(data)
                        try:
                            await ctx.insert_rows(t, src, **fields)
                        except Exception as e:
                            obs.see((dialect, "insert_rows", name, at, shape), kind="rejections reported")
                        else:
                            if name == "null" or dialect == "postgresql":
                                raise Violation(f"a rejected row ({name} at {at}) in a batch is reported as success")
                        await ctx.delete_rows(t, int, [300 + i for i in range(10)])
            for shape, e in [("list", None), ("generator", Caller("src"))]:
                if e is not None:

                    def src():
                        yield (400, 1, "a")
                        raise e

                    for call in (lambda: ctx.insert_rows(t, src(), **fields), lambda: ctx.upsert_rows(t, src(), **fields), lambda: ctx.execute_all(f"DELETE FROM {t.name} WHERE {c['id']} = {ctx.connection.generator.placeholder(1)}", ((r[0],) for r in src()))):
                        try:
                            await call()
                        except Exception as x:
                            if not carries(x, e, "src"):
                                raise Violation(f"the error of a data source is replaced by {x!r}")
                            obs.see((dialect, "source"), kind="rejections reported")
                        else:
                            raise Violation("an error of a data source is not reported")
            for q in ["SELECT nonesuch FROM " + str(t.name), "SELECT 1 FROM nonesuch", "NOT SQL"]:
                for call in (ctx.query_all, ctx.query_one):
                    try:
                        await call(int, q)
                    except Exception as e:
                        obs.see((dialect, call.__name__, q.split()[1][:6]), kind="rejections reported")
                    else:
                        raise Violation(f"a rejected query is reported as success: {q}")

    try:
        sc.run(body())
    finally:
        pysqlsync.base.BATCH_SIZE = saved
    closed(obs, b, "rejected")


async def aiter_of(data):
    for x in data:
        yield x


# --- probes -----------------------------------------------------------------------------------------------------------


def probe_caller(obs):
    for d in DIALECTS:
        b = sc.backend(d)
        b.close_fault = RuntimeError("cannot close")
        e = Caller("mine")

        async def body():
            async with get_dialect(d).create_connection(ConnectionParameters(**sc.PARAMS)):
                raise e

        try:
            sc.run(body())
        except BaseException as x:
            if x is not e:
                raise Violation(f"{d}: {x!r} instead of the caller's error")


def probe_open(obs):
    for d in ("mssql", "oracle"):
        b = sc.backend(d)
        b.call_fault = lambda *_: RuntimeError("gone")

        async def body():
            async with get_dialect(d).create_connection(ConnectionParameters(**sc.PARAMS)):
                pass

        try:
            sc.run(body())
        except Exception:
            pass
        closed(obs, b, d)


def probe_batch(obs):
    b = sc.backend("mssql")

    async def body():
        async with get_dialect("mssql").create_connection(ConnectionParameters(**sc.PARAMS)) as ctx:
            await ctx.execute("CREATE TABLE t (x int);\nINSERT INTO t (x) VALUES (1);")
            try:
                await ctx.execute("INSERT INTO t (x) VALUES (2);\nINSERT INTO nonesuch (x) VALUES (1);")
            except Exception:
                return
            raise Violation("the failure of a later statement of a batch is not reported")

    sc.run(body())


def probe_create(obs):
    m = app()
    for d in DIALECTS:
        b = sc.backend(d)

        async def body():
            conn = sc.connection(d, probes.defaults(d, enum="relation"), {m: "s1"})
            async with conn as ctx:
                b.server.fail = lambda *_: RuntimeError("gone")
                try:
                    await ctx.create_objects([m.Item])
                except Exception:
                    pass
                b.server.fail = None
                await ctx.create_objects([m.Item])
                if not [t for t in b.server.tables()]:
                    raise Violation(f"{d}: creating objects again after a failure reports success and creates nothing")

        sc.run(body())


def probe_capability(obs):
    m = app()
    b = sc.backend("mysql")

    async def body():
        conn = sc.connection("mysql", probes.defaults("mysql"), {m: "s1"})
        async with conn as ctx:
            await ctx.create_objects([m.Item])
            b.call_fault = lambda method, stmt: OSError("gone") if sc_brief(stmt).startswith(CAPABILITY[0]) else None
            try:
                await get_dialect("mysql").create_explorer(ctx).get_table(ctx.get_table(m.Item).name)
            except Exception:
                return
            raise Violation("reading a table reports success though a query failed, and misses its constraints")

    sc.run(body())


def main():
    c = Check(
        "C17",
        "distinct (dialect, fault site, operation, driver call or statement kind, exception type, way the session ends) whose failure was followed to the caller; (dialect, kind of rejection, position); (dialect, way a scope ends)",
        [
            "drivers are stand-ins; a fault is an exception raised by one driver call, or by the server for one statement of a script",
            "SQL Server: an error in a batch is reported by the driver only once the results before it have been consumed, as pyodbc does",
            "after a failed migration only PostgreSQL is required to be unchanged (the other servers commit each statement)",
        ],
    )
    endings = ["normal", "caller", "caller+close", "close", "uncaught"]
    for d in DIALECTS:
        for site in ("call", "statement"):
            for s in c.seeds(c.pick(1, 12), 1):
                for pick in range(6):
                    c.add(api, dialect=d, seed=s, site=site, pick=pick, ending=endings[(pick + s) % 5])
            for s in c.seeds(c.pick(30, 500), 2):
                c.add(sync, dialect=d, seed=s, site=site)
        for s in c.seeds(c.pick(3, 20), 3):
            c.add(scope, dialect=d, seed=s)
        for s in c.seeds(1, 4):
            c.add(rejected, dialect=d, seed=s)
    for s in c.seeds(c.pick(2, 20), 5):
        c.add(red, seed=s)
        c.add(scope, dialect="redshift", seed=s)
    c.probe("caller-error", probe_caller)
    c.probe("open-leak", probe_open)
    c.probe("mssql-batch", probe_batch)
    c.probe("create-state", probe_create)
    c.probe("capability", probe_capability)
    c.require(**{"faults surfaced": 1000, "connections closed once": 1000, "beliefs checked": 200, "rejections reported": 100, "scopes ended": 100, "caller's errors kept": 50})
    c.finish()


main()
