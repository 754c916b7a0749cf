"""Stand-ins for the native drivers (asyncpg, aiomysql, pyodbc, oracledb) that talk to simulated servers.

Every call a client makes is recorded, value types are checked with the strictness of the real driver, and failures,
delays and dropped connections can be injected.  The MySQL stand-in uses the real aiomysql cursor and pymysql escaping.
"""

from __future__ import annotations

import asyncio
import datetime as dt
import decimal
import ipaddress
import itertools
import re
import threading
import time
import uuid
from typing import Any, Callable, Dict, List, Optional

import aiomysql
import asyncpg
import oracledb
import pymysql
import pyodbc

from .catalogdb import is_catalog_query, query_catalog
from .lexer import SqlError, Unsupported, statement_texts, tokenize
from .server import Server
from .values import Json

_conn_no = itertools.count(1)


class Transactions:
    """A session whose changes are undone when it is closed, unless they are committed."""

    autocommit = True
    saved = None

    def begin(self):
        if not self.autocommit and self.saved is None:
            self.saved = self.backend.server.clone_state()

    def commit(self):
        self.saved = None

    def rollback(self):
        if self.saved is not None:
            self.backend.server.restore_state(self.saved)
            self.saved = None

    def end(self):
        """The session is closed without a commit."""
        if self.saved is not None:
            s = self.backend.server
            rows = {t.uid: t.rows for t in s.tables()}
            self.rollback()
            if rows != {t.uid: t.rows for t in s.tables()}:
                s.lost += 1

    def implicit(self, since):
        """Statements that define objects commit the transaction in MySQL and Oracle."""
        if self.saved is not None and any(e.kind not in _ROWS for e in self.backend.server.events[since:]):
            self.saved = None


_ROWS = ("insert", "merge", "update", "delete", "select", "set", "unparsed")


class Backend:
    """One database server plus everything observed at the driver boundary."""

    def __init__(self, dialect: str, server: Optional[Server] = None, **kw):
        self.dialect = dialect
        self.server = server or Server(dialect, **kw)
        self.connects: List[dict] = []
        self.conns: List[Any] = []
        self.calls: List[tuple] = []  # (conn no, method, statement, detail)
        self.connect_fault: Optional[Callable[[dict, int], Optional[Exception]]] = None
        self.call_fault: Optional[Callable[[str, str], Optional[Exception]]] = None
        self.close_fault: Optional[Exception] = None
        self.block: Optional[Callable[[str, str], None]] = None  # blocking drivers: called inside the call, on its thread
        self.yields = True
        self.lock = threading.RLock()
        if dialect == "postgresql":
            self.server.encode = lambda ty, v: pg_encode(self.server, ty, v)

    def open(self, conn, kwargs):
        self.connects.append(kwargs)
        if self.connect_fault:
            exc = self.connect_fault(kwargs, len(self.connects))
            if exc is not None:
                raise exc
        conn.no = next(_conn_no)
        conn.backend = self
        conn.closed_count = 0
        conn.used_after_close = 0
        self.conns.append(conn)
        return conn

    def call(self, conn, method, stmt, detail=None):
        self.calls.append((conn.no, method, stmt, detail))
        if conn.closed_count:
            conn.used_after_close += 1
        self.server.session = f"c{conn.no}"
        if self.call_fault:
            exc = self.call_fault(method, stmt)
            if exc is not None:
                raise exc

    def query(self, sql: str):
        """A statement that may return rows: (columns, rows) or a count."""
        s = self.server
        if sql in s.canned:
            r = s.canned[sql]
            return r() if callable(r) else r
        if is_catalog_query(s, sql):
            ev = s.log("catalog", sql)
            ev.ok = True
            if s.fail is not None:
                exc = s.fail("catalog", sql)
                if exc is not None:
                    ev.ok, ev.error = False, f"injected {exc!r}"
                    raise exc
            return query_catalog(s, sql)
        return s.run_script(sql)


ROUTES: Dict[str, Callable[[dict], Backend]] = {}


def route(dialect: str, backend) -> None:
    ROUTES[dialect] = backend if callable(backend) and not isinstance(backend, Backend) else (lambda kw, b=backend: b)


# ------------------------------------------------------------------------------------------------------- PostgreSQL
_PG_ERR = {
    "unique_violation": asyncpg.exceptions.UniqueViolationError, "foreign_key_violation": asyncpg.exceptions.ForeignKeyViolationError,
    "not_null_violation": asyncpg.exceptions.NotNullViolationError, "check_violation": asyncpg.exceptions.CheckViolationError,
    "syntax": asyncpg.exceptions.PostgresSyntaxError, "undefined_table": asyncpg.exceptions.UndefinedTableError,
    "undefined_column": asyncpg.exceptions.UndefinedColumnError,
}


def pg_error(e: SqlError) -> Exception:
    return _PG_ERR.get(e.code, asyncpg.exceptions.PostgresError)(f"{e.code}: {e}")


def _bad(v, what):
    return asyncpg.exceptions.DataError(f"invalid input for query argument: {v!r} ({what})")


_PG_INT = {"smallint": 2**15, "integer": 2**31, "bigint": 2**63}


def pg_encode(server, ty, v):
    """What asyncpg's binary codecs accept for a parameter of a server type."""
    if v is None:
        return None
    n = ty[0]
    if n in _PG_INT:
        if type(v) is bool or not hasattr(v, "__index__"):
            if type(v) is bool:
                raise _bad(v, "an integer is required (got type bool)")
            raise _bad(v, f"an integer is required (got type {type(v).__name__})")
        i = v.__index__()
        if not -_PG_INT[n] <= i < _PG_INT[n]:
            raise _bad(v, f"value out of {n} range")
        return i
    if n == "boolean":
        if not isinstance(v, bool):
            raise _bad(v, "a boolean is required")
        return v
    if n in ("real", "double precision"):
        try:
            f = float(v) if not isinstance(v, str) else None
        except (TypeError, ValueError):
            f = None
        if f is None:
            raise _bad(v, "must be real number")
        return f
    if n == "numeric":
        if isinstance(v, decimal.Decimal):
            return v
        try:
            return decimal.Decimal(v) if not isinstance(v, float) else decimal.Decimal(repr(v))
        except Exception:
            raise _bad(v, "decimal")
    if n in ("text", "varchar", "char", "json", "jsonb"):
        if not isinstance(v, str):
            raise _bad(v, f"expected str, got {type(v).__name__}")
        if "\0" in v:
            raise asyncpg.exceptions.CharacterNotInRepertoireError("invalid byte sequence for encoding \"UTF8\": 0x00")
        return str(v)
    if n in ("timestamp", "timestamptz"):
        if not isinstance(v, dt.date):
            raise _bad(v, "expected a datetime.date or datetime.datetime instance")
        if isinstance(v, dt.datetime):
            if n == "timestamp" and v.tzinfo is not None:
                raise _bad(v, "can't subtract offset-naive and offset-aware datetimes")
            return v
        return dt.datetime.combine(v, dt.time())
    if n == "date":
        if isinstance(v, dt.datetime):
            return v.date()
        if not isinstance(v, dt.date):
            raise _bad(v, "expected a datetime.date")
        return v
    if n == "time":
        if not isinstance(v, dt.time):
            raise _bad(v, "expected a datetime.time instance")
        return v.replace(tzinfo=None)
    if n == "uuid":
        if isinstance(v, uuid.UUID):
            return v
        if isinstance(v, str):
            try:
                return uuid.UUID(v)
            except ValueError:
                pass
        raise _bad(v, "invalid UUID")
    if n == "inet":
        try:
            return ipaddress.ip_interface(v) if not isinstance(v, (ipaddress.IPv4Address, ipaddress.IPv6Address)) else v
        except ValueError:
            raise _bad(v, "invalid inet")
    if n == "bytea":
        try:
            return bytes(memoryview(v))
        except TypeError:
            raise _bad(v, "a bytes-like object is required")
    if n == "array":
        if isinstance(v, (str, bytes, dict)) or not hasattr(v, "__len__") or not hasattr(v, "__iter__"):
            raise _bad(v, "a sized iterable container expected")
        return [pg_encode(server, ty[1], x) for x in v]
    if n == "user":
        t = server.types[ty[1]]
        if t.kind == "enum":
            if not isinstance(v, str) or type(v).__mro__[0] is not str and not isinstance(v, str):
                raise _bad(v, f"expected str, got {type(v).__name__}")
            return str.__str__(v)
        if isinstance(v, dict):
            extra = set(v) - {m[0] for m in t.members}
            if extra:
                raise _bad(v, f"missing composite attribute {extra}")
            return tuple(pg_encode(server, m[1], v.get(m[0])) for m in t.members)
        if isinstance(v, (tuple, list)):
            if len(v) != len(t.members):
                raise _bad(v, "unexpected number of attributes of composite type")
            return tuple(pg_encode(server, m[1], x) for m, x in zip(t.members, v))
        raise _bad(v, "cannot encode as a composite")
    raise Unsupported(f"codec for {ty}")


class PgRecord(tuple):
    """Behaves like asyncpg.Record: a sequence of values that is also a mapping by column name."""

    def __new__(cls, names, values):
        self = tuple.__new__(cls, values)
        self._names = names
        return self

    def __getitem__(self, k):
        if isinstance(k, str):
            # a duplicated name maps to its last occurrence
            for i in range(len(self._names) - 1, -1, -1):
                if self._names[i] == k:
                    return tuple.__getitem__(self, i)
            raise KeyError(k)
        return tuple.__getitem__(self, k)

    def keys(self):
        return iter(self._names)

    def values(self):
        return tuple.__iter__(self)

    def items(self):
        return ((n, self[n]) for n in self._names)

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default


class PgRecordReal(list):
    """Not a tuple: asyncpg.Record is a separate sequence type."""

    __slots__ = ("_names",)

    def __init__(self, names, values):
        list.__init__(self, values)
        self._names = list(names)

    def __getitem__(self, k):
        if isinstance(k, str):
            for i in range(len(self._names) - 1, -1, -1):
                if self._names[i] == k:
                    return list.__getitem__(self, i)
            raise KeyError(k)
        return list.__getitem__(self, k)

    def keys(self):
        return iter(self._names)

    def values(self):
        return list.__iter__(self)

    def items(self):
        return iter([(n, self[n]) for n in self._names])


class FakePg:
    def __init__(self):
        self.no = 0

    async def _pre(self, method, sql, detail=None):
        self.backend.call(self, method, sql, detail)
        if self.closed_count:
            raise asyncpg.exceptions.InterfaceError("connection is closed")
        if self.backend.yields:
            await asyncio.sleep(0)

    def get_server_version(self):
        return asyncpg.types.ServerVersion(16, 2, 0, "final", 0)

    async def execute(self, sql, *args, timeout=None):
        await self._pre("execute", sql)
        try:
            if args:
                self.backend.server.run_script(sql, list(args))
            else:
                self.backend.query(sql)
        except SqlError as e:
            raise pg_error(e) from None
        return "OK"

    async def fetch(self, sql, *args, timeout=None, record_class=None):
        await self._pre("fetch", sql)
        try:
            r = self.backend.query(sql)
        except SqlError as e:
            raise pg_error(e) from None
        if not isinstance(r, tuple):
            return []
        names, rows = r
        return [PgRecordReal(names, [pg_out(v) for v in row]) for row in rows]

    async def executemany(self, sql, args, *, timeout=None):
        await self._pre("executemany", sql)
        s = self.backend.server
        undo: list = []
        rows = []
        try:
            stmts = s.parse(sql)
            if len(stmts) != 1:
                raise SqlError("syntax", "cannot insert multiple commands into a prepared statement")
            ast, text = stmts[0]
            nparam = max((t.val for t in tokenize(sql, "postgresql") if t.kind == "param"), default=0)
            s.undo = undo
            n = 0
            for a in args:
                a = list(a)
                if len(a) != nparam:
                    raise asyncpg.exceptions.InterfaceError(f"the server expects {nparam} arguments for this query, {len(a)} were passed")
                rows.append(a)
                s.run_one(ast, text, a)
                n += 1
        except SqlError as e:
            s.rollback_rows(undo)
            raise pg_error(e) from None
        except BaseException:
            s.rollback_rows(undo)
            raise
        finally:
            s.undo = None

    async def copy_records_to_table(self, table_name, *, records, columns=None, schema_name=None, timeout=None, where=None):
        await self._pre("copy", f"COPY {schema_name}.{table_name}", columns)
        s: Server = self.backend.server
        ev = s.log("copy", f"COPY {schema_name}.{table_name} {columns}")
        undo: list = []
        try:
            if s.fail is not None:
                exc = s.fail("copy", ev.text)
                if exc is not None:
                    raise exc
            t = s.find_table((schema_name, table_name))
            ev.targets.append(("table", t.schema, t.name))
            if columns:
                for c in columns:
                    if not isinstance(c, str):
                        raise TypeError("column names must be strings")
            cols = [s.need_col(t, c) for c in columns] if columns else list(t.cols)
            if len({c.uid for c in cols}) != len(cols):
                raise SqlError("duplicate_column", "column specified more than once")
            s.undo = undo
            count = 0

            def put(r):
                nonlocal count
                r = list(r)
                if len(r) != len(cols):
                    # asyncpg writes as many fields as the record has; the server rejects a wrong count
                    raise SqlError("bad_copy", f"row field count is {len(r)}, expected {len(cols)}")
                row = {}
                for c, v in zip(cols, r):
                    row[c.uid] = s.ts.store(c.type, pg_encode(s, c.type, v), "value")
                s.fill_defaults(t, row)
                s.do_insert(t, row)
                count += 1

            if hasattr(records, "__aiter__"):
                async for r in records:
                    put(r)
            else:
                for r in records:
                    put(r)
            ev.ok, ev.count = True, count
            return f"COPY {count}"
        except SqlError as e:
            ev.error = str(e)
            s.rollback_rows(undo)
            raise pg_error(e) from None
        except BaseException as e:
            ev.error = repr(e)
            s.rollback_rows(undo)
            raise
        finally:
            s.undo = None

    async def close(self, *, timeout=None):
        self.backend.calls.append((self.no, "close", "", None))
        self.closed_count += 1
        if self.backend.close_fault:
            raise self.backend.close_fault

    def terminate(self):
        self.closed_count += 1

    def is_closed(self):
        return self.closed_count > 0


def pg_out(v):
    if isinstance(v, Json):
        return v.text
    return v


async def fake_asyncpg_connect(dsn=None, **kw):
    b = ROUTES["postgresql"](kw)
    await asyncio.sleep(0)
    return b.open(FakePg(), kw)


# ------------------------------------------------------------------------------------------------------------ MySQL
class MyResult:
    def __init__(self, rows=None, names=None, affected=0, has_next=False):
        self.rows = rows
        self.description = tuple((n, 253, None, None, None, None, True) for n in names) if names is not None else None
        self.fields = [_Field(n) for n in names] if names is not None else []
        self.affected_rows = affected if rows is None else len(rows)
        self.insert_id = 0
        self.has_next = has_next
        self.warning_count = 0
        self.unbuffered_active = False
        self.server_status = 2
        self.message = b""
        self.field_count = len(self.fields)


class _Field:
    def __init__(self, name):
        self.name = name
        self.table_name = ""


def my_out(v):
    if isinstance(v, Json):
        return v.text
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, dt.time):
        return dt.timedelta(hours=v.hour, minutes=v.minute, seconds=v.second, microseconds=v.microsecond)
    return v


_MY_ERR = {
    "unique_violation": (pymysql.err.IntegrityError, 1062), "foreign_key_violation": (pymysql.err.IntegrityError, 1452),
    "not_null_violation": (pymysql.err.IntegrityError, 1048), "syntax": (pymysql.err.ProgrammingError, 1064),
    "undefined_table": (pymysql.err.ProgrammingError, 1146), "undefined_column": (pymysql.err.OperationalError, 1054),
}


def my_error(e: SqlError) -> Exception:
    cls, no = _MY_ERR.get(e.code, (pymysql.err.OperationalError, 1105))
    return cls(no, f"{e.code}: {e}")


class FakeMySQL(aiomysql.Connection):
    def __init__(self):  # no network
        self._loop = asyncio.get_running_loop()
        self._charset = "utf8mb4"
        self._encoding = "utf8"
        self._echo = False
        self.cursorclass = aiomysql.cursors.Cursor
        self.server_status = 2
        self.server_capabilities = pymysql.constants.CLIENT.SSL | pymysql.constants.CLIENT.CAPABILITIES
        self._last_usage = 0
        self._result = None
        self._queue: list = []
        self.tx = Transactions()
        self._writer = object()
        self._reader = object()
        self._close_reason = None

    def __del__(self):
        pass

    @property
    def encoding(self):
        return self._encoding

    def _ensure_alive(self):
        if self._writer is None:
            raise pymysql.err.InterfaceError(0, "Not connected")

    async def ping(self, reconnect=True):
        return

    def escape(self, obj):
        # aiomysql 0.3.2 renders bytes with a function that the installed version of PyMySQL has removed
        if isinstance(obj, (bytes, bytearray)):
            return f"X'{bytes(obj).hex()}'"
        return super().escape(obj)

    async def query(self, sql, unbuffered=False):
        if isinstance(sql, (bytes, bytearray)):
            sql = bytes(sql).decode("utf-8", "surrogateescape")
        b: Backend = self.backend
        b.call(self, "query", sql)
        self._ensure_alive()
        if b.yields:
            await asyncio.sleep(0)
        self._queue = []
        self._result = None
        s = b.server
        # the server runs the statements of a packet one after another and stops at the first error
        try:
            if sql in s.canned or is_catalog_query(s, sql):
                parts = [sql]
            else:
                parts = statement_texts(sql, "mysql", s.sql_mode)
        except SqlError as e:
            ev = s.log("unparsed", sql)
            ev.error = str(e)
            raise my_error(e) from None
        if not parts:
            raise pymysql.err.InternalError(1065, "Query was empty")
        for p in parts:
            self.tx.backend = b
            self.tx.begin()
            n = len(s.events)
            try:
                self._queue.append(("ok", b.query(p)))
                self.tx.implicit(n)
            except SqlError as e:
                self._queue.append(("err", my_error(e)))
                break
            except Unsupported:
                raise
            except Exception as e:
                self._queue.append(("err", e))
                break
        await self._advance()

    async def _advance(self):
        kind, r = self._queue.pop(0)
        if kind == "err":
            self._result = None
            raise r
        if isinstance(r, tuple):
            names, rows = r
            self._result = MyResult([tuple(my_out(v) for v in row) for row in rows], names, has_next=bool(self._queue))
        else:
            self._result = MyResult(None, None, r or 0, has_next=bool(self._queue))

    async def next_result(self):
        await self._advance()

    async def begin(self):
        self.tx.backend = self.backend
        self.tx.commit()
        if self.tx.autocommit:
            self.tx.saved = self.backend.server.clone_state()

    async def commit(self):
        self.tx.commit()

    async def rollback(self):
        self.tx.rollback()

    async def autocommit(self, value):
        self.tx.autocommit = bool(value)
        self.tx.commit()

    async def show_warnings(self):
        return []

    def close(self):
        self.backend.calls.append((self.no, "close", "", None))
        self.closed_count += 1
        self._writer = None
        self.tx.end()
        if self.backend.close_fault:
            raise self.backend.close_fault

    async def ensure_closed(self):
        self.close()

    @property
    def closed(self):
        return self._writer is None


async def fake_aiomysql_connect(**kw):
    b = ROUTES["mysql"](kw)
    await asyncio.sleep(0)
    conn = b.open(FakeMySQL(), kw)
    conn.tx.autocommit = kw.get("autocommit", False) is not False  # None leaves the default of the server
    mode = kw.get("sql_mode")
    if mode is not None:
        # the driver sends: SET sql_mode=<text>
        if not (mode.startswith("'") and mode.endswith("'")):
            raise pymysql.err.ProgrammingError(1064, "sql_mode must be quoted")
        b.server.sql_mode = mode[1:-1]
    else:
        b.server.sql_mode = "ONLY_FULL_GROUP_BY,STRICT_TRANS_TABLES"
    return conn


# ------------------------------------------------------------------------------------------------------- SQL Server
_MS_TYPES = (bool, int, float, decimal.Decimal, str, bytes, bytearray, dt.datetime, dt.date, dt.time, uuid.UUID)


def ms_error(e: SqlError) -> Exception:
    if e.code.endswith("violation"):
        return pyodbc.IntegrityError("23000", f"{e.code}: {e}")
    if e.code in ("syntax", "undefined_table", "undefined_column"):
        return pyodbc.ProgrammingError("42000", f"{e.code}: {e}")
    return pyodbc.Error("HY000", f"{e.code}: {e}")


class MsRow:
    """Like pyodbc.Row: positional, and attributes by column name."""

    def __init__(self, names, values):
        self._v = tuple(values)
        self.cursor_description = names
        for n, v in zip(names, values):
            try:
                object.__setattr__(self, n, v)
            except Exception:
                pass

    def __getitem__(self, i):
        return self._v[i]

    def __iter__(self):
        return iter(self._v)

    def __len__(self):
        return len(self._v)

    def __repr__(self):
        return repr(self._v)

    def __eq__(self, o):
        return tuple(self) == tuple(o)


def ms_out(v):
    if isinstance(v, Json):
        return v.text
    return v


class MsCursor:
    def __init__(self, conn):
        self.conn = conn
        self.pending: list = []
        self.fast_executemany = False
        self.sizes = None
        self.rows = None
        self.names: list = []
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None and not self.conn.autocommit:
            self.conn.commit()

    def close(self):
        self.closed = True

    def setinputsizes(self, sizes):
        self.sizes = list(sizes) if sizes is not None else None

    def _run(self, fn):
        with self.conn.backend.lock:
            self.conn.begin()
            try:
                return fn()
            except SqlError as e:
                raise ms_error(e) from None

    def execute(self, sql, *params):
        b = self.conn.backend
        if b.block:
            b.block("execute", sql)
        with b.lock:
            b.call(self.conn, "execute", sql)
        if self.conn.closed_count:
            raise pyodbc.ProgrammingError("Attempt to use a closed connection.")
        if sql == "SELECT @@VERSION":
            self.names, self.rows = [""], [("Microsoft SQL Server 2022",)]
            return self
        s = b.server
        if sql in s.canned or is_catalog_query(s, sql):
            self._show(self._run(lambda: b.query(sql)))
        else:
            self.pending = self._run(lambda: self._batch(sql))
            self.nextset()
        return self

    def _batch(self, sql):
        """Results of a batch: an error is reported at once only if no row count or result set comes before it."""
        s = self.conn.backend.server
        results = []
        try:
            try:
                stmts = s.parse(sql)
            except SqlError as e:
                s.log("unparsed", sql).error = str(e)
                raise
            for ast, text in stmts:
                r = s.run_one(ast, text)
                if ast.k in ("insert", "merge", "update", "delete", "select"):
                    results.append(r)
        except Exception as e:
            if not results:
                raise
            results.append(e)
        finally:
            for t in s.types.values():
                t.fresh = set()
        return results

    def _show(self, r):
        if isinstance(r, tuple):
            self.names, self.rows = r
        else:
            self.names, self.rows = [], None

    def nextset(self):
        if not self.pending:
            self.names, self.rows = [], None
            return False
        r = self.pending.pop(0)
        if isinstance(r, Exception):
            raise ms_error(r) if isinstance(r, SqlError) else r
        self._show(r)
        return True

    def fetchall(self):
        if self.rows is None:
            raise pyodbc.ProgrammingError("No results.  Previous SQL was not a query.")
        rows, self.rows = self.rows, []
        return [MsRow(self.names, [ms_out(v) for v in r]) for r in rows]

    def fetchone(self):
        if not self.rows:
            return None
        return MsRow(self.names, [ms_out(v) for v in self.rows.pop(0)])

    def executemany(self, sql, params):
        b = self.conn.backend
        if b.block:
            b.block("executemany", sql)
        with b.lock:
            b.call(self.conn, "executemany", sql)
        if self.conn.closed_count:
            raise pyodbc.ProgrammingError("Attempt to use a closed connection.")
        if not hasattr(params, "__iter__") or isinstance(params, (str, bytes, dict)):
            raise TypeError("The second parameter to executemany must be a sequence, iterator, or generator.")
        rows = [list(p) for p in params]
        if not rows:
            raise TypeError("The second parameter to executemany must not be empty.")

        def go():
            s = b.server
            stmts = s.parse(sql)
            nparam = count_qmarks(sql)
            undo: list = []
            try:
                s.undo = undo
                for r in rows:
                    if len(r) != nparam:
                        raise pyodbc.ProgrammingError("HY000", f"The SQL contains {nparam} parameter markers, but {len(r)} parameters were supplied")
                    if self.sizes is not None and len(self.sizes) > nparam:
                        pass
                    for i, v in enumerate(r):
                        if v is not None and not isinstance(v, _MS_TYPES):
                            raise pyodbc.ProgrammingError("HY105", f"Invalid parameter type.  param-index={i} param-type={type(v).__name__}")
                        if v is not None and self.sizes is not None and i < len(self.sizes):
                            ms_bind(v, self.sizes[i])
                    for ast, text in stmts:
                        s.run_one(ast, text, r)
            except BaseException:
                s.rollback_rows(undo)
                raise
            finally:
                s.undo = None

        self._run(go)


def ms_bind(v, size):
    """Implicit conversions an ODBC driver performs from the C type of the value to the declared SQL type."""
    t = size[0] if isinstance(size, (tuple, list)) else size
    kinds = {
        pyodbc.SQL_BIT: (bool, int), pyodbc.SQL_TINYINT: (bool, int), pyodbc.SQL_SMALLINT: (bool, int), pyodbc.SQL_INTEGER: (bool, int),
        pyodbc.SQL_BIGINT: (bool, int), pyodbc.SQL_REAL: (float, int), pyodbc.SQL_DOUBLE: (float, int), pyodbc.SQL_FLOAT: (float, int),
        pyodbc.SQL_DECIMAL: (decimal.Decimal, int, float), pyodbc.SQL_TYPE_TIMESTAMP: (dt.datetime, dt.date, str),
        pyodbc.SQL_TYPE_DATE: (dt.date, str), pyodbc.SQL_TYPE_TIME: (dt.time, str), pyodbc.SQL_CHAR: (str,), pyodbc.SQL_VARCHAR: (str,),
        pyodbc.SQL_BINARY: (bytes, bytearray, uuid.UUID), pyodbc.SQL_VARBINARY: (bytes, bytearray),
    }.get(t)
    if kinds is not None and not isinstance(v, kinds):
        raise pyodbc.ProgrammingError("HY105", f"Converting {type(v).__name__} to ODBC type {t} is not supported")
    low = {pyodbc.SQL_TINYINT: (0, 255), pyodbc.SQL_SMALLINT: (-(2**15), 2**15 - 1), pyodbc.SQL_INTEGER: (-(2**31), 2**31 - 1), pyodbc.SQL_BIGINT: (-(2**63), 2**63 - 1)}.get(t)
    if low is not None and not low[0] <= v <= low[1]:
        raise pyodbc.DataError("22003", f"Numeric value out of range: {v} for ODBC type {t}")
    if t == pyodbc.SQL_DECIMAL and isinstance(v, (int, decimal.Decimal)) and isinstance(size, (tuple, list)) and len(size) > 2:
        d = decimal.Decimal(v)
        if d.is_finite() and d != round(d, size[2]):
            raise pyodbc.ProgrammingError("HY000", f"Converting decimal loses precision: {v} for {size[1]}, {size[2]}")
        if d.is_finite() and d and d.adjusted() + 1 > size[1] - size[2]:
            raise pyodbc.DataError("22003", f"Numeric value out of range: {v} for {size[1]}, {size[2]}")
    if t in (pyodbc.SQL_CHAR, pyodbc.SQL_VARCHAR) and isinstance(size, (tuple, list)) and size[1] and len(v) > size[1]:
        raise pyodbc.ProgrammingError("22001", f"String data, right truncation: length {len(v)} buffer {size[1]}")
    if t in (pyodbc.SQL_BINARY, pyodbc.SQL_VARBINARY) and isinstance(v, (bytes, bytearray)) and isinstance(size, (tuple, list)) and size[1] and len(v) > size[1]:
        raise pyodbc.ProgrammingError("22001", f"Binary data, right truncation: length {len(v)} buffer {size[1]}")


def count_qmarks(sql):
    return sum(1 for t in tokenize(sql, "mssql") if t.kind == "param")


class FakeMs(Transactions):
    def __init__(self):
        self.autocommit = False

    def cursor(self):
        if self.closed_count:
            raise pyodbc.ProgrammingError("The cursor's connection has been closed.")
        return MsCursor(self)

    def execute(self, sql):
        return self.cursor().execute(sql)

    def close(self):
        self.backend.calls.append((self.no, "close", "", None))
        self.closed_count += 1
        self.end()
        if self.backend.close_fault:
            raise self.backend.close_fault


def fake_pyodbc_connect(connstring="", **kw):
    args = dict(kw)
    args["connstring"] = connstring
    b = ROUTES["mssql"](args)
    return b.open(FakeMs(), args)


# ----------------------------------------------------------------------------------------------------------- Oracle
def ora_error(e: SqlError) -> Exception:
    if e.code.endswith("violation"):
        return oracledb.IntegrityError(f"ORA-00001: {e.code}: {e}")
    return oracledb.DatabaseError(f"ORA-00900: {e.code}: {e}")


class OraVar:
    def __init__(self, typ, size=0):
        self.type, self.size = typ, size


def ora_bind(var: Optional[OraVar], v):
    if v is None:
        return None
    if var is None or var.type is None:
        if not isinstance(v, (bool, int, float, decimal.Decimal, str, bytes, dt.datetime, dt.date, dt.timedelta)):
            raise oracledb.NotSupportedError(f"DPY-3002: Python value of type '{type(v).__name__}' is not supported")
        return v
    n = var.type.name

    def bad():
        return oracledb.NotSupportedError(f"DPY-3013: unsupported Python type {type(v).__name__} for database type {n}")

    if n in ("DB_TYPE_NUMBER", "DB_TYPE_BINARY_INTEGER", "DB_TYPE_BINARY_FLOAT", "DB_TYPE_BINARY_DOUBLE"):
        if isinstance(v, (bool, int, float, decimal.Decimal)):
            if n == "DB_TYPE_BINARY_INTEGER":
                if int(v) != v:
                    raise oracledb.DatabaseError("ORA-01438: value loses precision as integer")
                if not -(2**31) <= v < 2**31:
                    raise oracledb.DatabaseError("ORA-01426: numeric overflow")
                return int(v)
            if n in ("DB_TYPE_BINARY_FLOAT", "DB_TYPE_BINARY_DOUBLE"):
                return float(v)
            return int(v) if isinstance(v, bool) else v
        raise bad()
    if n in ("DB_TYPE_CHAR", "DB_TYPE_VARCHAR", "DB_TYPE_NCHAR", "DB_TYPE_NVARCHAR", "DB_TYPE_LONG", "DB_TYPE_CLOB", "DB_TYPE_NCLOB"):
        if isinstance(v, bytes) and n in ("DB_TYPE_CLOB", "DB_TYPE_NCLOB"):
            return v.decode()
        if isinstance(v, str):
            return v
        raise bad()
    if n in ("DB_TYPE_RAW", "DB_TYPE_LONG_RAW", "DB_TYPE_BLOB"):
        if isinstance(v, str) and n == "DB_TYPE_BLOB":
            return v.encode()
        if isinstance(v, bytes):
            return v
        raise bad()
    if n in ("DB_TYPE_DATE", "DB_TYPE_TIMESTAMP", "DB_TYPE_TIMESTAMP_TZ", "DB_TYPE_TIMESTAMP_LTZ"):
        if isinstance(v, dt.datetime):
            return v.replace(tzinfo=None)
        if isinstance(v, dt.date):
            return dt.datetime.combine(v, dt.time())
        raise bad()
    if n == "DB_TYPE_INTERVAL_DS":
        if isinstance(v, dt.timedelta):
            return v
        raise bad()
    if n == "DB_TYPE_BOOLEAN":
        return bool(v)
    raise Unsupported(n)


def ora_out(v):
    if isinstance(v, Json):
        return v.text
    return v


class OraCursor:
    def __init__(self, conn):
        self.conn = conn
        self.vars: Optional[list] = None
        self.rowfactory = None
        self.rows = None
        self.names: list = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def var(self, typ, size=0, arraysize=1):
        if typ.name == "DB_TYPE_UNKNOWN":
            raise oracledb.NotSupportedError("DPY-3007: database type DB_TYPE_UNKNOWN is not supported")
        return OraVar(typ, size)

    def setinputsizes(self, *args, **kw):
        self.vars = list(args)

    @property
    def description(self):
        return [(n,) for n in self.names] if self.names else None

    def _check(self):
        if self.conn.closed_count:
            raise oracledb.InterfaceError("DPY-1001: not connected to database")

    def execute(self, sql, *params):
        b = self.conn.backend
        if b.block:
            b.block("execute", sql)
        with b.lock:
            b.call(self.conn, "execute", sql)
            self._check()
            try:
                if re.match(r"\s*ALTER\s+SESSION\b", sql, re.IGNORECASE):
                    b.server.log("set", sql).ok = True
                    r = None
                else:
                    s = b.server
                    if sql not in s.canned:
                        if not sql.lstrip().upper().startswith(("BEGIN", "DECLARE")):
                            t = sql.rstrip()
                            if t.endswith(";"):
                                raise SqlError("syntax", "ORA-00911: invalid character")
                            if not is_catalog_query(s, sql) and len(statement_texts(sql, "oracle", s.sql_mode)) != 1:
                                raise SqlError("syntax", "ORA-00900: one statement expected")
                    self.conn.begin()
                    n = len(s.events)
                    r = b.query(sql)
                    self.conn.implicit(n)
            except SqlError as e:
                raise ora_error(e) from None
            self.vars = None
            if isinstance(r, tuple):
                self.names, self.rows = r
            else:
                self.names, self.rows = [], None
        return self

    def fetchall(self):
        if self.rows is None:
            raise oracledb.InterfaceError("DPY-1003: the executed statement does not return rows")
        rows, self.rows = self.rows, []
        rows = [tuple(ora_out(v) for v in r) for r in rows]
        if self.rowfactory:
            return [self.rowfactory(*r) for r in rows]
        return rows

    def executemany(self, sql, params, batcherrors=False, arraydmlrowcounts=False):
        b = self.conn.backend
        if b.block:
            b.block("executemany", sql)
        with b.lock:
            b.call(self.conn, "executemany", sql)
            self._check()
            if not isinstance(params, (list, int)):
                raise oracledb.ProgrammingError("DPY-2016: parameters should be a list")
            if not params:
                raise oracledb.ProgrammingError("DPY-2025: empty parameter list") if params == 0 else oracledb.ProgrammingError(
                    "DPY-2004: parameters list is empty")
            s = b.server
            undo: list = []
            try:
                if sql.rstrip().endswith(";"):
                    raise SqlError("syntax", "ORA-00911: invalid character")
                stmts = s.parse(sql)
                names = {t.val for t in tokenize(sql, "oracle") if t.kind == "param"}
                self.conn.begin()
                s.undo = undo
                for r in params:
                    if not isinstance(r, (tuple, list)):
                        raise oracledb.ProgrammingError("DPY-2003: expecting a sequence")
                    if len(r) != len(names):
                        raise oracledb.DatabaseError(f"DPY-4009: {len(names)} positional bind values are required but {len(r)} were provided")
                    vals = []
                    for i, v in enumerate(r):
                        var = self.vars[i] if self.vars is not None and i < len(self.vars) else None
                        vals.append(ora_bind(var, v))
                    for ast, text in stmts:
                        s.run_one(ast, text, vals)
            except SqlError as e:
                # without batcherrors the rows before the failing one stay in the open transaction; autocommit does not happen
                s.rollback_rows(undo)
                raise ora_error(e) from None
            except BaseException:
                s.rollback_rows(undo)
                raise
            finally:
                s.undo = None


class FakeOra(Transactions):
    def __init__(self):
        self.autocommit = False

    def cursor(self):
        if self.closed_count:
            raise oracledb.InterfaceError("DPY-1001: not connected to database")
        return OraCursor(self)

    def close(self):
        self.backend.calls.append((self.no, "close", "", None))
        self.closed_count += 1
        self.end()
        if self.backend.close_fault:
            raise self.backend.close_fault


def fake_oracledb_connect(*a, **kw):
    b = ROUTES["oracle"](kw)
    return b.open(FakeOra(), kw)


_installed = False


def install() -> None:
    """Replaces the connect functions of the native drivers in this process."""
    global _installed
    if _installed:
        return
    _installed = True
    asyncpg.connect = fake_asyncpg_connect
    aiomysql.connect = fake_aiomysql_connect
    pyodbc.connect = fake_pyodbc_connect
    oracledb.connect = fake_oracledb_connect
