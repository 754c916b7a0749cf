"""In-memory SQL server: catalogue, rows, integrity rules and an event log of everything it was asked to do."""

from __future__ import annotations

import copy
import datetime as dt
import itertools
import uuid
from decimal import Decimal
from typing import Any, Callable, Dict, List, Optional, Tuple

from .lexer import UNSUPPORTED, SqlError, Unsupported, tokenize
from .parser import N, parse_script
from .values import Json, TypeSystem, fit_fraction, to_decimal

_uid = itertools.count(1)


class Col:
    __slots__ = ("uid", "name", "type", "nullable", "default", "default_raw", "df_name", "identity", "comment", "charset")

    def __init__(self, name, type, nullable=True, default=None, default_raw=None, df_name=None, identity=False, comment=None, charset=None):
        self.uid = next(_uid)
        self.name, self.type, self.nullable = name, type, nullable
        self.default, self.default_raw, self.df_name = default, default_raw, df_name
        self.identity, self.comment, self.charset = identity, comment, charset

    def clone(self) -> "Col":
        c = copy.copy(self)
        return c


class Con:
    __slots__ = ("name", "kind", "cols", "ref", "refcols", "expr", "raw")

    def __init__(self, name, kind, cols, ref=None, refcols=None, expr=None, raw=None):
        # cols/refcols: column uids; ref: table uid
        self.name, self.kind, self.cols, self.ref, self.refcols, self.expr, self.raw = name, kind, list(cols), ref, refcols, expr, raw

    def clone(self):
        c = copy.copy(self)
        c.cols = list(self.cols)
        return c


class Tab:
    def __init__(self, schema, name):
        self.uid = next(_uid)
        self.schema, self.name = schema, name
        self.cols: List[Col] = []
        self.cons: List[Con] = []
        self.comment: Optional[str] = None
        self.rows: Dict[int, Dict[int, Any]] = {}
        self.next_id = 1
        self.dead: tuple = ()  # uids of dropped columns
        self.index: Dict[int, dict] = {}

    def clone(self) -> "Tab":
        t = copy.copy(self)
        t.cols = [c.clone() for c in self.cols]
        t.cons = [c.clone() for c in self.cons]
        t.rows = dict(self.rows)
        t.index = {}
        return t

    def col(self, name: str) -> Optional[Col]:
        for c in self.cols:
            if c.name == name:
                return c
        return None

    def by_uid(self, uid: int) -> Col:
        for c in self.cols:
            if c.uid == uid:
                return c
        raise KeyError(uid)

    def numbers(self) -> Dict[int, int]:
        """Numbers of columns, present and dropped: a number is never used again."""
        return {u: i + 1 for i, u in enumerate(sorted([c.uid for c in self.cols] + list(self.dead)))}

    def names(self, uids) -> List[str]:
        return [self.by_uid(u).name for u in uids]

    @property
    def pk(self) -> Optional[Con]:
        for c in self.cons:
            if c.kind == "p":
                return c
        return None


class Type:
    def __init__(self, kind, schema, name):
        self.oid = next(_uid)
        self.kind, self.schema, self.name = kind, schema, name
        self.values: List[str] = []
        self.fresh: set = set()
        self.members: List[list] = []  # [name, type, comment]
        self.numbers: List[int] = []  # numbers of members, of which none is ever used again
        self.dead: tuple = ()  # numbers of dropped members
        self.comment: Optional[str] = None

    def clone(self):
        t = copy.copy(self)
        t.values = list(self.values)
        t.fresh = set(self.fresh)
        t.members = [list(m) for m in self.members]
        t.numbers = list(self.numbers)
        return t


class Event:
    __slots__ = ("seq", "session", "kind", "text", "ok", "error", "targets", "params", "count")

    def __init__(self, seq, session, kind, text):
        self.seq, self.session, self.kind, self.text = seq, session, kind, text
        self.ok = False
        self.error = None
        self.targets: list = []
        self.params = None
        self.count = None

    def __repr__(self):
        return f"<{self.seq} {self.kind} {'ok' if self.ok else self.error} {self.text[:120]!r}>"


MUTATING = {
    "create_schema", "drop_schema", "create_enum", "create_struct", "drop_type", "enum_add", "type_rename", "struct_alter",
    "create_table", "alter_table", "drop_table", "comment", "insert", "merge", "update", "delete", "mssql_if", "plsql",
}


class Server:
    def __init__(self, dialect: str, *, database: str = "testdb", user: str = "TESTUSER", default_schema: Optional[str] = None):
        self.dialect = dialect
        self.database = database
        self.user = user
        self.default = default_schema or {"postgresql": "public", "mysql": database, "mssql": "dbo", "oracle": user.upper()}[dialect]
        self.schemas: Dict[str, Dict[str, Tab]] = {self.default: {}}
        self.types: Dict[int, Type] = {}
        self.events: List[Event] = []
        self.ts = TypeSystem(self)
        self.session = "-"
        self.sql_mode = "ANSI_QUOTES,NO_AUTO_VALUE_ON_ZERO,STRICT_ALL_TABLES"
        self.seq = itertools.count(1)
        self.undo: Optional[list] = None
        self.lost = 0  # sessions closed with changes that were not committed
        self.encode: Callable[[tuple, Any], Any] = lambda ty, v: v  # driver codec for typed parameters
        self.fail: Optional[Callable[[str, str], Optional[Exception]]] = None  # fault injection: (kind, text) -> exception
        self.canned: Dict[str, tuple] = {}
        self.parse_cache: Dict[Tuple[str, str], list] = {}
        self.stats: Dict[str, int] = {}

    # ------------------------------------------------------------------ structure helpers
    def clone_state(self):
        return (
            {s: {n: t.clone() for n, t in tabs.items()} for s, tabs in self.schemas.items()},
            {o: t.clone() for o, t in self.types.items()},
        )

    def restore_state(self, st):
        self.schemas, self.types = st

    def tables(self) -> List[Tab]:
        return [t for tabs in self.schemas.values() for t in tabs.values()]

    def tab_by_uid(self, uid) -> Tab:
        for t in self.tables():
            if t.uid == uid:
                return t
        raise KeyError(uid)

    def find_table(self, name) -> Tab:
        schema, local = self.resolve(name)
        if schema not in self.schemas:
            raise SqlError("undefined_schema", f"schema {schema!r} does not exist")
        t = self.schemas[schema].get(local)
        if t is None:
            raise SqlError("undefined_table", f"relation {schema!r}.{local!r} does not exist")
        return t

    def resolve(self, name):
        return (name[0] if name[0] is not None else self.default, name[1])

    def type_of(self, ty) -> Type:
        return self.types[ty[1]]

    def find_type(self, name) -> Type:
        schema, local = self.resolve(name)
        for t in self.types.values():
            if t.schema == schema and t.name == local:
                return t
        raise SqlError("undefined_type", f"type {schema!r}.{local!r} does not exist")

    def bind_type(self, ty) -> tuple:
        if ty[0] == "user":
            return ("user", self.find_type(ty[1]).oid)
        if ty[0] == "array":
            return ("array", self.bind_type(ty[1]))
        return ty

    def need_col(self, t: Tab, name: str) -> Col:
        c = t.col(name)
        if c is None:
            raise SqlError("undefined_column", f"column {name!r} of relation {t.name!r} does not exist")
        return c

    # ------------------------------------------------------------------ script execution
    def parse(self, sql: str):
        key = (sql, self.sql_mode)
        if key not in self.parse_cache:
            if len(self.parse_cache) > 500:
                self.parse_cache.clear()
            self.parse_cache[key] = parse_script(sql, self.dialect, self.sql_mode)
        return self.parse_cache[key]

    def log(self, kind, text) -> Event:
        e = Event(next(self.seq), self.session, kind, text)
        self.events.append(e)
        return e

    def run_script(self, sql: str, params: Optional[list] = None, atomic: Optional[bool] = None):
        """Executes all statements of a script; returns (columns, rows) of the last query, or a row count."""
        if atomic is None:
            atomic = self.dialect == "postgresql"
        try:
            stmts = self.parse(sql)
        except SqlError as e:
            ev = self.log("unparsed", sql)
            ev.error = str(e)
            raise
        except Unsupported as e:
            UNSUPPORTED.append(e)
            raise
        snap = None
        if atomic and len(stmts) > 1:
            snap = self.clone_state()
        result: Any = None
        try:
            for ast, text in stmts:
                result = self.run_one(ast, text, params)
        except Exception:
            if snap is not None:
                self.restore_state(snap)
            raise
        finally:
            for t in self.types.values():
                t.fresh = set()
        return result

    def run_one(self, ast: N, text: str, params=None):
        ev = self.log(ast.k, text)
        self.stats[ast.k] = self.stats.get(ast.k, 0) + 1
        ev.params = params
        if self.fail is not None:
            exc = self.fail(ast.k, text)
            if exc is not None:
                ev.error = f"injected {exc!r}"
                raise exc
        own = self.undo is None
        if own:
            self.undo = []
        ddl = ast.k not in ("insert", "merge", "update", "delete", "select", "set")
        st = self.clone_state() if ddl else None
        try:
            r = getattr(self, "x_" + ast.k)(ast, params or [], ev)
            ev.ok = True
            return r
        except Unsupported as e:
            UNSUPPORTED.append(e)
            raise
        except SqlError as e:
            ev.error = str(e)
            if ddl:
                self.restore_state(st)
            else:
                if own:
                    self.rollback_rows(self.undo)
            raise
        finally:
            if own:
                self.undo = None

    def rollback_rows(self, undo) -> None:
        for op in reversed(undo):
            t: Tab = op[1]
            if op[0] == "ins":
                t.rows.pop(op[2], None)
            elif op[0] == "del":
                t.rows[op[2]] = op[3]
            else:
                t.rows[op[2]] = op[3]
            t.index = {}
        undo.clear()

    # ------------------------------------------------------------------ name scopes
    def check_ident(self, name: str) -> None:
        limit = {"postgresql": 63, "mysql": 64, "mssql": 128, "oracle": 128}[self.dialect]
        size = len(name.encode("utf-8")) if self.dialect in ("postgresql", "oracle") else len(name)
        if size > limit:
            if self.dialect == "postgresql":
                raise SqlError("ident_too_long", f"identifier {name!r} will be truncated")
            raise SqlError("ident_too_long", f"identifier too long: {name!r}")
        if self.dialect == "mysql" and name.endswith(" "):
            raise SqlError("ident", "identifier ends with a space")

    def check_con_name(self, t: Tab, con: Con) -> None:
        """Constraint name uniqueness per dialect scope."""
        d = self.dialect
        name = con.name
        if name is None:
            return
        self.check_ident(name)
        if d == "postgresql":
            if any(c.name == name for c in t.cons):
                raise SqlError("duplicate_constraint", f"constraint {name!r} for relation {t.name!r} already exists")
            if con.kind in ("p", "u"):
                for o in self.schemas[t.schema].values():
                    if o.name == name or any(c.name == name and c.kind in ("p", "u") for c in o.cons):
                        raise SqlError("duplicate_relation", f"relation {name!r} already exists")
        elif d == "mysql":
            if con.kind == "p":
                return
            if con.kind == "u":
                if any(c.name == name and c.kind == "u" for c in t.cons):
                    raise SqlError("duplicate_key_name", f"Duplicate key name {name!r}")
            else:
                for o in self.schemas[t.schema].values():
                    if any(c.name == name and c.kind == con.kind for c in o.cons):
                        raise SqlError("duplicate_constraint", f"Duplicate {con.kind} constraint name {name!r}")
        elif d == "mssql":
            if self._mssql_name_used(t.schema, name):
                raise SqlError("duplicate_constraint", f"There is already an object named {name!r} in the database")
        elif d == "oracle":
            for o in self.schemas[t.schema].values():
                if any(c.name == name for c in o.cons):
                    raise SqlError("duplicate_constraint", f"ORA-02264: name already used by an existing constraint {name!r}")

    def _mssql_name_used(self, schema, name) -> bool:
        for o in self.schemas[schema].values():
            if o.name == name or any(c.name == name for c in o.cons) or any(c.df_name == name for c in o.cols):
                return True
        return False

    # ------------------------------------------------------------------ schema / type DDL
    def x_set(self, n, p, ev):
        return None

    def x_create_schema(self, n: N, p, ev):
        self.check_ident(n.name)
        ev.targets.append(("schema", n.name))
        if n.name in self.schemas:
            if n.if_not_exists:
                return
            raise SqlError("duplicate_schema", f"schema {n.name!r} already exists")
        if self.dialect == "postgresql" and n.name.startswith("pg_"):
            raise SqlError("reserved_name", "unacceptable schema name")
        self.schemas[n.name] = {}

    def x_drop_schema(self, n: N, p, ev):
        ev.targets.append(("schema", n.name))
        if n.name not in self.schemas:
            if n.if_exists:
                return
            raise SqlError("undefined_schema", f"schema {n.name!r} does not exist")
        if self.dialect == "mysql":
            raise Unsupported("DROP SCHEMA in MySQL")
        inside = list(self.schemas[n.name].values())
        types = [t for t in self.types.values() if t.schema == n.name]
        if (inside or types) and not n.cascade:
            raise SqlError("dependent_objects", f"cannot drop schema {n.name!r} because other objects depend on it")
        uids = {t.uid for t in inside}
        for t in self.tables():
            if t.uid not in uids:
                t.cons = [c for c in t.cons if not (c.kind == "f" and c.ref in uids)]
        oids = {t.oid for t in types}
        for o in oids:
            del self.types[o]
        del self.schemas[n.name]
        for t in self.tables():
            t.dead += tuple(c.uid for c in t.cols if self._uses(c.type, oids))
            t.cols = [c for c in t.cols if not self._uses(c.type, oids)]
            t.index = {}

    def _uses(self, ty, oids) -> bool:
        if ty[0] == "user":
            return ty[1] in oids
        if ty[0] == "array":
            return self._uses(ty[1], oids)
        return False

    def _new_type(self, kind, name, ev):
        schema, local = self.resolve(name)
        self.check_ident(local)
        if schema not in self.schemas:
            raise SqlError("undefined_schema", f"schema {schema!r} does not exist")
        if any(t.schema == schema and t.name == local for t in self.types.values()) or local in self.schemas[schema]:
            raise SqlError("duplicate_type", f"type {local!r} already exists")
        ev.targets.append(("type", schema, local))
        return Type(kind, schema, local)

    def x_create_enum(self, n, p, ev):
        t = self._new_type("enum", n.name, ev)
        if len(set(n.values)) != len(n.values):
            raise SqlError("duplicate_value", "duplicate enum label")
        for v in n.values:
            self.check_ident(v)
        t.values = list(n.values)
        self.types[t.oid] = t

    def x_create_struct(self, n, p, ev):
        t = self._new_type("struct", n.name, ev)
        names = [m[0] for m in n.members]
        if len(set(names)) != len(names):
            raise SqlError("duplicate_column", "attribute specified more than once")
        t.members = [[m[0], self.bind_type(m[1]), None] for m in n.members]
        t.numbers = list(range(1, len(t.members) + 1))
        self.types[t.oid] = t

    def type_users(self, oid) -> List[str]:
        out = []
        for t in self.tables():
            for c in t.cols:
                if self._uses(c.type, {oid}):
                    out.append(f"column {t.schema}.{t.name}.{c.name}")
        for ty in self.types.values():
            for m in ty.members:
                if self._uses(m[1], {oid}):
                    out.append(f"type {ty.name}.{m[0]}")
        return out

    def type_stored(self, oid) -> bool:
        """Whether a column holds values of the type, directly or within a value of another composite type."""
        if any(self._uses(c.type, {oid}) for t in self.tables() for c in t.cols):
            return True
        return any(self.type_stored(ty.oid) for ty in self.types.values() if ty.oid != oid and any(self._uses(m[1], {oid}) for m in ty.members))

    def x_drop_type(self, n, p, ev):
        for name in n.names:
            schema, local = self.resolve(name)
            try:
                t = self.find_type(name)
            except SqlError:
                if n.if_exists:
                    continue
                raise
            ev.targets.append(("type", schema, local))
            users = self.type_users(t.oid)
            if users:
                if n.cascade:
                    raise Unsupported("DROP TYPE CASCADE with dependants")
                raise SqlError("dependent_objects", f"cannot drop type {local!r} because other objects depend on it: {users[:3]}")
            del self.types[t.oid]

    def x_enum_add(self, n, p, ev):
        t = self.find_type(n.name)
        ev.targets.append(("type", t.schema, t.name))
        if t.kind != "enum":
            raise SqlError("wrong_type", f"{t.name!r} is not an enum")
        if n.value in t.values:
            if n.if_not_exists:
                return
            raise SqlError("duplicate_value", f"enum label {n.value!r} already exists")
        self.check_ident(n.value)
        t.values.append(n.value)
        t.fresh.add(n.value)

    def x_type_rename(self, n, p, ev):
        t = self.find_type(n.name)
        ev.targets.append(("type", t.schema, t.name))
        self.check_ident(n.to)
        if any(o.schema == t.schema and o.name == n.to for o in self.types.values()) or n.to in self.schemas[t.schema]:
            raise SqlError("duplicate_type", f"type {n.to!r} already exists")
        t.name = n.to

    def x_struct_alter(self, n, p, ev):
        t = self.find_type(n.name)
        ev.targets.append(("type", t.schema, t.name))
        if t.kind != "struct":
            raise SqlError("wrong_type", f"{t.name!r} is not a composite type")
        if any(a.k == "type" for a in n.acts) and self.type_stored(t.oid):
            raise SqlError("in_use", f"cannot alter type {t.name!r} because a column uses it")

        def remap(fn):
            for tab in self.tables():
                for c in tab.cols:
                    if c.type == ("user", t.oid):
                        for rid, row in list(tab.rows.items()):
                            v = row.get(c.uid)
                            if v is not None:
                                row = dict(row)
                                row[c.uid] = fn(v)
                                tab.rows[rid] = row
                    elif c.type == ("array", ("user", t.oid)):
                        for rid, row in list(tab.rows.items()):
                            v = row.get(c.uid)
                            if v is not None:
                                row = dict(row)
                                row[c.uid] = [fn(x) if x is not None else None for x in v]
                                tab.rows[rid] = row

        for a in n.acts:
            names = [m[0] for m in t.members]
            if a.k == "drop":
                if a.name not in names:
                    raise SqlError("undefined_column", f"attribute {a.name!r} does not exist")
                i = names.index(a.name)
                del t.members[i]
                t.dead += (t.numbers.pop(i),)
                remap(lambda v, i=i: v[:i] + v[i + 1 :])
            elif a.k == "add":
                if a.name in names:
                    raise SqlError("duplicate_column", f"attribute {a.name!r} already exists")
                t.members.append([a.name, self.bind_type(a.type), None])
                t.numbers.append(max([*t.numbers, *t.dead]) + 1)
                remap(lambda v: v + (None,))
            else:
                if a.name not in names:
                    raise SqlError("undefined_column", f"attribute {a.name!r} does not exist")
                t.members[names.index(a.name)][1] = self.bind_type(a.type)

    def x_comment(self, n, p, ev):
        text = n.text if n.text != "" else None
        if n.kind == "table":
            t = self.find_table(n.name)
            ev.targets.append(("table", t.schema, t.name))
            t.comment = text
        elif n.kind == "type":
            ty = self.find_type(n.name)
            ev.targets.append(("type", ty.schema, ty.name))
            ty.comment = text
        else:
            parts = n.name
            obj = (parts[-3] if len(parts) >= 3 else None, parts[-2])
            try:
                t = self.find_table(obj)
                self.need_col(t, parts[-1]).comment = text
                ev.targets.append(("table", t.schema, t.name))
            except SqlError as e:
                if e.code == "undefined_column":
                    raise
                ty = self.find_type(obj)
                for m in ty.members:
                    if m[0] == parts[-1]:
                        m[2] = text
                        break
                else:
                    raise SqlError("undefined_column", f"attribute {parts[-1]!r} does not exist")
                ev.targets.append(("type", ty.schema, ty.name))

    # ------------------------------------------------------------------ tables
    def check_default(self, c: Col) -> None:
        """A default must be an expression the server accepts for the column type."""
        if c.default is None:
            return
        d = self.dialect
        if d == "mysql" and c.default[0] != "paren" and c.type[0] in (
            "tinytext", "text", "mediumtext", "longtext", "json", "blob", "mediumblob", "longblob", "tinyblob") and c.default != ("lit", None, "null"):
            raise SqlError("blob_default", f"BLOB, TEXT, GEOMETRY or JSON column {c.name!r} can't have a default value")
        try:
            v = self.eval_default(c)
        except SqlError as e:
            raise SqlError("invalid_default", f"invalid default value for {c.name!r}: {e}")
        if v is None and not c.nullable and c.default == ("lit", None, "null") and d == "mysql":
            raise SqlError("invalid_default", f"Invalid default value for {c.name!r}")

    def eval_default(self, c: Col):
        if c.default is None:
            return None
        return self.eval_into(c.type, c.default, None, [])

    def new_col(self, spec: N) -> Col:
        self.check_ident(spec.name)
        nullable = spec.nullable
        if nullable is None:
            nullable = not spec.identity
        elif nullable and spec.identity:
            raise SqlError("conflict", "conflicting NULL/identity")
        c = Col(spec.name, self.bind_type(spec.type), nullable, spec.default, spec.default_raw, spec.df_name, spec.identity,
                spec.comment or None, spec.charset)
        if c.identity:
            self.check_identity_type(c)
            c.nullable = False
            if c.default is not None:
                raise SqlError("conflict", "both default and identity specified")
        if self.dialect == "mysql" and spec.comment is not None and len(spec.comment) > 1024:
            raise SqlError("too_long", "Comment for field too long")
        self.check_default(c)
        return c

    def check_identity_type(self, c: Col) -> None:
        ok = {
            "postgresql": ("smallint", "integer", "bigint"),
            "mysql": ("tinyint", "smallint", "mediumint", "int", "bigint", "double", "float"),
            "mssql": ("tinyint", "smallint", "int", "bigint", "decimal", "numeric"),
            "oracle": ("number", "integer", "decimal", "float"),
        }[self.dialect]
        if c.type[0] not in ok:
            raise SqlError("identity_type", f"identity column type must be an integer, not {c.type}")

    def x_create_table(self, n: N, p, ev):
        schema, local = self.resolve(n.name)
        self.check_ident(local)
        if schema not in self.schemas:
            raise SqlError("undefined_schema", f"schema {schema!r} does not exist")
        ev.targets.append(("table", schema, local))
        if local in self.schemas[schema]:
            if n.if_not_exists:
                return
            raise SqlError("duplicate_table", f"relation {local!r} already exists")
        if self.dialect == "postgresql":
            if any(t.schema == schema and t.name == local for t in self.types.values()):
                raise SqlError("duplicate_type", f"type {local!r} already exists")
            if any(c.name == local and c.kind in "pu" for t in self.schemas[schema].values() for c in t.cons):
                raise SqlError("duplicate_relation", f"relation {local!r} already exists")
        if self.dialect == "mssql" and self._mssql_name_used(schema, local):
            raise SqlError("duplicate_constraint", f"There is already an object named {local!r}")
        t = Tab(schema, local)
        if n.comment is not None and len(n.comment) > 2048:
            raise SqlError("too_long", "Comment for table too long")
        t.comment = n.comment or None
        if not n.cols:
            raise SqlError("syntax", "a table must have at least one visible column")
        for spec in n.cols:
            if t.col(spec.name) is not None:
                raise SqlError("duplicate_column", f"column {spec.name!r} specified more than once")
            c = self.new_col(spec)
            self._check_df(schema, t, c)
            t.cols.append(c)
        self._check_identity_count(t)
        self.schemas[schema][local] = t
        pks = [c for c in n.cons if c.kind == "p"]
        if len(pks) > 1:
            raise SqlError("multiple_pk", "multiple primary keys")
        for c in n.cons:
            self.add_constraint(t, c)
        if self.dialect == "mysql":
            for c in t.cols:
                if c.identity and not any(k.kind in "pu" and k.cols[0] == c.uid for k in t.cons):
                    raise SqlError("auto_key", "there can be only one auto column and it must be defined as a key")

    def _check_identity_count(self, t: Tab) -> None:
        if sum(1 for c in t.cols if c.identity) > 1 and self.dialect in ("mysql", "mssql", "oracle"):
            raise SqlError("identity_count", "table can have only one identity column")

    def _check_df(self, schema, t: Tab, c: Col) -> None:
        if self.dialect == "mssql" and c.default is not None:
            if c.df_name is None:
                c.df_name = f"DF__{t.name}__{c.name}__{c.uid:08X}"
            if self._mssql_name_used(schema, c.df_name) or any(o.df_name == c.df_name for o in t.cols if o is not c):
                raise SqlError("duplicate_constraint", f"There is already an object named {c.df_name!r} in the database")

    KEY_BAD = {
        "mysql": ("tinytext", "text", "mediumtext", "longtext", "json", "blob", "mediumblob", "longblob", "tinyblob"),
        "oracle": ("clob", "nclob", "blob", "json"),
        "postgresql": ("json",),
        "mssql": ("text",),
    }

    def check_key_type(self, c: Col, kind: str) -> None:
        bad = c.type[0] in self.KEY_BAD[self.dialect]
        if self.dialect == "mssql" and c.type[0] in ("varchar", "nvarchar", "varbinary") and c.type[1:] == ("max",):
            bad = True
        if self.dialect == "postgresql" and c.type[0] == "user" and self.type_of(c.type).kind == "struct":
            bad = False
        if bad:
            raise SqlError("key_type", f"column {c.name!r} of type {c.type} cannot be used in a key")

    def add_constraint(self, t: Tab, n: N) -> None:
        d = self.dialect
        if n.kind == "d":
            c = self.need_col(t, n.cols[0])
            if c.default is not None:
                raise SqlError("duplicate_default", f"Column already has a DEFAULT bound to it: {c.name!r}")
            c.default, c.default_raw, c.df_name = n.expr, None, n.name
            try:
                if sum(1 for o in self.schemas[t.schema].values() for k in o.cols if k.df_name == n.name) > 1 or any(
                    k.name == n.name for o in self.schemas[t.schema].values() for k in o.cons):
                    raise SqlError("duplicate_constraint", f"There is already an object named {n.name!r} in the database")
                self.check_default(c)
            except SqlError:
                raise
            return
        cols = [self.need_col(t, x) for x in n.cols]
        if len({c.uid for c in cols}) != len(cols):
            raise SqlError("duplicate_column", "column appears twice in constraint")
        con = Con(n.name, n.kind, [c.uid for c in cols], raw=getattr(n, "raw", None), expr=getattr(n, "expr", None))
        if con.name is None:
            con.name = f"{t.name}_{n.kind}_{next(_uid)}"
        self.check_con_name(t, con)
        if n.kind == "p":
            if t.pk is not None:
                raise SqlError("multiple_pk", f"multiple primary keys for table {t.name!r}")
            for c in cols:
                self.check_key_type(c, "p")
                if c.nullable:
                    if d == "mssql":
                        raise SqlError("pk_nullable", f"cannot define PRIMARY KEY on nullable column {c.name!r}")
                    c.nullable = False
                    if any(r.get(c.uid) is None for r in t.rows.values()):
                        raise SqlError("not_null_violation", "NULL in primary key column")
        elif n.kind == "u":
            for c in cols:
                self.check_key_type(c, "u")
        elif n.kind == "f":
            rt = self.find_table(n.ref)
            if d == "mssql" and n.ref[0] is None and t.schema != self.default:
                pass
            if n.refcols is None:
                if rt.pk is None:
                    raise SqlError("invalid_fk", "referenced table has no primary key")
                rcols = [rt.by_uid(u) for u in rt.pk.cols]
            else:
                rcols = [self.need_col(rt, x) for x in n.refcols]
            if len(rcols) != len(cols):
                raise SqlError("invalid_fk", "number of referencing and referenced columns disagree")
            ruids = {c.uid for c in rcols}
            if not any(k.kind in "pu" and set(k.cols) == ruids for k in rt.cons):
                raise SqlError("invalid_fk", f"there is no unique constraint matching given keys for referenced table {rt.name!r}")
            for a, b in zip(cols, rcols):
                if not self.fk_compatible(a.type, b.type):
                    raise SqlError("fk_type", f"key columns {a.name!r} {a.type} and {b.name!r} {b.type} are of incompatible types")
            con.ref, con.refcols = rt.uid, [c.uid for c in rcols]
        elif n.kind == "c":
            self.check_expr_cols(t, n.expr)
        t.cons.append(con)
        # validate existing rows
        t.index = {}
        if n.kind in "pu":
            seen = set()
            for r in t.rows.values():
                k = self.key_of(con, r)
                if k is None:
                    continue
                if k in seen:
                    raise SqlError("unique_violation", f"could not create unique index {con.name!r}: duplicate {k}")
                seen.add(k)
        elif n.kind == "f":
            for r in t.rows.values():
                self.check_fk_row(t, con, r)
        elif n.kind == "c":
            for r in t.rows.values():
                self.check_check_row(t, con, r)

    def check_expr_cols(self, t: Tab, e) -> None:
        for node in walk(e):
            if node[0] == "col":
                if not node[3] and self.dialect == "oracle":
                    pass
                if t.col(node[2]) is None:
                    raise SqlError("undefined_column", f"column {node[2]!r} does not exist in check")

    def fk_compatible(self, a, b) -> bool:
        if a == b:
            return True
        d = self.dialect
        ints = ("smallint", "integer", "bigint", "numeric", "real", "double precision")
        if d == "postgresql":
            txt = ("text", "varchar", "char")
            return (a[0] in ints and b[0] in ints) or (a[0] in txt and b[0] in txt)
        if d == "mysql":
            txt = ("char", "varchar")
            if a[0] in txt and b[0] in txt:
                return True
            if a[0] == b[0] and a[0] in ("tinyint", "smallint", "int", "bigint", "decimal"):
                return a[0] != "decimal" or a == b
            return a[0] == b[0] == "binary"
        if d == "mssql":
            return a == b
        if d == "oracle":
            num = ("number", "integer", "decimal", "float")
            return (a[0] in num and b[0] in num) or a[0] == b[0]
        return False

    def x_drop_table(self, n: N, p, ev):
        tabs = []
        for name in n.names:
            try:
                t = self.find_table(name)
            except SqlError:
                if n.if_exists:
                    continue
                raise
            tabs.append(t)
            ev.targets.append(("table", t.schema, t.name))
        uids = {t.uid for t in tabs}

        def refs(target, exclude):
            for o in self.tables():
                if o.uid in exclude:
                    continue
                for c in o.cons:
                    if c.kind == "f" and c.ref == target.uid:
                        return o, c
            return None

        if n.cascade:
            for o in self.tables():
                o.cons = [c for c in o.cons if not (c.kind == "f" and c.ref in uids and o.uid not in uids)]
        elif self.dialect == "mssql":
            alive = []
            for t in tabs:  # dropped one at a time, in order
                r = refs(t, {t.uid} | set(alive))
                if r:
                    raise SqlError("dependent_objects", f"Could not drop object {t.name!r} because it is referenced by a FOREIGN KEY constraint of {r[0].name!r}")
                alive.append(t.uid)
        else:
            for t in tabs:
                r = refs(t, uids)
                if r:
                    raise SqlError("dependent_objects", f"cannot drop table {t.name!r} because {r[0].name!r}.{r[1].name!r} depends on it")
        for t in tabs:
            del self.schemas[t.schema][t.name]

    # ------------------------------------------------------------------ ALTER TABLE
    def x_alter_table(self, n: N, p, ev):
        t = self.find_table(n.name)
        ev.targets.append(("table", t.schema, t.name))
        getattr(self, "_alter_" + self.dialect)(t, n.acts)
        t.index = {}

    def drop_con(self, t: Tab, name: str, if_exists=False) -> None:
        for c in t.cons:
            if c.name == name:
                if c.kind in "pu":
                    for o in self.tables():
                        for k in o.cons:
                            if k.kind == "f" and k.ref == t.uid and set(k.refcols) == set(c.cols) and not any(
                                x is not c and x.kind in "pu" and set(x.cols) == set(c.cols) for x in t.cons):
                                raise SqlError("dependent_objects", f"cannot drop constraint {name!r}: {o.name!r}.{k.name!r} depends on it")
                t.cons.remove(c)
                return
        if self.dialect == "mssql":
            for col in t.cols:
                if col.df_name == name and col.default is not None:
                    col.default = col.default_raw = col.df_name = None
                    return
        if if_exists:
            return
        raise SqlError("undefined_constraint", f"constraint {name!r} of relation {t.name!r} does not exist")

    def drop_col(self, t: Tab, name: str) -> None:
        c = self.need_col(t, name)
        d = self.dialect
        used = [k for k in t.cons if c.uid in k.cols or (k.kind == "c" and any(x[0] == "col" and x[2] == name for x in walk(k.expr)))]
        inbound = [k for o in self.tables() for k in o.cons if k.kind == "f" and k.ref == t.uid and c.uid in k.refcols]
        if inbound and not all(k in used for k in inbound):
            raise SqlError("dependent_objects", f"cannot drop column {name!r}: referenced by foreign key")
        if d == "mssql":
            if used:
                raise SqlError("dependent_objects", f"ALTER TABLE DROP COLUMN {name!r} failed because {used[0].name!r} is dependent on it")
            if c.default is not None:
                raise SqlError("dependent_objects", f"The object {c.df_name!r} is dependent on column {name!r}")
        elif d == "mysql":
            for k in used:
                if k.kind in "fc":
                    raise SqlError("dependent_objects", f"Cannot drop column {name!r}: needed in a foreign key or check constraint {k.name!r}")
            for k in used:
                k.cols.remove(c.uid)
                if not k.cols:
                    t.cons.remove(k)
        elif d == "oracle":
            for k in used:
                if len(k.cols) > 1 or k.kind == "c" and len({x[2] for x in walk(k.expr) if x[0] == "col"}) > 1:
                    raise SqlError("dependent_objects", "ORA-12991: column is referenced in a multi-column constraint")
                if k.kind == "p":
                    raise SqlError("dependent_objects", "ORA-12983/12991: primary key column")
            for k in used:
                t.cons.remove(k)
        else:
            for k in used:
                t.cons.remove(k)
        t.cols.remove(c)
        t.dead += (c.uid,)
        if not t.cols:
            raise SqlError("syntax", "cannot drop all columns")
        for rid, r in t.rows.items():
            if c.uid in r:
                r = dict(r)
                del r[c.uid]
                t.rows[rid] = r

    def add_col(self, t: Tab, spec: N) -> None:
        if t.col(spec.name) is not None:
            raise SqlError("duplicate_column", f"column {spec.name!r} of relation {t.name!r} already exists")
        c = self.new_col(spec)
        self._check_df(t.schema, t, c)
        t.cols.append(c)
        self._check_identity_count(t)
        if self.dialect == "mysql" and c.identity:
            pass
        for rid, r in list(t.rows.items()):
            if c.identity:
                v = t.next_id
                t.next_id += 1
            else:
                v = self.eval_default(c)
                if v is None and not c.nullable:
                    v = self._implicit_mysql(c) if self.dialect == "mysql" else None
                    if v is None:
                        raise SqlError("not_null_violation", f"column {c.name!r} of relation {t.name!r} contains null values")
                if self.dialect == "mssql" and c.nullable:
                    v = None  # without WITH VALUES, a nullable added column is NULL in existing rows
            r = dict(r)
            r[c.uid] = v
            t.rows[rid] = r

    def _implicit_mysql(self, c: Col):
        """MySQL fills existing rows with the implicit default of the type when adding a NOT NULL column."""
        n = c.type[0]
        if n in ("tinyint", "smallint", "mediumint", "int", "bigint", "decimal", "double", "float"):
            return 0 if n != "decimal" else Decimal(0)
        if n in ("char", "varchar", "text", "mediumtext", "longtext", "tinytext"):
            return ""
        if n == "enum":
            return c.type[1][0]
        if n in ("binary",):
            return b"\0" * (c.type[1] if len(c.type) > 1 else 1)
        if n in ("varbinary", "blob", "mediumblob", "longblob"):
            return b""
        return None  # dates: zero dates are refused with NO_ZERO_DATE; JSON has no implicit default

    def set_null(self, t: Tab, c: Col, nullable: bool) -> None:
        if nullable:
            if t.pk is not None and c.uid in t.pk.cols:
                raise SqlError("pk_nullable", f"column {c.name!r} is in a primary key")
            if c.identity:
                raise SqlError("identity_null", f"column {c.name!r} is an identity column")
            c.nullable = True
        else:
            if any(r.get(c.uid) is None for r in t.rows.values()):
                raise SqlError("not_null_violation", f"column {c.name!r} contains null values")
            c.nullable = False

    # -- PostgreSQL: passes as in tablecmds.c
    def _alter_postgresql(self, t: Tab, acts: List[N]) -> None:
        def in_pass(kinds, extra=lambda a: True):
            return [a for a in acts if a.k in kinds and extra(a)]

        if acts[0].k == "rename_col":
            a = acts[0]
            c = self.need_col(t, a.name)
            self.check_ident(a.to)
            if t.col(a.to) is not None:
                raise SqlError("duplicate_column", f"column {a.to!r} already exists")
            old = c.name
            c.name = a.to
            for k in t.cons:
                if k.kind == "c":
                    k.expr = rename_in(k.expr, old, a.to)
            return
        # PostgreSQL checks existence of ALTER COLUMN targets during execution of each pass
        for a in acts:
            if a.k in ("drop_col", "drop_con") or (a.k == "set_default" and a.expr is None) or (a.k == "set_null" and a.nullable) or (
                a.k == "identity" and not a.value):
                if a.k == "drop_col":
                    self.drop_col(t, a.name)
                elif a.k == "drop_con":
                    self.drop_con(t, a.name, a.if_exists)
                elif a.k == "set_default":
                    c = self.need_col(t, a.name)
                    if c.identity:
                        raise SqlError("identity_default", f"column {a.name!r} is an identity column")
                    c.default = c.default_raw = None
                elif a.k == "set_null":
                    self.set_null(t, self.need_col(t, a.name), True)
                else:
                    c = self.need_col(t, a.name)
                    if not c.identity:
                        raise SqlError("not_identity", f"column {a.name!r} is not an identity column")
                    c.identity = False
        for a in in_pass(("col_type",)):
            if a.using is not None:
                raise Unsupported("USING")
            self.pg_alter_type(t, self.need_col(t, a.name), self.bind_type(a.type))
        for a in in_pass(("add_col",)):
            self.add_col(t, a.col)
        for a in in_pass(("set_null",), lambda a: not a.nullable):
            self.set_null(t, self.need_col(t, a.name), False)
        for a in in_pass(("add_con",), lambda a: a.con.kind in "pu"):
            self.add_constraint(t, a.con)
        for a in acts:
            if a.k == "set_default" and a.expr is not None:
                c = self.need_col(t, a.name)
                if c.identity:
                    raise SqlError("identity_default", f"column {a.name!r} is an identity column")
                c.default = a.expr
                self.check_default(c)
            elif a.k == "identity" and a.value:
                c = self.need_col(t, a.name)
                if c.nullable:
                    raise SqlError("identity_null", f"column {a.name!r} must be declared NOT NULL before identity can be added")
                if c.default is not None:
                    raise SqlError("identity_default", f"column {a.name!r} already has a default value")
                if c.identity:
                    raise SqlError("identity_exists", "column is already an identity column")
                self.check_identity_type(c)
                c.identity = True
            elif a.k == "add_con" and a.con.kind == "c":
                self.add_constraint(t, a.con)
        for a in in_pass(("add_con",), lambda a: a.con.kind == "f"):
            self.add_constraint(t, a.con)

    def pg_castable(self, a: tuple, b: tuple) -> bool:
        """Assignment cast from type a to type b exists."""
        if a == b or a[0] == b[0] and a[0] not in ("user", "array"):
            return True
        num = ("smallint", "integer", "bigint", "numeric", "real", "double precision")
        txt = ("text", "varchar", "char")
        if a[0] in num and b[0] in num:
            return True
        if b[0] in txt:
            return True  # any type has an I/O conversion to string types as assignment cast
        if (a[0], b[0]) in {("date", "timestamp"), ("timestamp", "date"), ("timestamp", "time"), ("date", "timestamptz"), ("timestamp", "timestamptz"),
                            ("timestamptz", "timestamp"), ("timestamptz", "date"), ("time", "interval"), ("json", "jsonb"), ("jsonb", "json"),
                            ("time", "timetz"), ("timetz", "time"), ("timestamptz", "time"), ("cidr", "inet"), ("inet", "cidr")}:
            return True
        if a[0] == "array" and b[0] == "array":
            return self.pg_castable(a[1], b[1])
        return False

    def pg_cast_value(self, v, a, b):
        if v is None:
            return None
        num = ("smallint", "integer", "bigint", "numeric", "real", "double precision")
        if b[0] in num:
            return self.ts.store(b, to_decimal(v), "num")
        if b[0] in ("text", "varchar", "char"):
            return self.ts.store(b, self.to_text(v, a), "str")
        if b[0] == "timestamp":
            if isinstance(v, dt.datetime):
                return fit_fraction(v, b[1] if len(b) > 1 else 6, "timestamp")
            return dt.datetime(v.year, v.month, v.day)
        if b[0] == "date":
            return v.date() if isinstance(v, dt.datetime) else v
        if b[0] == "time":
            v = v.time() if isinstance(v, dt.datetime) else v
            return fit_fraction(v, b[1] if len(b) > 1 else 6, "time")
        if b[0] == "array":
            return [self.pg_cast_value(x, a[1], b[1]) for x in v]
        return v

    def to_text(self, v, ty) -> str:
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, Json):
            return v.text
        if isinstance(v, dt.datetime):
            return v.isoformat(sep=" ")
        if isinstance(v, float):
            return repr(v)[:-2] if repr(v).endswith(".0") else repr(v)
        if isinstance(v, bytes):
            return "\\x" + v.hex()
        return str(v)

    def pg_alter_type(self, t: Tab, c: Col, ty: tuple) -> None:
        if not self.pg_castable(c.type, ty):
            raise SqlError("cannot_cast", f"column {c.name!r} cannot be cast automatically to type {ty} from {c.type}")
        if c.identity and ty[0] not in ("smallint", "integer", "bigint"):
            raise SqlError("identity_type", "identity column type must be smallint, integer, or bigint")
        if c.default is not None:
            dv = self.eval_default(c)
            if c.type[0] in ("user", "boolean") and ty[0] not in ("text", "varchar", "char") and c.type != ty:
                raise SqlError("cannot_cast_default", f"default for column {c.name!r} cannot be cast automatically to type {ty}")
            nv = self.pg_cast_value(dv, c.type, ty)
            self.check_text_literal(nv)
            if not (c.default[0] == "lit" and c.default[2] == "num" and ty[0] in ("smallint", "integer", "bigint", "numeric", "real", "double precision")):
                c.default = ("value", nv)  # otherwise the expression remains the literal with an implicit conversion
        for rid, r in list(t.rows.items()):
            r = dict(r)
            r[c.uid] = self.pg_cast_value(r.get(c.uid), c.type, ty)
            t.rows[rid] = r
        old = c.type
        c.type = ty
        for o in self.tables():
            for k in o.cons:
                if k.kind == "f" and (o is t and c.uid in k.cols or k.ref == t.uid and c.uid in (k.refcols or [])):
                    rt = self.tab_by_uid(k.ref)
                    for x, y in zip(k.cols, k.refcols):
                        if not self.fk_compatible(o.by_uid(x).type, rt.by_uid(y).type):
                            raise SqlError("fk_type", f"foreign key {k.name!r} cannot be implemented: {old} -> {ty}")
        for k in t.cons:
            if k.kind in "pu" and c.uid in k.cols:
                seen = set()
                for r in t.rows.values():
                    key = self.key_of(k, r)
                    if key is not None and key in seen:
                        raise SqlError("unique_violation", "duplicate after type change")
                    seen.add(key)

    def check_text_literal(self, v):
        pass

    # -- MySQL: the whole ALTER is one joint operation
    def _alter_mysql(self, t: Tab, acts: List[N]) -> None:
        order = {"drop_con": 0, "drop_pk": 0, "drop_col": 1, "rename_col": 2, "change_col": 2, "modify_col": 2, "add_col": 3, "table_comment": 4, "add_con": 5}
        if len([a for a in acts if a.k in ("rename_col", "change_col") and any(b.k == "drop_col" and b.name == a.name for b in acts)]):
            raise SqlError("undefined_column", "column dropped and changed at once")
        # dropping a column and adding one of the same name in one statement is a joint operation as well
        for a in sorted(acts, key=lambda a: order[a.k]):
            if a.k == "drop_con":
                self.drop_con(t, a.name)
            elif a.k == "drop_pk":
                if t.pk is None:
                    raise SqlError("undefined_constraint", "no primary key")
                t.cons.remove(t.pk)
            elif a.k == "drop_col":
                self.drop_col(t, a.name)
            elif a.k == "rename_col":
                c = self.need_col(t, a.name)
                if t.col(a.to) is not None:
                    raise SqlError("duplicate_column", f"Duplicate column name {a.to!r}")
                c.name = a.to
            elif a.k in ("change_col", "modify_col"):
                src = a.name if a.k == "change_col" else a.col.name
                self.mysql_change(t, self.need_col(t, src), a.col)
            elif a.k == "add_col":
                self.add_col(t, a.col)
            elif a.k == "table_comment":
                t.comment = a.value or None
                if len(a.value) > 2048:
                    raise SqlError("too_long", "Comment for table too long")
            elif a.k == "add_con":
                self.add_constraint(t, a.con)
        for c in t.cols:
            if c.identity and not any(k.kind in "pu" and k.cols and k.cols[0] == c.uid for k in t.cons):
                raise SqlError("auto_key", "there can be only one auto column and it must be defined as a key")
        self._check_identity_count(t)

    def mysql_change(self, t: Tab, c: Col, spec: N) -> None:
        n = self.new_col(spec)
        if n.name != c.name and t.col(n.name) is not None:
            raise SqlError("duplicate_column", f"Duplicate column name {n.name!r}")
        if n.type != c.type:
            for o in self.tables():
                for k in o.cons:
                    if k.kind == "f" and ((o is t and c.uid in k.cols) or (k.ref == t.uid and c.uid in k.refcols)):
                        # a length extension of a string column is tolerated
                        if not (n.type[0] == c.type[0] and n.type[0] in ("varchar", "char")):
                            raise SqlError("fk_column_change", f"Cannot change column {c.name!r}: used in a foreign key constraint {k.name!r}")
            for k in t.cons:
                if k.kind in "pu" and c.uid in k.cols:
                    self.check_key_type(n, k.kind)
        pk = t.pk is not None and c.uid in t.pk.cols
        if pk and n.nullable and spec.nullable:
            raise SqlError("pk_nullable", "All parts of a PRIMARY KEY must be NOT NULL")
        for rid, r in list(t.rows.items()):
            v = r.get(c.uid)
            if v is None and not n.nullable:
                raise SqlError("not_null_violation", f"Invalid use of NULL value for {c.name!r}")
            if n.type != c.type:
                r = dict(r)
                r[c.uid] = self.mysql_convert(v, c.type, n.type)
                t.rows[rid] = r
        old = c.name
        c.name, c.type, c.nullable = n.name, n.type, (False if pk else n.nullable)
        c.default, c.default_raw, c.identity, c.comment, c.charset = n.default, n.default_raw, n.identity, n.comment, n.charset
        if old != c.name:
            for k in t.cons:
                if k.kind == "c" and any(x[0] == "col" and x[2] == old for x in walk(k.expr)):
                    raise SqlError("check_column", f"Check constraint {k.name!r} uses column {old!r}, hence column cannot be dropped or renamed")

    def mysql_convert(self, v, a, b):
        if v is None:
            return None
        if isinstance(v, Json):
            v = v.text
        if b[0] in ("char", "varchar", "tinytext", "text", "mediumtext", "longtext") and not isinstance(v, (str, bytes)):
            v = self.to_text(v, a) if not isinstance(v, bool) else str(int(v))
        return self.ts.store(b, v, "value")

    # -- SQL Server
    def _alter_mssql(self, t: Tab, acts: List[N]) -> None:
        for a in acts:
            if a.k == "drop_con":
                self.drop_con(t, a.name)
            elif a.k == "drop_col":
                self.drop_col(t, a.name)
            elif a.k == "add_col":
                self.add_col(t, a.col)
            elif a.k == "add_con":
                self.add_constraint(t, a.con)
            elif a.k == "alter_col":
                c = self.need_col(t, a.name)
                ty = self.bind_type(a.type)
                pk = t.pk is not None and c.uid in t.pk.cols
                if ty != c.type:
                    grow = ty[0] == c.type[0] and ty[0] in ("varchar", "nvarchar", "varbinary")
                    for o in self.tables():
                        for k in o.cons:
                            hit = (o is t and c.uid in k.cols) or (k.kind == "f" and k.ref == t.uid and c.uid in k.refcols) or (
                                o is t and k.kind == "c" and any(x[0] == "col" and x[2] == c.name for x in walk(k.expr)))
                            if hit and not (k.kind in "uc" and grow):
                                raise SqlError("dependent_objects", f"The object {k.name!r} is dependent on column {c.name!r}")
                    if c.default is not None and ty[0] != c.type[0]:
                        raise SqlError("dependent_objects", f"The object {c.df_name!r} is dependent on column {c.name!r}")
                    if c.identity:
                        self.check_identity_type(Col(c.name, ty))
                if pk and a.nullable:
                    raise SqlError("pk_nullable", "cannot make primary key column nullable")
                if c.identity and a.nullable:
                    raise SqlError("identity_null", "identity column must be NOT NULL")
                for rid, r in list(t.rows.items()):
                    v = r.get(c.uid)
                    if v is None:
                        if not a.nullable:
                            raise SqlError("not_null_violation", f"Cannot insert the value NULL into column {c.name!r}")
                        continue
                    if ty != c.type:
                        r = dict(r)
                        r[c.uid] = self.mssql_convert(v, c.type, ty)
                        t.rows[rid] = r
                c.type, c.nullable = ty, a.nullable

    def mssql_convert(self, v, a, b):
        if b[0] in ("char", "varchar", "nchar", "nvarchar") and not isinstance(v, (str, bytes)):
            v = str(int(v)) if isinstance(v, bool) else self.to_text(v, a)
        elif isinstance(v, str) and b[0] in ("int", "bigint", "smallint", "tinyint") and v == "":
            v = 0
        return self.ts.store(b, v, "value")

    # -- Oracle
    def _alter_oracle(self, t: Tab, acts: List[N]) -> None:
        for a in acts:
            if a.k == "add_con":
                self.add_constraint(t, a.con)
            elif a.k == "add_col":
                self.add_col(t, a.col)
            elif a.k == "drop_con":
                self.drop_con(t, a.name)
            elif a.k == "drop_col":
                self.drop_col(t, a.name)
            elif a.k == "rename_col":
                c = self.need_col(t, a.name)
                if t.col(a.to) is not None:
                    raise SqlError("duplicate_column", "ORA-00957: duplicate column name")
                c.name = a.to
            elif a.k == "modify_ora":
                c = self.need_col(t, a.name)
                if a.type is not None:
                    ty = self.bind_type(a.type)
                    if ty != c.type:
                        lob = ("clob", "nclob", "blob")
                        if ty[0] in lob or c.type[0] in lob:
                            raise SqlError("lob_change", "ORA-22858: invalid alteration of datatype")
                        empty = all(r.get(c.uid) is None for r in t.rows.values())
                        same = ty[0] == c.type[0]
                        if not empty:
                            if not same:
                                raise SqlError("type_change_nonempty", "ORA-01439: column to be modified must be empty to change datatype")
                            if ty[0] == "number" and len(ty) > 1 and (len(c.type) == 1 or ty[1] < c.type[1]):
                                raise SqlError("type_change_nonempty", "ORA-01440: column to be modified must be empty to decrease precision")
                            for r in t.rows.values():
                                self.ts.store(ty, r.get(c.uid), "value")
                        for o in self.tables():
                            for k in o.cons:
                                if k.kind == "f" and not same and ((o is t and c.uid in k.cols) or (k.ref == t.uid and c.uid in k.refcols)):
                                    raise SqlError("fk_column_change", "ORA-02267/02256: column type incompatible with referenced column")
                        for k in t.cons:
                            if k.kind in "pu" and c.uid in k.cols:
                                self.check_key_type(Col(c.name, ty), k.kind)
                        c.type = ty
                if a.has_default:
                    if c.identity:
                        raise SqlError("identity_default", "ORA-30673: column to be modified is not an identity column")
                    if a.default == ("lit", None, "null"):
                        c.default, c.default_raw = None, "NULL"
                    else:
                        c.default, c.default_raw = a.default, a.default_raw
                        self.check_default(c)
                if a.nullable is not None:
                    if a.nullable == c.nullable:
                        raise SqlError("null_unchanged", "ORA-01442/01451: column nullability already as requested")
                    self.set_null(t, c, a.nullable)
                if a.identity is not None:
                    if a.identity:
                        raise SqlError("identity_change", "ORA-30673: column to be modified is not an identity column")
                    if not c.identity:
                        raise SqlError("identity_change", "ORA-30673")
                    c.identity = False

    # ------------------------------------------------------------------ keys and row checks
    def key_of(self, con: Con, row):
        out = []
        for u in con.cols:
            v = row.get(u)
            if v is None:
                if self.dialect == "mssql":
                    v = None
                else:
                    return None
            if isinstance(v, list):
                v = ("L", *v)
            if isinstance(v, bool):
                v = ("B", v)
            out.append(v)
        if self.dialect == "oracle" and all(x is None for x in out):
            return None
        return tuple(out)

    def get_index(self, t: Tab, con: Con) -> dict:
        ix = t.index.get(id(con))
        if ix is None:
            ix = {}
            for rid, r in t.rows.items():
                k = self.key_of(con, r)
                if k is not None:
                    ix[k] = rid
            t.index[id(con)] = ix
        return ix

    def find_conflict(self, t: Tab, row, con: Con) -> Optional[int]:
        k = self.key_of(con, row)
        if k is None:
            return None
        return self.get_index(t, con).get(k)

    def check_fk_row(self, t: Tab, con: Con, row) -> None:
        vals = [row.get(u) for u in con.cols]
        if any(v is None for v in vals):
            return
        rt = self.tab_by_uid(con.ref)
        target = next(k for k in rt.cons if k.kind in "pu" and set(k.cols) == set(con.refcols))
        m = dict(zip(con.refcols, vals))
        key = tuple(("B", m[u]) if isinstance(m[u], bool) else m[u] for u in target.cols)
        rid = self.get_index(rt, target).get(key)
        if rid is None:
            if rt is t and all(row.get(u) == m[u] for u in target.cols):
                return
            raise SqlError("foreign_key_violation", f"insert or update on table {t.name!r} violates foreign key {con.name!r}: {vals}")

    def check_check_row(self, t: Tab, con: Con, row) -> None:
        v = self.eval(con.expr, {"": (t, row)}, [])
        if v is False:
            raise SqlError("check_violation", f"new row for relation {t.name!r} violates check constraint {con.name!r}")

    def check_row(self, t: Tab, row) -> None:
        for c in t.cols:
            if not c.nullable and row.get(c.uid) is None:
                raise SqlError("not_null_violation", f"null value in column {c.name!r} of relation {t.name!r}")
        for k in t.cons:
            if k.kind == "c":
                self.check_check_row(t, k, row)

    def do_insert(self, t: Tab, row) -> int:
        self.check_row(t, row)
        for k in t.cons:
            if k.kind in "pu" and self.find_conflict(t, row, k) is not None:
                raise SqlError("unique_violation", f"duplicate key value violates unique constraint {k.name!r}: {self.key_of(k, row)}")
        for k in t.cons:
            if k.kind == "f":
                self.check_fk_row(t, k, row)
        rid = next(_uid)
        t.rows[rid] = row
        for k in t.cons:
            if k.kind in "pu" and id(k) in t.index:
                key = self.key_of(k, row)
                if key is not None:
                    t.index[id(k)][key] = rid
        if self.undo is not None:
            self.undo.append(("ins", t, rid))
        return rid

    def do_update(self, t: Tab, rid: int, row) -> None:
        old = t.rows[rid]
        if old == row:
            return
        self.check_row(t, row)
        for k in t.cons:
            if k.kind in "pu":
                hit = self.find_conflict(t, row, k)
                if hit is not None and hit != rid:
                    raise SqlError("unique_violation", f"duplicate key value violates unique constraint {k.name!r}")
            elif k.kind == "f":
                if any(old.get(u) != row.get(u) for u in k.cols):
                    self.check_fk_row(t, k, row)
        changed = {u for u in set(old) | set(row) if old.get(u) != row.get(u)}
        self._check_inbound(t, old, changed)
        t.rows[rid] = row
        for k in t.cons:
            if k.kind in "pu" and changed & set(k.cols) and id(k) in t.index:
                ix = t.index[id(k)]
                ix.pop(self.key_of(k, old), None)
                nk = self.key_of(k, row)
                if nk is not None:
                    ix[nk] = rid
        if self.undo is not None:
            self.undo.append(("upd", t, rid, old))

    def _check_inbound(self, t: Tab, old, changed=None, gone=None) -> None:
        for o in self.tables():
            for k in o.cons:
                if k.kind != "f" or k.ref != t.uid:
                    continue
                if changed is not None and not (changed & set(k.refcols)):
                    continue
                key = [old.get(u) for u in k.refcols]
                if any(v is None for v in key):
                    continue
                for rid, r in o.rows.items():
                    if gone is not None and o is t and rid in gone:
                        continue
                    if [r.get(u) for u in k.cols] == key:
                        raise SqlError("foreign_key_violation", f"update or delete on table {t.name!r} violates foreign key {k.name!r} on {o.name!r}")

    def do_delete(self, t: Tab, rids: List[int]) -> None:
        gone = set(rids)
        for rid in rids:
            self._check_inbound(t, t.rows[rid], None, gone)
        for rid in rids:
            old = t.rows.pop(rid)
            for k in t.cons:
                if k.kind in "pu" and id(k) in t.index:
                    t.index[id(k)].pop(self.key_of(k, old), None)
            if self.undo is not None:
                self.undo.append(("del", t, rid, old))

    # ------------------------------------------------------------------ expression evaluation
    def eval_into(self, ty: tuple, e, env, params) -> Any:
        """Evaluates an expression whose result is assigned to a value of the given type."""
        k = e[0]
        if k == "paren":
            return self.eval_into(ty, e[1], env, params)
        if k == "lit":
            if e[2] == "null":
                return None
            if e[2] == "hex":
                return self.ts.store(ty, bytes.fromhex(e[1]), "value")
            return self.ts.store(ty, e[1], {"str": "str", "num": "num", "bool": "bool"}[e[2]])
        if k == "typedlit":
            if e[1] == "timestamp":
                v: Any = self.ts_parse(e[2])
            elif e[1] == "date":
                v = self.ts_parse(e[2]).date()
            elif e[1] == "time":
                from .values import parse_time

                v = parse_time(e[2])
            else:
                raise Unsupported("interval literal")
            return self.ts.store(ty, v, "value")
        if k == "param":
            if not 1 <= e[1] <= len(params):
                raise SqlError("param_count", f"parameter {e[1]} out of range ({len(params)} supplied)")
            v = self.encode(ty, params[e[1] - 1])
            return self.ts.store(ty, v, "value")
        if k == "value":
            return e[1]
        if k == "row" and ty[0] == "user":
            t = self.type_of(ty)
            if t.kind == "struct":
                if len(e[1]) != len(t.members):
                    raise SqlError("datatype_mismatch", "cannot cast record to composite: wrong number of columns")
                return tuple(self.eval_into(m[1], x, env, params) for m, x in zip(t.members, e[1]))
        if k == "array" and ty[0] == "array":
            return [self.eval_into(ty[1], x, env, params) for x in e[1]]
        if k == "cast":
            cty = self.bind_type(e[2])
            v = self.eval_into(cty, e[1], env, params) if e[1][0] in ("lit", "row", "array") else self.cast(self.eval(e[1], env, params), cty)
            if cty == ty:
                return v
            return self.pg_cast_value(v, cty, ty) if self.dialect == "postgresql" else self.ts.store(ty, v, "value")
        if k == "fn":
            return self.ts.store(ty, self.call(e, env, params), "value")
        if k == "col":
            t, row, c = self.lookup(e, env)
            v = row.get(c.uid)
            if c.type == ty or v is None:
                return v
            if self.dialect == "postgresql":
                if not self.pg_castable(c.type, ty):
                    raise SqlError("datatype_mismatch", f"column is of type {ty} but expression is of type {c.type}")
                return self.pg_cast_value(v, c.type, ty)
            if isinstance(v, Json):
                v = v.text
            return self.ts.store(ty, v, "value")
        v = self.eval(e, env, params)
        return self.ts.store(ty, v, "value")

    def ts_parse(self, s):
        from .values import parse_ts

        return parse_ts(s)

    def call(self, e, env, params):
        name = e[1]
        if name in ("CURRENT_TIMESTAMP", "NOW", "LOCALTIMESTAMP", "GETDATE", "SYSDATETIME"):
            return dt.datetime(2024, 1, 2, 3, 4, 5)
        if name == "CURRENT_DATE":
            return dt.date(2024, 1, 2)
        if name in ("CHAR_LENGTH", "LENGTH", "LEN"):
            v = self.eval(e[2][0], env, params)
            return None if v is None else len(v)
        if name in ("GEN_RANDOM_UUID", "UUID", "NEWID"):
            return uuid.uuid4()
        args = [self.eval(a, env, params) for a in e[2]]
        if name == "COALESCE":
            return next((a for a in args if a is not None), None)
        if name == "CONCAT":
            return None if self.dialect == "mysql" and None in args else "".join(str(a) for a in args if a is not None)
        if name == "NULLIF" and len(args) == 2:
            return None if args[0] == args[1] else args[0]
        texts = {"LOWER": str.lower, "UPPER": str.upper, "TRIM": lambda s: s.strip(" "), "LTRIM": lambda s: s.lstrip(" "), "RTRIM": lambda s: s.rstrip(" "), "BTRIM": lambda s: s.strip(" ")}
        if name in texts and len(args) == 1 and (args[0] is None or isinstance(args[0], str)):
            return None if args[0] is None else texts[name](args[0])
        raise Unsupported(f"function {name}")

    def cast(self, v, ty):
        if v is None:
            return None
        if ty[0] in ("varchar", "text", "char"):
            return self.ts.store(ty, self.to_text(v, None), "str")
        return self.ts.store(ty, v, "value")

    def lookup(self, e, env):
        quals, name, quoted = e[1], e[2], e[3]
        q = quals[-1] if quals else None
        hits = []
        for alias, (t, row) in env.items():
            if q is not None and not _same(alias, q):
                continue
            if isinstance(t, Tab):
                c = t.col(name)
                if c is not None:
                    hits.append((t, row, c))
            else:  # virtual source: dict name -> (type, value)
                if name in t:
                    hits.append((None, row, t[name]))
        if not hits:
            raise SqlError("undefined_column", f"column {'.'.join([*quals, name])!r} does not exist")
        if len(hits) > 1:
            raise SqlError("ambiguous_column", f"column reference {name!r} is ambiguous")
        return hits[0]

    def eval(self, e, env, params, hint: Optional[tuple] = None) -> Any:
        k = e[0]
        if k == "paren":
            return self.eval(e[1], env, params, hint)
        if k == "lit":
            if e[2] == "num":
                d = to_decimal(e[1])
                return int(d) if d == d.to_integral_value() else d
            return e[1]
        if k == "value":
            return e[1]
        if k == "param":
            if not 1 <= e[1] <= len(params):
                raise SqlError("param_count", f"parameter {e[1]} out of range ({len(params)} supplied)")
            if hint is not None:
                return self.coerce_cmp(hint, self.encode(hint, params[e[1] - 1]))
            return params[e[1] - 1]
        if k == "col":
            t, row, c = self.lookup(e, env)
            return row.get(c.uid)
        if k == "cast":
            return self.cast(self.eval(e[1], env, params), self.bind_type(e[2]))
        if k == "fn":
            return self.call(e, env, params)
        if k == "un":
            v = self.eval(e[2], env, params)
            if e[1] == "not":
                return None if v is None else not v
            return None if v is None else -v
        if k == "isnull":
            v = self.eval(e[1], env, params)
            return (v is not None) if e[2] else (v is None)
        if k == "in":
            v = self.eval(e[1], env, params)
            if v is None:
                return None
            ty = self.static_type(e[1], env)
            vals = [self.eval_cmp(x, env, params, ty) for x in e[2]]
            r = v in [x for x in vals if x is not None]
            if not r and any(x is None for x in vals):
                return None
            return (not r) if e[3] else r
        if k == "like":
            import re as _re

            v = self.eval(e[1], env, params)
            p = self.eval(e[2], env, params)
            if v is None or p is None:
                return None
            r = like(v, p, e[3], self.dialect)
            return (not r) if e[4] else r
        if k == "between":
            v, lo, hi = (self.eval(x, env, params) for x in e[1:4])
            if v is None or lo is None or hi is None:
                return None
            r = lo <= v <= hi
            return (not r) if e[4] else r
        if k == "op":
            o = e[1]
            if o in ("and", "or"):
                a = self.eval(e[2], env, params)
                b = self.eval(e[3], env, params)
                if o == "and":
                    if a is False or b is False:
                        return False
                    return None if a is None or b is None else True
                if a is True or b is True:
                    return True
                return None if a is None or b is None else False
            ta, tb = self.static_type(e[2], env), self.static_type(e[3], env)
            a = self.eval_cmp(e[2], env, params, tb)
            b = self.eval_cmp(e[3], env, params, ta)
            if a is None or b is None:
                return None
            if o in ("=", "<>", "<", ">", "<=", ">="):
                if ta is not None and tb is not None:
                    a, b = self.harmonize(a, ta, b, tb)
                try:
                    return {"=": lambda: a == b, "<>": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b}[o]()
                except TypeError:
                    raise SqlError("datatype_mismatch", f"operator does not exist: {a!r} {o} {b!r}")
            if o == "||":
                return str(a) + str(b)
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "%": lambda: a % b}[o]()
        raise Unsupported(f"expression {k}")

    def static_type(self, e, env) -> Optional[tuple]:
        if e[0] == "col":
            t, row, c = self.lookup(e, env)
            return c.type
        if e[0] == "cast":
            return self.bind_type(e[2])
        return None

    def eval_cmp(self, e, env, params, other_ty):
        if other_ty is not None and e[0] == "lit" and e[2] != "null":
            return self.coerce_cmp(other_ty, bytes.fromhex(e[1]) if e[2] == "hex" else e[1], {"str": "str", "num": "num", "bool": "bool", "hex": "value"}[e[2]])
        return self.eval(e, env, params, other_ty)

    def coerce_cmp(self, ty, v, kind="value"):
        """Value to be compared with a column of the given type: no length limits apply."""
        if v is None:
            return None
        base = ty
        if ty[0] in ("varchar", "char", "nvarchar", "nchar", "varchar2", "nvarchar2"):
            if isinstance(v, str):
                return v if self.dialect != "oracle" or v != "" else None
            if self.dialect == "mysql" and not isinstance(v, bytes):
                return str(v)
        if ty[0] in ("binary", "varbinary", "raw") and isinstance(v, (bytes, bytearray)):
            return bytes(v)
        if ty[0] in ("binary", "varbinary") and self.dialect == "mysql" and isinstance(v, str):
            return v.encode()
        if ty[0] == "enum" and isinstance(v, str):
            return v
        if ty[0] in ("timestamp", "datetime", "datetime2", "time", "decimal", "numeric", "number", "smallint", "int", "integer", "bigint", "tinyint", "mediumint"):
            # comparisons do not round or overflow
            try:
                if ty[0] in ("timestamp", "datetime", "datetime2") and isinstance(v, str):
                    return self.ts.store((ty[0], 6), v, kind)
                if ty[0] in ("timestamp", "datetime", "datetime2") and isinstance(v, dt.datetime):
                    return v.replace(tzinfo=None)
                if isinstance(v, (int, Decimal)) or kind == "num":
                    d = to_decimal(v)
                    return int(d) if d.is_finite() and d == d.to_integral_value() else d
            except SqlError:
                raise
        return self.ts.store(base, v, kind)

    def harmonize(self, a, ta, b, tb):
        if self.dialect == "postgresql":
            txt = ("text", "varchar", "char")
            num = ("smallint", "integer", "bigint", "numeric", "real", "double precision")
            if ta == tb or (ta[0] in txt and tb[0] in txt) or (ta[0] in num and tb[0] in num) or ta[0] == tb[0]:
                return a, b
            raise SqlError("undefined_operator", f"operator does not exist: {ta} = {tb}")
        if self.dialect == "mysql" and {ta[0], tb[0]} & {"enum"}:
            return str(a), str(b)
        return a, b

    # ------------------------------------------------------------------ DML
    def build_row(self, t: Tab, cols: List[Col], exprs, env, params) -> dict:
        if len(exprs) != len(cols):
            raise SqlError("column_count", f"INSERT has {len(exprs)} expressions for {len(cols)} target columns")
        row: Dict[int, Any] = {}
        for c, e in zip(cols, exprs):
            if e[0] == "default":
                continue
            v = self.eval_into(c.type, e, env, params)
            if c.identity:
                if self.dialect == "mssql":
                    raise SqlError("identity_insert", f"Cannot insert explicit value for identity column in table {t.name!r}")
                if self.dialect == "mysql":
                    if v is None:
                        continue
                    if isinstance(v, int) and v >= t.next_id:
                        t.next_id = v + 1
            row[c.uid] = v
        self.fill_defaults(t, row)
        return row

    def fill_defaults(self, t: Tab, row) -> None:
        for c in t.cols:
            if c.uid not in row:
                if c.identity:
                    row[c.uid] = t.next_id
                    t.next_id += 1
                elif c.default is not None:
                    row[c.uid] = self.eval_default(c)
                else:
                    if self.dialect == "mysql" and not c.nullable:
                        raise SqlError("no_default", f"Field {c.name!r} doesn't have a default value")
                    row[c.uid] = None

    def x_insert(self, n: N, params, ev):
        t = self.find_table(n.name)
        ev.targets.append(("table", t.schema, t.name))
        cols = [self.need_col(t, x) for x in n.cols] if n.cols is not None else list(t.cols)
        if len({c.uid for c in cols}) != len(cols):
            raise SqlError("duplicate_column", "column specified more than once")
        count = 0
        rows = n.rows
        if n.select is not None:
            _, data = self.x_select(n.select, params, ev)
            rows = [[("value", v) for v in r] for r in data]
        if n.rows is not None and self.dialect == "oracle" and len(n.rows) > 1:
            pass  # multi-row VALUES exists since 23ai, like the boolean type
        done: set = set()
        for exprs in rows:
            if len(exprs) == 1 and exprs[0][0] == "row" and len(cols) > 1:
                exprs = exprs[0][1]
            row = self.build_row(t, cols, exprs, {}, params)
            if n.conflict is not None:
                target, sets = n.conflict
                if sets is None and target is None:
                    self.check_row(t, row)
                    if any(self.find_conflict(t, row, k) is not None for k in t.cons if k.kind in "pu"):
                        continue
                else:
                    uids = {self.need_col(t, x).uid for x in target}
                    arb = [k for k in t.cons if k.kind in "pu" and set(k.cols) == uids]
                    if not arb:
                        raise SqlError("no_arbiter", "there is no unique or exclusion constraint matching the ON CONFLICT specification")
                    self.check_row(t, row)
                    hit = next((h for h in (self.find_conflict(t, row, k) for k in arb) if h is not None), None)
                    if hit is not None:
                        if sets is None:
                            continue
                        if hit in done:
                            raise SqlError("cardinality", "ON CONFLICT DO UPDATE command cannot affect row a second time")
                        self._conflict_update(t, hit, row, sets, params, "excluded")
                        done.add(hit)
                        count += 1
                        continue
                done.add(self.do_insert(t, row))
                count += 1
                continue
            if n.dup is not None:
                self.check_row(t, row)
                hit = None
                for k in [*(x for x in t.cons if x.kind == "p"), *(x for x in t.cons if x.kind == "u")]:
                    hit = self.find_conflict(t, row, k)
                    if hit is not None:
                        break
                if hit is not None:
                    self._conflict_update(t, hit, row, n.dup, params, "values")
                    count += 1
                    continue
            self.do_insert(t, row)
            count += 1
        ev.count = count
        return count

    def _conflict_update(self, t: Tab, rid: int, new, sets, params, style: str) -> None:
        cur = t.rows[rid]
        out = dict(cur)
        if style == "excluded":
            env = {t.name: (t, cur), "excluded": (t, new)}
            for (quals, name), e in sets:
                c = self.need_col(t, name)
                if e[0] == "col" and e[1] and e[1][-1].lower() == "excluded":
                    out[c.uid] = self.eval_into(c.type, ("col", ("excluded",), e[2], True), env, params)
                else:
                    out[c.uid] = self.eval_into(c.type, e, env, params)
        else:
            for (quals, name), e in sets:
                c = self.need_col(t, name)
                if e[0] == "fn" and e[1] == "VALUES":
                    src = self.need_col(t, e[2][0][2])
                    out[c.uid] = new.get(src.uid)
                else:
                    out[c.uid] = self.eval_into(c.type, e, {t.name: (t, out)}, params)
        self.do_update(t, rid, out)

    def x_merge(self, n: N, params, ev):
        t = self.find_table(n.name)
        ev.targets.append(("table", t.schema, t.name))
        count = 0
        for exprs in n.rows:
            if len(exprs) != len(n.scols):
                raise SqlError("column_count", "source column list does not match")
            if len(set(n.scols)) != len(n.scols):
                raise SqlError("duplicate_column", "duplicate source column")
            # a source column takes the type of the target column it is compared with or assigned to
            virt: Dict[str, Col] = {}
            vrow: Dict[int, Any] = {}
            for name, e in zip(n.scols, exprs):
                tc = t.col(name)
                ty = tc.type if tc is not None else ("text",)
                c = Col(name, ty)
                if tc is not None and tc.type[0] in ("varchar", "char", "nvarchar", "varchar2", "nchar"):
                    pass
                v = self.eval_into(ty, e, {}, params)
                virt[name] = c
                vrow[c.uid] = v
            st = Tab("", n.salias)
            st.cols = list(virt.values())
            hits = []
            fast = self._merge_fast(t, n, st, vrow)
            cand = fast if fast is not None else list(t.rows)
            for rid in cand:
                env = {n.talias: (t, t.rows[rid]), n.salias: (st, vrow)}
                if self.eval(n.cond, env, params) is True:
                    hits.append(rid)
            if fast is None and not t.rows:
                # binding errors must surface even when the target is empty
                env = {n.talias: (t, {}), n.salias: (st, vrow)}
                self.eval(n.cond, env, params)
            if hits:
                if n.upd is not None:
                    if self.dialect == "oracle" and len(hits) > 1:
                        pass
                    for rid in hits:
                        env = {n.talias: (t, t.rows[rid]), n.salias: (st, vrow)}
                        out = dict(t.rows[rid])
                        for (quals, name), e in n.upd:
                            c = self.need_col(t, name)
                            if c.identity:
                                raise SqlError("identity_update", f"Cannot update identity column {name!r}")
                            if self.dialect == "oracle" and any(
                                x[0] == "col" and x[2] == name and _same(x[1][-1] if x[1] else "", n.talias) for x in walk(n.cond)):
                                raise SqlError("on_clause_update", f"ORA-38104: Columns referenced in the ON Clause cannot be updated: {name}")
                            out[c.uid] = self.eval_into(c.type, e, env, params)
                        self.do_update(t, rid, out)
                        count += 1
            elif n.ins is not None:
                cols = [self.need_col(t, x) for x in n.ins[0]]
                row = self.build_row(t, cols, n.ins[1], {n.salias: (st, vrow)}, params)
                self.do_insert(t, row)
                count += 1
        ev.count = count
        return count

    def _merge_fast(self, t: Tab, n: N, st: Tab, vrow):
        """Candidate rows when the condition is an OR of equalities on single-column keys."""
        out: list = []

        def terms(e):
            if e[0] == "op" and e[1] == "or":
                return terms(e[2]) and terms(e[3])
            if e[0] == "op" and e[1] == "=" and e[2][0] == "col" and e[3][0] == "col":
                a, b = e[2], e[3]
                if not (a[1] and b[1]):
                    return False
                if _same(a[1][-1], n.salias):
                    a, b = b, a
                if not (_same(a[1][-1], n.talias) and _same(b[1][-1], n.salias)):
                    return False
                c, s = t.col(a[2]), st.col(b[2])
                if c is None or s is None:
                    return False
                con = next((k for k in t.cons if k.kind in "pu" and k.cols == [c.uid]), None)
                if con is None:
                    return False
                v = vrow.get(s.uid)
                if v is None:
                    return True
                rid = self.get_index(t, con).get((("B", v) if isinstance(v, bool) else v,))
                if rid is not None and rid not in out:
                    out.append(rid)
                return True
            return False

        return out if terms(n.cond) else None

    def x_update(self, n: N, params, ev):
        t = self.find_table(n.name)
        ev.targets.append(("table", t.schema, t.name))
        alias = n.alias or t.name
        sources = [(self.find_table(j[0]), j[1] or j[0][1], j[2]) for j in n.joins] + [(self.find_table(f[0]), f[1] or f[0][1], None) for f in n.frm]
        count = 0
        changes = []
        for rid in list(t.rows):
            env = {alias: (t, t.rows[rid])}
            combos = [env]
            for st, sa, cond in sources:
                nxt = []
                for base in combos:
                    for r in st.rows.values():
                        e2 = dict(base)
                        e2[sa] = (st, r)
                        if cond is None or self.eval(cond, e2, params) is True:
                            nxt.append(e2)
                combos = nxt
            for e2 in combos:
                if n.where is None or self.eval(n.where, e2, params) is True:
                    out = dict(t.rows[rid])
                    for (quals, name), e in n.sets:
                        c = self.need_col(t, name)
                        out[c.uid] = self.eval_into(c.type, e, e2, params)
                    changes.append((rid, out))
                    break
        if not t.rows:
            for (quals, name), e in n.sets:
                self.need_col(t, name)
            env = {alias: (t, {})}
            for st, sa, cond in sources:
                env[sa] = (st, {})
            for st, sa, cond in sources:
                if cond is not None:
                    self.eval(cond, env, params)
            if n.where is not None:
                self.eval(n.where, env, params)
        for rid, out in changes:
            self.do_update(t, rid, out)
            count += 1
        ev.count = count
        return count

    def x_delete(self, n: N, params, ev):
        t = self.find_table(n.name)
        ev.targets.append(("table", t.schema, t.name))
        rids = []
        cand = list(t.rows)
        if n.where is not None and n.where[0] == "op" and n.where[1] == "=" and n.where[2][0] == "col":
            c = self.need_col(t, n.where[2][2])
            con = next((k for k in t.cons if k.kind in "pu" and k.cols == [c.uid]), None)
            v = self.eval_cmp(n.where[3], {t.name: (t, {})}, params, c.type)
            if con is not None and n.where[3][0] in ("param", "lit"):
                cand = [self.get_index(t, con)[(("B", v) if isinstance(v, bool) else v,)]] if (("B", v) if isinstance(v, bool) else v,) in self.get_index(t, con) else []
                self.do_delete(t, cand)
                ev.count = len(cand)
                return len(cand)
        for rid in cand:
            if n.where is None or self.eval(n.where, {t.name: (t, t.rows[rid])}, params) is True:
                rids.append(rid)
        self.do_delete(t, rids)
        ev.count = len(rids)
        return len(rids)

    def x_select(self, n: N, params, ev):
        if n.frm is None:
            vals = []
            for e, nm in n.items:
                if e[0] == "fn":
                    vals.append(self.scalar_fn(e))
                else:
                    vals.append(self.eval(e, {}, params))
            return [nm for _, nm in n.items], [tuple(vals)]
        t = self.find_table(n.frm[0])
        alias = n.frm[1] or t.name
        ev.targets.append(("table", t.schema, t.name))
        names: List[str] = []
        exprs = []
        for e, nm in n.items:
            if e[0] == "star":
                for c in t.cols:
                    names.append(c.name)
                    exprs.append(("col", (), c.name, True))
            else:
                names.append(nm)
                exprs.append(e)
        if len(exprs) == 1 and exprs[0][0] == "fn" and exprs[0][1] == "COUNT":
            rows = [r for r in t.rows.values() if n.where is None or self.eval(n.where, {alias: (t, r)}, params) is True]
            return names, [(len(rows),)]
        out = []
        for r in t.rows.values():
            env = {alias: (t, r)}
            if n.where is None or self.eval(n.where, env, params) is True:
                out.append((tuple(self.eval(e, env, params) for e in exprs), r, env))
        if not t.rows:
            env = {alias: (t, {})}
            for e in exprs:
                self.eval(e, env, params)
        if n.order:
            out.sort(key=lambda x: tuple(self.eval(o, x[2], params) for o in n.order))
        rows = [x[0] for x in out]
        if n.distinct:
            seen, uniq = set(), []
            for r in rows:
                if r not in seen:
                    seen.add(r)
                    uniq.append(r)
            rows = uniq
        return names, rows

    def scalar_fn(self, e):
        name = e[1]
        if name in ("CURRENT_SCHEMA", "SCHEMA_NAME", "SYS_CONTEXT"):
            return self.default
        if name == "DATABASE":
            return self.database
        return self.call(e, {}, [])

    def x_mssql_if(self, n: N, params, ev):
        # IF [NOT] EXISTS ( SELECT * FROM sys.schemas WHERE name = N'..' ) EXEC('..');
        from .catalogdb import query_catalog

        rows = query_catalog(self, n.query)[1]
        exists = bool(rows)
        if exists != n.neg:
            for ast, text in self.parse(n.body):
                self.run_one(ast, text, None)

    def x_plsql(self, n: N, params, ev):
        for b in n.bodies:
            try:
                for ast, text in self.parse(b):
                    self.run_one(ast, text, None)
            except SqlError as e:
                if n.ignore == -942 and e.code == "undefined_table":
                    return
                raise

    # ------------------------------------------------------------------ inspection for monitors
    def dump_rows(self, t: Tab) -> List[dict]:
        return [{c.name: r.get(c.uid) for c in t.cols} for r in t.rows.values()]

    def describe_type(self, ty: tuple) -> tuple:
        if ty[0] == "user":
            t = self.types[ty[1]]
            return (t.kind, t.schema, t.name)
        if ty[0] == "array":
            return ("array", self.describe_type(ty[1]))
        return ty

    def describe(self, *, ignore_comments: bool = False) -> dict:
        """Canonical description of the whole catalogue, independent of object ids and column/constraint order."""
        out: Dict[str, Any] = {}
        for sname, tabs in self.schemas.items():
            sd: Dict[str, Any] = {"tables": {}, "enums": {}, "structs": {}}
            for t in tabs.values():
                td: Dict[str, Any] = {"columns": {}, "constraints": {}, "comment": t.comment}
                for c in t.cols:
                    dv = None
                    if c.default is not None:
                        try:
                            dv = ("value", self.eval_default(c))
                        except (SqlError, Unsupported):
                            dv = ("raw", c.default)
                        if dv == ("value", None):
                            dv = None
                    td["columns"][c.name] = {
                        "type": self.describe_type(c.type), "nullable": c.nullable, "default": dv, "identity": c.identity, "comment": c.comment,
                    }
                for k in t.cons:
                    kd: Dict[str, Any] = {"kind": k.kind, "cols": t.names(k.cols)}
                    if k.kind == "f":
                        rt = self.tab_by_uid(k.ref)
                        kd["ref"] = (rt.schema, rt.name, rt.names(k.refcols))
                    if k.kind == "c":
                        kd["expr"] = norm_expr(k.expr)
                    td["constraints"][k.name] = kd
                sd["tables"][t.name] = td
            for ty in self.types.values():
                if ty.schema != sname:
                    continue
                if ty.kind == "enum":
                    sd["enums"][ty.name] = list(ty.values)
                else:
                    sd["structs"][ty.name] = {"members": [(m[0], self.describe_type(m[1]), m[2]) for m in ty.members], "comment": ty.comment}
            out[sname] = sd
        return out


def like(v: str, p: str, esc: Optional[str], dialect: str) -> bool:
    import re as _re

    if esc is None and dialect in ("postgresql", "mysql"):
        esc = "\\"
    rx, i = [], 0
    while i < len(p):
        ch = p[i]
        if esc and ch == esc and i + 1 < len(p):
            rx.append(_re.escape(p[i + 1]))
            i += 2
            continue
        rx.append(".*" if ch == "%" else "." if ch == "_" else _re.escape(ch))
        i += 1
    return _re.match("(?s)^" + "".join(rx) + r"\Z", v) is not None


def norm_expr(e):
    if isinstance(e, tuple) and e and e[0] == "col":
        return ("col", e[2])
    if isinstance(e, (tuple, list)):
        return tuple(norm_expr(x) for x in e)
    return e


def _same(a: str, b: str) -> bool:
    return a == b or a.lower() == b.lower()


def walk(e):
    if isinstance(e, tuple):
        if e and isinstance(e[0], str):
            yield e
        for x in e[1:] if e and isinstance(e[0], str) else e:
            yield from walk(x)
    elif isinstance(e, list):
        for x in e:
            yield from walk(x)


def rename_in(e, old, new):
    if isinstance(e, tuple) and e and e[0] == "col" and e[2] == old:
        return ("col", e[1], new, e[3])
    if isinstance(e, tuple):
        return tuple(rename_in(x, old, new) for x in e)
    if isinstance(e, list):
        return [rename_in(x, old, new) for x in e]
    return e
