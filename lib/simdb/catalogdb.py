"""Catalogue views (pg_catalog, information_schema, sys, dba_*) of a simulated server, queried with the text a client sends."""

from __future__ import annotations

import datetime as dt
import decimal
import json
import random
import re
import sqlite3
from typing import Any, List, Tuple

from .lexer import SqlError, tokenize

# ---------------------------------------------------------------------------------------------------- type rendering
_PG_INTERNAL = {
    "bigint": "int8", "integer": "int4", "smallint": "int2", "boolean": "bool", "real": "float4", "double precision": "float8",
    "char": "bpchar",
}
_PG_FORMAT = {"char": "character", "varchar": "character varying"}


def pg_format(server, ty: tuple) -> str:
    if ty[0] == "array":
        return pg_format(server, ty[1]) + "[]"
    if ty[0] == "user":
        t = server.types[ty[1]]
        return pg_ident(t.name) if t.schema == server.default else f"{pg_ident(t.schema)}.{pg_ident(t.name)}"
    name = _PG_FORMAT.get(ty[0], ty[0])
    args = ty[1:]
    if ty[0] == "char" and not args:
        args = (1,)
    if ty[0] == "numeric" and len(args) == 1:
        args = (args[0], 0)
    suffix = f"({','.join(str(a) for a in args)})" if args else ""
    if name in ("timestamp", "time"):
        return f"{name}{suffix} without time zone"
    if name in ("timestamptz", "timetz"):
        return f"{name[:-2]}{suffix} with time zone"
    return name + suffix


def pg_ident(name: str) -> str:
    if re.fullmatch(r"[a-z_][a-z0-9_]*", name):
        return name
    return '"' + name.replace('"', '""') + '"'


def pg_literal(s: str) -> str:
    """A literal in a deparsed expression (`simple_quote_literal`, which never uses the form E'')."""
    return "'" + s.replace("'", "''") + "'"


def pg_expr(server, col) -> str:
    """pg_get_expr of a column default."""
    ty, e = col.type, col.default
    while e[0] == "paren":
        e = e[1]
    if e[0] == "fn":
        return e[1] if e[1].startswith("CURRENT_") else e[1].lower() + "()"
    v = server.eval_default(col)
    if e[0] == "lit" and e[2] == "num":
        # the literal as parsed (type int4, int8 or numeric); its implicit conversion to the column type is not shown
        lit = e[1]
        kind = "numeric" if not re.fullmatch(r"-?\d+", lit) else "integer" if -(2**31) <= int(lit) < 2**31 else "bigint"
        return lit if not lit.startswith("-") and kind != "bigint" else f"'{lit}'::{kind}"
    return pg_const(server, ty, v, bare_num=True)


def pg_const(server, ty, v, bare_num=False) -> str:
    f = pg_format(server, ty)
    base = re.sub(r"\([^)]*\)", "", f)
    if v is None:
        return f"NULL::{base}"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, decimal.Decimal, float)) and not isinstance(v, bool):
        s = repr(v) if isinstance(v, float) else str(v)
        if ty[0] in ("integer", "bigint", "smallint") and v >= 0:
            return s
        if ty[0] == "numeric" and v >= 0:
            return s
        if ty[0] in ("smallint", "bigint") and v < 0:
            # the literal itself is an int4, coerced implicitly
            return f"'{s}'::integer"
        if ty[0] in ("real", "double precision") and v >= 0:
            t = s[:-2] if s.endswith(".0") else s
            return t
        return f"'{s}'::{'numeric' if ty[0] in ('real', 'double precision') else base}"
    if isinstance(v, dt.datetime):
        return f"{pg_literal(v.isoformat(sep=' '))}::timestamp without time zone"
    if isinstance(v, dt.date):
        return f"'{v.isoformat()}'::date"
    if isinstance(v, dt.time):
        return f"'{v.isoformat()}'::time without time zone"
    if isinstance(v, (bytes, bytearray)):
        return f"'\\x{bytes(v).hex()}'::bytea"
    if isinstance(v, tuple) and ty[0] == "user":
        t = server.types[ty[1]]
        inner = ", ".join(pg_const(server, m[1], x) for m, x in zip(t.members, v))
        return f"ROW({inner})::{f}"
    if isinstance(v, list) and ty[0] == "array":
        return f"ARRAY[{', '.join(pg_const(server, ty[1], x) for x in v)}]::{f}"
    return f"{pg_literal(str(getattr(v, 'text', v)))}::{base if ty[0] != 'user' else f}"


def mysql_enum_item(value: str) -> str:
    """A value of an enumeration in COLUMN_TYPE (`append_unescaped`)."""
    for a, b in (("\\", "\\\\"), ("\0", "\\0"), ("\n", "\\n"), ("\r", "\\r"), ("'", "''")):
        value = value.replace(a, b)
    return f"'{value}'"


def mysql_column_type(ty: tuple) -> str:
    name, args = ty[0], ty[1:]
    if name == "enum":
        return "enum(" + ",".join(mysql_enum_item(v) for v in args[0]) + ")"
    unsigned = ""
    if name.endswith(" unsigned"):
        name, unsigned = name[:-9], " unsigned"
    if name == "decimal":
        p = args[0] if args else 10
        s = args[1] if len(args) > 1 else 0
        return f"decimal({p},{s}){unsigned}"
    if name in ("char", "binary") and not args:
        args = (1,)
    if name in ("smallint", "int", "bigint", "mediumint") or (name == "tinyint" and args != (1,)):
        args = ()
    return name + (f"({','.join(str(a) for a in args)})" if args else "") + unsigned


_TEXT_MAX = {"tinytext": 255, "text": 65535, "mediumtext": 16777215, "longtext": 4294967295,
             "tinyblob": 255, "blob": 65535, "mediumblob": 16777215, "longblob": 4294967295}
_INT_PREC = {"mysql": {"tinyint": 3, "smallint": 5, "mediumint": 7, "int": 10, "bigint": 19},
             "mssql": {"tinyint": 3, "smallint": 5, "int": 10, "bigint": 19}}


def ansi_columns(server, c) -> dict:
    """Type-describing columns of information_schema.columns."""
    ty = c.type
    name, args = ty[0], ty[1:]
    d = server.dialect
    out = dict(data_type=name.replace(" unsigned", ""), character_maximum_length=None, numeric_precision=None, numeric_scale=None,
               datetime_precision=None)
    base = name.replace(" unsigned", "")
    if base in _INT_PREC[d]:
        out.update(numeric_precision=_INT_PREC[d][base], numeric_scale=0)
    elif base in ("decimal", "numeric"):
        p = args[0] if args else (10 if d == "mysql" else 18)
        out.update(numeric_precision=p, numeric_scale=args[1] if len(args) > 1 else 0)
    elif base in ("double", "float", "real"):
        if d == "mysql":
            out.update(numeric_precision=22 if base == "double" else 12)
        elif base == "real":
            out.update(numeric_precision=24)
        else:
            n = args[0] if args else 53
            if n <= 24:
                out.update(data_type="real", numeric_precision=24)
            else:
                out.update(numeric_precision=53)
    elif base in ("char", "varchar", "nchar", "nvarchar", "binary", "varbinary"):
        n = args[0] if args else 1
        out.update(character_maximum_length=-1 if n == "max" else n)
    elif base in _TEXT_MAX:
        out.update(character_maximum_length=_TEXT_MAX[base] if d == "mysql" else 2147483647)
    elif base == "enum":
        out.update(character_maximum_length=max(len(v) for v in args[0]))
    elif base in ("datetime", "timestamp", "time", "datetime2", "datetimeoffset"):
        if d == "mysql":
            out.update(datetime_precision=args[0] if args else 0)
        else:
            out.update(datetime_precision=3 if base == "datetime" else (args[0] if args else 7))
    elif base == "date" and d == "mssql":
        out.update(datetime_precision=0)
    return out


def mysql_default(server, c):
    if c.default is None:
        return None
    e = c.default
    if e[0] == "paren":
        return c.default_raw[1:-1]
    if e[0] == "fn":
        return "CURRENT_TIMESTAMP" + (f"({c.type[1]})" if len(c.type) > 1 and c.type[1] else "")
    v = server.eval_default(c)
    if v is None:
        return None
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, dt.datetime):
        p = c.type[1] if len(c.type) > 1 else 0
        s = v.strftime("%Y-%m-%d %H:%M:%S")
        return s + (f".{v.microsecond:06d}"[: 1 + p] if p else "")
    if isinstance(v, dt.time):
        return v.strftime("%H:%M:%S")
    if isinstance(v, float):
        s = repr(v)
        return s[:-2] if s.endswith(".0") else s
    return str(v)


def mssql_default(server, c) -> str:
    """SQL Server keeps a normalised expression: numbers get two pairs of parentheses, everything else one."""
    e = c.default
    while e[0] == "paren":
        e = e[1]
    raw = (c.default_raw or "").strip()
    if e[0] == "lit" and e[2] == "num":
        return f"(({e[1]}))"
    if e[0] == "un" and e[2][0] == "lit" and e[2][2] == "num":
        return f"(({e[1]}{e[2][1]}))"
    if e[0] == "lit" and e[2] == "str":
        return "('" + str(e[1]).replace("'", "''") + "')"
    if e[0] == "lit" and e[2] == "null":
        return "(NULL)"
    if e[0] == "fn":
        return f"({e[1].lower()}())"
    return f"({raw})"


def oracle_cols(server, c) -> dict:
    ty = c.type
    name, args = ty[0], ty[1:]
    out = dict(data_type=name.upper(), data_type_owner=None, data_length=22, data_precision=None, data_scale=None, char_length=0)
    if name in ("number", "decimal"):
        out["data_type"] = "NUMBER"
        if args:
            out.update(data_precision=args[0], data_scale=args[1] if len(args) > 1 else 0)
        elif name == "decimal":
            out.update(data_scale=0)
    elif name == "integer":
        out.update(data_type="NUMBER", data_scale=0)
    elif name == "float":
        out.update(data_precision=args[0] if args else 126)
    elif name == "real":
        out.update(data_type="FLOAT", data_precision=63)
    elif name == "double precision":
        out.update(data_type="FLOAT", data_precision=126)
    elif name in ("varchar2", "nvarchar2", "char"):
        n = args[0] if args else 1
        out.update(data_length=n, char_length=n)
    elif name == "raw":
        out.update(data_length=args[0])
    elif name in ("clob", "blob", "nclob"):
        out.update(data_length=4000)
    elif name == "date":
        out.update(data_length=7)
    elif name in ("timestamp", "timestamptz"):
        p = args[0] if args else 6
        out.update(data_type=f"TIMESTAMP({p})" + (" WITH TIME ZONE" if name.endswith("tz") else ""), data_length=11, data_scale=p)
    elif name == "interval day to second":
        out.update(data_type="INTERVAL DAY(2) TO SECOND(6)", data_length=11, data_precision=2, data_scale=6)
    elif name == "boolean":
        out.update(data_length=1)
    elif name == "binary_double":
        out.update(data_length=8)
    return out


# ---------------------------------------------------------------------------------------------------- database building
def fill(db, table: str, cols: str, rows: List[tuple]) -> None:
    names = [c.strip() for c in cols.split(",")]
    db.execute(f"CREATE TABLE {table} ({', '.join(names)})")
    if rows:
        # unless a query says how to order rows, they come in any order
        rows = random.Random(f"{table} {len(rows)}").sample(rows, len(rows))
        db.executemany(f"INSERT INTO {table} VALUES ({', '.join('?' * len(names))})", rows)


TYPE_CLASS, CLASS_CLASS = 1247, 1259  # pg_type and pg_class in pg_class


def build_pg(server, db) -> None:
    db.execute("ATTACH ':memory:' AS pg_catalog")
    oid = iter(range(100, 10**9))
    ns = {"pg_catalog": 11, "information_schema": 12}
    for i, s in enumerate(server.schemas):
        ns[s] = 2200 + i
    pg_type: List[tuple] = []
    type_oid = {}
    tys: List[tuple] = []

    def add_type(key, typname, nsoid, typtype="b", relid=0):
        o = next(oid)
        a = next(oid)
        type_oid[key] = o
        type_oid[("array", key)] = a
        category = "E" if typtype == "e" else "C" if typtype == "c" else "U"
        pg_type.append((o, typname, nsoid, 0, typtype, relid, a, category, 0, 1, -1))
        pg_type.append((a, "_" + typname, nsoid, o, "b", 0, 0, "A", 0, 1, -1))

    for b in ("bigint", "integer", "smallint", "boolean", "real", "double precision", "numeric", "text", "varchar", "char", "timestamp",
              "timestamptz", "date", "time", "timetz", "interval", "uuid", "inet", "cidr", "bytea", "json", "jsonb", "macaddr"):
        add_type(b, _PG_INTERNAL.get(b, b), 11)
    pg_class: List[tuple] = []
    index = {}
    pg_desc: List[tuple] = []
    pg_att: List[tuple] = []
    pg_def: List[tuple] = []
    pg_con: List[tuple] = []
    pg_enum: List[tuple] = []
    struct_cls = {}
    tab_cls = {}
    for o, t in server.types.items():
        if t.kind != "enum":
            struct_cls[o] = next(oid)
        add_type(("user", o), t.name, ns[t.schema], "e" if t.kind == "enum" else "c", struct_cls.get(o, 0))
    for o, t in server.types.items():
        if t.kind == "enum":
            for i, v in enumerate(t.values):
                pg_enum.append((type_oid[("user", o)], v, i + 1.0, next(oid)))
        else:
            pg_class.append((struct_cls[o], t.name, ns[t.schema], "c", type_oid[("user", o)], "p", 0))
            if t.comment:
                pg_desc.append((type_oid[("user", o)], 0, t.comment, TYPE_CLASS))
    for t in server.tables():
        tab_cls[t.uid] = next(oid)
        add_type(("table", t.uid), t.name, ns[t.schema], "c", tab_cls[t.uid])
        pg_class.append((tab_cls[t.uid], t.name, ns[t.schema], "r", type_oid[("table", t.uid)], "p", 0))
        for c in t.cols:
            if c.identity:
                pg_class.append((next(oid), f"{t.name}_{c.name}_seq", ns[t.schema], "S", 0, "p", 0))
        for k in t.cons:
            if k.kind in "pu":
                index[id(k)] = next(oid)
                pg_class.append((index[id(k)], k.name, ns[t.schema], "i", 0, "p", 0))

    def ty_oid(ty):
        if ty[0] == "array":
            return type_oid[("array", ty_oid_key(ty[1]))]
        return type_oid[ty_oid_key(ty)]

    def ty_oid_key(ty):
        return ("user", ty[1]) if ty[0] == "user" else ty[0]

    def att(cls, num, name, ty, notnull, identity, default=False):
        tys.append(ty)
        dims = 1 if ty[0] == "array" else 0
        pg_att.append((cls, name, num, ty_oid(ty), len(tys) - 1, 1 if notnull else 0, dims, identity, 0, 1 if default else 0, "", 1, 0))

    def dropped(cls, num):
        pg_att.append((cls, f"........pg.dropped.{num}........", num, 0, -1, 0, 0, "", 1, 0, "", 1, 0))

    for o, t in server.types.items():
        if t.kind == "struct":
            for i, (name, ty, comment) in zip(t.numbers, t.members):
                att(struct_cls[o], i, name, ty, False, "")
                if comment:
                    pg_desc.append((struct_cls[o], i, comment, CLASS_CLASS))
            for i in t.dead:
                dropped(struct_cls[o], i)
    for t in server.tables():
        cls = tab_cls[t.uid]
        num = t.numbers()
        for sysname, n in (("ctid", -1), ("xmin", -2), ("tableoid", -6)):
            pg_att.append((cls, sysname, n, type_oid["integer"], 0, 1, 0, "", 0, 0, "", 1, 0))
        for c in t.cols:
            i = num[c.uid]
            att(cls, i, c.name, c.type, not c.nullable, "d" if c.identity else "", c.default is not None)
            if c.default is not None:
                pg_def.append((cls, i, pg_expr(server, c), next(oid)))
            if c.comment:
                pg_desc.append((cls, i, c.comment, CLASS_CLASS))
        for u in t.dead:
            dropped(cls, num[u])
        if t.comment:
            pg_desc.append((cls, 0, t.comment, CLASS_CLASS))
    for t in server.tables():
        num = t.numbers()
        for c in t.cols:
            if not c.nullable:
                # PostgreSQL 18 catalogues NOT NULL constraints as well
                pg_con.append(("n", f"{t.name}_{c.name}_not_null", tab_cls[t.uid], 0, json.dumps([num[c.uid]]), None, next(oid), ns[t.schema], 0))
        for k in t.cons:
            conf, confkey = 0, None
            if k.kind == "f":
                rt = server.tab_by_uid(k.ref)
                rnum = rt.numbers()
                conf, confkey = tab_cls[rt.uid], json.dumps([rnum[u] for u in k.refcols])
            pg_con.append((k.kind, k.name, tab_cls[t.uid], conf, json.dumps([num[u] for u in k.cols]), confkey, next(oid), ns[t.schema], index.get(id(k), 0)))
    fill(db, "pg_catalog.pg_namespace", "oid, nspname", [(o, n) for n, o in ns.items()])
    fill(db, "pg_catalog.pg_class", "oid, relname, relnamespace, relkind, reltype, relpersistence, relispartition", pg_class)
    fill(db, "pg_catalog.pg_type", "oid, typname, typnamespace, typelem, typtype, typrelid, typarray, typcategory, typbasetype, typisdefined, typlen", pg_type)
    fill(db, "pg_catalog.pg_attribute", "attrelid, attname, attnum, atttypid, atttypmod, attnotnull, attndims, attidentity, attisdropped, atthasdef, attgenerated, attislocal, attinhcount", pg_att)
    fill(db, "pg_catalog.pg_attrdef", "adrelid, adnum, adbin, oid", pg_def)
    fill(db, "pg_catalog.pg_description", "objoid, objsubid, description, classoid", pg_desc)
    fill(db, "pg_catalog.pg_constraint", "contype, conname, conrelid, confrelid, conkey, confkey, oid, connamespace, conindid", pg_con)
    fill(db, "pg_catalog.pg_enum", "enumtypid, enumlabel, enumsortorder, oid", pg_enum)
    db.create_function("format_type", 2, lambda o, m: pg_format(server, tys[m]))
    db.create_function("pg_get_expr", 2, lambda b, r: b)

    def vp_zip(a, b):
        x, y = json.loads(a), json.loads(b) if b is not None else []
        n = max(len(x), len(y))
        return json.dumps([[x[i] if i < len(x) else None, y[i] if i < len(y) else None] for i in range(n)])

    db.create_function("vp_zip", 2, vp_zip)
    db.create_function("CURRENT_SCHEMA", 0, lambda: server.default)


_KIND = {"p": "PRIMARY KEY", "u": "UNIQUE", "f": "FOREIGN KEY", "c": "CHECK"}


def build_ansi(server, db) -> None:
    d = server.dialect
    db.execute("ATTACH ':memory:' AS information_schema")
    cat = "def" if d == "mysql" else server.database
    tabs, cols, tcs, refs, kcus = [], [], [], [], []
    # tables the client must never mistake for its own
    for t in server.tables():
        tabs.append((t.schema, t.name, t.comment or ""))
        for i, c in enumerate(t.cols):
            a = ansi_columns(server, c)
            default = None
            if c.default is not None:
                default = mysql_default(server, c) if d == "mysql" else mssql_default(server, c)
            cols.append((t.schema, t.name, c.name, i + 1, "YES" if c.nullable else "NO", default, a["data_type"], a["character_maximum_length"],
                         a["numeric_precision"], a["numeric_scale"], a["datetime_precision"], mysql_column_type(c.type) if d == "mysql" else None,
                         "auto_increment" if c.identity else "", c.comment or ""))
        for k in t.cons:
            name = "PRIMARY" if d == "mysql" and k.kind == "p" else k.name
            tcs.append((cat, t.schema, name, t.schema, t.name, _KIND[k.kind]))
            if k.kind == "c":
                continue
            rs = rt = rn = None
            rcols: List[Any] = [None] * len(k.cols)
            if k.kind == "f":
                r = server.tab_by_uid(k.ref)
                rs, rn, rcols = r.schema, r.name, r.names(k.refcols)
                target = next(x for x in r.cons if x.kind in "pu" and set(x.cols) == set(k.refcols))
                refs.append((cat, t.schema, name, cat, r.schema, "PRIMARY" if d == "mysql" and target.kind == "p" else target.name, t.name, r.name))
            for i, (cn, rc) in enumerate(zip(t.names(k.cols), rcols)):
                kcus.append((cat, t.schema, name, t.schema, t.name, cn, i + 1, rs, rn, rc))
    fill(db, "information_schema.tables", "table_schema, table_name, table_comment", tabs)
    fill(db, "information_schema.columns",
         "table_schema, table_name, column_name, ordinal_position, is_nullable, column_default, data_type, character_maximum_length,"
         "numeric_precision, numeric_scale, datetime_precision, column_type, extra, column_comment", cols)
    fill(db, "information_schema.table_constraints",
         "constraint_catalog, constraint_schema, constraint_name, table_schema, table_name, constraint_type", tcs)
    fill(db, "information_schema.referential_constraints",
         "constraint_catalog, constraint_schema, constraint_name, unique_constraint_catalog, unique_constraint_schema, unique_constraint_name,"
         "table_name, referenced_table_name", refs)
    fill(db, "information_schema.key_column_usage",
         "constraint_catalog, constraint_schema, constraint_name, table_schema, table_name, column_name, ordinal_position,"
         "referenced_table_schema, referenced_table_name, referenced_column_name", kcus)
    db.create_function("DATABASE", 0, lambda: server.default)
    db.create_function("SCHEMA_NAME", 0, lambda: server.default)
    if d == "mssql":
        db.execute("ATTACH ':memory:' AS sys")
        ids = {s: i + 1 for i, s in enumerate(server.schemas)}
        stabs, scols, sdefs = [], [], []
        for t in server.tables():
            stabs.append((t.name, ids[t.schema], t.uid, 0))
            for c in t.cols:
                scols.append((t.uid, c.name, 1 if c.identity else 0, c.uid if c.default is not None else 0))
                if c.default is not None:
                    sdefs.append((c.uid, mssql_default(server, c), c.df_name))
        stabs.append(("spt_values", ids[server.default], -1, 1))
        fill(db, "sys.schemas", "name, schema_id", list(ids.items()))
        fill(db, "sys.tables", "name, schema_id, object_id, is_ms_shipped", stabs)
        fill(db, "sys.columns", "object_id, name, is_identity, default_object_id", scols)
        fill(db, "sys.default_constraints", "object_id, definition, name", sdefs)
        db.create_function("SCHEMA_ID", 1, lambda n: ids.get(n))
        db.create_function("SCHEMA_ID", 0, lambda: ids[server.default])


def build_oracle(server, db) -> None:
    tabs, tcom, tcols, ccom, cons, ccols = [], [], [], [], [], []
    for t in server.tables():
        tabs.append((t.schema, t.name, "USERS", "VALID", "N", "N", "NO", "NO"))
        tcom.append((t.schema, t.name, t.comment))
        for i, c in enumerate(t.cols):
            o = oracle_cols(server, c)
            default = c.default_raw if c.default is not None else None
            if c.identity:
                default = f'"{t.schema}"."ISEQ$$_{c.uid}".nextval'
            tcols.append((t.schema, t.name, c.name, o["data_type"], o["data_type_owner"], o["data_length"], o["data_precision"],
                          o["data_scale"], "Y" if c.nullable else "N", default, o["char_length"], "YES" if c.identity else "NO", i + 1))
            ccom.append((t.schema, t.name, c.name, c.comment))
            if not c.nullable and not (t.pk and c.uid in t.pk.cols):
                n = f"SYS_C{c.uid:06d}"
                cons.append((t.schema, n, "C", t.name, None, None))
                ccols.append((t.schema, n, t.name, c.name, None))
        for k in t.cons:
            ro = rc = None
            if k.kind == "f":
                r = server.tab_by_uid(k.ref)
                target = next(x for x in r.cons if x.kind in "pu" and set(x.cols) == set(k.refcols))
                ro, rc = r.schema, target.name
            cons.append((t.schema, k.name, {"p": "P", "u": "U", "f": "R", "c": "C"}[k.kind], t.name, ro, rc))
            for i, n in enumerate(t.names(k.cols)):
                ccols.append((t.schema, k.name, t.name, n, i + 1))
    tabs.append(("SYS", "DUAL", "SYSTEM", "VALID", "N", "N", "NO", "NO"))
    fill(db, "dba_tables", "owner, table_name, tablespace_name, status, temporary, secondary, dropped, read_only", tabs)
    fill(db, "dba_tab_comments", "owner, table_name, comments", tcom)
    fill(db, "dba_tab_columns", "owner, table_name, column_name, data_type, data_type_owner, data_length, data_precision, data_scale, nullable,"
         "data_default, char_length, identity_column, column_id", tcols)
    fill(db, "dba_col_comments", "owner, table_name, column_name, comments", ccom)
    fill(db, "dba_constraints", "owner, constraint_name, constraint_type, table_name, r_owner, r_constraint_name", cons)
    fill(db, "dba_cons_columns", "owner, constraint_name, table_name, column_name, position", ccols)


_BOOL_COLS = {"is_nullable", "is_array", "is_identity"}


def is_catalog_query(server, sql: str) -> bool:
    if not re.search(r"pg_catalog|information_schema|\bsys\b|\bdba_|@@VERSION", sql, re.IGNORECASE):
        return False
    try:
        toks = [t for t in tokenize(sql, server.dialect, server.sql_mode) if t.kind != "comment"]
    except SqlError:
        return False
    if not toks or not toks[0].is_word("SELECT"):
        return False
    for a, b in zip(toks, toks[1:]):
        if a.is_word("FROM", "JOIN") and b.kind == "word":
            w = str(b.val).lower()
            if w in ("pg_catalog", "information_schema", "sys") or w.startswith("dba_"):
                return True
    return False


def to_sqlite(server, sql: str) -> str:
    toks = tokenize(sql, server.dialect, server.sql_mode)
    out: List[str] = []
    pos = 0
    for t in toks:
        if t.kind == "eof":
            continue
        out.append(sql[pos : t.pos])
        pos = t.end
        if t.kind == "str":
            s = str(t.val)
            out.append("'" + s.replace("'", "''") + "'")
        elif t.kind == "id":
            out.append('"' + str(t.val).replace('"', '""') + '"')
        elif t.kind == "comment":
            out.append(" ")
        else:
            out.append(t.raw)
    out.append(sql[pos:])
    text = "".join(out)
    if server.dialect == "postgresql":
        text = re.sub(r"CROSS JOIN UNNEST\(con\.conkey, con\.confkey\) AS tgt\(pkeycol, fkeycol\)", "CROSS JOIN json_each(vp_zip(con.conkey, con.confkey)) AS tgt", text)
        text = re.sub(r"tgt\.pkeycol\b(?!\s+AS)", "json_extract(tgt.value,'$[0]') AS pkeycol", text)
        text = re.sub(r"tgt\.fkeycol\b(?!\s+AS)", "json_extract(tgt.value,'$[1]') AS fkeycol", text)
        text = re.sub(r"pg_catalog\.(format_type|pg_get_expr)", r"\1", text)
    return text


def query_catalog(server, sql: str) -> Tuple[List[str], List[tuple]]:
    ver = (server.stats.get("__ddl", 0), len(server.events))
    db = sqlite3.connect(":memory:")
    try:
        db.execute("PRAGMA case_sensitive_like=ON")
        {"postgresql": build_pg, "mysql": build_ansi, "mssql": build_ansi, "oracle": build_oracle}[server.dialect](server, db)
        text = to_sqlite(server, sql)
        try:
            cur = db.execute(text)
        except sqlite3.Error as e:
            raise SqlError("catalog_query", f"{e} in {sql}")
        names = [x[0] for x in cur.description]
        rows = cur.fetchall()
    finally:
        db.close()
    out = []
    for r in rows:
        vals = []
        for n, v in zip(names, r):
            if n in _BOOL_COLS and isinstance(v, int):
                v = bool(v)
            elif n == "constraint_type" and server.dialect == "postgresql" and isinstance(v, str):
                v = v.encode()
            vals.append(v)
        out.append(tuple(vals))
    return names, out
