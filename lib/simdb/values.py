"""Value domain of the simulated servers: conversion of literals and bound values to stored values."""

from __future__ import annotations

import datetime as dt
import decimal
import ipaddress
import json
import math
import re
import struct
import uuid
from decimal import Decimal
from typing import Any

from .lexer import SqlError, Unsupported

CTX = decimal.Context(prec=80)

INT_RANGE = {
    "postgresql": {"smallint": 2, "integer": 4, "bigint": 8},
    "mysql": {"tinyint": 1, "smallint": 2, "mediumint": 3, "int": 4, "bigint": 8},
    "mssql": {"smallint": 2, "int": 4, "bigint": 8},
    "oracle": {},
}


class Json:
    """A stored JSON value; compares by content."""

    __slots__ = ("text", "value")

    def __init__(self, text: str) -> None:
        def bad(x):
            raise ValueError("NaN/Infinity is not JSON")

        self.text = text
        self.value = json.loads(text, parse_constant=bad)

    def __eq__(self, o):
        return isinstance(o, Json) and _jeq(self.value, o.value)

    def __hash__(self):
        return hash(json.dumps(self.value, sort_keys=True))

    def __repr__(self):
        return f"Json({self.text})"


def _jeq(a, b):
    if type(a) is not type(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            return a == b
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(_jeq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(_jeq(x, y) for x, y in zip(a, b))
    return a == b


def f32(x: float) -> float:
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        raise SqlError("range", "value out of range for real")


def _round_dec(d: Decimal, scale: int) -> Decimal:
    return d.quantize(Decimal(1).scaleb(-scale), rounding=decimal.ROUND_HALF_UP, context=CTX)


def to_decimal(v: Any) -> Decimal:
    if isinstance(v, bool):
        return Decimal(int(v))
    if isinstance(v, float):
        return Decimal(repr(v))
    try:
        return Decimal(v)
    except (decimal.InvalidOperation, TypeError, ValueError):
        raise SqlError("value", f"invalid numeric value {v!r}")


def fit_decimal(d: Decimal, args: tuple, strict: bool = True) -> Decimal:
    if not d.is_finite():
        return d
    if len(args) >= 1:
        p = args[0]
        s = args[1] if len(args) > 1 else 0
        r = _round_dec(d, s)
        if abs(r) >= Decimal(10) ** (p - s):
            raise SqlError("range", f"numeric field overflow: {d} for ({p},{s})")
        return r
    return d


_ts_re = re.compile(r"^(\d{4})-(\d{1,2})-(\d{1,2})(?:[ T](\d{1,2}):(\d{1,2}):(\d{1,2})(?:\.(\d{1,7}))?)?(Z|[+-]\d{2}(?::?\d{2})?)?$")
_time_re = re.compile(r"^(\d{1,2}):(\d{1,2}):(\d{1,2})(?:\.(\d{1,7}))?$")


def parse_ts(s: str) -> dt.datetime:
    m = _ts_re.match(s.strip())
    if not m:
        raise SqlError("value", f"invalid timestamp {s!r}")
    y, mo, d, h, mi, se, fr, tz = m.groups()
    try:
        v = dt.datetime(int(y), int(mo), int(d), int(h or 0), int(mi or 0), int(se or 0), int((fr or "0").ljust(6, "0")[:6]))
    except ValueError as e:
        raise SqlError("value", f"invalid timestamp {s!r}: {e}")
    return v


def parse_time(s: str) -> dt.time:
    m = _time_re.match(s.strip())
    if not m:
        raise SqlError("value", f"invalid time {s!r}")
    h, mi, se, fr = m.groups()
    try:
        return dt.time(int(h), int(mi), int(se), int((fr or "0").ljust(6, "0")[:6]))
    except ValueError as e:
        raise SqlError("value", f"invalid time {s!r}: {e}")


def fit_fraction(v, prec: int, what: str):
    """Rounds a datetime or time to the given fractional precision."""
    if prec >= 6:
        return v
    step = 10 ** (6 - prec)
    us = v.microsecond
    r = (us + step // 2) // step * step
    if r == us:
        return v
    if isinstance(v, dt.datetime):
        return v.replace(microsecond=0) + dt.timedelta(microseconds=r)
    if r >= 1000000:
        full = (dt.datetime.combine(dt.date(2000, 1, 1), v.replace(microsecond=0)) + dt.timedelta(seconds=1)).time()
        return full
    return v.replace(microsecond=r)


def check_text(v: str, limit, what: str) -> str:
    if "\0" in v and what == "pg":
        raise SqlError("value", "NUL character in text")
    try:
        v.encode("utf-8")
    except UnicodeEncodeError:
        raise SqlError("value", "text is not encodable as UTF-8")
    return v


class TypeSystem:
    """Converts an incoming value to the stored representation of a column type; raises SqlError if impossible."""

    def __init__(self, server) -> None:
        self.s = server

    # literal: Python str for string literal, Decimal-able text for numeric literals
    def store(self, ty: tuple, v: Any, kind: str = "value") -> Any:
        """kind: 'str' (untyped string literal), 'num' (numeric literal text), 'bool', 'value' (typed wire value)."""
        if v is None:
            return None
        d = self.s.dialect
        return getattr(self, "_" + d)(ty, v, kind)

    # ---------------------------------------------------------------------------------------------- PostgreSQL
    def _postgresql(self, ty, v, kind):
        name, args = ty[0], ty[1:]
        if kind == "num":
            num = to_decimal(v)
            if name in INT_RANGE["postgresql"]:
                return self._int("postgresql", name, int(_round_dec(num, 0)))
            if name == "numeric":
                return fit_decimal(num, args)
            if name == "real":
                return f32(float(num))
            if name == "double precision":
                return float(num)
            if name in ("text", "varchar", "char"):
                return self._pgtext(name, args, str(v))
            raise SqlError("datatype_mismatch", f"numeric literal for column of type {ty}")
        if kind == "bool":
            if name == "boolean":
                return bool(v)
            if name in ("text", "varchar"):
                return self._pgtext(name, args, "true" if v else "false")
            raise SqlError("datatype_mismatch", f"boolean for column of type {ty}")
        if kind == "str":
            return self._pg_input(ty, v)
        # typed wire value (after driver encoding)
        if name in INT_RANGE["postgresql"]:
            return self._int("postgresql", name, v)
        if name == "numeric":
            return fit_decimal(v if isinstance(v, Decimal) else to_decimal(v), args)
        if name == "real":
            return f32(v)
        if name in ("text", "varchar", "char"):
            return self._pgtext(name, args, v)
        if name in ("json", "jsonb"):
            try:
                return Json(v)
            except ValueError:
                raise SqlError("value", f"invalid input syntax for type json: {v!r}")
        if name in ("timestamp", "timestamptz", "time"):
            return fit_fraction(v, args[0] if args else 6, name)
        if name == "user":
            t = self.s.type_of(ty)
            if t.kind == "enum":
                return self._pg_input(ty, v)
            return tuple(self.store(m[1], x, "value") for m, x in zip(t.members, v))
        if name == "array":
            return [self.store(ty[1], x, "value") if x is not None else None for x in v]
        return v

    def _pgtext(self, name, args, v):
        check_text(v, None, "pg")
        if args:
            if len(v) > args[0]:
                if v[args[0] :].strip(" ") == "":
                    v = v[: args[0]]
                else:
                    raise SqlError("too_long", f"value too long for type {name}({args[0]})")
            if name == "char":
                v = v.ljust(args[0])
        elif name == "char" and len(v) > 1:
            raise SqlError("too_long", "value too long for type char(1)")
        return v

    def _pg_input(self, ty, s):
        name, args = ty[0], ty[1:]
        try:
            if name in INT_RANGE["postgresql"]:
                if not re.match(r"^\s*[+-]?\d+\s*$", s):
                    raise ValueError
                return self._int("postgresql", name, int(s))
            if name == "numeric":
                return fit_decimal(to_decimal(s), args)
            if name == "real":
                return f32(float(s))
            if name == "double precision":
                return float(s)
            if name == "boolean":
                t = s.strip().lower()
                if t in ("t", "true", "yes", "on", "1", "y"):
                    return True
                if t in ("f", "false", "no", "off", "0", "n"):
                    return False
                raise ValueError
            if name in ("text", "varchar", "char"):
                return self._pgtext(name, args, s)
            if name in ("timestamp", "timestamptz"):
                return fit_fraction(parse_ts(s), args[0] if args else 6, name)
            if name == "date":
                return parse_ts(s).date()
            if name == "time":
                return fit_fraction(parse_time(s), args[0] if args else 6, name)
            if name == "uuid":
                return uuid.UUID(s)
            if name in ("inet", "cidr"):
                return ipaddress.ip_address(s)
            if name in ("json", "jsonb"):
                return Json(s)
            if name == "bytea":
                if s.startswith("\\x"):
                    return bytes.fromhex(s[2:])
                return s.encode()
            if name == "user":
                t = self.s.type_of(ty)
                if t.kind == "enum":
                    if s not in t.values:
                        raise SqlError("invalid_enum", f"invalid input value for enum {t.name}: {s!r}")
                    if s in t.fresh:
                        raise SqlError("unsafe_new_enum_value", f"unsafe use of new value {s!r} of enum type {t.name}")
                    return s
                raise Unsupported("composite literal")
            if name == "array":
                raise Unsupported("array literal")
        except SqlError:
            raise
        except (ValueError, TypeError):
            raise SqlError("value", f"invalid input syntax for type {ty}: {s!r}")
        raise Unsupported(f"literal for {ty}")

    def _int(self, d, name, v):
        if isinstance(v, bool):
            v = int(v)
        if not isinstance(v, int):
            v = int(_round_dec(to_decimal(v), 0))
        if name == "tinyint" and d == "mssql":
            lo, hi = 0, 255
        else:
            w = INT_RANGE[d][name]
            lo, hi = -(2 ** (8 * w - 1)), 2 ** (8 * w - 1) - 1
        if not lo <= v <= hi:
            raise SqlError("range", f"value {v} out of range for {name}")
        return v

    # ---------------------------------------------------------------------------------------------- MySQL
    def _mysql(self, ty, v, kind):
        name, args = ty[0].replace(" unsigned", ""), ty[1:]
        if kind == "num":
            v = to_decimal(v)
            if v == v.to_integral_value() and "." not in str(v) and "E" not in str(v):
                v = int(v)
        if kind == "bool":
            v = int(v)
        if isinstance(v, bool):
            v = int(v)
        if name in INT_RANGE["mysql"]:
            if isinstance(v, str):
                if not re.match(r"^\s*[+-]?\d+(\.\d*)?\s*$", v):
                    raise SqlError("value", f"Incorrect integer value: {v!r}")
                v = to_decimal(v.strip())
            if isinstance(v, (bytes, dt.date, dt.time)):
                raise SqlError("value", f"Incorrect integer value: {v!r}")
            return self._int("mysql", name, v)
        if name in ("double", "float"):
            if isinstance(v, bytes):
                raise SqlError("value", "Incorrect double value")
            try:
                f = float(v)
            except ValueError:
                raise SqlError("value", f"Incorrect double value {v!r}")
            if not math.isfinite(f):
                raise SqlError("value", "Out of range double")
            return f32(f) if name == "float" else f
        if name == "decimal":
            if isinstance(v, bytes):
                raise SqlError("value", "Incorrect decimal value")
            dec = to_decimal(v)
            p = args[0] if args else 10
            s = args[1] if len(args) > 1 else 0
            return fit_decimal(dec, (p, s))
        if name in ("char", "varchar", "tinytext", "text", "mediumtext", "longtext"):
            if isinstance(v, bytes):
                try:
                    v = v.decode("utf-8")
                except UnicodeDecodeError:
                    raise SqlError("value", "Incorrect string value")
            if not isinstance(v, str):
                v = str(v)
            check_text(v, None, "my")
            if args and len(v) > args[0]:
                raise SqlError("too_long", f"Data too long for column ({args[0]})")
            if name == "char":
                v = v.rstrip(" ")
            return v
        if name == "enum":
            if isinstance(v, (int, Decimal)):
                i = int(v)
                if not 1 <= i <= len(args[0]):
                    raise SqlError("value", "Data truncated for enum column")
                return args[0][i - 1]
            if v not in args[0]:
                raise SqlError("value", f"Data truncated for enum column: {v!r}")
            return v
        if name in ("binary", "varbinary", "blob", "mediumblob", "longblob", "tinyblob"):
            if isinstance(v, str):
                v = v.encode("utf-8")
            if not isinstance(v, bytes):
                v = str(v).encode()
            n = args[0] if args else (1 if name == "binary" else None)
            if n is not None and len(v) > n:
                raise SqlError("too_long", "Data too long for column")
            if name == "binary":
                v = v.ljust(n, b"\0")
            return v
        if name in ("datetime", "timestamp"):
            x = parse_ts(v) if isinstance(v, str) else v
            if isinstance(x, dt.datetime):
                return fit_fraction(x.replace(tzinfo=None), args[0] if args else 0, name)
            if isinstance(x, dt.date):
                return dt.datetime(x.year, x.month, x.day)
            raise SqlError("value", f"Incorrect datetime value {v!r}")
        if name == "date":
            x = parse_ts(v) if isinstance(v, str) else v
            return x.date() if isinstance(x, dt.datetime) else x
        if name == "time":
            x = parse_time(v) if isinstance(v, str) else v
            return fit_fraction(x, args[0] if args else 0, name)
        if name == "json":
            if isinstance(v, bytes):
                raise SqlError("value", "Cannot create a JSON value from a string with CHARACTER SET 'binary'")
            if not isinstance(v, str):
                v = str(v)
            try:
                return Json(v)
            except ValueError:
                raise SqlError("value", f"Invalid JSON text: {v!r}")
        raise Unsupported(f"mysql type {ty}")

    # ---------------------------------------------------------------------------------------------- SQL Server
    def _mssql(self, ty, v, kind):
        name, args = ty[0], ty[1:]
        if kind == "num":
            v = to_decimal(v)
            if "." not in str(v) and "E" not in str(v):
                v = int(v)
        if kind == "bool":
            v = int(v)
        if name == "bit":
            if isinstance(v, str):
                t = v.strip().lower()
                if t in ("true", "1"):
                    return True
                if t in ("false", "0"):
                    return False
                raise SqlError("value", f"Conversion failed when converting to bit: {v!r}")
            if isinstance(v, (bytes, dt.date, dt.time)):
                raise SqlError("value", "cannot convert to bit")
            return bool(v)
        if name in ("tinyint", "smallint", "int", "bigint"):
            if isinstance(v, str):
                if not re.match(r"^\s*[+-]?\d+\s*$", v):
                    raise SqlError("value", f"Conversion failed converting {v!r} to {name}")
                v = int(v)
            if isinstance(v, (bytes, dt.date, dt.time)):
                raise SqlError("value", f"Operand type clash {name}")
            if isinstance(v, (float, Decimal)):
                v = int(v)
            return self._int("mssql", name, v)
        if name in ("real", "float"):
            try:
                f = float(v)
            except (ValueError, TypeError):
                raise SqlError("value", f"Error converting to float: {v!r}")
            if not math.isfinite(f):
                raise SqlError("value", "invalid float value")
            if name == "real" or (args and args[0] <= 24):
                return f32(f)
            return f
        if name in ("decimal", "numeric"):
            if isinstance(v, (bytes, dt.date, dt.time)):
                raise SqlError("value", "Operand type clash decimal")
            p = args[0] if args else 18
            s = args[1] if len(args) > 1 else 0
            return fit_decimal(to_decimal(v), (p, s))
        if name in ("char", "varchar", "nchar", "nvarchar", "text"):
            if isinstance(v, bytes):
                raise SqlError("value", "Implicit conversion from varbinary to varchar")
            if isinstance(v, bool):
                v = int(v)
            if not isinstance(v, str):
                v = str(v)
            check_text(v, None, "ms")
            n = args[0] if args else (1 if name != "text" else "max")
            if n != "max":
                size = len(v.encode("utf-8")) if name in ("char", "varchar") else len(v)
                if size > n:
                    raise SqlError("too_long", f"String or binary data would be truncated ({n})")
                if name in ("char", "nchar"):
                    v = v + " " * (n - size)
            return v
        if name in ("binary", "varbinary"):
            if not isinstance(v, (bytes, bytearray)):
                raise SqlError("value", f"Implicit conversion from {type(v).__name__} to {name} is not allowed")
            v = bytes(v)
            n = args[0] if args else 1
            if n != "max":
                if len(v) > n:
                    raise SqlError("too_long", "String or binary data would be truncated")
                if name == "binary":
                    v = v.ljust(n, b"\0")
            return v
        if name in ("datetime2", "datetime", "datetimeoffset"):
            x = parse_ts(v) if isinstance(v, str) else v
            if isinstance(x, dt.datetime):
                return fit_fraction(x.replace(tzinfo=None), min(6, args[0] if args else 7), name)
            if isinstance(x, dt.date):
                return dt.datetime(x.year, x.month, x.day)
            raise SqlError("value", f"Conversion failed when converting date and/or time: {v!r}")
        if name == "date":
            x = parse_ts(v) if isinstance(v, str) else v
            if isinstance(x, dt.datetime):
                return x.date()
            if not isinstance(x, dt.date):
                raise SqlError("value", "Operand type clash date")
            return x
        if name == "time":
            x = parse_time(v) if isinstance(v, str) else v
            if not isinstance(x, dt.time):
                raise SqlError("value", "Operand type clash time")
            return fit_fraction(x, min(6, args[0] if args else 7), name)
        if name == "uniqueidentifier":
            return v if isinstance(v, uuid.UUID) else uuid.UUID(str(v))
        raise Unsupported(f"mssql type {ty}")

    # ---------------------------------------------------------------------------------------------- Oracle
    def _oracle(self, ty, v, kind):
        name, args = ty[0], ty[1:]
        if isinstance(v, str) and v == "":
            return None
        if isinstance(v, bytes) and v == b"" and name == "raw":
            return None
        if kind == "num":
            v = to_decimal(v)
        if name in ("number", "integer", "decimal", "float"):
            if isinstance(v, (bytes, dt.date, dt.time, dt.timedelta)):
                raise SqlError("value", f"ORA-00932: expected NUMBER got {type(v).__name__}")
            x = to_decimal(v)
            if not x.is_finite():
                raise SqlError("value", "ORA-01722")
            if name == "number" and not args:
                r = x
            elif name == "integer" or (name == "decimal" and not args):
                r = _round_dec(x, 0)
            elif name == "float":
                r = x
            else:
                r = fit_decimal(x, (args[0], args[1] if len(args) > 1 else 0))
            return int(r) if r == r.to_integral_value() and name != "float" and abs(r) < Decimal(10) ** 38 else r
        if name in ("binary_float", "binary_double", "real", "double precision"):
            if isinstance(v, (bytes, dt.date)):
                raise SqlError("value", "ORA-00932")
            try:
                f = float(v)
            except ValueError:
                raise SqlError("value", "ORA-01722: invalid number")
            return f32(f) if name == "binary_float" else f
        if name == "boolean":
            if isinstance(v, str):
                if v.strip().lower() in ("true", "t", "yes", "y", "on", "1"):
                    return True
                if v.strip().lower() in ("false", "f", "no", "n", "off", "0"):
                    return False
                raise SqlError("value", "ORA-61800: invalid boolean literal")
            if isinstance(v, (bytes, dt.date)):
                raise SqlError("value", "ORA-00932")
            return bool(v)
        if name in ("varchar2", "nvarchar2", "char", "clob", "nclob"):
            if isinstance(v, (bytes, dt.timedelta)):
                raise SqlError("value", f"ORA-00932: expected CHAR got {type(v).__name__}")
            if isinstance(v, Decimal):
                v = str(v)
            if not isinstance(v, str):
                v = str(v)
            check_text(v, None, "ora")
            n = args[0] if args else (1 if name == "char" else None)
            if n is not None and name not in ("clob", "nclob"):
                if len(v.encode("utf-8")) > n:
                    raise SqlError("too_long", f"ORA-12899: value too large for column ({n})")
                if name == "char":
                    v = v + " " * (n - len(v.encode("utf-8")))
            return v
        if name in ("raw", "blob"):
            if not isinstance(v, (bytes, bytearray)):
                raise SqlError("value", f"ORA-00932: expected BINARY got {type(v).__name__}")
            if args and len(v) > args[0]:
                raise SqlError("too_long", "ORA-12899")
            return bytes(v)
        if name == "date":
            x = parse_ts(v) if isinstance(v, str) else v
            if isinstance(x, dt.datetime):
                return x.replace(microsecond=0, tzinfo=None)
            if isinstance(x, dt.date):
                return dt.datetime(x.year, x.month, x.day)
            raise SqlError("value", "ORA-01861")
        if name in ("timestamp", "timestamptz"):
            if isinstance(v, str):
                # default NLS_TIMESTAMP_FORMAT is DD-MON-RR HH.MI.SSXFF AM
                raise SqlError("value", f"ORA-01843: not a valid month: {v!r}")
            if isinstance(v, dt.datetime):
                return fit_fraction(v.replace(tzinfo=None), min(6, args[0] if args else 6), name)
            if isinstance(v, dt.date):
                return dt.datetime(v.year, v.month, v.day)
            raise SqlError("value", "ORA-00932")
        if name == "interval day to second":
            if not isinstance(v, dt.timedelta):
                raise SqlError("value", f"ORA-00932: expected INTERVAL got {type(v).__name__}")
            return v
        if name == "json":
            return Json(v)
        raise Unsupported(f"oracle type {ty}")
