"""Abstract schema declarations: random generation, rendering to Python entity classes, and an independently computed
expectation of the database catalogue and of stored values.

Nothing here calls pysqlsync; the only shared vocabulary are the public marker types used in declarations.
"""

from __future__ import annotations

import copy
import datetime as dt
import ipaddress
import itertools
import json
import linecache
import random
import string
import sys
import types as pytypes
import typing
import uuid
import zlib
from dataclasses import dataclass, field, replace
from decimal import Decimal
from typing import Any, Dict, List, Optional, Tuple

from simdb.values import Json, f32

NOVALUE = type("NoValue", (), {"__repr__": lambda s: "NOVALUE", "__deepcopy__": lambda s, memo: s, "__copy__": lambda s: s})()
_serial = itertools.count(1)


# --------------------------------------------------------------------------------------------------------- declarations
@dataclass
class Enum:
    name: str
    members: List[Tuple[str, str]]  # (python member, value)
    doc: Optional[str] = None

    @property
    def values(self):
        """Values as they are stored (or the record a member stands for)."""
        return [v if isinstance(v, (str, tuple)) else str(v) for _, v in self.members]

    @property
    def numeric(self):
        return isinstance(self.members[0][1], int)

    @property
    def record(self):
        """Names and types of the fields of members that are records."""
        return [("code", ("str",)), ("weight", ("int",))] if isinstance(self.members[0][1], tuple) else None


@dataclass
class Fld:
    name: str
    ty: tuple
    nullable: bool = False
    default: Any = NOVALUE
    unique: bool = False
    pk: bool = False
    identity: bool = False
    doc: Optional[str] = None
    note: bool = False  # carries an annotation that the library is told to skip


@dataclass
class Struct:
    name: str
    fields: List[Fld]
    doc: Optional[str] = None


@dataclass
class Table:
    name: str
    fields: List[Fld]
    doc: Optional[str] = None
    base: int = 0  # number of leading fields declared by an abstract base class
    parent: Optional[str] = None  # table of the same module whose fields come first (inherited if they are still the same)

    @property
    def pk(self) -> Fld:
        return next(f for f in self.fields if f.pk)

    def field(self, name):
        return next((f for f in self.fields if f.name == name), None)


@dataclass
class Module:
    schema: Optional[str]
    enums: List[Enum] = field(default_factory=list)
    structs: List[Struct] = field(default_factory=list)
    tables: List[Table] = field(default_factory=list)


@dataclass
class World:
    modules: List[Module]

    def enum(self, ref) -> Enum:
        return next(e for e in self.modules[ref[0]].enums if e.name == ref[1])

    def struct(self, ref) -> Struct:
        return next(e for e in self.modules[ref[0]].structs if e.name == ref[1])

    def table(self, ref) -> Table:
        return next(e for e in self.modules[ref[0]].tables if e.name == ref[1])

    def clone(self) -> "World":
        return copy.deepcopy(self)

    def all_tables(self):
        for mi, m in enumerate(self.modules):
            for t in m.tables:
                yield mi, t


@dataclass
class Modes:
    """Generator configuration; None means the default of the dialect."""

    enum: str
    struct: str
    array: str
    foreign: bool = True
    init: bool = False
    auto: bool = False

    def key(self):
        return (self.enum, self.struct, self.array, self.foreign, self.init, self.auto)


MODES = {
    "postgresql": dict(enum=["type", "relation", "check"], struct=["type", "json"], array=["array", "json", "relation"]),
    "mysql": dict(enum=["inline", "relation", "check"], struct=["json"], array=["json", "relation"]),
    "mssql": dict(enum=["relation", "check"], struct=["json"], array=["json", "relation"]),
    "oracle": dict(enum=["relation", "check"], struct=["json"], array=["json", "relation"]),
}
DEFAULT_MODES = {
    "postgresql": Modes("type", "type", "array"),
    "mysql": Modes("inline", "json", "json"),
    "mssql": Modes("relation", "json", "json"),
    "oracle": Modes("relation", "json", "json"),
}
DIALECTS = ["postgresql", "mysql", "mssql", "oracle"]


def all_modes(dialect: str) -> List[Modes]:
    m = MODES[dialect]
    return [Modes(e, s, a) for e in m["enum"] for s in m["struct"] for a in m["array"]]


def generator_options(modes: Modes, namespaces: dict, **sync):
    from pysqlsync.base import GeneratorOptions
    from pysqlsync.formation.mutation import MutatorOptions
    from pysqlsync.formation.py_to_sql import ArrayMode, EnumMode, StructMode

    return GeneratorOptions(
        enum_mode=EnumMode(modes.enum), struct_mode=StructMode(modes.struct), array_mode=ArrayMode(modes.array),
        skip_annotations=(Note,), foreign_constraints=modes.foreign, initialize_tables=modes.init, auto_default=modes.auto,
        namespaces=namespaces, synchronization=MutatorOptions(**sync),
    )


# --------------------------------------------------------------------------------------------------------- rendering
@dataclass(frozen=True)
class Note:
    """An annotation of the application."""

    text: str


PRELUDE = """
import abc, enum, datetime, decimal, ipaddress, uuid, typing
from dataclasses import dataclass
from typing import Annotated, Literal, Optional, Union
from strong_typing.auxiliary import MaxLength, Precision, TimePrecision, IntegerRange, float32, float64, int8, int16, int32, int64, uint8, uint16, uint32, uint64
from strong_typing.core import JsonType
from pysqlsync.model.key_types import DEFAULT, Identity, PrimaryKey, Unique
from specgen import Note
"""


def py_type(world: World, mi: int, ty: tuple, mods: List[str]) -> str:
    k = ty[0]

    def name(ref):
        return ref[1] if postponed(world.modules[mi]) else f'"{ref[1]}"'

    def q(ref):
        return ref[1] if ref[0] == mi else f"{mods[ref[0]]}.{ref[1]}"

    if k in ("int", "bool", "float", "str", "bytes") and len(ty) == 1:
        return k
    if k == "str":
        return f"Annotated[str, MaxLength({ty[1]})]"
    if k in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"):
        return k
    if k == "intrange":
        return f"Annotated[int, IntegerRange({ty[1]}, {ty[2]})]"
    if k == "decimal":
        return "decimal.Decimal" if len(ty) == 1 else f"Annotated[decimal.Decimal, Precision({ty[1]}, {ty[2]})]"
    if k == "datetime":
        return "datetime.datetime" if len(ty) == 1 else f"Annotated[datetime.datetime, TimePrecision({ty[1]})]"
    if k == "date":
        return "datetime.date"
    if k == "time":
        return "datetime.time" if len(ty) == 1 else f"Annotated[datetime.time, TimePrecision({ty[1]})]"
    if k == "uuid":
        return "uuid.UUID"
    if k == "json":
        return "JsonType"
    if k == "ipv4":
        return "ipaddress.IPv4Address"
    if k == "ipv6":
        return "ipaddress.IPv6Address"
    if k == "ip":
        return "Union[ipaddress.IPv4Address, ipaddress.IPv6Address]"
    if k in ("enum", "struct"):
        return q(ty[1])
    if k == "ref":
        return name(ty[1]) if ty[1][0] == mi else q(ty[1])
    if k == "duni":
        return "Union[" + ", ".join(name(r) if r[0] == mi else q(r) for r in ty[1]) + "]"
    if k == "xenum":
        return f"Union[{q(ty[1])}, Annotated[str, MaxLength(64)]]"
    if k in ("list", "set"):
        inner = q(ty[1][1]) if ty[1][0] == "ref" else py_type(world, mi, ty[1], mods)
        return f"{k}[{inner}]"
    if k == "interval":
        return "datetime.timedelta"
    if k == "wide":
        return "Union[" + ", ".join(ty[1:]) + "]"
    if k == "literal":
        return "Literal[" + ", ".join(repr(v) for v in ty[1]) + "]"
    raise KeyError(k)


def render_field(world, mi, f: Fld, mods) -> str:
    t = py_type(world, mi, f.ty, mods)
    if f.note:
        t = f'Annotated[{t}, Note("of {f.name}")]'
    if f.nullable:
        if t.startswith("Union["):
            t = t[:-1] + ", None]"
        else:
            t = f"Optional[{t}]"
    if f.unique:
        t = f"Unique[{t}]"
    if f.identity:
        t = f"Identity[{t}]"
    if f.pk:
        t = f"PrimaryKey[{t}]"
    d = "" if f.default is NOVALUE else f" = {render_value(f.default)}"
    return f"    {f.name}: {t}{d}"


def render_value(v) -> str:
    if isinstance(v, Decimal):
        return f"decimal.Decimal({str(v)!r})"
    if isinstance(v, uuid.UUID):
        return f"uuid.UUID({str(v)!r})"
    return repr(v)


def docstring(doc, fields) -> List[str]:
    if doc is None and not any(f.doc for f in fields):
        return []
    lines = [doc or "", ""] + [f":param {f.name}: {f.doc}" for f in fields if f.doc]
    return ["    " + repr("\n".join(lines))]


def render_module(world: World, mi: int, mods: List[str]) -> str:
    m = world.modules[mi]
    if postponed(m):
        source = _render_module(world, mi, mods)
        return "from __future__ import annotations\n" + source
    return _render_module(world, mi, mods)


def postponed(m: Module) -> bool:
    """Some modules postpone the evaluation of annotations: all types of fields are text until looked up."""
    return zlib.crc32(" ".join([str(m.schema)] + [t.name for t in m.tables]).encode()) % 5 == 0


def _render_module(world: World, mi: int, mods: List[str]) -> str:
    m = world.modules[mi]
    out = [PRELUDE] + [f"import {mods[i]}" for i in range(len(mods)) if i != mi and i < mi]
    for e in m.enums:
        out += ["", f"class {e.name}(enum.Enum):"]
        if e.doc:
            out.append("    " + repr(e.doc))
        if e.record:
            out[-1:-1] = ["@dataclass", f"class Of{e.name}:", "    code: str", "    weight: int", ""]
            out += [f"    {n} = Of{e.name}{v!r}" for n, v in e.members]
        else:
            out += [f"    {n} = {v!r}" for n, v in e.members]
        if zlib.crc32(f"{m.schema} {e.name}".encode()) % 3 == 0 and not e.name.startswith("X"):
            out.append(f"    alias_ = {e.members[0][0]}")  # another name for a member, not another value
    for s in m.structs:
        out += ["", "@dataclass", f"class {s.name}:"] + docstring(s.doc, s.fields)
        out += [render_field(world, mi, f, mods) for f in s.fields]
    for ti, t in enumerate(m.tables):
        fields, bases = t.fields, ""
        parent = next((p for p in m.tables[:ti] if p.name == t.parent), None)
        own = [replace(f, doc=None) for f in parent.fields] if parent else []
        if parent and t.fields[: len(own)] == own:
            fields, bases = t.fields[len(parent.fields) :], f"({t.parent})"
        elif t.base and len(t.fields) > 1 and not any(f.doc for f in t.fields[: t.base]):
            fields, bases = t.fields[t.base :], f"(BaseOf{t.name})"
            out += ["", "@dataclass", f"class BaseOf{t.name}(abc.ABC):"]
            out += [render_field(world, mi, f, mods) for f in t.fields[: t.base]]
            out += ["    @abc.abstractmethod", "    def summary(self) -> str: ..."]
        out += ["", "@dataclass", f"class {t.name}{bases}:"] + docstring(t.doc, t.fields)
        out += [render_field(world, mi, f, mods) for f in fields]
        if bases.startswith("(BaseOf"):
            out += ["    def summary(self) -> str:", "        return 'x'"]
        elif not fields:
            out.append("    pass")
    return "\n".join(out) + "\n"


def forget_types():
    """What a long-lived process with many annotated types does: `typing` no longer returns identical objects."""
    for clear in getattr(typing, "_cleanups", ()):
        clear()


class Rendered:
    """Python modules created from a world; usable as context manager to unregister them again."""

    def __init__(self, world: World):
        self.world = world
        n = next(_serial)
        self.names = [f"vspec_{n}_{i}" for i in range(len(world.modules))]
        self.modules: List[pytypes.ModuleType] = []
        self.sources: List[str] = []
        for i, name in enumerate(self.names):
            src = render_module(world, i, self.names)
            mod = pytypes.ModuleType(name)
            fname = f"<{name}>"
            mod.__file__ = fname
            sys.modules[name] = mod
            linecache.cache[fname] = (len(src), None, src.splitlines(True), fname)
            exec(compile(src, fname, "exec", dont_inherit=True), mod.__dict__)
            self.modules.append(mod)
            self.sources.append(src)
        if zlib.crc32("".join(self.sources).encode()) % 2:
            forget_types()

    def namespaces(self, rng=None) -> dict:
        r = [(m, w.schema) for m, w in zip(self.modules, self.world.modules)]
        if rng is not None:
            rng.shuffle(r)
        return dict(r)

    def cls(self, ref):
        return getattr(self.modules[ref[0]], ref[1])

    def entity_types(self, rng=None):
        """All entity classes, in order of declaration or in random order."""
        r = [self.cls((mi, t.name)) for mi, t in self.world.all_tables()]
        if rng is not None:
            rng.shuffle(r)
        return r

    def close(self):
        for n in self.names:
            sys.modules.pop(n, None)
            linecache.cache.pop(f"<{n}>", None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# --------------------------------------------------------------------------------------------------------- features of a dialect
PLAIN_TABLES = ["Person", "Order", "Group", "User", "Select", "Data", "Item", "table_one", "CamelCase", "lowercase", "UPPER", "Grösse", "T1", "Account", "Event", "Zebra", "log__entry"]
PLAIN_COLS = ["name", "value", "order", "group", "select", "user", "Index", "camelCase", "from_", "key_", "größe", "x", "y", "a1", "b_2", "size", "status", "kind", "level", "comment_", "table", "where", "type", "level_2", "UPPER"]
ENUM_NAMES = ["Color", "State", "Level", "KindOf", "Enum"]
STRUCT_NAMES = ["Point", "Address", "Coords", "Size"]
SCHEMAS = {
    "postgresql": ["sample", "My Schema", 'quo"te', "sem;i", "it's", "Ünï", "per%cent", "a.b", "select", "under_score", "--dash"],
    "mysql": ["sample", "my", "Ünï", "sem;i", "it's", "a_b", "select"],
    "mssql": ["sample", "My Schema", "sem;i", "Ünï", "select", "a_b", "per%cent"],
    "oracle": ["sample", "my", "Ünï", "a_b", "select", "My Schema"],
}
DOCS = ["A plain text.", "It's quoted.", 'A "double" one.', "semi; colon -- dash", "/* comment */ $1 %s ?", "Ünïcode ✓ 😀", "back\\slash", "trailing quote'", "100% sure", "{braces} `tick`", "''", "a'); DROP TABLE x; --"]
LONG_DOCS = DOCS + ["The first line.\n\nAnd a second paragraph.", "A first line.\n\nThe second; paragraph's\nlines.", "One.\n\nTwo.\n\nThree -- and no more."]
ENUM_VALUES = ["active", "inactive", "deleted", "it's", 'say "hi"', "semi;colon", "Ünï", "with space", "UPPER", "per%cent", "a,b", "(x)", "--", "back\\slash", "x'); DROP TABLE y; --", "comma,'quote'", "😀", "/*", "?", "%s", ":1"]
ENUM_VALUES_ASCII = ["active", "inactive", "deleted", "it's", 'say "hi"', "semi;colon", "with space", "UPPER", "a_b", "(x)", "--", "x'); DROP TABLE y; --", "/*"]


def scalar_types(dialect: str) -> List[tuple]:
    base = [("bool",), ("int",), ("int8",), ("int16",), ("int32",), ("int64",), ("uint8",), ("float",), ("float32",), ("float64",), ("str",), ("str", 1), ("str", 80), ("str", 255),
            ("decimal", 10, 2), ("decimal", 5, 0), ("datetime",), ("datetime", 6), ("date",), ("uuid",), ("ipv4",), ("ipv6",), ("intrange", -5, 100), ("intrange", 0, 250)]
    if dialect == "postgresql":
        base += [("decimal",), ("time",), ("time", 6), ("ip",)]
    elif dialect == "mysql":
        base += [("time", 6)]
    elif dialect == "mssql":
        base += [("time",)]
    elif dialect == "oracle":
        base += [("time",), ("bytes",)]
    return base


#: longest text that a unique constraint may cover (characters of up to four bytes)
UNIQUE_TEXT = {"postgresql": 600, "mysql": 768, "mssql": 1700, "oracle": 4000}


def limit_types(dialect: str) -> List[tuple]:
    """Types whose parameters are at, just below and just above the limits of the servers."""
    lengths = [1, 63, 64, 255, 256, 767, 768, 1700, 1999, 2000, 2001, 3999, 4000, 4001, 7999, 8000, 8001, 9000, 16383, 16384, 20000, 65535, 65536, 65537, 1000000]
    digits = {"postgresql": [(1, 0), (38, 38), (100, 50), (1000, 2)], "mysql": [(1, 0), (1, 1), (65, 30), (65, 0)], "mssql": [(1, 0), (1, 1), (38, 38), (38, 0)], "oracle": [(1, 0), (38, 0), (38, 38), (38, 10)]}[dialect]
    out: List[tuple] = [("str", n) for n in lengths]
    out += [("decimal", p, s) for p, s in digits]
    out += [("intrange", -128, 127), ("intrange", 0, 255), ("intrange", -(2**15), 2**15 - 1), ("intrange", -(2**31), 2**31 - 1), ("intrange", -(2**63), 2**63 - 1)]
    return out


def limit_world(rng, dialect: str, modes: "Modes", types: Optional[List[tuple]] = None) -> "World":
    types = list(types or limit_types(dialect))
    if dialect == "postgresql" and modes.array == "array":
        types += [("list", ("str", 1)), ("list", ("str", 4000)), ("list", ("decimal", 10, 2)), ("list", ("datetime", 3)), ("list", ("decimal",)), ("list", ("datetime",))]
    world = gen_world(rng, dialect, modes, Features(max_modules=1, max_tables=2, max_fields=10, scalars=types, refs=False, entity_lists=False, literals=False, defaults=False))
    for _, t in world.all_tables():
        for f in t.fields:
            if f.ty[0] == "str" and len(f.ty) > 1 and not f.pk and not f.nullable and f.ty[1] <= UNIQUE_TEXT[dialect] and rng.random() < 0.4:
                f.unique = True
    return world


def key_types(dialect: str) -> List[tuple]:
    base = [("int",), ("int64",), ("int32",), ("uuid",), ("str", 40)]
    if dialect == "postgresql":
        base += [("str",), ("date",)]
    return base


def element_types(dialect: str, modes: Modes) -> List[tuple]:
    return [("int",), ("str",), ("int32",), ("bool",), ("float",)]


@dataclass
class Features:
    """What a generated world may contain; checks narrow it to stay inside the property's domain."""

    scalars: Optional[List[tuple]] = None
    types_only: bool = True
    keys: Optional[List[tuple]] = None
    enums: bool = True
    xenums: bool = True
    lists: bool = True
    structs: bool = True
    refs: bool = True
    cycles: bool = True
    sets: bool = True
    entity_lists: bool = True
    literals: bool = True
    dunis: bool = True
    docs: bool = True
    defaults: bool = True
    uniques: bool = True
    optional_uniques: bool = True
    identity: bool = True
    enum_values: Optional[List[str]] = None
    schemas: Optional[List[str]] = None
    nested: bool = True
    struct_lists: bool = True
    enum_insert: bool = True
    max_modules: int = 2
    max_tables: int = 4
    max_fields: int = 7
    default_types: Optional[set] = None
    hostile: bool = True
    notes: bool = True
    inherit: bool = True
    abstract: bool = True
    extras: bool = False
    records: bool = False
    repeats: bool = True  # objects of the same name in several modules


NOTED = {"ref", "struct", "list", "set", "xenum", "duni", "literal", "interval", "wide", "time", "ip", "bool", "int", "int8", "int16", "int32", "int64", "uint8", "float", "float32", "float64", "str", "decimal", "datetime", "date", "time", "uuid", "ipv4", "ipv6", "intrange", "enum", "json"}


def pick_names(rng, pool, n, used):
    out = []
    for _ in range(n):
        cand = [p for p in pool if p.lower() not in used]
        name = rng.choice(cand) if cand and rng.random() < 0.85 else rng.choice(string.ascii_lowercase) + "".join(rng.choice(string.ascii_letters + string.digits) for _ in range(rng.randint(3, 8)))
        while name.lower() in used:
            name += rng.choice(string.ascii_lowercase)
        used.add(name.lower())
        out.append(name)
    return out


def gen_enum(rng, name, feats: Features, dialect, lo=2) -> Enum:
    pool = feats.enum_values or (ENUM_VALUES if feats.hostile else ["active", "inactive", "deleted", "UPPER", "with space", "third", "fourth"])
    if dialect == "mysql" and not feats.enum_values:
        pool = ENUM_VALUES_ASCII
    if feats.extras and rng.random() < 0.3:
        if feats.records and rng.random() < 0.4:
            return Enum(name, [(f"m{i}", (v, i * 10)) for i, v in enumerate(rng.sample(pool, rng.randint(2, 4)))], None)
        return Enum(name, [(f"m{i}", v) for i, v in enumerate(rng.sample([0, 1, 2, 3, 10, 255, -1], rng.randint(2, 4)))], None)
    vals = rng.sample(pool, rng.randint(lo, min(5, len(pool))))
    return Enum(name, [(f"m{i}", v) for i, v in enumerate(vals)], None)


def gen_default(rng, dialect, ty, world):
    k = ty[0]
    if k == "bool":
        return rng.random() < 0.5
    if k in ("int", "int64"):
        return rng.choice([0, 1, 23, -7, 2**40])
    if k in ("int8", "uint8"):
        return rng.choice([0, 1, 127])
    if k == "int16":
        return rng.choice([0, 32767, -5])
    if k == "int32":
        return rng.choice([0, 2147483647, -1])
    if k == "intrange":
        return rng.choice([ty[1], ty[2], 0 if ty[1] <= 0 <= ty[2] else ty[1]])
    if k in ("float", "float64"):
        return rng.choice([0.0, 1.5, -2.25, 100.125])
    if k == "float32":
        return rng.choice([0.5, -2.0])
    if k == "str":
        if dialect == "mysql" and (len(ty) == 1):
            return NOVALUE
        pool = ["abc", "it's", 'q"q', "semi;", "Ünï", "x -- y", "100%", "(a)", "NULL", "CURRENT_USER", "1"]
        if len(ty) > 1 and ty[1] < 10:
            pool = ["a", "'", "1"]
        return rng.choice(pool)
    if k == "decimal" and len(ty) > 1:
        return Decimal(rng.choice(["0.5", "12.25", "-3.75"])) if ty[2] >= 2 else Decimal(rng.choice(["0", "7", "-12"]))
    if k == "datetime":
        return rng.choice([dt.datetime(1989, 10, 24, 23, 59, 59), dt.datetime(2000, 1, 1, 0, 0, 0), dt.datetime(2010, 6, 1, 1, 30, 0, tzinfo=dt.timezone(dt.timedelta(hours=2)))])
    return NOVALUE


def auto_features(dialect: str, modes: Modes, **kw) -> Features:
    """Worlds whose types all have a default that the option `auto_default` can supply."""
    scal = [("int",), ("int8",), ("int16",), ("int32",), ("int64",), ("uint8",), ("float",), ("float32",), ("float64",), ("str",), ("str", 1), ("str", 80),
            ("decimal", 10, 2), ("decimal", 5, 0), ("datetime",), ("datetime", 6), ("bool",), ("intrange", -5, 100)]
    keys = [k for k in key_types(dialect) if k[0] in ("int", "int64", "int32", "str")]
    args: Dict[str, Any] = dict(scalars=scal, keys=keys, literals=False, xenums=False, inherit=dialect != "mssql")
    return Features(**{**args, **kw})


def auto_value(world, dialect, modes, ty):
    """What `auto_default` gives to a mandatory column of the type: the empty or smallest value, the first value of an enumeration, nothing if there is no such."""
    k = ty[0]
    if dialect == "mysql":
        return NOVALUE
    if k == "bool":
        return False
    if k in ("int", "int8", "int16", "int32", "int64", "uint8", "intrange", "wide"):
        return 0
    if k in ("float", "float32", "float64"):
        return 0.0
    if k == "decimal":
        return Decimal(0)
    if k == "str":
        return NOVALUE if dialect == "oracle" else ""  # the empty text is NULL in Oracle
    if k == "datetime":
        return dt.datetime.min
    if k == "enum":
        return NOVALUE if modes.enum == "relation" else world.enum(ty[1]).values[0]  # the identifier of a value is not known
    if k == "ref":
        return auto_value(world, dialect, modes, world.table(ty[1]).pk.ty)
    if k == "duni":
        return auto_value(world, dialect, modes, world.table(ty[1][0]).pk.ty)
    return NOVALUE


def declared_default(world, dialect, modes, f):
    """Default of a column: the declared one, or the one `auto_default` gives to a mandatory column without."""
    if modes.auto and f.default is NOVALUE and not (f.nullable or f.pk or f.identity):
        return auto_value(world, dialect, modes, f.ty)
    return f.default


def gen_table(rng, dialect, modes: Modes, feats: Features, world: World, mi: int, name: str, refs: List[tuple]) -> Table:
    scal = feats.scalars or scalar_types(dialect)
    keys = feats.keys or key_types(dialect)
    used: set = set()
    fields: List[Fld] = []
    kt = rng.choice(keys)
    pk = Fld(rng.choice(["id", "Id", "key", "pk_col"]), kt, pk=True)
    used.add(pk.name.lower())
    if feats.identity and kt[0] in ("int", "int64", "int32") and rng.random() < 0.35:
        pk.identity = True
    n = rng.randint(1, feats.max_fields)
    for cname in pick_names(rng, PLAIN_COLS, n, used):
        f = gen_field(rng, dialect, modes, feats, world, mi, cname, refs, scal)
        if f is not None:
            fields.append(f)
    if feats.notes:
        for f in fields:
            f.note = rng.random() < 0.08 and f.ty[0] in NOTED
    plain = [f for f in fields if f.default is NOVALUE]
    dflt = [f for f in fields if f.default is not NOVALUE]
    pos = rng.randint(0, len(plain)) if rng.random() < 0.2 else 0
    plain.insert(pos, pk)
    t = Table(name, plain + dflt, None)
    if feats.docs:
        if rng.random() < 0.5:
            t.doc = rng.choice(LONG_DOCS)
        for f in t.fields:
            if rng.random() < 0.3:
                f.doc = rng.choice(DOCS)
    if feats.inherit and feats.abstract and rng.random() < 0.12:
        t.base = rng.randint(1, len(t.fields))
        for f in t.fields[: t.base]:
            f.doc = None
    elif feats.inherit and rng.random() < 0.12:
        cands = [p for p in world.modules[mi].tables if not any(f.default is not NOVALUE for f in p.fields) and not {f.name.lower() for f in p.fields} & {f.name.lower() for f in t.fields if not f.pk}]
        if cands:
            p = rng.choice(cands)
            t.fields = copy.deepcopy(p.fields) + [f for f in t.fields if not f.pk]
            t.parent = p.name
            for f in t.fields[: len(p.fields)]:
                f.doc = None
    return t


def gen_field(rng, dialect, modes, feats, world, mi, cname, refs, scal) -> Optional[Fld]:
    r = rng.random()
    f = Fld(cname, ("int",), nullable=rng.random() < 0.4)
    enums = [(i, e.name) for i in range(mi + 1) for e in world.modules[i].enums if not e.name.startswith("X") and len(e.members) >= 2]
    xenums = [(i, e.name) for i in range(mi + 1) for e in world.modules[i].enums if e.name.startswith("X")]
    structs = [(i, s.name) for i in range(mi + 1) for s in world.modules[i].structs]
    if r < 0.12 and feats.refs and refs:
        f.ty = ("ref", rng.choice(refs))
        return f
    if r < 0.24 and feats.enums and enums:
        f.ty = ("enum", rng.choice(enums))
        return f
    if r < 0.29 and feats.xenums and xenums:
        f.ty = ("xenum", rng.choice(xenums))
        return f
    if r < 0.36 and feats.lists:
        if modes.array == "relation":
            if modes.enum == "relation" and enums:
                f.ty = ("list" if not feats.sets or rng.random() < 0.7 else "set", ("enum", rng.choice(enums)))
                return f
        else:
            el = element_types(dialect, modes)
            if enums and feats.enums and (modes.array == "json" or modes.enum in ("type",)):
                el = el + [("enum", rng.choice(enums))]
            if structs and feats.structs and feats.struct_lists:
                el = el + [("struct", rng.choice(structs))]
            f.ty = ("list", rng.choice(el))
            return f
    if r < 0.40 and feats.structs and structs:
        f.ty = ("struct", rng.choice(structs))
        return f
    if r < 0.43 and feats.literals:
        f.ty = ("literal", tuple(rng.sample(["one", "of", "many", "value", "x"], rng.randint(1, 3))))
        return f
    if r < 0.46 and feats.entity_lists and refs:
        f.ty = ("list" if not feats.sets or rng.random() < 0.6 else "set", ("ref", rng.choice(refs)))
        return f
    if r < 0.48 and feats.dunis:
        cands: Dict[tuple, list] = {}
        for ref in refs:
            try:
                cands.setdefault(world.table(ref).pk.ty, []).append(ref)
            except StopIteration:
                pass
        cands = {k: v for k, v in cands.items() if len(v) >= 2 and all(x[0] == mi for x in v)}
        if cands:
            f.ty = ("duni", tuple(rng.sample(rng.choice(list(cands.values())), 2)))
            return f
    if feats.extras and rng.random() < 0.1:
        f.ty = rng.choice([("wide", "int32", "int64"), ("wide", "int16", "int32")] + ([("interval",)] if dialect == "postgresql" and not modes.auto else []))
        return f
    f.ty = rng.choice(scal)
    if feats.uniques and (not f.nullable or dialect != "mssql" and feats.optional_uniques) and f.ty in (feats.keys or key_types(dialect)) and rng.random() < 0.3:
        f.unique = True
        return f
    if feats.defaults and rng.random() < 0.3 and (feats.default_types is None or f.ty[0] in feats.default_types):
        f.default = gen_default(rng, dialect, f.ty, world)
    return f


def gen_member_type(rng, modes: Modes, feats: Features, world: World, mi: int) -> tuple:
    """Type of a member of a structure."""
    r = rng.random()
    if feats.nested and r < 0.12:
        structs = [(i, x.name) for i in range(mi + 1) for x in world.modules[i].structs]
        if structs:
            return ("struct", rng.choice(structs))
    elif feats.nested and r < 0.24 and feats.enums and not (modes.struct == "type" and modes.enum in ("relation", "inline")):
        enums = [(i, e.name) for i in range(mi + 1) for e in world.modules[i].enums if not e.name.startswith("X")]
        if enums:
            return ("enum", rng.choice(enums))
    elif feats.nested and r < 0.32 and modes.array != "relation":
        return ("list", rng.choice([("int",), ("str",), ("bool",)]))
    return rng.choice([("int",), ("str",), ("float",), ("bool",), ("int32",), ("str", 40)])


def gen_world(rng: random.Random, dialect: str, modes: Modes, feats: Optional[Features] = None) -> World:
    feats = feats or Features()
    if feats.extras:
        feats = replace(feats, records=modes.enum == "relation")
    nm = rng.randint(1, feats.max_modules)
    schemas = rng.sample(feats.schemas or SCHEMAS[dialect], nm)
    world = World([Module(s) for s in schemas])
    tnames = []
    # names need to be distinct only within a module
    shared: set = set()
    of_module = [set() for _ in world.modules] if feats.repeats and rng.random() < 0.4 else [shared for _ in world.modules]
    for mi, m in enumerate(world.modules):
        used = of_module[mi]
        for n in pick_names(rng, ENUM_NAMES, rng.randint(0, 2), used) if feats.enums else []:
            m.enums.append(gen_enum(rng, n, feats, dialect))
        if feats.xenums and rng.random() < 0.4:
            m.enums.append(Enum("X" + pick_names(rng, ["tag", "code"], 1, used)[0], [("unspecified", "__unspecified__")]))
        for n in pick_names(rng, STRUCT_NAMES, rng.randint(0, 2), used) if feats.structs else []:
            fs = []
            for i, c in enumerate(pick_names(rng, PLAIN_COLS, rng.randint(1, 4), set())):
                fs.append(Fld(c, gen_member_type(rng, modes, feats, world, mi), nullable=rng.random() < 0.25, doc=rng.choice(DOCS) if feats.docs and rng.random() < 0.3 else None))
            m.structs.append(Struct(n, fs, rng.choice(LONG_DOCS) if feats.docs and rng.random() < 0.4 else None))
    for mi, m in enumerate(world.modules):
        # modules before the last may define types only
        used = of_module[mi]
        least = 0 if feats.types_only and mi + 1 < nm and m.enums + m.structs and rng.random() < 0.25 else 1
        tnames.append(pick_names(rng, PLAIN_TABLES, rng.randint(1, feats.max_tables) if least else 0, used))
    done: List[tuple] = []
    for mi, m in enumerate(world.modules):
        for n in tnames[mi]:
            refs = list(done)
            m.tables.append(gen_table(rng, dialect, modes, feats, world, mi, n, refs))
            done.append((mi, n))
        if feats.cycles and feats.refs:
            # back references inside the module (self references, cycles) as nullable columns
            for t in m.tables:
                if rng.random() < 0.25:
                    other = rng.choice(m.tables)
                    n = pick_names(rng, ["parent", "peer"], 1, {f.name.lower() for f in t.fields})[0]
                    at = next((i for i, f in enumerate(t.fields) if f.default is not NOVALUE), len(t.fields))
                    t.fields.insert(at, Fld(n, ("ref", (mi, other.name)), nullable=True))
    return normalise(world, dialect, modes.auto)


def linked_world(rng: random.Random, dialect: str, modes: Modes, names: Optional[Dict[str, str]] = None) -> World:
    """Modules of which each refers to one or two others in a single way, and to nothing else; `names` has a table for each schema."""
    if names is None:
        names = linked_names(rng, dialect)
    world = World([Module(s) for s in rng.sample(list(names), len(names))])
    links = ["table-ref", "table-enum", "table-struct", "struct-struct"]
    if not (modes.struct == "type" and modes.enum in ("relation", "inline")):
        links.append("struct-enum")
    if rng.random() < 0.6:
        links = [rng.choice(links)]  # a single kind of link between all modules
    for mi, m in enumerate(world.modules):
        n = list(names).index(m.schema)
        m.enums.append(Enum(f"Enum{n}", [("a", "a"), ("b", "b"), ("c", "c")]))
        m.structs.append(Struct(f"Part{n}", [Fld("a", ("int",)), Fld("b", ("str", 40))]))
        m.structs.append(Struct(f"Whole{n}", [Fld("c", ("bool",))]))
        own = Table(names[m.schema], [Fld("id", ("int",), pk=True), Fld("value", ("int",))])
        m.tables.append(own)
        for to in rng.sample(range(mi), min(mi, rng.choice([1, 1, 2]))):
            source, target = rng.choice(links).split("-")
            other = world.modules[to]
            name = {"ref": other.tables[0].name, "enum": other.enums[0].name, "struct": other.structs[0].name}[target]
            f = Fld(f"{target}_{list(names).index(other.schema)}", (target, (to, name)), nullable=rng.random() < 0.4)
            if source == "struct":
                # types are created where tables use them
                m.structs[-1].fields.append(f)
                if not own.field("whole"):
                    own.fields.append(Fld("whole", ("struct", (mi, m.structs[-1].name))))
            else:
                own.fields.append(f)
    return normalise(world, dialect, modes.auto)


def linked_names(rng: random.Random, dialect: str) -> Dict[str, str]:
    n = rng.randint(2, 4)
    return dict(zip(rng.sample([x for x in SCHEMAS[dialect] if x is not None], n), rng.sample(PLAIN_TABLES, n)))


def normalise(world: World, dialect: str, auto: bool = False) -> World:
    """SQL Server: default constraints are named after the column only (known finding), so keep such columns unique."""
    if dialect == "mssql":
        for m in world.modules:
            seen: set = set()
            for t in m.tables if auto else []:
                for f in t.fields:
                    while f.name.lower() in seen:
                        f.name += "x"
                    seen.add(f.name.lower())
            seen = set()
            for t in m.tables:
                for f in t.fields:
                    if f.default is not NOVALUE:
                        if f.name.lower() in seen:
                            f.default = NOVALUE
                        seen.add(f.name.lower())
                t.fields.sort(key=lambda f: f.default is not NOVALUE)
    return world


# --------------------------------------------------------------------------------------------------------- expectation
def is_relation(modes: Modes, f: Fld) -> bool:
    return f.ty[0] in ("list", "set") and (f.ty[1][0] == "ref" or modes.array == "relation")


def db_name(dialect: str, schema: Optional[str], name: str) -> Tuple[Optional[str], str]:
    """(schema, local name) under which an object of a module is stored."""
    if dialect in ("mysql", "oracle"):
        return (None, f"{schema}__{name}" if schema else name)
    return (schema, name)


INT_CAPACITY = {
    "postgresql": {"smallint": 2, "integer": 4, "bigint": 8},
    "mysql": {"tinyint": 1, "smallint": 2, "mediumint": 3, "int": 4, "bigint": 8},
    "mssql": {"smallint": 2, "int": 4, "bigint": 8},
}
INT_NEED = {"int": 8, "int8": 1, "int16": 2, "int32": 4, "int64": 8, "uint8": 2, "uint16": 4, "uint32": 8}


def accepts(world: World, dialect: str, modes: Modes, ty: tuple, sty: tuple) -> Optional[str]:
    """None if a column of server type `sty` can hold every value declared by `ty`; otherwise the reason."""
    k, s = ty[0], sty[0]
    bad = f"{sty} cannot hold {ty}"
    if k == "ref":
        return accepts(world, dialect, modes, world.table(ty[1]).pk.ty, sty)
    if k == "duni":
        return accepts(world, dialect, modes, world.table(ty[1][0]).pk.ty, sty)
    if k == "wide":
        return accepts(world, dialect, modes, (ty[-1],), sty)
    if k == "interval":
        return None if s == "interval" else bad
    if k in INT_NEED or k == "intrange":
        need = INT_NEED.get(k) or 8
        if dialect == "oracle":
            if s == "number" and len(sty) == 1:
                return None
            if s in ("number", "integer"):
                digits = sty[1] if len(sty) > 1 else 38
                return None if digits >= {1: 3, 2: 5, 4: 10, 8: 19}[need] else bad
            return bad
        cap = INT_CAPACITY[dialect].get(s)
        return None if cap is not None and cap >= need else bad
    if k == "bool":
        return None if s in {"postgresql": ("boolean",), "mysql": ("tinyint", "bit", "boolean"), "mssql": ("bit",), "oracle": ("boolean",)}[dialect] else bad
    if k in ("float", "float64"):
        ok = {"postgresql": ("double precision",), "mysql": ("double",), "mssql": ("float",), "oracle": ("binary_double", "double precision", "float", "number")}[dialect]
        if s not in ok:
            return bad
        if dialect == "mssql" and len(sty) > 1 and sty[1] < 53:
            return bad
        return None
    if k == "float32":
        return None if s in ("real", "float", "double", "double precision", "binary_float", "binary_double") else bad
    if k == "decimal":
        if len(ty) == 1:
            return None if dialect == "postgresql" and sty == ("numeric",) else (None if dialect != "postgresql" and s in ("decimal", "numeric", "number") else bad)
        p, sc = ty[1], ty[2]
        if s not in ("numeric", "decimal", "number"):
            return bad
        if len(sty) == 1:
            return None if dialect == "postgresql" or s == "number" else bad
        sp, ss = sty[1], sty[2] if len(sty) > 2 else 0
        return None if ss >= sc and sp - ss >= p - sc else bad
    if k == "str" or k == "literal" or k == "enum_check":
        n = ty[1] if k == "str" and len(ty) > 1 else None
        if k == "literal":
            n = max(len(v) for v in ty[1])
        unlimited = {"postgresql": s == "text" or sty == ("varchar",), "mysql": s in ("mediumtext", "longtext"), "mssql": s in ("varchar", "nvarchar") and sty[1:] == ("max",), "oracle": s in ("clob", "nclob")}[dialect]
        if unlimited:
            return None
        if n is None:
            return bad
        if s in ("varchar", "varchar2", "nvarchar", "char") and len(sty) > 1 and sty[1] >= n:
            if s == "char" and k != "literal":
                return bad
            return None
        return bad
    if k == "datetime":
        return None if s in ("timestamp", "timestamptz", "datetime", "datetime2") else bad
    if k == "date":
        return None if s == "date" else bad
    if k == "time":
        return None if s in ("time", "interval day to second") else bad
    if k == "uuid":
        return None if sty in (("uuid",), ("binary", 16), ("raw", 16), ("varbinary", 16)) else bad
    if k in ("ipv4", "ipv6", "ip"):
        n = 4 if k == "ipv4" else 16
        if s == "inet":
            return None
        return None if s in ("binary", "raw", "varbinary") and len(sty) > 1 and sty[1] >= n and not (s == "binary" and sty[1] != n) else bad
    if k == "bytes":
        return None if s in ("bytea", "blob", "varbinary", "longblob", "mediumblob") else bad
    if k == "json" or (k == "struct" and modes.struct == "json") or (k in ("list", "set") and modes.array == "json"):
        ok = {"postgresql": ("json", "jsonb"), "mysql": ("json",), "mssql": ("varchar", "nvarchar"), "oracle": ("clob", "json")}[dialect]
        if s not in ok or (dialect == "mssql" and sty[1:] != ("max",)):
            return bad
        return None
    if k == "struct":
        mi, name = ty[1]
        return None if sty == ("struct", world.modules[mi].schema or "public", name) else bad
    if k in ("list", "set"):
        if s != "array":
            return bad
        return accepts(world, dialect, modes, ty[1], sty[1])
    if k == "xenum" or (k == "enum" and modes.enum == "relation"):
        return accepts(world, dialect, modes, ("int32",), sty)
    if k == "enum":
        mi, name = ty[1]
        e = world.enum(ty[1])
        if modes.enum == "type":
            return None if sty == ("enum", world.modules[mi].schema or "public", name) else bad
        if modes.enum == "inline":
            return None if s == "enum" and list(sty[1]) == e.values else bad
        if modes.enum == "check" and e.numeric:
            return accepts(world, dialect, modes, ("int",), sty)
        if modes.enum == "check":
            return accepts(world, dialect, modes, ("str", max(64, max(len(v) for v in e.values))), sty)
    return f"no rule for {ty}"


def expected_tables(world: World, dialect: str, modes: Modes) -> Dict[Tuple[Optional[str], str], dict]:
    """Every table that must exist, keyed by stored name."""
    out: Dict[Tuple[Optional[str], str], dict] = {}
    lookups: set = set()

    def nm(mi, name):
        return db_name(dialect, world.modules[mi].schema, name)

    for mi, t in world.all_tables():
        td = dict(columns={}, pk=(t.pk.name,), uniques=set(), fks=set(), checks=[], comment=t.doc, decl=(mi, t.name))
        for f in t.fields:
            if is_relation(modes, f):
                item = f.ty[1]
                right_tab = item[1][1]
                if item[0] == "ref":
                    rt = world.table(item[1])
                    rname, rty = rt.pk.name, rt.pk.ty
                else:
                    lookups.add(item[1])
                    rname, rty = "id", ("int32",)
                lc, rc = f"{t.name}_{f.name}", f"{right_tab}_{rname}"
                jd = dict(
                    columns={
                        "uuid": dict(ty=("uuid",), nullable=False, default=NOVALUE, identity=False, doc=None),
                        lc: dict(ty=t.pk.ty, nullable=False, default=NOVALUE, identity=False, doc=None),
                        rc: dict(ty=rty, nullable=False, default=NOVALUE, identity=False, doc=None),
                    },
                    pk=("uuid",), uniques={(rc,)} if f.ty[0] == "set" else set(),
                    fks={(lc, nm(mi, t.name), t.pk.name), (rc, nm(item[1][0], right_tab), rname)}, checks=[], comment=None, decl=None,
                )
                out[nm(mi, f"{t.name}_{f.name}_{right_tab}")] = jd
                continue
            td["columns"][f.name] = dict(ty=f.ty, nullable=f.nullable, default=declared_default(world, dialect, modes, f), identity=f.identity, doc=f.doc)
            if f.unique and modes.foreign:
                td["uniques"].add((f.name,))
            if f.ty[0] == "ref" and modes.foreign:
                td["fks"].add((f.name, nm(f.ty[1][0], f.ty[1][1]), world.table(f.ty[1]).pk.name))
            el = f.ty[1] if f.ty[0] in ("list", "set") else f.ty
            if f.ty[0] == "xenum":
                lookups.add(f.ty[1])
                td["fks"].add((f.name, nm(*f.ty[1]), "id"))
            if modes.enum == "relation" and el[0] == "enum":
                lookups.add(el[1])
                if f.ty[0] == "enum":
                    td["fks"].add((f.name, nm(*el[1]), "id"))
            if modes.enum == "check" and f.ty[0] == "enum":
                td["checks"].append(("in", f.name, tuple(v for _, v in world.enum(f.ty[1]).members)))
            if f.ty[0] == "intrange":
                td["checks"].append(("range", f.name, f.ty[1], f.ty[2]))
        out[nm(mi, t.name)] = td
    for ref in lookups:
        record = world.enum(ref).record
        if record:
            cols = {n: dict(ty=ty, nullable=False, default=NOVALUE, identity=False, doc=None) for n, ty in record}
            cols["id"] = dict(ty=("int32",), nullable=False, default=NOVALUE, identity=True, doc=None)
            out[nm(*ref)] = dict(columns=cols, pk=("id",), uniques=set(), fks=set(), checks=[], comment=None, decl=None, lookup=ref)
            continue
        out[nm(*ref)] = dict(
            columns={"id": dict(ty=("int32",), nullable=False, default=NOVALUE, identity=True, doc=None), "value": dict(ty=("str", 64), nullable=False, default=NOVALUE, identity=False, doc=None)},
            pk=("id",), uniques={("value",)}, fks=set(), checks=[], comment=None, decl=None, lookup=ref,
        )
    return out


def type_refs(world: World, ty: tuple) -> set:
    """Enumerations and structures a type is made of, directly or through its members."""
    k = ty[0]
    if k in ("list", "set"):
        return type_refs(world, ty[1])
    if k in ("enum", "xenum"):
        return {(k, ty[1])}
    if k == "struct":
        out = {("struct", ty[1])}
        for f in world.struct(ty[1]).fields:
            out |= type_refs(world, f.ty)
        return out
    return set()


def used_enums(world: World) -> set:
    used = set()
    for mi, t in world.all_tables():
        for f in t.fields:
            used |= {r for k, r in type_refs(world, f.ty) if k in ("enum", "xenum")}
    return used


def used_structs(world: World) -> set:
    used = set()
    for mi, t in world.all_tables():
        for f in t.fields:
            used |= {r for k, r in type_refs(world, f.ty) if k == "struct"}
    return used


def stored_doc(dialect, doc):
    """MySQL keeps the first line of a description only."""
    return doc.split("\n")[0] if doc and dialect == "mysql" else doc


def judge_checks(server, tab, checks) -> List[Tuple[str, str]]:
    """What the check constraints of a table let through, against what was declared."""
    out = []
    cons = [k for k in tab.cons if k.kind == "c"]
    for kind, col, *rest in checks:
        uid = next((c.uid for c in tab.cols if c.name == col), None)
        if uid is None:
            continue
        if kind == "range":
            good, bad = [rest[0], rest[1], (rest[0] + rest[1]) // 2, None], [rest[0] - 1, rest[1] + 1]
        else:
            good, bad = [*rest[0], None], ["no such value", rest[0][0] + "x"] if isinstance(rest[0][0], str) else [max(rest[0]) + 1, min(rest[0]) - 1]
        for v in good + bad:
            passes = not any(server.eval(k.expr, {"": (tab, {uid: v})}, []) is False for k in cons)
            if passes != (v in good):
                out.append((col, f"check constraint {'accepts' if passes else 'refuses'} {v!r}, declared {kind} {rest}"))
    return out


def compare_catalogue(world: World, dialect: str, modes: Modes, server, *, comments=True, ignore_schemas=(), order=False) -> List[str]:
    """Differences between what was declared and what the server holds; empty if none. Order matters only in a database just created."""
    diffs: List[str] = []
    have = server.describe()
    exp = expected_tables(world, dialect, modes)
    default = server.default
    got: Dict[tuple, dict] = {}
    for s, sd in have.items():
        if s in ignore_schemas:
            continue
        for n, td in sd["tables"].items():
            got[(None, n) if dialect in ("mysql", "oracle") else (s, n)] = td
    expk = {((k[0] or default) if dialect in ("postgresql", "mssql") else None, k[1]): v for k, v in exp.items()}
    for k in sorted(set(expk) - set(got), key=str):
        diffs.append(f"table {k} is missing")
    for k in sorted(set(got) - set(expk), key=str):
        diffs.append(f"table {k} was not declared")
    for k in sorted(set(expk) & set(got), key=str):
        e, g = expk[k], got[k]
        for c in e["columns"].keys() - g["columns"].keys():
            diffs.append(f"{k}: column {c!r} is missing")
        for c in g["columns"].keys() - e["columns"].keys():
            diffs.append(f"{k}: column {c!r} was not declared")
        if order and not diffs and e["decl"] and list(e["columns"]) != list(g["columns"]):
            diffs.append(f"{k}: columns in order {list(g['columns'])} instead of {list(e['columns'])}")
        for c in e["columns"].keys() & g["columns"].keys():
            ec, gc = e["columns"][c], g["columns"][c]
            why = accepts(world, dialect, modes, ec["ty"], gc["type"])
            if why:
                diffs.append(f"{k}.{c}: type: {why}")
            if ec["nullable"] != gc["nullable"]:
                diffs.append(f"{k}.{c}: nullable {gc['nullable']} instead of {ec['nullable']}")
            if ec["identity"] != bool(gc["identity"]):
                diffs.append(f"{k}.{c}: identity {gc['identity']} instead of {ec['identity']}")
            dv = gc["default"]
            if ec["default"] is NOVALUE or ec["default"] is None:
                if dv is not None:
                    diffs.append(f"{k}.{c}: unexpected default {dv}")
            elif dv is None:
                diffs.append(f"{k}.{c}: default {ec['default']!r} is missing")
            else:
                try:
                    ok = dv[0] == "value" and same(decode(world, dialect, modes, ec["ty"], server, dv[1]), canon(world, ec["ty"], ec["default"]))
                except Exception as exc:  # noqa: BLE001
                    ok = False
                    dv = (dv, exc)
                if not ok:
                    diffs.append(f"{k}.{c}: default {dv} instead of {ec['default']!r}")
            if comments and dialect in ("postgresql", "mysql"):
                want = stored_doc(dialect, ec["doc"])
                if (gc["comment"] or None) != (want or None):
                    diffs.append(f"{k}.{c}: comment {gc['comment']!r} instead of {want!r}")
        if comments and dialect in ("postgresql", "mysql") and e["decl"]:
            if (g["comment"] or None) != (stored_doc(dialect, e["comment"]) or None):
                diffs.append(f"{k}: comment {g['comment']!r} instead of {e['comment']!r}")
        pks = [c for c in g["constraints"].values() if c["kind"] == "p"]
        if [tuple(p["cols"]) for p in pks] != [e["pk"]]:
            diffs.append(f"{k}: primary key {[p['cols'] for p in pks]} instead of {e['pk']}")
        un = sorted(tuple(c["cols"]) for c in g["constraints"].values() if c["kind"] == "u")
        if un != sorted(e["uniques"]):
            diffs.append(f"{k}: unique {un} instead of {sorted(e['uniques'])}")
        fks = sorted((c["cols"], c["ref"]) for c in g["constraints"].values() if c["kind"] == "f")
        want = sorted(([a], ((r[0] or default) if dialect in ("postgresql", "mssql") else default, r[1], [b])) for a, r, b in e["fks"])
        if [(a, tuple(b)) for a, b in fks] != [(a, tuple(b)) for a, b in want]:
            diffs.append(f"{k}: foreign keys {fks} instead of {want}")
        ch = [c for c in g["constraints"].values() if c["kind"] == "c"]
        if len(ch) != len(e["checks"]):
            diffs.append(f"{k}: {len(ch)} check constraints instead of {len(e['checks'])}")
        elif e["checks"]:
            tab = server.find_table(k if dialect in ("postgresql", "mssql") else (None, k[1]))
            diffs += [f"{k}.{c}: {d}" for c, d in judge_checks(server, tab, e["checks"])]
    # types
    exp_enums, exp_structs = {}, {}
    if modes.enum == "type" and dialect == "postgresql":
        for mi, n in used_enums(world):
            e = world.enum((mi, n))
            if len(e.members) >= 2 or not n.startswith("X"):
                exp_enums[(world.modules[mi].schema or default, n)] = e.values
    if modes.struct == "type" and dialect == "postgresql":
        for mi, n in used_structs(world):
            exp_structs[(world.modules[mi].schema or default, n)] = world.struct((mi, n))
    got_enums = {(s, n): v for s, sd in have.items() if s not in ignore_schemas for n, v in sd["enums"].items()}
    got_structs = {(s, n): v for s, sd in have.items() if s not in ignore_schemas for n, v in sd["structs"].items()}
    for k in sorted(set(exp_enums) | set(got_enums), key=str):
        if k not in got_enums or k not in exp_enums:
            diffs.append(f"enumeration type {k} {'missing' if k in exp_enums else 'not declared'}")
        elif (list(exp_enums[k]) != list(got_enums[k])) if order else (sorted(exp_enums[k]) != sorted(got_enums[k])):
            diffs.append(f"enumeration type {k}: {got_enums[k]} instead of {exp_enums[k]}")
    for k in sorted(set(exp_structs) | set(got_structs), key=str):
        if k not in got_structs or k not in exp_structs:
            diffs.append(f"composite type {k} {'missing' if k in exp_structs else 'not declared'}")
            continue
        s, g = exp_structs[k], got_structs[k]
        gm = {m[0]: (m[1], m[2]) for m in g["members"]}
        if set(gm) != {f.name for f in s.fields}:
            diffs.append(f"composite type {k}: members {sorted(gm)}")
            continue
        if order and [m[0] for m in g["members"]] != [f.name for f in s.fields]:
            diffs.append(f"composite type {k}: members in order {[m[0] for m in g['members']]} instead of {[f.name for f in s.fields]}")
        for f in s.fields:
            why = accepts(world, dialect, modes, f.ty, gm[f.name][0])
            if why:
                diffs.append(f"composite type {k}.{f.name}: {why}")
            if comments and (gm[f.name][1] or None) != (f.doc or None):
                diffs.append(f"composite type {k}.{f.name}: comment {gm[f.name][1]!r} instead of {f.doc!r}")
        if comments and (g["comment"] or None) != (s.doc or None):
            diffs.append(f"composite type {k}: comment {g['comment']!r} instead of {s.doc!r}")
    # schemas
    if dialect in ("postgresql", "mssql"):
        holding = {x[0] for x in list(expk) + list(exp_enums) + list(exp_structs)}
        want_s = {m.schema for m in world.modules if m.schema and m.schema in holding}
        got_s = set(have) - {default} - set(ignore_schemas)
        if want_s != got_s:
            diffs.append(f"schemas {sorted(got_s)} instead of {sorted(want_s)}")
    # lookup contents
    for k, e in expk.items():
        if "lookup" in e and k in got and modes.init:
            tab = server.find_table(k if dialect in ("postgresql", "mssql") else (None, k[1]))
            record = world.enum(e["lookup"]).record
            if record:
                vals = sorted(tuple(r[n] for n, _ in record) for r in server.dump_rows(tab))
            else:
                vals = sorted(r["value"] for r in server.dump_rows(tab))
            if vals != sorted(world.enum(e["lookup"]).values):
                diffs.append(f"{k}: lookup values {vals} instead of {sorted(world.enum(e['lookup']).values)}")
    return diffs


# --------------------------------------------------------------------------------------------------------- values
def canon(world: World, ty: tuple, v: Any) -> Any:
    """Canonical form of a Python value given by the user for a field of type `ty`."""
    if v is None:
        return None
    k = ty[0]
    if k in ("ref", "duni"):
        ref = ty[1] if k == "ref" else ty[1][0]
        return canon(world, world.table(ref).pk.ty, v)
    if k in ("enum", "xenum"):
        return getattr(v, "value", v)
    if k == "datetime" and isinstance(v, dt.datetime) and v.tzinfo is not None:
        return v.astimezone(dt.timezone.utc).replace(tzinfo=None)
    if k == "float32":
        return f32(v)
    if k in ("float", "float64"):
        return float(v)
    if k == "decimal":
        return Decimal(v)
    if k == "list":
        return [canon(world, ty[1], x) for x in v]
    if k == "set":
        return sorted((canon(world, ty[1], x) for x in v), key=repr)
    if k == "struct":
        s = world.struct(ty[1])
        return {f.name: canon(world, f.ty, getattr(v, f.name) if not isinstance(v, dict) else v.get(f.name)) for f in s.fields}
    return v


def decode(world: World, dialect: str, modes: Modes, ty: tuple, server, v: Any) -> Any:
    """The Python value denoted by a stored database value; raises if the stored value has the wrong kind."""
    if v is None:
        return None
    k = ty[0]

    def need(*types):
        if not isinstance(v, types) or (isinstance(v, bool) and bool not in types):
            raise TypeError(f"stored value {v!r} of type {type(v).__name__} for {ty}")

    if k == "wide":
        return decode(world, dialect, modes, (ty[2],), server, v)
    if k in ("ref", "duni"):
        ref = ty[1] if k == "ref" else ty[1][0]
        return decode(world, dialect, modes, world.table(ref).pk.ty, server, v)
    if k in ("xenum",) or (k == "enum" and modes.enum == "relation"):
        need(int)
        sch, n = db_name(dialect, world.modules[ty[1][0]].schema, ty[1][1])
        for row in server.dump_rows(server.find_table((sch, n))):
            if row["id"] == v:
                return int(row["value"]) if world.enum(ty[1]).numeric else row["value"]
        raise KeyError(f"identifier {v} not in lookup table {n}")
    if k == "enum" and world.enum(ty[1]).numeric:
        if modes.enum == "check":
            need(int)
            return v
        need(str)
        return int(v)
    if k in INT_NEED or k == "intrange":
        need(int)
        return v
    if k == "bool":
        if dialect == "mysql":
            need(int, bool)
            if v not in (0, 1):
                raise ValueError(f"boolean {v}")
            return bool(v)
        if not isinstance(v, bool):
            raise TypeError(f"stored boolean {v!r}")
        return v
    if k in ("float", "float64", "float32"):
        need(float, int, Decimal)
        return f32(float(v)) if k == "float32" else float(v)
    if k == "decimal":
        need(Decimal, int)
        return Decimal(v)
    if k in ("str", "literal", "enum"):
        need(str)
        return v.rstrip(" ") if k == "literal" else v
    if k == "datetime":
        need(dt.datetime)
        return v.replace(tzinfo=None)
    if k == "date":
        if dialect == "oracle":
            need(dt.datetime)
            if v.time() != dt.time():
                raise ValueError(f"date with time part {v}")
            return v.date()
        if isinstance(v, dt.datetime):
            raise TypeError(f"stored date {v!r}")
        need(dt.date)
        return v
    if k == "time":
        if dialect == "oracle":
            need(dt.timedelta)
            if not dt.timedelta() <= v < dt.timedelta(days=1):
                raise ValueError(f"time of day {v}")
            return (dt.datetime(2000, 1, 1) + v).time()
        need(dt.time)
        return v
    if k == "uuid":
        if isinstance(v, bytes):
            return uuid.UUID(bytes=v)
        need(uuid.UUID)
        return v
    if k in ("ipv4", "ipv6", "ip"):
        if isinstance(v, bytes):
            return ipaddress.ip_address(v)
        need(ipaddress.IPv4Address, ipaddress.IPv6Address)
        return v
    if k == "bytes":
        need(bytes)
        return v
    if k == "json" or (k in ("list", "set") and modes.array == "json") or (k == "struct" and modes.struct == "json"):
        x = v.value if isinstance(v, Json) else None
        if not isinstance(v, Json):
            if dialect not in ("mssql", "oracle"):
                raise TypeError(f"stored JSON {v!r}")
            need(str)
            x = json.loads(v)
        if k == "list":
            return [decode_json(world, ty[1], e) for e in x]
        if k == "set":
            return sorted((decode_json(world, ty[1], e) for e in x), key=repr)
        if k == "struct":
            return decode_json(world, ty, x)
        return x
    if k in ("list", "set"):
        need(list)
        r = [decode(world, dialect, modes, ty[1], server, e) for e in v]
        return sorted(r, key=repr) if k == "set" else r
    if k == "struct":
        need(tuple)
        s = world.struct(ty[1])
        t = next(t for t in server.types.values() if t.kind == "struct" and t.name == ty[1][1] and t.schema == (world.modules[ty[1][0]].schema or server.default))
        by = {m[0]: x for m, x in zip(t.members, v)}
        return {f.name: decode(world, dialect, modes, f.ty, server, by.get(f.name)) for f in s.fields}
    raise KeyError(ty)


def decode_json(world, ty, x):
    if x is None:
        return None
    k = ty[0]
    if k == "struct":
        s = world.struct(ty[1])
        if not isinstance(x, dict) or not set(x) <= {f.name for f in s.fields}:
            raise TypeError(f"JSON object {x!r} for {ty}")
        return {f.name: decode_json(world, f.ty, x.get(f.name)) for f in s.fields}
    if k in ("float", "float64", "float32"):
        if isinstance(x, bool) or not isinstance(x, (int, float)):
            raise TypeError(f"JSON number {x!r}")
        return float(x)
    if k in INT_NEED:
        if isinstance(x, bool) or not isinstance(x, int):
            raise TypeError(f"JSON integer {x!r}")
        return x
    if k == "bool":
        if not isinstance(x, bool):
            raise TypeError(f"JSON boolean {x!r}")
        return x
    if k == "enum" and world.enum(ty[1]).numeric:
        if isinstance(x, bool) or not isinstance(x, int):
            raise TypeError(f"JSON number {x!r}")
        return x
    if k in ("str", "enum"):
        if not isinstance(x, str):
            raise TypeError(f"JSON string {x!r}")
        return x
    if k == "list":
        if not isinstance(x, list):
            raise TypeError(f"JSON array {x!r}")
        return [decode_json(world, ty[1], e) for e in x]
    raise KeyError(ty)


def same(a: Any, b: Any) -> bool:
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (int, float, Decimal)) and isinstance(b, (int, float, Decimal)):
        return a == b
    return type(a) is type(b) and a == b


STRINGS = ["", "a", "abc", "it's", 'q"q', "tab\there", "new\nline", "cr\rlf\r\n", "back\\slash", "\\N", "NULL", "null", "Ünï", "😀", "semi;colon", "-- x", "%s %(a)s", "?", "$1 :1", "  lead", "0", "{}", "日本語", "\u200b", "e\u0301"]


def gen_value(rng: random.Random, world: World, dialect: str, ty: tuple, nullable=False, keys: Optional[dict] = None, as_enum=None) -> Any:
    """A random value (canonical Python form) of a field type; references draw from `keys[(mi, table)]`."""
    if nullable and rng.random() < 0.25:
        return None
    k = ty[0]
    if k == "wide":
        return gen_value(rng, world, dialect, (ty[2],))
    if k in ("ref", "duni"):
        refs = [ty[1]] if k == "ref" else list(ty[1])
        pool = (keys or {}).get(refs[0]) or []
        if not pool:
            return None if nullable else NOVALUE
        return rng.choice(pool)
    if k in ("int", "int64"):
        return rng.choice([0, 1, -1, 2**63 - 1, -(2**63), rng.randint(-(2**62), 2**62), rng.randint(-100, 100)])
    if k in ("int8",):
        return rng.choice([0, 127, -128, rng.randint(-128, 127)])
    if k == "int16":
        return rng.choice([0, 32767, -32768, rng.randint(-32768, 32767)])
    if k == "int32":
        return rng.choice([0, 2**31 - 1, -(2**31), rng.randint(-(2**31), 2**31 - 1)])
    if k == "uint8":
        return rng.choice([0, 255, rng.randint(0, 255)])
    if k == "uint16":
        return rng.choice([0, 65535, rng.randint(0, 65535)])
    if k == "uint32":
        return rng.choice([0, 2**32 - 1, rng.randint(0, 2**32 - 1)])
    if k == "intrange":
        return rng.choice([ty[1], ty[2], rng.randint(ty[1], ty[2])])
    if k == "bool":
        return rng.random() < 0.5
    if k in ("float", "float64"):
        return rng.choice([0.0, 1.5, -2.25, 1e300, 1e-300, 0.1, rng.uniform(-1e6, 1e6), float(2**53)]) if dialect != "oracle" else rng.choice([0.0, 1.5, -2.25, 0.1, rng.uniform(-1e6, 1e6)])
    if k == "float32":
        return f32(rng.choice([0.0, 1.5, -2.25, rng.uniform(-1e6, 1e6)]))
    if k == "decimal":
        p, s = (ty[1], ty[2]) if len(ty) > 1 else (12, 4)
        m = 10**p - 1
        return Decimal(rng.choice([0, 1, -1, m, -m, rng.randint(-m, m)])).scaleb(-s)
    if k == "str":
        lim = ty[1] if len(ty) > 1 else 400
        for _ in range(20):
            r = rng.random()
            if r < 0.5:
                v = rng.choice(STRINGS)
            elif r < 0.9:
                v = "".join(rng.choice("abcXYZ019 _-'\"\\%\n\t;é") for _ in range(rng.randint(1, min(lim, 12))))
            else:
                v = "z" * lim
            if dialect == "mssql":
                v = v.rstrip(" ")
            if dialect == "oracle" and v == "":
                continue
            size = len(v.encode()) if dialect in ("mssql", "oracle") else len(v)
            if size <= lim:
                return v
        return "a"
    if k == "literal":
        return rng.choice(ty[1])
    if k == "datetime":
        us = rng.choice([0, rng.randint(0, 999999)]) if (len(ty) > 1 or dialect in ("postgresql", "mssql", "oracle")) else 0
        return rng.choice([dt.datetime(1989, 10, 24, 23, 59, 59), dt.datetime(2024, 2, 29, 12, 0, 0), dt.datetime(rng.randint(1800, 2200), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), us)])
    if k == "date":
        return rng.choice([dt.date(2000, 2, 29), dt.date(rng.randint(1800, 2200), rng.randint(1, 12), rng.randint(1, 28))])
    if k == "time":
        us = rng.choice([0, rng.randint(0, 999999)])
        return rng.choice([dt.time(0, 0, 0), dt.time(23, 59, 59), dt.time(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), us)])
    if k == "uuid":
        return uuid.UUID(int=rng.getrandbits(128))
    if k == "ipv4":
        return ipaddress.IPv4Address(rng.choice([0, 2**32 - 1, rng.getrandbits(32)]))
    if k == "ipv6":
        return ipaddress.IPv6Address(rng.choice([0, 1, 2**128 - 1, rng.getrandbits(128)]))
    if k == "ip":
        return gen_value(rng, world, dialect, (rng.choice(["ipv4", "ipv6"]),))
    if k == "bytes":
        return bytes(rng.getrandbits(8) for _ in range(rng.randint(1, 20)))
    if k == "enum":
        e = world.enum(ty[1])
        v = rng.choice(e.values)
        return int(v) if e.numeric else v
    if k == "xenum":
        return rng.choice(["__unspecified__", "alpha", "beta", "it's", "γ", "x y", "semi;"])
    if k == "json":
        return rng.choice([{}, {"a": 1}, [1, 2, "x"], {"q": 'it\'s "q"', "n": None, "l": [True, 1.5]}, [], {"ü": "😀\n\t\\"}])
    if k == "list":
        return [gen_value(rng, world, dialect, ty[1]) for _ in range(rng.choice([0, 1, 2, 5]))]
    if k == "set":
        return sorted({gen_value(rng, world, dialect, ty[1]) for _ in range(rng.choice([0, 1, 3]))}, key=repr)
    if k == "struct":
        return {f.name: gen_value(rng, world, dialect, f.ty, f.nullable) for f in world.struct(ty[1]).fields}
    raise KeyError(ty)


def to_python(rendered: Rendered, ty: tuple, v: Any) -> Any:
    """Canonical value -> the Python value a user puts on an entity object."""
    if v is None:
        return None
    k = ty[0]
    if k == "enum":
        return rendered.cls(ty[1])(v)
    if k == "xenum":
        cls = rendered.cls(ty[1])
        try:
            return cls(v)
        except ValueError:
            return v
    if k == "list":
        return [to_python(rendered, ty[1], x) for x in v]
    if k == "set":
        return {to_python(rendered, ty[1], x) for x in v}
    if k == "struct":
        s = rendered.world.struct(ty[1])
        return rendered.cls(ty[1])(**{f.name: to_python(rendered, f.ty, v[f.name]) for f in s.fields})
    return v
