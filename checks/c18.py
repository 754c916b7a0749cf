"""C18: generated Python code and reverse-engineered classes are faithful."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import dataclasses
import datetime
import decimal
import enum
import itertools
import keyword
import random
import re
import types
import typing
import uuid
from typing import Annotated

import harness
import probes
import scenario as sc
import specgen as sg
from harness import Check, Obs, Skip, Violation
from strong_typing.auxiliary import IntegerRange, Length, MaxLength, Precision, Signed, Storage, TimePrecision, float32, float64, int16, int32, int64
from strong_typing.core import JsonType
from strong_typing.docstring import has_docstring, parse_type

from pysqlsync.formation.object_types import Column, ConstraintReference, DiscriminatedConstraint, ForeignConstraint, Table, UniqueConstraint
from pysqlsync.formation.py_to_sql import DataclassConverter, DataclassConverterOptions, NamespaceMapping
from pysqlsync.formation.sql_to_py import SqlConverterOptions, table_to_dataclass
from pysqlsync.model.entity_types import make_entity
from pysqlsync.model.data_types import (
    SqlBooleanType,
    SqlDateType,
    SqlDecimalType,
    SqlDoubleType,
    SqlFixedCharacterType,
    SqlIntegerType,
    SqlIntervalType,
    SqlJsonType,
    SqlRealType,
    SqlTimestampType,
    SqlTimeType,
    SqlUuidType,
    SqlVariableCharacterType,
)
from pysqlsync.model.id_types import LocalId, QualifiedId
from pysqlsync.model.key_types import DefaultTag, IdentityTag, PrimaryKeyTag, UniqueTag
from pysqlsync.python_types import dataclass_to_code, dataclasses_to_code, enum_class_to_code, module_to_code
from pysqlsync.util.dataclasses import flatten_dataclass, make_dataclass

_count = itertools.count()


def fresh(prefix="c18") -> types.ModuleType:
    m = types.ModuleType(f"{prefix}_{next(_count)}")
    sys.modules[m.__name__] = m
    return m


# ---------------------------------------------------------------------------------------------------------------------
# description of classes


PUBLIC = {"builtins", "datetime", "decimal", "enum", "ipaddress", "uuid", "typing", "types", "strong_typing", "pysqlsync", "_decimal", "collections"}


def norm(t, module, depth=0):
    """A type as plain data, in which classes of the module are given by name."""
    if depth > 12:
        return "..."
    if t == JsonType or t in ("JsonType", typing.ForwardRef("JsonType")):
        return "JsonType"
    if isinstance(t, str):
        return norm(eval(t, module.__dict__), module, depth + 1)
    if isinstance(t, typing.ForwardRef):
        where = sys.modules[t.__forward_module__] if t.__forward_module__ else module
        return norm(eval(t.__forward_arg__, dict(where.__dict__)), module, depth + 1)
    if t is None or t is type(None):
        return None
    if t is Ellipsis:
        return "..."
    meta = getattr(t, "__metadata__", None)
    if meta is not None:
        tags = [type(m).__name__ if isinstance(m, (PrimaryKeyTag, IdentityTag, UniqueTag)) else repr(m) for m in meta]
        return ("Annotated", norm(typing.get_args(t)[0], module, depth + 1), tuple(tags))
    origin = typing.get_origin(t)
    if origin is typing.Literal:
        return ("Literal", typing.get_args(t))
    if origin is not None:
        name = "Union" if origin in (typing.Union, types.UnionType) else origin.__name__
        return (name, tuple(norm(a, module, depth + 1) for a in typing.get_args(t)))
    if isinstance(t, type):
        return ("class", t.__name__) if t.__module__.partition(".")[0] not in PUBLIC else (t.__module__, t.__qualname__)
    return repr(t)


def value(v):
    """A default value as plain data."""
    if isinstance(v, enum.Enum):
        return ("enum", type(v).__name__, v.name)
    if isinstance(v, float) and v != v:
        return "nan"
    if v is dataclasses.MISSING:
        return "(none)"
    return (type(v).__name__, v)


def words(text):
    return " ".join(text.split()) if text else None


def documentation(cls):
    if not has_docstring(cls):
        return None
    d = parse_type(cls)
    return {
        "short": words(d.short_description),
        "long": words(d.long_description),
        "params": {n: words(p.description) for n, p in d.params.items()},
        "returns": words(d.returns.description) if d.returns else None,
        "single": cls.__doc__ if "\n" not in cls.__doc__ else None,
    }


def described(cls, module):
    if issubclass(cls, enum.Enum):
        return {
            "members": [(e.name, value(e.value)) for e in cls],
            "doc": cls.__doc__,
            "docs": {e.name: e.__doc__ for e in cls if e.__doc__ != cls.__doc__},
        }
    fields = dataclasses.fields(cls)
    names = [f.name for f in fields]
    return {
        "order": names,
        "fields": {
            f.name: {
                "type": norm(f.type, module),
                "default": value(f.default),
                "factory": None if f.default_factory is dataclasses.MISSING else norm(f.default_factory, module),
                "metadata": dict(f.metadata),
            }
            for f in fields
        },
        "variables": {k: value(v) for k, v in vars(cls).items() if not re.fullmatch(r"__.*__", k) and k not in names and not callable(v)},
        "doc": documentation(cls),
    }


def execute(code, what):
    m = fresh("generated")
    try:
        exec(compile(code, m.__name__, "exec"), m.__dict__)
    except Exception as e:
        line = getattr(e, "lineno", None)
        raise Violation(f"{what}: generated code fails: {type(e).__name__}: {e}; {code.splitlines()[line - 1] if line and line <= len(code.splitlines()) else sc.brief(code[-300:], 300)}")
    return m


def classes_of(m):
    return {n: c for n, c in vars(m).items() if isinstance(c, type) and c.__module__ == m.__name__}


def same_module(obs, m, what):
    """The code generated for the module defines the same classes."""
    try:
        code = module_to_code(m)
    except Exception as e:
        raise Violation(f"{what}: no code is generated: {type(e).__name__}: {e}")
    g = execute(code, what)
    a, b = classes_of(m), classes_of(g)
    if set(a) != set(b):
        raise Violation(f"{what}: classes {sorted(set(a) ^ set(b))} differ")
    for n in a:
        same_class(obs, a[n], m, b[n], g, what)
    return g


def same_class(obs, a, m, b, g, what):
    try:
        x, y = described(a, m), described(b, g)
    except Exception as e:
        raise Violation(f"{what}: class {a.__name__} of the generated code cannot be described: {type(e).__name__}: {e}")
    diff = sc.difference(x, y)
    if diff:
        raise Violation(f"{what}: class {a.__name__} changes: {diff[:3]}")
    obs.count("classes", 1)
    if "fields" in x:
        obs.count("fields", len(x["fields"]))
        for f in x["fields"].values():
            obs.see((f["type"] if isinstance(f["type"], str) else str(f["type"])[:60], f["default"] == "(none)"), kind="field_kinds")
    else:
        obs.count("members", len(x["members"]))


# ---------------------------------------------------------------------------------------------------------------------
# random modules

JUNK = ["'", '"', '"""', "'''", "\\", "\\\\", "\\n", "\\N{DASH}", "\\x41", "{x}", "%s", "#", "\t", "\u00e9", "\u2028", "\U0001f600", "\\u0041", "''", '""', "a:b", "(x)", "`", ";", "-", "\x7f", "\xa0"]
WORDS = ["value", "the", "of", "table", "identifies", "record", "long" * 9, "x", "1.", "e.g.", "don't", "or", "key"]
MEMBERS = ["low", "mid", "high", "A", "B_1", "none_", "value_", "x", "Unknown", "caf\u00e9"]
FIELDS = ["id", "a", "b", "value", "kind", "title", "parent", "type", "list", "self", "size", "x1", "_private", "when", "\u00fc", "data", "cls", "DEFAULT_", "field", "enum"]
CLASSES = ["Alpha", "Beta", "Gamma", "Zeta", "Kappa", "Mixed", "lower", "Data2"]


def text(rng, n=6):
    out = []
    for _ in range(rng.randint(1, n)):
        w = rng.choice(WORDS)
        if rng.random() < 0.4:
            i = rng.randint(0, len(w))
            w = w[:i] + rng.choice(JUNK) + w[i:]
        out.append(w)
    return " ".join(out).strip(" \t\xa0:") or "text"


def docstring(rng, fields):
    r = rng.random()
    if r < 0.3:
        return None
    if r < 0.5:
        return text(rng, 30 if rng.random() < 0.3 else 6)
    pad = rng.choice(["", "    ", "\n"])
    out = pad.strip(" ") + text(rng, rng.choice([4, 40]))
    if rng.random() < 0.5:
        out += "\n\n" + text(rng, rng.choice([4, 60]))
        if rng.random() < 0.4:
            out += "\n\n" + text(rng, 10)
    blocks = [f":param {n}: {text(rng, rng.choice([3, 40]))}" for n in fields if rng.random() < 0.5]
    if rng.random() < 0.2:
        blocks.append(f":returns: {text(rng)}")
    if blocks:
        out += "\n\n" + "\n".join(blocks)
    if "\n" not in out:
        out += "\n"
    return out


def scalar(rng, enums):
    """(source of a type, function that makes the source of a value or None)"""
    n = rng.randint(1, 30)
    k = rng.randint(0, 6)
    options = [
        ("bool", lambda: rng.choice(["True", "False"])),
        ("int", lambda: str(rng.choice([0, 1, -5, 10**20]))),
        ("float", lambda: rng.choice(["0.0", "-1.5", "1e300", "float('inf')", "float('-inf')", "float('nan')", "1e-7"])),
        ("str", lambda: repr(text(rng))),
        ("bytes", lambda: repr(text(rng).encode("utf-8"))),
        (rng.choice(["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]), lambda: str(rng.randint(0, 100))),
        (rng.choice(["float32", "float64"]), lambda: "2.5"),
        (f"Annotated[str, MaxLength({n})]", lambda: repr("\"'\\"[: rng.randint(0, 3)])),
        (f"Annotated[str, MinLength(1), MaxLength({n})]", None),
        (f"Annotated[decimal.Decimal, Precision({n + k}, {k})]", lambda: f"decimal.Decimal('{n}.5')"),
        ("decimal.Decimal", lambda: "decimal.Decimal('-0.10')"),
        ("datetime.datetime", lambda: rng.choice(["datetime.datetime(2020, 2, 29, 1, 2, 3, 4)", "datetime.datetime(1, 1, 1)", "datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)", "datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(seconds=-3600)))"])),
        (f"Annotated[datetime.datetime, TimePrecision({k})]", None),
        ("datetime.date", lambda: "datetime.date(1999, 12, 31)"),
        ("datetime.time", lambda: rng.choice(["datetime.time(23, 59, 59, 1)", "datetime.time(1, 2, tzinfo=datetime.timezone.utc)"])),
        ("datetime.timedelta", lambda: "datetime.timedelta(days=-1, microseconds=5)"),
        ("uuid.UUID", lambda: "uuid.UUID('12345678-1234-5678-1234-567812345678')"),
        ("ipaddress.IPv4Address", lambda: "ipaddress.IPv4Address('10.0.0.1')"),
        ("ipaddress.IPv6Address", lambda: "ipaddress.IPv6Address('::1')"),
        (f"Annotated[int, IntegerRange({-n}, {n})]", lambda: "0"),
        ("JsonType", None),
    ]
    if enums and rng.random() < 0.3:
        e, members = rng.choice(enums)
        return rng.choice([e, e, f"Union[{e}, str]"]), lambda: f"{e}.{rng.choice(members)}"
    return rng.choice(options)


def source(rng, classes, enums):
    """(source of a type, source of an initializer or None) of a field"""
    ty, make = scalar(rng, enums)
    init = make and make()
    r = rng.random()
    if r < 0.3:
        return rng.choice([f"Optional[{ty}]", f"Optional[{ty}]", f"Union[{ty}, None]"]), rng.choice(["None", init])
    if r < 0.38:
        c = rng.choice(classes)
        return rng.choice([c, f"Optional[{c}]", f'Optional["{c}"]', f"list[{c}]", f'"{c}"', f"dict[str, {c}]"]), None
    if r < 0.42 and len(classes) > 1:
        c, d = rng.sample(classes, 2)
        return f"Union[{c}, {d}]", None
    if r < 0.5 and ty != "JsonType":
        c, f = rng.choice([("list", "list"), ("set", "set"), ("list", f"list[{ty}]"), ("tuple", None), ("frozenset", None)])
        ty = f"tuple[{ty}, ...]" if c == "tuple" else f"{c}[{ty}]"
        return ty, f and rng.choice([None, f"dataclasses.field(default_factory={f})"])
    if r < 0.55:
        return f"dict[str, {ty}]", rng.choice([None, "dataclasses.field(default_factory=dict)"])
    if r < 0.6:
        return 'Literal["a", "b\'\\\\"]', rng.choice([None, '"a"'])
    if r < 0.65:
        return f"Unique[{ty}]", init
    if r < 0.72:
        meta = "{'description': %r, 'n': %d}" % (text(rng), rng.randint(0, 9))
        return ty, rng.choice([f"dataclasses.field(metadata={meta})", f"dataclasses.field(default={init}, metadata={meta})"]) if init else f"dataclasses.field(metadata={meta})"
    return ty, init if rng.random() < 0.5 else None


def random_module(rng):
    names = rng.sample(CLASSES, rng.randint(2, 6))
    n = rng.randint(0, len(names) - 1)
    enums, classes = [], names[n:]
    out = [sg.PRELUDE, "import dataclasses, ipaddress", "from strong_typing.auxiliary import *", "from strong_typing.core import JsonType", "from pysqlsync.model.key_types import DEFAULT, Identity, PrimaryKey, Unique"]
    for e in names[:n]:
        members = rng.sample(MEMBERS, rng.randint(1, 6))
        out.append(f"class {e}(enum.Enum):")
        if rng.random() < 0.5:
            out.append(f"    {text(rng) + rng.choice(['', chr(10) + text(rng)])!r}")
        kind = rng.choice(["str", "str", "int", "mixed"])
        for i, m in enumerate(members):
            out.append(f"    {m} = {repr(f'{i}{text(rng)}') if kind == 'str' or (kind == 'mixed' and i % 2) else i}")
        for m in members:
            if rng.random() < 0.3:
                out.append(f"{e}.{m}.__doc__ = {text(rng)!r}")
        enums.append((e, members))
    for c in classes:
        fields = [("id", rng.choice(["PrimaryKey[int]", "PrimaryKey[int32]", "PrimaryKey[str]", "PrimaryKey[uuid.UUID]", "PrimaryKey[Identity[int]]", "PrimaryKey[Annotated[str, MaxLength(9)]]"]), None)] if rng.random() < 0.7 else []
        rest = [(f, *source(rng, classes, enums)) for f in rng.sample([f for f in FIELDS if f != "id"], rng.randint(1, 9))]
        required = lambda f: f[2] is None or "metadata" in f[2] and "default" not in f[2]
        fields += [f for f in rest if required(f)] + [f for f in rest if not required(f)]
        # a field of the class hides a type of the same name in the fields that follow
        hidden = {"list", "set", "enum", "type"}
        fields = [(f + "_" if f in hidden else f, t, i) for f, t, i in fields] if any(f[0] in hidden and f[2] is not None for f in fields) else fields
        doc = docstring(rng, [f[0] for f in fields])
        out += ["@dataclass", f"class {c}:"]
        if doc is not None:
            out.append(f"    {doc!r}")
        for _ in range(rng.choice([0, 0, 1, 2])):
            out.append(f"    V{rng.randint(0, 9)} = {rng.choice([repr(text(rng)), '7', '(1, 2)', 'None', 'True'])}")
        for name, ty, init in fields:
            quoted = repr(ty) if rng.random() < 0.1 or (any(c in ty for c in classes) and "'" not in ty and '"' not in ty) else ty
            out.append(f"    {name}: {quoted}" + (f" = {init}" if init is not None else ""))
    m = fresh("declared")
    exec(compile("\n".join(out), m.__name__, "exec"), m.__dict__)
    return m




def code(obs: Obs, seed: int):
    """Source code of modules, data-classes and enumerations."""
    rng = random.Random(f"code/{seed}")
    m = random_module(rng)
    g = same_module(obs, m, "module")
    # each class by itself, in a module with the same names
    found = list(classes_of(m).values())
    for c in found:
        parts = enum_class_to_code(c) if issubclass(c, enum.Enum) else dataclass_to_code(c)
        one = fresh("single")
        one.__dict__.update({k: v for k, v in vars(g).items() if not k.startswith("__")})
        try:
            exec(compile("from __future__ import annotations\n" + parts, one.__name__, "exec"), one.__dict__)
        except Exception as e:
            raise Violation(f"class {c.__name__}: generated code fails: {type(e).__name__}: {e}: {sc.brief(parts, 300)}")
        x, y = described(c, m), described(getattr(one, c.__name__), one)
        if sc.difference(x, y):
            raise Violation(f"class {c.__name__} by itself changes: {sc.difference(x, y)[:3]}")
    listed = [c for c in found if not issubclass(c, enum.Enum)]
    if dataclasses_to_code(listed) != "".join(dataclass_to_code(c) for c in listed):
        raise Violation("code of several data-classes is not that of each of them")
    # once more, from the generated classes
    if sc.difference({n: described(c, m) for n, c in classes_of(m).items()}, {n: described(c, h) for h in [same_module(obs, g, "module of generated code")] for n, c in classes_of(h).items()}):
        raise Violation("code of generated classes differs")
    obs.sample(sc.brief(module_to_code(m)[-400:], 400))


# ---------------------------------------------------------------------------------------------------------------------
# schemas


def text_of(d):
    return words(d)


def plain(catalog) -> dict:
    """Tables of a schema model as plain data."""
    out = {}
    for ns in catalog.namespaces.values():
        for t in ns.tables.values():
            cons = set()
            for c in t.constraints.values():
                if isinstance(c, UniqueConstraint):
                    cons.add(("unique", tuple(x.id for x in c.unique_columns)))
                elif isinstance(c, ForeignConstraint):
                    cons.add(("foreign", tuple(x.id for x in c.foreign_columns), c.reference.table.local_id, c.reference.table.scope_id, tuple(x.id for x in c.reference.columns)))
                elif isinstance(c, DiscriminatedConstraint):
                    cons.add(("discriminated", tuple(x.id for x in c.foreign_columns), tuple(sorted((r.table.local_id, str(r.table.scope_id), tuple(x.id for x in r.columns)) for r in c.references))))
            cols = list(t.columns.values())
            out[f"{t.name.scope_id}.{t.name.local_id}"] = {
                "columns": {
                    c.name.id: {"type": str(c.data_type), "nullable": c.nullable or str(c.data_type).lower().startswith("json"), "identity": c.identity, "default": c.default, "text": text_of(c.description)}
                    for c in cols
                },
                "order": [c.name.id for c in cols if c.default is None] + [c.name.id for c in cols if c.default is not None],
                "key": [x.id for x in t.primary_key],
                "constraints": {str(x): True for x in cons},
                "text": text_of(t.description),
            }
    return out


IMPORTS = "\n".join([sg.PRELUDE, "from strong_typing.core import JsonType", "from pysqlsync.model.key_types import Identity, PrimaryKey, Unique"])


def back(obs, dialect, catalog, converter, preset=()):
    """Classes for all tables of a schema model, and the schema model of these classes."""
    namespaces = {}
    for ns in catalog.namespaces.values():
        for t in ns.tables.values():
            if t.name.scope_id not in namespaces:
                namespaces[t.name.scope_id] = fresh("reverse")
                # classes refer to types by name
                exec(IMPORTS, namespaces[t.name.scope_id].__dict__)
    for scope, name, cls in preset:
        if scope in namespaces:
            # user-defined types are those of the module
            setattr(namespaces[scope], name, cls)
            cls.__module__ = namespaces[scope].__name__
    made = []
    for ns in catalog.namespaces.values():
        for t in ns.tables.values():
            try:
                made.append(table_to_dataclass(t, SqlConverterOptions(namespaces)))
            except Exception as e:
                raise Violation(f"{dialect}: table {t.name} cannot be turned into a class: {type(e).__name__}: {e}")
            obs.count("tables", 1)
    old = converter.options
    conv = DataclassConverter(options=dataclasses.replace(old, namespaces=NamespaceMapping({m: s for s, m in namespaces.items()})))
    try:
        again = conv.dataclasses_to_catalog(made)
    except Exception as e:
        raise Violation(f"{dialect}: classes cannot be turned into tables: {type(e).__name__}: {e} ({e.__cause__})")
    return namespaces, made, again, conv


def judge(obs, dialect, what, before, after, texts=True):
    x, y = plain(before), plain(after)
    # lookup tables have constraints of their own name
    if not texts:
        for d in (x, y):
            for t in d.values():
                t["text"] = None
                for c in t["columns"].values():
                    c["text"] = None
    diff = sc.difference(x, y)
    if diff:
        raise Violation(f"{dialect}: {what}: the schema changes: {diff[:4]}")
    obs.count("columns", sum(len(t["columns"]) for t in x.values()))
    for t in x.values():
        obs.count("constraints", len(t["constraints"]))
        for c in t["columns"].values():
            obs.see((dialect, c["type"], c["nullable"], c["default"] is None, c["identity"]), kind="column_kinds")


INVERTIBLE = {
    "postgresql": None,
    "mysql": {"int16", "int32", "int64", "int", "decimal", "date", "time", "timep", "float64"},
    "mssql": {"int16", "int32", "int64", "int", "decimal", "date", "str", "datetime"},
    "oracle": {"int"},
}
STATIC = {"postgresql": {"enum": ["check", "relation", "type"], "struct": ["json", "type"]}}


def valid(world):
    """Names that are the names of Python classes and fields anyway."""
    return all(n is None or (n.isidentifier() and not keyword.iskeyword(n)) for m in world.modules for n in [m.schema] + [n for t in m.tables for n in [t.name] + [f.name for f in t.fields]])


def draw(rng, dialect, modes, stable):
    scalars = [t for t in sg.scalar_types(dialect) if INVERTIBLE[dialect] is None or t[0] in INVERTIBLE[dialect]]
    keys = [t for t in sg.key_types(dialect) if INVERTIBLE[dialect] is None or t[0] in INVERTIBLE[dialect]]
    kw = dict(scalars=[t for t in scalars if t not in sc._UNSTABLE.get(dialect, ())] if stable else scalars, keys=keys or None, lists=modes.array == "array", structs=modes.struct == "type", struct_lists=modes.struct == "type" and modes.array == "array", entity_lists=False, sets=False, literals=False, xenums=False, abstract=False)
    if dialect != "postgresql":
        kw.update(structs=False, enums=False, struct_lists=False)
    feats = sc.stable_features(dialect, **kw) if stable else sg.Features(**kw)
    for _ in range(50):
        w = sg.gen_world(rng, dialect, modes, feats)
        if valid(w):
            return w
    raise Skip("no module with proper names")


def preset_of(rendered, namespaces):
    """Copies of enumerations and structures of the modules, made of their code."""
    out = []
    for m in rendered.modules:
        own = {n: c for n, c in classes_of(m).items()}
        code = module_to_code(m)
        g = execute(code, "module")
        for n, c in own.items():
            if issubclass(c, enum.Enum) or (dataclasses.is_dataclass(c) and not any("PrimaryKey" in str(f.type) for f in dataclasses.fields(c))):
                out.append((namespaces[m], n, getattr(g, n)))
    return out


def declared(obs: Obs, dialect: str, seed: int):
    """Declared classes, their schema, classes made of the schema, and their schema."""
    rng = random.Random(f"declared/{dialect}/{seed}")
    modes = sc.random_modes(rng, dialect, foreign=True)
    world = draw(rng, dialect, modes, False)
    with sg.Rendered(world) as R:
        conn = sc.connection(dialect, modes, R.namespaces())
        conv = conn.generator.converter
        try:
            cat = conv.dataclasses_to_catalog(R.entity_types())
        except TypeError as e:
            raise Skip(str(e))
        preset = preset_of(R, {m: (s or None) for m, s in R.namespaces().items()}) if len(R.modules) == 1 else []
        if not preset and any(ns.enums or ns.structs for ns in cat.namespaces.values()):
            raise Skip("user-defined types in several modules")
        namespaces, made, again, conv2 = back(obs, dialect, cat, conv, preset)
        judge(obs, dialect, "declared", cat, again)
        _code_of(obs, dialect, namespaces, conv, again)
    obs.sample(f"{dialect} {modes.key()[:4]}: {[c.__name__ for c in made]}")


def _code_of(obs, dialect, namespaces, conv, cat):
    """Code of the classes defines classes with the same schema."""
    if len(namespaces) != 1:
        return  # references to classes of other modules
    ((scope, m),) = namespaces.items()
    g = same_module(obs, m, f"{dialect}: module made of a schema")
    c = DataclassConverter(options=dataclasses.replace(conv.options, namespaces=NamespaceMapping({g: scope})))
    tables = [getattr(g, x) for x, k in classes_of(m).items() if dataclasses.is_dataclass(k) and any("PrimaryKey" in str(f.type) for f in dataclasses.fields(k))]
    try:
        third = c.dataclasses_to_catalog(tables)
    except Exception as e:
        raise Violation(f"{dialect}: generated classes cannot be turned into tables: {type(e).__name__}: {e} ({e.__cause__})")
    judge(obs, dialect, "code", cat, third)


def discovered(obs: Obs, dialect: str, seed: int):
    """A schema found in a database, classes made of it, and their schema."""
    rng = random.Random(f"discovered/{dialect}/{seed}")
    modes = sc.random_modes(rng, dialect, foreign=True)
    world = draw(rng, dialect, modes, True)

    async def body():
        with sg.Rendered(world) as R:
            sc.backend(dialect)
            conn = sc.connection(dialect, modes, R.namespaces())
            async with conn as ctx:
                await ctx.execute(conn.generator.create(modules=R.modules))
            conn = sc.connection(dialect, modes, R.namespaces())
            async with conn as ctx:
                await sc.engine(dialect).create_explorer(ctx).discover(modules=R.modules)
                found = conn.generator.state
                preset = preset_of(R, {m: (s or None) for m, s in R.namespaces().items()}) if len(R.modules) == 1 else []
                if not preset and any(ns.enums or ns.structs for ns in found.namespaces.values()):
                    raise Skip("user-defined types in several modules")
                namespaces, made, again, _ = back(obs, dialect, found, conn.generator.converter, preset)
                judge(obs, dialect, "discovered", found, again, texts=dialect in ("postgresql", "mysql"))
                _code_of(obs, dialect, namespaces, conn.generator.converter, again)
                obs.sample(f"{dialect} {modes.key()[:4]}: {[c.__name__ for c in made]}")

    try:
        sc.run(body())
    except TypeError as e:
        raise Skip(str(e))


# names of tables and columns that are keywords of the language next to names that are not
NAMES = ["class", "def", "None", "True", "from", "import", "lambda", "global", "async", "in", "plain", "match", "type", "Class", "none", "class_name", "_x"]
EDGES = {
    "bool": lambda rng: SqlBooleanType(),
    "int": lambda rng: SqlIntegerType(rng.choice([2, 4, 8])),
    "range": lambda rng: (lambda lo, n: SqlIntegerType(rng.choice([2, 4, 8]), minimum=lo, maximum=lo + n))(rng.choice([-100, -1, 0, 1, 7]), rng.choice([0, 1, 100])),
    "real": lambda rng: SqlRealType(),
    "double": lambda rng: SqlDoubleType(),
    "decimal": lambda rng: (lambda p: SqlDecimalType(p, rng.choice([0, 1, p // 2, p]) if p > 0 else 0))(rng.choice([1, 2, 15, 38])),
    "number": lambda rng: SqlDecimalType(),
    "timestamp": lambda rng: SqlTimestampType(precision=rng.choice([None, 0, 1, 3, 6]), with_time_zone=False),
    "time": lambda rng: SqlTimeType(precision=rng.choice([None, 0, 1, 3, 6]), with_time_zone=False),
    "date": lambda rng: SqlDateType(),
    "interval": lambda rng: SqlIntervalType(),
    "text": lambda rng: SqlVariableCharacterType(rng.choice([None, 1, 2, 255, 65535])),
    "char": lambda rng: SqlFixedCharacterType(rng.choice([1, 2, 64])),
    "uuid": lambda rng: SqlUuidType(),
    "json": lambda rng: SqlJsonType(),
}
PYTHON = {
    SqlBooleanType: lambda t: bool,
    SqlRealType: lambda t: float32,
    SqlDoubleType: lambda t: float64,
    SqlDateType: lambda t: datetime.date,
    SqlIntervalType: lambda t: datetime.timedelta,
    SqlUuidType: lambda t: uuid.UUID,
    SqlJsonType: lambda t: JsonType,
    SqlTimestampType: lambda t: datetime.datetime if t.precision is None else Annotated[datetime.datetime, TimePrecision(t.precision)],
    SqlTimeType: lambda t: datetime.time if t.precision is None else Annotated[datetime.time, TimePrecision(t.precision)],
    SqlDecimalType: lambda t: decimal.Decimal if t.precision is None else Annotated[decimal.Decimal, Precision(t.precision, t.scale or 0)],
    SqlVariableCharacterType: lambda t: str if t.limit is None else Annotated[str, MaxLength(t.limit)],
    SqlFixedCharacterType: lambda t: Annotated[str, Length(t.limit)],
    SqlIntegerType: lambda t: {2: int16, 4: int32, 8: int64}[t.width] if t.minimum is None else Annotated[int, Signed(True), Storage(t.width), IntegerRange(t.minimum, t.maximum)],
}


def legal(name):
    return name + "_" if keyword.iskeyword(name) else name


def hand_made(obs: Obs, seed: int):
    """Tables with column types at the limits of their parameters and names that are keywords: fields, types, defaults, references and texts are those of the table."""
    rng = random.Random(f"hand/{seed}")
    scope = rng.choice([None, "one"])
    tables = []
    for name in rng.sample(NAMES, rng.randint(1, 5)):
        cols, cons = [], []
        names = rng.sample([n for n in NAMES], rng.randint(2, 9))
        for i, n in enumerate(names):
            kind = rng.choice(["int", "text", "uuid"]) if i == 0 else rng.choice(list(EDGES))
            t = SqlIntegerType(8) if i == 0 and tables else EDGES[kind](rng)
            nullable = i > 0 and rng.random() < 0.4
            default = {"bool": "TRUE", "int": "7", "double": "1.5", "text": "'it''s'"}.get(kind) if i > 0 and rng.random() < 0.3 else None
            if i > 0 and tables and rng.random() < 0.25:
                other = rng.choice(tables)
                t, default = other.columns[list(other.columns)[0]].data_type, None
                cons.append(ForeignConstraint(LocalId(f"fk_{i}"), (LocalId(n),), ConstraintReference(other.name, other.primary_key)))
            elif i > 0 and rng.random() < 0.2:
                cons.append(UniqueConstraint(LocalId(f"uq_{i}"), (LocalId(n),)))
            cols.append(Column(LocalId(n), t, nullable, identity=i == 0 and isinstance(t, SqlIntegerType) and rng.random() < 0.5, default=default, description=words(text(rng)) if rng.random() < 0.5 else None))
        tables.append(Table(QualifiedId(scope, name), cols, primary_key=(LocalId(names[0]),), constraints=cons or None, description=words(text(rng)) if rng.random() < 0.5 else None))
    m = fresh("made")
    exec(IMPORTS, m.__dict__)
    options = SqlConverterOptions({scope: m})
    for t in tables:
        cls = table_to_dataclass(t, options)
        what = f"table {t.name} of {[(str(c.name), str(c.data_type)) for c in t.columns.values()]}"
        if cls.__name__ != legal(t.name.local_id) or getattr(m, legal(t.name.local_id), None) is not cls or cls.__module__ != m.__name__:
            raise Violation(f"{what}: class is {cls.__module__}.{cls.__name__}")
    wrong = [n for n, k in vars(m).items() if dataclasses.is_dataclass(k) and n not in {legal(t.name.local_id) for t in tables} and k.__module__ == m.__name__]
    if wrong:
        raise Violation(f"unexpected classes {wrong}")
    for t in tables:
        cls = getattr(m, legal(t.name.local_id))
        what = f"table {t.name}"
        want = {}
        unique = {c.unique_columns[0].id for c in t.constraints.values() if isinstance(c, UniqueConstraint)}
        refs = {c.foreign_columns[0].id: c.reference.table.local_id for c in t.constraints.values() if isinstance(c, ForeignConstraint)}
        for i, c in enumerate(t.columns.values()):
            n = c.name.id
            ty = norm(PYTHON[type(c.data_type)](c.data_type), m) if n not in refs else ("class", legal(refs[n]))
            if c.identity:
                ty = ("Annotated", ty, ("IdentityTag",)) if ty[0] != "Annotated" else ("Annotated", ty[1], ty[2] + ("IdentityTag",))
            if i == 0:
                ty = ("Annotated", ty, ("PrimaryKeyTag",)) if ty[0] != "Annotated" else ("Annotated", ty[1], ty[2] + ("PrimaryKeyTag",))
            elif c.nullable:
                ty = ("Union", (ty, None))
            if n in unique:
                ty = ("Annotated", ty, ("UniqueTag",)) if ty[0] != "Annotated" else ("Annotated", ty[1], ty[2] + ("UniqueTag",))
            want[legal(n)] = (ty, {None: "(none)", "TRUE": ("bool", True), "7": ("int", 7), "1.5": ("float", 1.5), "'it''s'": ("str", "it's")}[c.default])
            obs.see((str(c.data_type), c.nullable, c.default is None, i == 0), kind="hand_made_kinds")
            if legal(n) != n:
                obs.count("keywords", 1)
        got = described(cls, m)
        found = {n: (x["type"], x["default"]) for n, x in got["fields"].items()}
        diff = sc.difference({n: plain_kind(v) for n, v in want.items()}, {n: plain_kind(v) for n, v in found.items()})
        if diff:
            raise Violation(f"{what}: {diff[:3]}")
        order = [n for n in want if want[n][1] == "(none)"] + [n for n in want if want[n][1] != "(none)"]
        if got["order"] != order:
            raise Violation(f"{what}: fields {got['order']} instead of {order}")
        doc = got["doc"] or {"short": None, "params": {}}
        texts = {legal(c.name.id): c.description for c in t.columns.values() if c.description}
        if doc["params"] != texts or words(cls.__doc__.partition(":param")[0]) != words(t.description):
            raise Violation(f"{what}: documentation {doc} instead of {t.description} {texts}")
        obs.count("hand_made", 1)
    # code generated for the classes is the same
    same_module(obs, m, "module made of tables")


def tagged(ty, depth=0):
    """A type with all of its annotations at the outermost level, in no particular order; a document is always optional."""
    if isinstance(ty, tuple) and ty and ty[0] == "Annotated":
        base, optional, tags = tagged(ty[1])
        return base, optional, tuple(sorted(tags + ty[2]))
    if isinstance(ty, tuple) and ty and ty[0] == "Union" and len(ty[1]) == 2 and ty[1][1] is None:
        base, _, tags = tagged(ty[1][0])
        return base, base != "JsonType", tags
    if isinstance(ty, tuple) and ty and ty[0] == "Union" and len(ty[1]) == 2 and "DefaultTag" in ty[1][1]:
        return tagged(ty[1][0])  # the value of an identity column may be left to the database
    return ty, False, ()


def plain_kind(v):
    return {"type": str(tagged(v[0])), "default": str(v[1])}


# ---------------------------------------------------------------------------------------------------------------------
# classes made of classes


def transformed(obs: Obs, seed: int):
    """Entities made of data-classes and data-classes made of fields have the fields, defaults and documentation they are made of."""
    rng = random.Random(f"transformed/{seed}")
    m = random_module(rng)
    for name, c in list(classes_of(m).items()):
        if issubclass(c, enum.Enum):
            continue
        d = described(c, m)
        if any(f["factory"] or f["metadata"] for f in d["fields"].values()):
            continue
        # a copy made of its fields
        docs = parse_type(c) if has_docstring(c) else None
        target = fresh("copied")
        target.__dict__.update({k: v for k, v in vars(m).items() if not k.startswith("__")})
        try:
            from strong_typing.inspection import dataclass_fields

            fields = list(dataclass_fields(c))
        except NameError:
            continue
        copy = make_dataclass(name + "Copy", fields, module=target, docstring=docs)
        if getattr(target, name + "Copy", None) is not copy or copy.__module__ != target.__name__:
            raise Violation(f"class {name} is not added to its module")
        x = {k: v for k, v in described(c, m).items() if k != "variables"}
        y = {k: v for k, v in described(copy, m).items() if k != "variables"}
        for z in (x, y):
            if z["doc"]:
                z["doc"]["single"] = None
        diff = sc.difference(x, y)
        if diff:
            raise Violation(f"copy of class {name} differs: {diff[:3]}")
        obs.count("classes", 1)
        # a selection of its fields
        some = [f for f in fields if rng.random() < 0.6]
        part = make_dataclass(name + "Part", some, module=target, docstring=parse_type(c) if has_docstring(c) else None)
        y = described(part, m)
        x = {**x, "order": [f.name for f in some], "fields": {f.name: x["fields"][f.name] for f in some}}
        if x["doc"]:
            x["doc"] = {**x["doc"], "params": {k: v for k, v in x["doc"]["params"].items() if k in x["fields"]}}
        if y["doc"]:
            y["doc"]["single"] = None
        if not any(v for v in (x["doc"] or {}).values()):
            x["doc"] = y["doc"] = None
        diff = sc.difference({k: v for k, v in x.items() if k != "variables"}, {k: v for k, v in y.items() if k != "variables"})
        if diff:
            raise Violation(f"part of class {name} differs: {diff[:3]}")
        # an entity
        keyed = [f.name for f in fields if "PrimaryKey" in str(f.type)]
        plain_fields = [f.name for f in fields if norm(f.type, m)[0] != "Annotated" and not keyed]
        if plain_fields:
            key = rng.choice(plain_fields)
            if d["fields"][key]["default"] != "(none)" and any(d["fields"][n]["default"] == "(none)" for n in d["order"]):
                continue
            e = make_entity(c, key)
            if getattr(m, name) is not e:
                raise Violation(f"entity {name} is not added to its module")
            y = described(e, m)
            order = [key] + [n for n in d["order"] if n != key]
            x = {**d, "order": order, "fields": {n: d["fields"][n] for n in order}}
            x["fields"] = {**x["fields"], key: {**x["fields"][key], "type": ("Annotated", d["fields"][key]["type"], ("PrimaryKeyTag",))}}
            diff = sc.difference({k: v for k, v in x.items() if k != "variables"}, {k: v for k, v in y.items() if k != "variables"})
            if diff:
                raise Violation(f"entity {name} differs: {diff[:3]}")
            obs.count("entities", 1)
    # structures within a class become fields of their own
    inner = [f"f{i}" for i in range(rng.randint(1, 4))]
    outer = [("id", None)] + [(f"g{i}", rng.random() < 0.5) for i in range(rng.randint(1, 4))]
    doc_in = {n: text(rng) for n in inner if rng.random() < 0.6}
    doc_out = {n: text(rng) for n, s in outer if rng.random() < 0.6 and not s}
    types_in = [rng.choice(["int", "str", "Optional[str]", "uuid.UUID", "Annotated[str, MaxLength(8)]"]) for _ in inner]
    mod = fresh("nested")
    src = [sg.PRELUDE, "@dataclass", "class Inner:", f"    {'Inner.' + chr(10) * 2 + chr(10).join(f':param {n}: {t}' for n, t in doc_in.items())!r}"]
    src += [f"    {n}: {t}" for n, t in zip(inner, types_in)]
    src += ["@dataclass", "class Outer:", f"    {'Outer.' + chr(10) * 2 + chr(10).join(f':param {n}: {t}' for n, t in doc_out.items())!r}"]
    src += [f"    {n}: {'PrimaryKey[int]' if s is None else 'Inner' if s else 'str'}" for n, s in outer]
    exec(compile("\n".join(src), mod.__name__, "exec"), mod.__dict__)
    fields, docs = flatten_dataclass(mod.Outer)
    want, texts = [], {}
    for n, s in outer:
        if s:
            for i, t in zip(inner, types_in):
                want.append((f"{n}__{i}", norm(t, mod)))
                if i in doc_in:
                    texts[f"{n}__{i}"] = words(doc_in[i])
        else:
            want.append((n, norm(dict(id="PrimaryKey[int]").get(n, "str"), mod)))
            if n in doc_out:
                texts[n] = words(doc_out[n])
    if [(f.name, norm(f.type, mod)) for f in fields] != want:
        raise Violation(f"flattened class has fields {[f.name for f in fields]} instead of {[n for n, _ in want]}")
    flat = make_dataclass("Flat", fields, module=mod, docstring=docs)
    got = documentation(flat)
    if [f.name for f in dataclasses.fields(flat)] != [n for n, _ in want] or got["params"] != texts or got["short"] != "Outer.":
        raise Violation(f"documentation of flattened class is {got} instead of {texts}")
    obs.count("classes", 1)


# ---------------------------------------------------------------------------------------------------------------------
# specific inputs


def coded(source):
    """The module given is the same after its code is generated and run."""

    def probe(obs: Obs):
        m = fresh("probed")
        exec(compile("\n".join([sg.PRELUDE, "import dataclasses", source]), m.__name__, "exec"), m.__dict__)
        same_module(obs, m, "module")

    return probe


def reversed_(dialect, source, preset=()):
    """The schema of the module is that of classes made of the schema."""

    def probe(obs: Obs):
        (m,) = probes.modules([source])
        modes = probes.defaults(dialect)
        conv = sc.connection(dialect, modes, {m: "one"}).generator.converter
        cat = conv.dataclasses_to_catalog([c for c in classes_of(m).values() if dataclasses.is_dataclass(c) and any("PrimaryKey" in str(f.type) for f in dataclasses.fields(c))])
        own = [("one", n, getattr(execute(module_to_code(m), "module"), n)) for n in preset]
        namespaces, made, again, _ = back(obs, dialect, cat, conv, own)
        judge(obs, dialect, "declared", cat, again)

    return probe


TWO = "@dataclass\nclass Other:\n    id: PrimaryKey[int]\n\n@dataclass\nclass Thing:\n%s    id: PrimaryKey[%s]\n%s"


def main():
    c = Check(
        "C18",
        "code generated for modules, data-classes and enumerations runs and defines the same classes; classes made of declared and discovered schemas give the same schema",
        [
            "documentation is compared up to the wrapping of lines",
            "schemas have names that are Python identifiers and column types with an exact Python counterpart; enumerations and structures of a module are given",
        ],
    )
    for s in c.seeds(c.pick(1200, 36000), 1):
        c.add(code, seed=s)
    for d, n in (("postgresql", 5), ("mysql", 1), ("mssql", 1), ("oracle", 1)):
        for s in c.seeds(c.pick(150, 4500) * n, 2):
            c.add(declared, dialect=d, seed=s)
        for s in c.seeds(c.pick(100, 3000) * n, 3):
            c.add(discovered, dialect=d, seed=s)
    for s in c.seeds(c.pick(600, 12000), 5):
        c.add(hand_made, seed=s)
    for s in c.seeds(c.pick(800, 12000), 4):
        c.add(transformed, seed=s)
    c.probe("keys-and-references", reversed_("postgresql", TWO % ("", "Identity[int]", "    name: Unique[Annotated[str, MaxLength(9)]]\n    other: Optional[Other]\n")))
    c.probe("range-precision-interval", reversed_("postgresql", TWO % ("", "int", "    a: Annotated[int, IntegerRange(-3, 7)]\n    b: Annotated[decimal.Decimal, Precision(5, 2)]\n    c: datetime.timedelta\n")))
    c.probe("user-defined-types", reversed_("postgresql", "class Kind(enum.Enum):\n    a = 'a'\n    b = 'b'\n" + TWO % ("", "int", "    kind: Kind\n    some: list[Kind]\n"), ["Kind"]))
    c.probe("default-values", reversed_("postgresql", TWO % ("", "int", "    a: int = 7\n    b: str = \"it's\"\n    c: bool = True\n")))
    c.probe("column-descriptions", reversed_("mysql", TWO % ('    """A thing.\n\n    :param name: What it is called.\n    """\n', "int", "    name: Annotated[str, MaxLength(9)]\n")))
    c.probe("code-imports", coded(TWO % ("", "Identity[int]", "    a: Unique[str]\n    b: decimal.Decimal\n    c: ipaddress.IPv4Address\n")))
    c.probe("code-values", coded(TWO % ("", "int", "    a: list[int] = dataclasses.field(default_factory=list)\n    b: float = float('nan')\n    c: datetime.date = datetime.date(2020, 1, 1)\n")))
    c.probe("code-enum-value", coded("class Kind(enum.Enum):\n    a = 'a'\n    b = 'b'\n" + TWO % ("", "int", "    kind: Kind = Kind.b\n")))
    c.probe("code-documentation", coded(TWO % ('    """A \\\\N{x} thing."""\n', "int", "")))
    c.probe("code-json", coded(TWO % ("", "int", "    a: JsonType\n")))
    c.probe("json-column", reversed_("mysql", "@dataclass\nclass Part:\n    a: int\n" + TWO % ("", "int", "    some: list[Part]\n")))
    c.require(classes=1000, tables=300, columns=1000, constraints=100, members=300, entities=20)
    return c.finish()


main()
