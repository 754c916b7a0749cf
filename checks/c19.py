"""C19: random test data conforms to the declared entity type."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import dataclasses
import datetime as dt
import decimal
import enum
import ipaddress
import random
import typing
import uuid
from typing import Annotated, Literal, Optional, Union

import harness
import populate
import probes
import scenario as sc
import specgen as sg
from harness import Check, Obs, Skip, Violation
from simdb.server import SqlError
from strong_typing.serialization import json_to_object

import pysqlsync.data.generator as gen
from pysqlsync.data.generator import DataGeneratorError, random_objects

INT = {
    "int": (-(1 << 63), (1 << 63) - 1), "int8": (-128, 127), "int16": (-(1 << 15), (1 << 15) - 1), "int32": (-(1 << 31), (1 << 31) - 1), "int64": (-(1 << 63), (1 << 63) - 1),
    "uint8": (0, 255), "uint16": (0, 65535), "uint32": (0, (1 << 32) - 1), "uint64": (0, (1 << 64) - 1),
}  # fmt: skip


def fail(what, v, why):
    raise Violation(f"{what}: {v!r} {why}")


def conforms(world, ty, nullable, v, what, cls=None, depth=0):
    """The value has the declared type and satisfies its constraints; raises otherwise."""
    k = ty[0]
    if v is None:
        if not nullable:
            fail(what, v, "for a mandatory field")
        return
    if k in INT:
        if type(v) is not int or not INT[k][0] <= v <= INT[k][1]:
            fail(what, v, f"is not in the range of {k}")
    elif k == "intrange":
        if type(v) is not int or not ty[1] <= v <= ty[2]:
            fail(what, v, f"is not in the range {ty[1:]}")
    elif k == "bool":
        if type(v) is not bool:
            fail(what, v, "is no Boolean")
    elif k in ("float", "float32", "float64"):
        if type(v) is not float:
            fail(what, v, "is no float")
    elif k == "str":
        low, high = (ty[2] if len(ty) > 2 else 0), (ty[1] if len(ty) > 1 else None)
        if type(v) is not str or len(v) < low or (high is not None and len(v) > high):
            fail(what, v, f"of length {len(v)} is not a string of length {low} to {high}")
        if not v.isprintable():
            fail(what, v, "is not printable")
    elif k == "decimal":
        if type(v) is not decimal.Decimal or not v.is_finite():
            fail(what, v, "is no decimal")
        p, s = (ty[1], ty[2]) if len(ty) > 1 else (None, None)
        if p is not None:
            if v != v.quantize(decimal.Decimal(1).scaleb(-s), context=decimal.Context(prec=100)) or abs(v) >= decimal.Decimal(10) ** (p - s):
                fail(what, v, f"does not fit precision {p} and scale {s}")
    elif k == "datetime":
        if type(v) is not dt.datetime:
            fail(what, v, "is no timestamp")
        if len(ty) > 1 and v.microsecond % 10 ** (6 - ty[1]):
            fail(what, v, f"has more than {ty[1]} fractional digits")
    elif k == "date":
        if type(v) is not dt.date:
            fail(what, v, "is no date")
    elif k == "time":
        if type(v) is not dt.time:
            fail(what, v, "is no time of day")
        if len(ty) > 1 and v.microsecond % 10 ** (6 - ty[1]):
            fail(what, v, f"has more than {ty[1]} fractional digits")
    elif k == "uuid":
        if type(v) is not uuid.UUID:
            fail(what, v, "is no UUID")
    elif k in ("ipv4", "ipv6"):
        if type(v) is not {"ipv4": ipaddress.IPv4Address, "ipv6": ipaddress.IPv6Address}[k]:
            fail(what, v, "is no such address")
    elif k == "ip":
        if type(v) not in (ipaddress.IPv4Address, ipaddress.IPv6Address):
            fail(what, v, "is no address")
    elif k == "literal":
        if type(v) is not str or v not in ty[1]:
            fail(what, v, f"is none of {ty[1]}")
    elif k == "enum":
        if not isinstance(v, enum.Enum) or type(v).__name__ != ty[1][1] or v.value not in world.enum(ty[1]).values:
            fail(what, v, f"is no member of {ty[1][1]}")
    elif k == "xenum":
        if isinstance(v, enum.Enum):
            if v.value not in world.enum(ty[1]).values:
                fail(what, v, f"is no member of {ty[1][1]}")
        elif type(v) is not str or not 0 < len(v) <= 64:
            fail(what, v, "is neither a member nor a string of 64 characters")
    elif k in ("ref", "duni"):
        ref = ty[1] if k == "ref" else ty[1][0]
        conforms(world, world.table(ref).pk.ty, False, v, what + " reference")
    else:
        raise KeyError(k)


def undecorated(v):
    "A field called `from_` (a reserved word) is `from` in JSON."
    if isinstance(v, dict):
        return {("from" if k == "from_" else k): undecorated(x) for k, x in v.items()}
    return [undecorated(x) for x in v] if isinstance(v, list) else v


def parse(typ, v, what):
    """Lists, sets and nested structures are produced in their JSON representation."""
    try:
        return json_to_object(typ, undecorated(v))
    except Exception as e:
        fail(what, v, f"is no representation of {typ}: {type(e).__name__}: {e}")


def struct_conforms(world, ty, v, what):
    for f in world.struct(ty[1]).fields:
        got = getattr(v, f.name)
        if f.ty[0] == "struct":
            if got is not None or not f.nullable:
                struct_conforms(world, f.ty, got, f"{what}.{f.name}")
        elif f.ty[0] in ("list", "set"):
            for x in got or ():
                conforms(world, f.ty[1], False, x, f"{what}.{f.name}[]")
        else:
            conforms(world, f.ty, f.nullable, got, f"{what}.{f.name}")


def field_conforms(world, R, f, v, what):
    k = f.ty[0]
    if k == "struct" or k in ("list", "set"):
        if v is None:
            if not f.nullable:
                fail(what, v, "for a mandatory field")
            return
    if k == "struct":
        struct_conforms(world, f.ty, parse(R.cls(f.ty[1]), v, what), what)
    elif k in ("list", "set"):
        if type(v) is not list:
            fail(what, v, "is not given as a list")
        e = f.ty[1]
        if e[0] == "struct":
            for x in v:
                struct_conforms(world, e, parse(R.cls(e[1]), x, what), what)
        elif e[0] == "enum":
            for x in v:
                conforms(world, e, False, parse(R.cls(e[1]), x, what), what + "[]")
        elif e[0] in ("ref",):
            pk = world.table(e[1]).pk.ty
            for x in v:
                conforms(world, pk, False, uuid.UUID(x) if pk[0] == "uuid" else x, what + "[]")
        else:
            pys = {"int": int, "int32": int, "int64": int, "bool": bool, "str": str, "float": float, "date": dt.date, "datetime": dt.datetime, "uuid": uuid.UUID}
            for x in v:
                conforms(world, e, False, parse(pys[e[0]], x, what), what + "[]")
    else:
        conforms(world, f.ty, f.nullable, v, what)


KEYS = [("int",), ("int16",), ("int32",), ("int64",), ("uuid",)]


def objects(obs: Obs, dialect: str, seed: int):
    rng = random.Random(f"c19/{dialect}/{seed}")
    modes = sc.random_modes(rng, dialect)
    scalars = [t for t in sg.scalar_types(dialect) if t[0] != "bytes"]
    feats = sg.Features(scalars=scalars, keys=KEYS, max_tables=rng.choice([2, 4]), max_modules=2, types_only=False, notes=False)
    world = sg.gen_world(rng, dialect, modes, feats)
    random.seed(rng.random())
    with sg.Rendered(world) as R:
        for mi, t in world.all_tables():
            if t.pk.ty not in KEYS:
                continue
            n = rng.choice([0, 1, 2, 7, 40, 100])
            what0 = f"{t.name} of {n}"
            try:
                items = random_objects(R.cls((mi, t.name)), n)
            except DataGeneratorError as e:
                if "distinct" in str(e) and any(f.unique and (f.ty[0] in ("bool", "literal", "enum", "int8") or f.ty[:2] in (("str", 1),)) for f in t.fields):
                    obs.count("too few values")
                    continue
                raise Violation(f"{what0}: {e}")
            judge(obs, world, R, t, R.cls((mi, t.name)), items, n, what0)


def judge(obs, world, R, t, cls, items, n, what0):
    if len(items) != n:
        raise Violation(f"{what0}: {len(items)} objects instead of {n}")
    for f in t.fields:
        seen = {}
        nulls = 0
        for i, x in enumerate(items):
            if type(x) is not cls:
                raise Violation(f"{what0}: item {i} is a {type(x)}")
            v = getattr(x, f.name)
            field_conforms(world, R, f, v, f"{what0}, field {f.name} {f.ty}{' nullable' if f.nullable else ''}")
            nulls += v is None
            if f.pk or f.unique:
                if v is None:
                    continue
                if v in seen:
                    raise Violation(f"{what0}: objects {seen[v]} and {i} have the same value {v!r} of {'key' if f.pk else 'unique'} field {f.name}")
                seen[v] = i
                obs.count("unique values")
        obs.see(f"{f.ty[:2] if f.ty[0] not in ('ref', 'duni', 'enum', 'xenum', 'struct', 'list', 'set', 'literal') else f.ty[0]}/{f.nullable}/{f.pk}/{f.unique}/{n and 'some'}/{bool(nulls)}", n=len(items), kind="values judged")
        if nulls:
            obs.count("absent values", nulls)


def stored(obs: Obs, dialect: str, seed: int):
    """The objects go into the table generated from the class."""
    rng = random.Random(f"c19s/{dialect}/{seed}")
    modes = sc.random_modes(rng, dialect, foreign=1.0, init=0.5)
    scalars = [t for t in sg.scalar_types(dialect) if t[0] != "bytes" and not (dialect in ("mysql", "mssql", "oracle") and t == ("decimal",))]
    feats = sc.stable_features(dialect, refs=False, sets=False, entity_lists=False, lists=False, structs=False, dunis=False, defaults=False, max_tables=2, max_modules=1)
    feats.scalars = scalars
    feats.keys = KEYS
    world = sg.gen_world(rng, dialect, modes, feats)
    random.seed(rng.random())

    async def body():
        srv = sc.backend(dialect).server
        with sg.Rendered(world) as R:
            conn = sc.connection(dialect, modes, R.namespaces())
            async with conn as ctx:
                try:
                    await sc.create(conn, ctx, R, rng)
                except Exception as e:
                    raise Skip(f"creation fails (C01): {e}")
            for mi, t in world.all_tables():
                n = rng.choice([1, 10, 100])
                try:
                    items = random_objects(R.cls((mi, t.name)), n)
                except DataGeneratorError:
                    continue
                tab = populate.find(world, dialect, srv, mi, t.name)
                for x in items:
                    row = {}
                    for f in t.fields:
                        v = getattr(x, f.name)
                        if isinstance(v, (dt.datetime, dt.time)):
                            v = v.replace(tzinfo=None)
                        col = tab.col(f.name)
                        try:
                            row[col.uid] = populate.encode(world, dialect, modes, f.ty, srv, col.type, sg.canon(world, f.ty, v))
                        except SqlError as e:
                            raise Violation(f"{t.name}.{f.name}: column {col.type} does not take generated value {v!r}: {e}")
                    try:
                        srv.do_insert(tab, row)
                    except SqlError as e:
                        raise Violation(f"{t.name}: generated object {x} violates a constraint of its table: {e}")
                obs.see(f"{dialect}/{len(t.fields)}/{n}", n=len(items), kind="objects stored")

    sc.run(body())


def special(obs: Obs, seed: int):
    """Constraints that the specification language of the other scenarios does not have."""
    rng = random.Random(f"c19x/{seed}")
    random.seed(rng.random())
    lo = rng.choice([-5, 0, 3, 1000, -(10**6)])
    hi = lo + rng.choice([150, 200, 5000, 10**7])
    a = rng.randint(1, 20)
    b = a + rng.choice([0, 1, 5, 100])
    p = rng.randint(1, 20)
    s = rng.randint(0, p)
    n = rng.choice([1, 20, 120])
    few = rng.choice([2, 3, 5, 10])
    src = f"""
class Kind(enum.Enum):
    A = "a"
    B = "b"
    C = "c"

@dataclass
class Inner:
    a: Annotated[str, MaxLength({b})]
    b: Optional[Annotated[int, IntegerRange({lo}, {hi})]]
    k: Kind
    l: list[int]

@dataclass
class Thing:
    id: PrimaryKey[Annotated[int, IntegerRange({lo}, {hi})]]
    a: Annotated[str, MinLength({a}), MaxLength({b})]
    b: Optional[Annotated[str, MaxLength({b})]]
    c: Annotated[Optional[str], MaxLength({b})]
    d: Annotated[decimal.Decimal, Precision({p}, {s})]
    e: Annotated[int, IntegerRange({lo}, {hi})]
    f: Optional[Annotated[int, IntegerRange({lo}, {hi})]]
    g: Unique[Annotated[int, IntegerRange({lo}, {hi})]]
    h: Unique[Annotated[str, MaxLength(3)]]
    i: Union[Literal["x", "yy"], Annotated[str, MaxLength({b})]]
    j: Inner
    k: Optional[Inner]
    l: Annotated[str, MaxLength({b})] = "x"
    m: Optional[Literal["one"]] = None
    o: Union[int8, int16] = 1
    p: Optional[Kind] = None
    q: Unique[Optional[Annotated[int, IntegerRange({lo}, {lo + n})]]] = None
    r: int8 = 1
    s: uint16 = 1
    t: set[Kind] = dataclasses.field(default_factory=set)
    u: list[Kind] = dataclasses.field(default_factory=list)
    v: Annotated[decimal.Decimal, Precision({p})] = decimal.Decimal(0)

@dataclass
class Few:
    id: PrimaryKey[int8]
    v: Unique[Annotated[int, IntegerRange(1, {few})]]
"""
    m = probes.module("import dataclasses\nfrom strong_typing.auxiliary import *\nfrom pysqlsync.model.key_types import *\nfrom typing import *\n" + src)
    items = random_objects(m.Thing, n)
    if len(items) != n:
        raise Violation(f"{len(items)} objects instead of {n}")
    w = sg.World([])
    tys = {
        "id": (("intrange", lo, hi), False), "a": (("str", b, a), False), "b": (("str", b), True), "c": (("str", b), True), "d": (("decimal", p, s), False), "e": (("intrange", lo, hi), False),
        "f": (("intrange", lo, hi), True), "g": (("intrange", lo, hi), False), "h": (("str", 3), False), "i": (("str", max(b, 2)), False), "l": (("str", b), False), "m": (("literal", ("one",)), True),
        "o": (("int16",), False), "q": (("intrange", lo, lo + n), True), "r": (("int8",), False), "s": (("uint16",), False), "v": (("decimal", p, 0), False),
    }  # fmt: skip
    for name, (ty, nullable) in tys.items():
        seen = set()
        for x in items:
            v = getattr(x, name)
            conforms(w, ty, nullable, v, f"field {name} {ty}")
            if name in ("id", "g", "h", "q") and v is not None:
                if v in seen:
                    raise Violation(f"value {v!r} of {name} repeats")
                seen.add(v)
                obs.count("unique values")
        obs.see(f"special/{name}/{ty}", n=n, kind="values judged")
    for x in items:
        for v in (x.j, x.k):
            if v is None and v is x.k:
                continue
            o = parse(m.Inner, v, "Inner")
            conforms(w, ("str", b), False, o.a, "Inner.a")
            conforms(w, ("intrange", lo, hi), True, o.b, "Inner.b")
            if type(o.k) is not m.Kind:
                fail("Inner.k", o.k, "is no member")
        if x.p is not None and type(x.p) is not m.Kind:
            fail("p", x.p, "is no member")
        for name in ("t", "u"):
            v = getattr(x, name)
            if type(v) is not list or any(e not in ("a", "b", "c") for e in v):
                fail(name, v, "is no list of members")
            if name == "t" and len(set(v)) != len(v):
                fail(name, v, "has repeated members")
    obs.see("nested", n=n, kind="values judged")
    # as many distinct values as there are, and one more
    items = random_objects(m.Few, few)
    if sorted(x.v for x in items) != list(range(1, few + 1)):
        raise Violation(f"unique values in 1 to {few}: {[x.v for x in items]}")
    obs.count("exhausted ranges")
    for cls, count in ((m.Few, few + 1), (m.Few, 300)):
        try:
            random_objects(cls, count)
        except DataGeneratorError:
            obs.count("too few values")
        else:
            raise Violation(f"{count} objects of a unique field with {few} values")


def helpers(obs: Obs, seed: int):
    """Public building blocks."""
    rng = random.Random(f"c19h/{seed}")
    random.seed(rng.random())
    utc = dt.timezone.utc
    for _ in range(100):
        a = dt.datetime(1990, 1, 1, tzinfo=utc) + dt.timedelta(seconds=rng.randint(0, 10**9))
        z = a + dt.timedelta(seconds=rng.choice([1, 2, 86399, 86400, 86401, 10**7]))
        v = gen.random_datetime(a, z)
        if not a <= v < z:
            raise Violation(f"random_datetime({a}, {z}) is {v}")
        v = gen.random_date(a.date(), a.date() + dt.timedelta(days=rng.choice([1, 2, 400])))
        if not a.date() <= v < a.date() + dt.timedelta(days=400):
            raise Violation(f"random_date from {a.date()} is {v}")
        v = gen.random_time(dt.time(1, 2, 3), dt.time(1, 2, rng.choice([4, 9, 59])))
        if not dt.time(1, 2, 3) <= v < dt.time(1, 2, 59):
            raise Violation(f"random_time between 01:02:03 and 01:02:59 is {v}")
        lo = rng.randint(0, 5)
        hi = lo + rng.randint(0, 5)
        v = gen.random_alphanumeric_str(lo, hi)
        if not lo <= len(v) <= hi or not (v.isalnum() or v == ""):
            raise Violation(f"random_alphanumeric_str({lo}, {hi}) is {v!r}")
        K = enum.Enum("K", {f"M{i}": f"m{i}" for i in range(rng.randint(1, 6))})
        if gen.random_enum(K) not in list(K):
            raise Violation("random_enum is no member")
        n = rng.randint(0, 8)
        v = gen.random_enum_generator(K, count=n)()
        if len(v) != min(n, len(K)) or len(set(v)) != len(v) or not all(isinstance(x, K) for x in v):
            raise Violation(f"random_enum_generator(count={n}) of {len(K)} members gives {v}")
        lo = rng.randint(0, 3)
        hi = max(1, lo + rng.randint(0, 3))
        v = gen.random_enum_generator(K, min_count=lo, max_count=hi)()
        if not min(lo, len(K)) <= len(v) <= hi or len(set(v)) != len(v):
            raise Violation(f"random_enum_generator(min_count={lo}, max_count={hi}) of {len(K)} members gives {v}")
        obs.see(f"helpers/{lo}/{hi}/{n}/{len(K)}", n=7, kind="helper results")


def p_unique(obs):
    m = probes.module("@dataclass\nclass Thing:\n    id: PrimaryKey[int]\n    v: Unique[int8]\n")
    items = random_objects(m.Thing, 100)
    if len({x.v for x in items}) != 100:
        raise Violation(f"{len({x.v for x in items})} distinct values of a unique field in 100 objects")


def p_keys(obs):
    m = probes.module("from strong_typing.auxiliary import IntegerRange\n@dataclass\nclass Thing:\n    id: PrimaryKey[Annotated[int, IntegerRange(1000, 2000)]]\n")
    bad = [x.id for x in random_objects(m.Thing, 10) if not 1000 <= x.id <= 2000]
    if bad:
        raise Violation(f"keys {bad} in the range 1000 to 2000")


def main():
    c = Check(
        "C19",
        "a situation is the declared type with its optionality and uniqueness, whether objects were asked for, and whether absent values occurred",
        ["lists, sets and nested structures are judged through their JSON representation, which is what the generator produces", "storing is judged by the simulated server, without foreign keys, whose targets random data does not know"],
    )
    for d in sg.DIALECTS:
        for s in c.seeds(c.pick(60, 2500), 1):
            c.add(objects, dialect=d, seed=s)
        for s in c.seeds(c.pick(20, 700), 2):
            c.add(stored, dialect=d, seed=s)
    for s in c.seeds(c.pick(60, 2000), 3):
        c.add(special, seed=s)
    for s in c.seeds(c.pick(8, 100), 4):
        c.add(helpers, seed=s)
    c.probe("unique", p_unique)
    c.probe("key-range", p_keys)
    c.require(**{"values judged": 20000, "unique values": 2000, "objects stored": 500, "helper results": 1000})
    c.finish()


main()
