"""C13: tabular files round-trip records without loss."""

import asyncio
import dataclasses
import datetime as dt
import decimal
import enum
import ipaddress
import io
import os
import random
import sys
import types
import typing
import uuid
from typing import Annotated, Literal, Optional, Union

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import harness  # noqa: F401
from harness import Check, Obs, Skip, Violation

from strong_typing.auxiliary import MaxLength, float32, float64, int16, int32, int64
from tsv.helper import Generator, Parser

from pysqlsync.data.exchange import AsyncTextReader, TextReader, TextWriter, fields_to_types
from pysqlsync.model.key_types import PrimaryKey, Unique


class Color(enum.Enum):
    RED = "red"
    TAB = "a\tb"
    BACK = "c\\nd"
    EMPTY = ""
    UNI = "zöld é漢"


@dataclasses.dataclass
class Ref:
    id: PrimaryKey[int64]
    name: str


@dataclasses.dataclass
class RefStr:
    key: PrimaryKey[Annotated[str, MaxLength(64)]]


PIECES = ["", "a", "\t", "\n", "\\", "\\N", "\\t", "\\n", "\\\\", "\r", "\r\n", "\0", "\v", "\f", "\b", "\x1b", "\x85", "\u2028", "é", "漢字", "\U0001f600", " ", '"', "'", ",", "|", "N", "null", "true", "0", "x" * 40]


def text(rng):
    return "".join(rng.choice(PIECES) for _ in range(rng.choice([0, 1, 1, 2, 3, 8])))


def blob(rng):
    return rng.choice([b"", b"\\N", b"\t", b"\n", b"\\", bytes(rng.randrange(256) for _ in range(rng.randint(0, 40))), text(rng).encode()])


def integer(rng):
    return rng.choice([0, 1, -1, 7, 2**31 - 1, -(2**31), 2**63 - 1, -(2**63), 2**63, 10**30, rng.randint(-(10**6), 10**6)])


def js(rng, depth=0):
    k = rng.randrange(7 if depth < 2 else 5)
    if k == 0:
        return None
    if k == 1:
        return rng.random() < 0.5
    if k == 2:
        return rng.randint(-1000, 1000)
    if k == 3:
        return rng.choice([0.5, 1e100, -2.25])
    if k == 4:
        return text(rng)
    if k == 5:
        return [js(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return {text(rng): js(rng, depth + 1) for _ in range(rng.randint(0, 3))}


def datetime_(rng):
    return dt.datetime(rng.choice([1, 1970, 1999, 2024, 9999]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 0, 1, 500000, 999999]))


# name -> (field type, value generator, expected column type, value read back)
same = lambda v: v  # noqa: E731
KINDS = {
    "bool": (bool, lambda r: r.random() < 0.5, bool, same),
    "int": (int, integer, int, same),
    "int16": (int16, lambda r: r.randint(-(2**15), 2**15 - 1), int, same),
    "int32": (int32, lambda r: r.randint(-(2**31), 2**31 - 1), int, same),
    "int64": (int64, lambda r: r.randint(-(2**63), 2**63 - 1), int, same),
    "float": (float, lambda r: r.choice([0.0, -1.5, 1e300, 5e-324, float("inf"), r.random() * 10 ** r.randint(-30, 30)]), float, same),
    "float32": (float32, lambda r: r.choice([0.0, 1.5, -2.0]), float, same),
    "str": (str, text, str, same),
    "vstr": (Annotated[str, MaxLength(80)], lambda r: text(r)[:80], str, same),
    "bytes": (bytes, blob, bytes, same),
    "date": (dt.date, lambda r: datetime_(r).date(), dt.date, same),
    "time": (dt.time, lambda r: datetime_(r).time(), dt.time, same),
    "datetime": (dt.datetime, datetime_, dt.datetime, same),
    "decimal": (decimal.Decimal, lambda r: r.choice([decimal.Decimal("0"), decimal.Decimal("-1.50"), decimal.Decimal("1E+10"), decimal.Decimal(r.randint(-(10**20), 10**20)).scaleb(-r.randint(0, 10))]), decimal.Decimal, same),
    "uuid": (uuid.UUID, lambda r: uuid.UUID(int=r.getrandbits(128)), uuid.UUID, same),
    "ip4": (ipaddress.IPv4Address, lambda r: ipaddress.IPv4Address(r.getrandbits(32)), ipaddress.IPv4Address, same),
    "ip6": (ipaddress.IPv6Address, lambda r: ipaddress.IPv6Address(r.getrandbits(128)), ipaddress.IPv6Address, same),
    "ip": (Union[ipaddress.IPv4Address, ipaddress.IPv6Address], lambda r: ipaddress.IPv4Address(r.getrandbits(32)) if r.random() < 0.5 else ipaddress.IPv6Address(r.getrandbits(128)), None, same),
    "enum": (Color, lambda r: r.choice(list(Color)), str, lambda v: v.value),
    "literal": (Literal["on", "off", "x\ty"], lambda r: r.choice(["on", "off", "x\ty"]), str, same),
    "ref": (Ref, integer, int, same),
    "refstr": (RefStr, text, str, same),
    "list": (list[str], lambda r: [text(r) for _ in range(r.randint(0, 4))], list, same),
    "ilist": (list[int], lambda r: [integer(r) for _ in range(r.randint(0, 4))], list, same),
    "dict": (dict[str, str], lambda r: {text(r): text(r) for _ in range(r.randint(0, 4))}, dict, same),
}
KEYABLE = ["int", "int64", "vstr", "uuid"]
NAMES = ["id", "name", "value", "data", "a", "b", "c1", "created_at", "Ünicode", "isActive", "x" * 30, "key", "order", "group", "field_9", "zz"]
EXT = ["meta.ts", "key id", "value-1", "é漢", "with\\back", "quote\"d", "N", "\\N", "UPPER", "dotted.name.x", " lead", "#c", "tail ", "1", "|"]


def codec_exact(kind, v):
    """The underlying TSV codec itself recovers this value (anything else is outside the library's control)."""
    _, _, ty, back = KINDS[kind]
    if v is None:
        return True
    t = ty or typing.Union[ipaddress.IPv4Address, ipaddress.IPv6Address]
    try:
        r = Parser((t, int)).parse_line(Generator().generate_line((v, 1)))
    except Exception:
        return False
    return r == (back(v), 1) and type(r[0]) is type(back(v))


def make_class(rng, only=None):
    n = rng.choice([1, 1, 2, 3, 5, 8])
    names = rng.sample(NAMES, n)
    fields, kinds = [], []
    for i, name in enumerate(names):
        k = only or rng.choice(list(KINDS))
        nullable = rng.random() < 0.35
        t = KINDS[k][0]
        if not only and i == 0 and rng.random() < 0.6:
            k = rng.choice(KEYABLE)
            t, nullable = PrimaryKey[KINDS[k][0]], False
        elif nullable:
            t = Optional[t]
        elif rng.random() < 0.1 and k in KEYABLE:
            t = Unique[t]
        fields.append((name, t))
        kinds.append((name, k, nullable))
    m = types.ModuleType(f"c13mod_{os.getpid()}")
    sys.modules[m.__name__] = m
    cls = dataclasses.make_dataclass("Sample", fields)
    cls.__module__ = m.__name__
    m.Sample = cls
    return cls, kinds


def value(rng, k, nullable):
    for _ in range(50):
        v = None if nullable and rng.random() < 0.3 else KINDS[k][1](rng)
        if codec_exact(k, v):
            return v
    raise Skip(f"codec limits for {k}")


class Stream(io.BytesIO):
    pass


class AStream:
    def __init__(self, data, rng):
        self.buf, self.rng = io.BytesIO(data), rng

    async def readline(self, limit=-1):
        for _ in range(self.rng.randint(0, 2)):
            await asyncio.sleep(0)
        return self.buf.readline(limit)


def readers(data, n2t, rng):
    """Every way of reading a file: (label, thunk -> (columns, field_types, rows))."""

    def whole():
        r = TextReader(io.BytesIO(data), n2t)
        return r.columns, r.field_types, r.read_records()

    def lazily():
        r = TextReader(io.BytesIO(data), n2t)
        return r.columns, r.field_types, list(r.records())

    def mixed():
        r = TextReader(io.BytesIO(data), n2t)
        it = iter(r.records())
        head = []
        for _ in range(rng.randint(0, 2)):
            try:
                head.append(next(it))
            except StopIteration:
                break
        return r.columns, r.field_types, head + r.read_records()

    def awhole():
        async def go():
            r = AsyncTextReader(AStream(data, rng), n2t)
            await r.read_header()
            return r.columns, r.field_types, await r.read_records()

        return asyncio.run(go())

    def alazy():
        async def go():
            r = AsyncTextReader(AStream(data, rng), n2t)
            await r.read_header()
            return r.columns, r.field_types, [x async for x in r.records()]

        return asyncio.run(go())

    return [("read_records", whole), ("records", lazily), ("mixed", mixed), ("async read_records", awhole), ("async records", alazy)]


def prepare(rng, count=None, only=None):
    cls, kinds = make_class(rng, only)
    mapping = None
    order = [k[0] for k in kinds]
    if rng.random() < 0.6:
        order = rng.sample(order, len(order))
        ext = rng.sample(EXT + NAMES, len(order)) if rng.random() < 0.7 else list(order)
        mapping = dict(zip(order, ext))
    n = count if count is not None else rng.choice([0, 1, 2, 3, 10])
    objs = [cls(*[value(rng, k, nl) for _, k, nl in kinds]) for _ in range(n)]
    buf = io.BytesIO()
    w = TextWriter(buf, cls, mapping) if mapping is not None else TextWriter(buf, cls)
    # several calls append
    i = 0
    while i < len(objs):
        j = i + rng.randint(1, max(1, len(objs)))
        w.write_objects(objs[i:j])
        i = j
    if not objs and rng.random() < 0.5:
        w.write_objects([])
    by = {name: (k, nl) for name, k, nl in kinds}
    want = [tuple(None if getattr(o, f) is None else KINDS[by[f][0]][3](getattr(o, f)) for f in order) for o in objs]
    cols = tuple(mapping[f] if mapping else f for f in order)
    tys = tuple(KINDS[by[f][0]][2] for f in order)
    return cls, kinds, mapping, order, buf.getvalue(), want, cols, tys


def identical(a, b):
    return type(a) is type(b) and (a == b) and repr(a) == repr(b)


def judge(obs, rng, cls, kinds, mapping, order, data, want, cols, tys):
    n2t = fields_to_types(cls, mapping) if mapping is not None else fields_to_types(cls)
    if set(n2t) != set(cols):
        raise Violation(f"fields_to_types yields columns {sorted(n2t)}, file has {sorted(cols)}")
    for label, thunk in readers(data, n2t, rng):
        c, t, rows = thunk()
        if tuple(c) != cols:
            raise Violation(f"{label}: reported columns {c!r}, written {cols!r}")
        for a, b, name in zip(t, tys, cols):
            if b is not None and a is not b:
                raise Violation(f"{label}: column {name} reported with type {a}, expected {b}")
        if len(t) != len(tys):
            raise Violation(f"{label}: {len(t)} types for {len(tys)} columns")
        if len(rows) != len(want):
            raise Violation(f"{label}: {len(rows)} of {len(want)} records read back; file {data[:200]!r}")
        for i, (r, w) in enumerate(zip(rows, want)):
            if len(r) != len(w) or not all(identical(x, y) for x, y in zip(r, w)):
                raise Violation(f"{label}: record {i} read back as {r!r}, written {w!r}")
        obs.see((label, len(cols), len(want) if len(want) < 3 else 3, mapping is not None), kind="files_read")
        obs.count("records_compared", len(rows))
    for name, k, nl in kinds:
        obs.keys.add(f"type {k} {nl}")
    obs.sample(f"{[k for _, k, _ in kinds]}: {data[:160]!r}")


def roundtrip(obs: Obs, seed: int):
    rng = random.Random(f"c13/{seed}")
    judge(obs, rng, *prepare(rng))


def each_type(obs: Obs, kind: str, seed: int):
    rng = random.Random(f"c13t/{kind}/{seed}")
    judge(obs, rng, *prepare(rng, rng.randint(1, 12), kind))


def sizeable(obs: Obs, seed: int, n: int):
    rng = random.Random(f"c13l/{seed}")
    judge(obs, rng, *prepare(rng, n))


def malformed(obs: Obs, seed: int):
    """Structural damage must raise an error in every way of reading."""
    rng = random.Random(f"c13m/{seed}")
    for _ in range(30):
        cls, kinds, mapping, order, data, want, cols, tys = prepare(rng, rng.randint(1, 6))
        if len(cols) > 1 or rng.random() < 0.2:
            break
    n2t = fields_to_types(cls, mapping) if mapping is not None else fields_to_types(cls)
    lines = data.split(b"\n")[:-1]
    how = rng.choice(["drop-field", "extra-field", "blank", "unknown-column", "empty-file", "join-lines", "cut", "bad-int", "drop-column"])
    i = rng.randrange(1, len(lines))
    if how == "drop-field" and len(cols) > 1:
        f = lines[i].split(b"\t")
        del f[rng.randrange(len(f))]
        lines[i] = b"\t".join(f)
    elif how == "extra-field":
        f = lines[i].split(b"\t")
        f.insert(rng.randrange(len(f) + 1), b"1")
        lines[i] = b"\t".join(f)
    elif how == "blank" and len(cols) > 1:
        lines.insert(i, b"")
    elif how == "unknown-column":
        f = lines[0].split(b"\t")
        f[rng.randrange(len(f))] += b"_other"
        lines[0] = b"\t".join(f)
    elif how == "drop-column" and len(cols) > 1:
        f = lines[0].split(b"\t")
        del f[rng.randrange(len(f))]
        lines[0] = b"\t".join(f)
    elif how == "empty-file":
        lines = []
    elif how == "join-lines" and len(lines) > 2:
        lines[i - 1 if i > 1 else i] = lines[i - 1 if i > 1 else i] + b"\t" + lines[i]
    elif how == "cut" and len(cols) > 1:
        # the last line ends before its last separator
        lines[-1] = lines[-1].rsplit(b"\t", 1)[0]
    elif how == "bad-int" and any(t is int for t in tys):
        c = rng.choice([j for j, t in enumerate(tys) if t is int])
        f = lines[i].split(b"\t")
        f[c] = rng.choice([b"x", b"1.5", b"1 ", b"0x10", b"--1"])
        lines[i] = b"\t".join(f)
    else:
        raise Skip(f"{how} not applicable")
    bad = b"".join(x + b"\n" for x in lines)
    if how == "cut" and lines[-1] and rng.random() < 0.5:
        bad = bad[:-1]
    for label, thunk in readers(bad, n2t, rng):
        try:
            c, t, rows = thunk()
        except Exception as e:
            if isinstance(e, Violation):
                raise
            obs.see((how, label, len(cols) == 1), kind="malformed_refused")
            continue
        raise Violation(f"{label}: {how} damage of line {i} accepted silently, {len(rows)} of {len(want)} records returned; file {bad[:300]!r}")


def unterminated(obs: Obs, seed: int):
    """A file without a newline at its end holds the same records."""
    rng = random.Random(f"c13u/{seed}")
    cls, kinds, mapping, order, data, want, cols, tys = prepare(rng, rng.randint(1, 4))
    if data.endswith(b"\n\n"):
        raise Skip("last line is blank")
    judge(obs, rng, cls, kinds, mapping, order, data[:-1], want, cols, tys)


def concurrent(obs: Obs, seed: int):
    """Several files read by interleaved tasks."""
    rng = random.Random(f"c13c/{seed}")
    jobs = [prepare(rng, rng.randint(0, 6)) for _ in range(4)]

    async def one(cls, kinds, mapping, order, data, want, cols, tys):
        n2t = fields_to_types(cls, mapping) if mapping is not None else fields_to_types(cls)
        r = AsyncTextReader(AStream(data, rng), n2t)
        await r.read_header()
        rows = [x async for x in r.records()] if rng.random() < 0.5 else await r.read_records()
        if tuple(r.columns) != cols or len(rows) != len(want) or not all(identical(tuple(a), b) for a, b in zip(rows, want)):
            raise Violation("records differ when files are read concurrently")
        obs.see("concurrent", kind="files_read")

    async def body():
        await asyncio.gather(*(one(*j) for j in jobs))

    asyncio.run(body())



def _blank(obs):
    m = types.ModuleType("c13blank")
    sys.modules["c13blank"] = m
    cls = dataclasses.make_dataclass("One", [("name", str)])
    cls.__module__ = "c13blank"
    m.One = cls
    buf = io.BytesIO()
    TextWriter(buf, cls).write_objects([cls("a"), cls(""), cls("b")])
    for label, thunk in readers(buf.getvalue(), fields_to_types(cls), random.Random(0)):
        if thunk()[2] != [("a",), ("",), ("b",)]:
            raise Violation(f"{label}: {thunk()[2]}")


def main():
    c = Check(
        "C13",
        "distinct (way of reading, number of columns, number of records, mapping), (field type, nullability) and (kind of damage, way of reading) observed with the records compared to what was written",
        ["values that the third-party tsv codec itself does not recover are outside the domain (determined by running the codec on the single value)", "header names contain no tab or newline", "damage within a field is limited to integer fields with non-digits: what a field parser accepts is the codec's decision"],
    )
    for s in c.seeds(c.pick(600, 12000), 1):
        c.add(roundtrip, seed=s)
    for k in KINDS:
        for s in c.seeds(c.pick(10, 200), 2):
            c.add(each_type, kind=k, seed=s)
    for s in c.seeds(c.pick(400, 8000), 3):
        c.add(malformed, seed=s)
    for s in c.seeds(c.pick(60, 1000), 4):
        c.add(unterminated, seed=s)
    for s in c.seeds(c.pick(40, 500), 5):
        c.add(concurrent, seed=s)
    for s in c.seeds(c.pick(3, 20), 6):
        c.add(sizeable, seed=s, n=c.pick(1500, 6000))
    c.probe("blank-line", _blank)
    c.require(files_read=1000, malformed_refused=300)
    c.finish()


main()
