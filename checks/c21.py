"""C21: common column types hold every value of the joined types; types are recognised as they were rendered."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy
import itertools
import random

import harness
import probes
import scenario as sc
import specgen as sg
from harness import Check, Obs, Skip, Violation

from pysqlsync.model import data_types as dt
from pysqlsync.formation.object_types import FormationError

# --- value sets -------------------------------------------------------------------------------------------------


def describe(t):
    """The set of values of a column type, as (family, measures)."""
    if isinstance(t, dt.SqlIntegerType):
        bits = 8 * t.width
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if t.signed else (0, (1 << bits) - 1)
        if t.minimum is not None:
            lo = max(lo, t.minimum)
        if t.maximum is not None:
            hi = min(hi, t.maximum)
        return ("int", lo, hi)
    if isinstance(t, dt.SqlRealType):
        return ("real",)
    if isinstance(t, dt.SqlDoubleType):
        return ("double",)
    if isinstance(t, (dt.SqlFixedCharacterType, dt.SqlVariableCharacterType)):
        return ("char", t.limit)
    if isinstance(t, (dt.SqlFixedBinaryType, dt.SqlVariableBinaryType)):
        return ("binary", t.storage)
    if isinstance(t, dt.SqlDecimalType):
        return ("decimal", t.precision, t.scale)
    if isinstance(t, dt.SqlTimestampType):
        return ("timestamp", t.precision, t.with_time_zone)
    if isinstance(t, dt.SqlTimeType):
        return ("time", t.precision, t.with_time_zone)
    return (type(t).__name__, str(t))


def holds(big, small):
    """True, False, or None if the families are not comparable by this oracle."""
    b, s = describe(big), describe(small)
    if b == s:
        return True
    if b[0] == s[0] == "int":
        return b[1] <= s[1] and s[2] <= b[2]
    if (b[0], s[0]) in (("double", "real"),):
        return True
    if (b[0], s[0]) in (("real", "double"),):
        return False
    if b[0] in ("real", "double") and s[0] == "int":
        most = 1 << (24 if b[0] == "real" else 53)
        return -most <= s[1] and s[2] <= most
    if b[0] == "int" and s[0] in ("real", "double"):
        return False
    if b[0] == s[0] and b[0] in ("char", "binary"):
        return b[1] is None or (s[1] is not None and s[1] <= b[1])
    if b[0] == s[0] == "decimal":
        if b[1] is None:
            return True
        if s[1] is None:
            return False
        return b[1] - (b[2] or 0) >= s[1] - (s[2] or 0) and (b[2] or 0) >= (s[2] or 0)
    if b[0] == s[0] and b[0] in ("timestamp", "time"):
        return b[2] == s[2] and (b[1] is None or b[1] == 6 or (s[1] is not None and s[1] <= b[1]))
    if b[0] == "decimal" and s[0] == "int":
        return b[1] is not None and 10 ** (b[1] - (b[2] or 0)) > max(abs(s[1]), abs(s[2])) or b[1] is None
    if b[0] == s[0]:
        return False
    if b[0] == "char" or s[0].startswith("SqlBool"):
        return None
    return False


def must_join(types):
    """Whether the types belong to one family in which a common type exists."""
    ds = [describe(t) for t in types]
    fam = {d[0] for d in ds}
    if fam == {"int"}:
        full = [describe(dt.SqlIntegerType(t.width, t.signed)) for t in types]
        lo, hi = min(d[1] for d in full), max(d[2] for d in full)
        return (lo >= -(1 << 63) and hi < (1 << 63)) or lo == 0
    if fam <= {"real", "double"} or fam == {"char"} or fam == {"binary"}:
        return True
    return all(d == ds[0] for d in ds)


BASE = (
    [dt.SqlIntegerType(w, signed=s) for w in (1, 2, 4, 8) for s in (True, False)]
    + [dt.SqlIntegerType(w, minimum=a, maximum=b) for w, a, b in ((2, 0, 100), (2, -5, 5), (8, 0, None), (4, None, 9))]
    + [dt.SqlRealType(), dt.SqlDoubleType(), dt.SqlBooleanType(), dt.SqlUuidType(), dt.SqlDateType(), dt.SqlIntervalType(), dt.SqlJsonType()]
    + [dt.SqlFixedCharacterType(n) for n in (1, 5, 40)]
    + [dt.SqlVariableCharacterType(n) for n in (1, 5, 64, 4000, None)]
    + [dt.SqlFixedBinaryType(n) for n in (4, 16)]
    + [dt.SqlVariableBinaryType(n) for n in (1, 16, 300, None)]
    + [dt.SqlDecimalType(), dt.SqlDecimalType(10, 2), dt.SqlDecimalType(12, 0), dt.SqlDecimalType(5)]
    + [dt.SqlTimestampType(), dt.SqlTimestampType(3), dt.SqlTimestampType(None, True), dt.SqlTimeType(), dt.SqlTimeType(2), dt.SqlFloatType(24), dt.SqlFloatType(53)]
    + [dt.SqlEnumType(["a", "b"]), dt.SqlEnumType(["b", "c"]), dt.SqlArrayType(dt.SqlIntegerType(2)), dt.SqlArrayType(dt.SqlIntegerType(8))]
)

POOL_FIELDS = [
    "bool", "int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "float", "float32", "float64", "str",
    "Annotated[str, MaxLength(1)]", "Annotated[str, MaxLength(7)]", "Annotated[str, MaxLength(300)]", "Annotated[str, MaxLength(5000)]",
    'Literal["a"]', 'Literal["abc", "de"]', "decimal.Decimal", "Annotated[decimal.Decimal, Precision(9, 3)]", "datetime.datetime", "datetime.date", "datetime.time",
    "uuid.UUID", "ipaddress.IPv4Address", "ipaddress.IPv6Address",
]  # fmt: skip
CONVERTED = ("postgresql", "mysql", "mssql", "oracle")


def pool(dialect):
    if dialect == "base":
        return [copy.copy(t) for t in BASE]
    src = "@dataclass\nclass Thing:\n    id: PrimaryKey[int]\n" + "".join(f"    f{i}: {t}\n" for i, t in enumerate(POOL_FIELDS))
    m = probes.module(src)
    conv = sc.connection(dialect, sg.DEFAULT_MODES[dialect], {m: None}).generator.converter
    table = next(iter(next(iter(conv.dataclasses_to_catalog([m.Thing]).namespaces.values())).tables.values()))
    out = []
    for c in table.columns.values():
        if str(c.name.id).startswith("f") and all(c.data_type != t for t in out):
            out.append(c.data_type)
    return out


def join(types):
    try:
        return dt.compatible_type(types)
    except dt.CompatibilityError:
        return None


def check_join(obs, types, what):
    before = copy.deepcopy(types)
    results = []
    for p in itertools.permutations(types):
        results.append(join(list(p)))
    if [repr(t) for t in before] != [repr(t) for t in types]:
        raise Violation(f"{what}: computing a common type altered the operands: {before} became {types}")
    sigs = [None if r is None else (str(r), describe(r)) for r in results]
    if len(set(sigs)) > 1:
        raise Violation(f"{what}: the common type of {types} depends on the order: {list(dict.fromkeys(sigs))}")
    r = results[0]
    if r is None:
        if must_join(types):
            raise Violation(f"{what}: no common type for {types}")
        obs.count("refused joins")
    else:
        for t in types:
            if holds(r, t) is False:
                raise Violation(f"{what}: common type {r!r} cannot represent every value of {t!r}; joined {types}")
        obs.count("joins")
    obs.see(f"{sigs[0]}/{len(types)}/" + "+".join(sorted(describe(t)[0] for t in types)))


def pairs(obs: Obs, dialect: str):
    ts = pool(dialect)
    obs.count("types", len(ts))
    for t in ts:
        for n in (1, 2, 3):
            r = join([copy.deepcopy(t) for _ in range(n)])
            if r is None or r != t or str(r) != str(t):
                raise Violation(f"common type of {n} times {t!r} is {r!r}")
            obs.see(f"same/{t}")
    for a, b in itertools.combinations(ts, 2):
        check_join(obs, [a, b], dialect)


def tuples(obs: Obs, dialect: str, seed: int):
    rng = random.Random(f"c21t/{dialect}/{seed}")
    ts = pool(dialect)
    fam = {}
    for t in ts:
        fam.setdefault({"double": "real"}.get(describe(t)[0], describe(t)[0]), []).append(t)
    for _ in range(60):
        src = rng.choice([v for v in fam.values() if len(v) > 1]) if rng.random() < 0.85 else ts
        check_join(obs, [rng.choice(src) for _ in range(rng.choice([3, 3, 4]))], dialect)


# --- declared unions and literals ---------------------------------------------------------------------------------

INTS = {"int8": (-(1 << 7), (1 << 7) - 1), "int16": (-(1 << 15), (1 << 15) - 1), "int32": (-(1 << 31), (1 << 31) - 1), "int64": (-(1 << 63), (1 << 63) - 1), "uint8": (0, 255), "int": (-(1 << 63), (1 << 63) - 1)}
WORDS = ["a", "bc", "on", "off", "north", "a longer literal value", "x" * 40, "it's", "Ünï", "日本"]


def words(dialect):
    "Lengths in SQL Server and Oracle count bytes, whose number depends on the encoding of the database."
    return [w for w in WORDS if dialect in ("postgresql", "mysql") or w.isascii()]


def member(rng, dialect, fam):
    """A member type of a union with witnesses that the column has to hold."""
    if fam == "int":
        n = rng.choice([k for k in INTS])
        return n, list(INTS[n])
    if fam == "float":
        return rng.choice([("float32", [0.5, -1.25]), ("float64", [0.1, -1e300]), ("float", [1 / 3])])
    if fam == "text":
        r = rng.random()
        if r < 0.45:
            n = rng.choice([1, 2, 5, 39, 40, 41, 100, 255, 256, 1000])
            return f"Annotated[str, MaxLength({n})]", ["x" * n]
        if r < 0.85:
            vs = rng.sample(words(dialect), rng.randint(1, 3))
            return "Literal[" + ", ".join(map(repr, vs)) + "]", vs
        return "str", ["y" * 5000]
    return rng.choice([("uuid.UUID", [bytes(range(16))]), ("ipaddress.IPv4Address", [b"\1\2\3\4"])])


def unions(obs: Obs, dialect: str, seed: int):
    rng = random.Random(f"c21u/{dialect}/{seed}")
    fields = []
    for i in range(8):
        fam = rng.choice(["int", "int", "text", "text", "text", "float"])
        ms = [member(rng, dialect, fam) for _ in range(rng.choice([1, 2, 2, 3]))]
        if fam == "text" and len({m[0] for m in ms}) > 1 and not any(m[0].startswith("Literal") for m in ms):
            ms.insert(rng.randint(0, len(ms)), ('Literal["a", "bc"]', ["a", "bc"]))  # unions of strings alone stand for extensible enumerations
        fields.append((f"f{i}", fam, ms))
    mixed = None
    if rng.random() < 0.3:
        a, b = rng.sample(["int", "text", "float"], 2)
        mixed = [member(rng, dialect, a), member(rng, dialect, b)]
        rng.shuffle(mixed)

    def union(ms):
        names = list(dict.fromkeys(m[0] for m in ms))
        return names[0] if len(names) == 1 else "Union[" + ", ".join(names) + "]"

    src = "@dataclass\nclass Thing:\n    id: PrimaryKey[int]\n" + "".join(f"    {n}: {union(ms)}\n" for n, _, ms in fields)

    def witnesses(fam, ms):
        out = []
        for m in ms:
            out += m[1]
        return out

    async def build(source):
        m = probes.module(source)
        srv = sc.backend(dialect).server
        conn = sc.connection(dialect, sg.DEFAULT_MODES[dialect], {m: None if dialect in ("mysql", "oracle") else "sample"})
        async with conn as ctx:
            await ctx.create_objects([m.Thing])
        probes.refused(srv)
        return srv, srv.tables()[0]

    srv, table = sc.run(build(src))
    for n, fam, ms in fields:
        col = next(c for c in table.cols if c.name == n)
        for w in witnesses(fam, ms):
            try:
                got = srv.ts.store(col.type, w, "value")
            except Exception as e:
                raise Violation(f"{dialect}: column {col.type} for {union(ms)} does not take {str(w)[:60]!r}: {e}")
            if fam == "text":
                ok = got == w or (str(got).rstrip(" ") == w)
            elif fam == "float":
                ok = float(got) == w
            else:
                ok = int(got) == w
            if not ok:
                raise Violation(f"{dialect}: column {col.type} for {union(ms)} turns {w!r} into {got!r}")
            obs.see(f"{dialect}/{fam}/{col.type}", kind="values stored in columns of common types")
    if mixed:
        n0 = len(srv.events)
        try:
            srv2, table = sc.run(build("@dataclass\nclass Thing:\n    id: PrimaryKey[int]\n" + f"    value: {union(mixed)}\n"))
        except (TypeError, FormationError):
            obs.see(f"{dialect}/mixed refused", kind="refused unions")
        else:
            col = next(c for c in table.cols if c.name == "value")
            for w in witnesses("", mixed):
                try:
                    got = srv2.ts.store(col.type, w, "value")
                except Exception as e:
                    raise Violation(f"{dialect}: column {col.type} for {union(mixed)} does not take {str(w)[:60]!r}: {e}")
                if got != w and str(got).rstrip(" ") != str(w):
                    raise Violation(f"{dialect}: column {col.type} for {union(mixed)} turns {w!r} into {got!r}")


# --- recognition ----------------------------------------------------------------------------------------------------


def grid(dialect):
    ts = list(sg.scalar_types(dialect)) + [("uint8",), ("uint16",), ("uint32",)]
    ts += [("str", n) for n in (1, 2, 3, 16, 40, 64, 100, 255, 256, 1000, 2000, 4000)]
    ts += [("decimal", p, s) for p in (1, 2, 5, 9, 10, 16, 18, 20, 28, 38) for s in (0, 1, 2, 3, 5, 10) if s <= p]
    ts += [("datetime", n) for n in range(1, 7)] + [("time", n) for n in range(1, 7)]
    ts += [("literal", ("a",)), ("literal", ("ab", "abc")), ("literal", ("x" * 40,)), ("literal", ("y" * 255, "z"))]
    if dialect == "oracle":
        ts.append(("bytes",))
    if dialect == "postgresql":
        ts.append(("interval",))
    return [t for t in dict.fromkeys(ts) if not excluded(dialect, t)]


def excluded(d, t):
    """Types of recorded findings (see the probes)."""
    k = t[0]
    if k == "intrange" or (k == "bytes" and d != "oracle"):
        return True
    if d == "mysql":
        return k == "float32"
    if d == "mssql":
        return k == "time" or (k == "datetime" and len(t) > 1)
    if d == "oracle":
        return k in ("uint8", "uint16", "uint32", "float", "float32", "float64") or (k in ("decimal", "datetime", "time") and len(t) > 1)
    return False


def recognised(dialect, types, rng, obs=None, modes=None):
    modes = modes or sg.DEFAULT_MODES[dialect]
    w = sg.World([sg.Module(sg.SCHEMAS[dialect][0])])
    w.modules[0].tables.append(sg.Table("Thing", [sg.Fld("id", ("int",), pk=True)] + [sg.Fld(f"f{i}", t, nullable=rng.random() < 0.5) for i, t in enumerate(types)]))

    async def body():
        with sg.Rendered(w) as R:
            srv = sc.backend(dialect).server
            conn = sc.connection(dialect, modes, R.namespaces())
            async with conn as ctx:
                await sc.create(conn, ctx, R, None)
                probes.refused(srv)
                want = model_columns(conn.generator.state)
                n = len(srv.events)
                await sc.engine(dialect).create_explorer(ctx).synchronize(modules=list(R.modules))
                got = model_columns(conn.generator.state)
            for name in want:
                if name not in got:
                    raise Violation(f"{dialect}: column of type {want[name]} is not found again")
                a, z = want[name], got[name]
                if str(a) != str(z) or describe(a) != describe(z):
                    raise Violation(f"{dialect}: {a!r} rendered as {a} is recognised as {z!r}")
            extra = sc.mutating(srv.events[n:])
            if extra:
                raise Violation(f"{dialect}: a type is not recognised; synchronizing again sends {sc.brief(extra[0].text, 300)}")
            if obs:
                for name in want:
                    obs.see(f"{dialect}/{want[name]}", kind="types recognised")

    sc.run(body())


def model_columns(catalog):
    return {str(c.name): c.data_type for ns in catalog.namespaces.values() for t in ns.tables.values() for c in t.columns.values()}


def recognition(obs: Obs, dialect: str, part: int):
    ts = grid(dialect)
    rng = random.Random(f"c21r/{dialect}/{part}/{os.environ.get('VERIF_SEED')}")
    random.Random(f"{dialect}").shuffle(ts)
    recognised(dialect, ts[part::PARTS], rng, obs)


def anywhere(obs: Obs, dialect: str, seed: int):
    rng = random.Random(f"c21a/{dialect}/{seed}")
    ts = grid(dialect)
    ints = [("str", rng.randint(1, 4000 if dialect != "oracle" else 2000)) for _ in range(6)]
    if dialect != "oracle":
        for _ in range(6):
            p = rng.randint(1, 38)
            ints.append(("decimal", p, rng.randint(0, min(p, 30 if dialect == "mysql" else 38))))
    lits = [("literal", tuple(rng.sample(words(dialect) + ["q" * rng.randint(1, 200)], rng.randint(1, 3)))) for _ in range(3)]
    recognised(dialect, rng.sample(ts, 6) + ints + lits, rng, obs)


PARTS = 6


def type_probe(dialect, *types):
    def probe(obs):
        recognised(dialect, types, random.Random(0))

    return probe


def p_identity(obs):
    m = probes.module("@dataclass\nclass Thing:\n    id: PrimaryKey[int]\n    a: float32\n    b: uint8\n    c: int16\n")
    sg.forget_types()
    conv = sc.connection("postgresql", sg.DEFAULT_MODES["postgresql"], {m: None}).generator.converter
    try:
        got = {k: str(v) for k, v in model_columns(conv.dataclasses_to_catalog([m.Thing])).items()}
    except TypeError as e:
        raise Violation(f"types of a long-lived process: {e.__cause__ or e}")
    if list(got.values()) != ["bigint", "real", "smallint", "smallint"]:
        raise Violation(f"types of a long-lived process: {got}")


def p_signed(obs):
    check_join(obs, [dt.SqlIntegerType(2, False), dt.SqlIntegerType(2, True)], "base")


def main():
    c = Check(
        "C21",
        "a situation is the tuple of joined type families with the resulting type, the column type with the kind of value stored in it, or the type recognised in a dialect",
        ["values of a common type are judged by a value-set oracle (integer bounds, length, precision) and by storing boundary values into the simulated server's column", "discovery runs against the simulated catalogue views of four dialects"],
    )
    for d in ("base",) + CONVERTED:
        c.add(pairs, dialect=d)
        for s in c.seeds(c.pick(3, 40)):
            c.add(tuples, dialect=d, seed=s)
    for d in sg.DIALECTS:
        for part in range(PARTS):
            c.add(recognition, dialect=d, part=part)
        for s in c.seeds(c.pick(6, 150)):
            c.add(anywhere, dialect=d, seed=s)
        for s in c.seeds(c.pick(12, 250)):
            c.add(unions, dialect=d, seed=s)
    c.probe("signedness", p_signed)
    c.probe("long-lived", p_identity)
    c.probe("mysql-real", type_probe("mysql", ("float32",)))
    c.probe("mssql-datetime-precision", type_probe("mssql", ("datetime", 3)))
    c.probe("mssql-time", type_probe("mssql", ("time",)))
    c.probe("oracle-smallint", type_probe("oracle", ("uint8",)))
    c.probe("oracle-float", type_probe("oracle", ("float",)))
    c.probe("oracle-float32", type_probe("oracle", ("float32",)))
    c.probe("oracle-decimal", type_probe("oracle", ("decimal", 10, 2)))
    c.probe("oracle-datetime-precision", type_probe("oracle", ("datetime", 3)))
    c.probe("oracle-time-precision", type_probe("oracle", ("time", 3)))
    c.require(**{"types recognised": 100, "joins": 300, "refused joins": 300, "values stored in columns of common types": 200})
    c.finish()


main()
