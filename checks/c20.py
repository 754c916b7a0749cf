"""C20: schema model operations behave as value-faithful set operations."""

import copy
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import harness  # noqa: F401
from harness import Check, Obs, Skip, Violation
import scenario as sc
import specgen as sg
import evolve as ev
from pysqlsync.formation.object_dict import ObjectDict
from pysqlsync.formation.object_types import Catalog, CheckConstraint, Column, ConstraintReference, EnumTable, ForeignConstraint, FormationError, Namespace, StructMember, Table, UniqueConstraint
from pysqlsync.model.data_types import SqlBooleanType, SqlDoubleType, SqlIntegerType, SqlUserDefinedType, SqlVariableCharacterType
from pysqlsync.model.id_types import GlobalId, LocalId, QualifiedId


def fp(o, ordered=True):
    """Independent deep description of a model object, taken from its attributes only."""
    if isinstance(o, ObjectDict):
        items = [(k, fp(o[k], ordered)) for k in o.keys()]
        return ("dict", tuple(items if ordered else sorted(items, key=lambda x: x[0])))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(fp(x, ordered) for x in o)
    if isinstance(o, (set, frozenset)):
        return ("set",) + tuple(sorted((fp(x, ordered) for x in o), key=repr))
    if isinstance(o, dict):
        return ("map",) + tuple((k, fp(v, ordered)) for k, v in o.items())
    d = getattr(o, "__dict__", None)
    if d is not None and not isinstance(o, type):
        return (type(o).__name__,) + tuple((k, fp(v, ordered)) for k, v in sorted(d.items()))
    return repr(o)


# ------------------------------------------------------------------------------------------------- ordered collection
class Item:
    def __init__(self, name, tag):
        self.name, self.tag = LocalId(name), tag

    def __eq__(self, other):
        return isinstance(other, Item) and self.name.local_id == other.name.local_id and self.tag == other.tag

    def __repr__(self):
        return f"{self.name.local_id}:{self.tag}"


def collection(obs: Obs, seed: int):
    rng = random.Random(f"c20/coll/{seed}")
    pool = ["a", "b", "C", "c", "ä", "", "x y", 'q"q', "z", "1", "Z", "aa"]
    names = rng.sample(pool, rng.randint(0, len(pool)))
    model = {n: Item(n, rng.randint(0, 2)) for n in names}
    d = ObjectDict(list(model.values()) if rng.random() < 0.5 else iter(model.values()))
    for step in range(25):
        op = rng.choice(["add", "remove", "sort", "reorder", "difference", "intersection", "get", "eq", "views"])
        if op == "add":
            n = rng.choice(pool)
            it = Item(n, rng.randint(0, 2))
            try:
                d.add(it)
            except ValueError:
                if n not in model:
                    raise Violation(f"adding new {n!r} refused")
            else:
                if n in model:
                    raise Violation(f"adding a second {n!r} accepted")
                model[n] = it
        elif op == "remove":
            n = rng.choice(pool)
            try:
                d.remove(n)
            except KeyError:
                if n in model:
                    raise Violation(f"removing {n!r} refused")
            else:
                if n not in model:
                    raise Violation(f"removed {n!r}, which was not there")
                del model[n]
        elif op == "sort":
            d.sort()
            model = dict(sorted(model.items()))
        elif op == "reorder":
            order = rng.sample(list(model), len(model))
            d.reorder(order)
            model = {n: model[n] for n in order}
        elif op in ("difference", "intersection"):
            other_names = rng.sample(pool, rng.randint(0, len(pool)))
            om = {n: Item(n, rng.randint(0, 2)) for n in other_names}
            other = ObjectDict(om.values())
            dif = list(d.difference(other))
            both = list(d.intersection(other))
            rev = list(other.difference(d))
            if [id(x) for x in dif] != [id(model[n]) for n in model if n not in om]:
                raise Violation(f"difference of {list(model)} and {list(om)} is {dif}")
            if [(id(x), id(y)) for x, y in both] != [(id(model[n]), id(om[n])) for n in model if n in om]:
                raise Violation(f"intersection of {list(model)} and {list(om)} is {both}")
            if len(dif) + len(both) != len(model) or len(rev) + len(both) != len(om):
                raise Violation("difference and intersection do not partition the operands")
            if list(other) != list(om):
                raise Violation("operand changed")
        elif op == "get":
            n = rng.choice(pool)
            if (d.get(n) is not model.get(n)) or ((n in d) != (n in model)):
                raise Violation(f"look-up of {n!r} gives {d.get(n)}")
            if d.get(n, "dflt") is not model.get(n, "dflt"):
                raise Violation(f"look-up of {n!r} with default gives {d.get(n, 'dflt')!r}")
        elif op == "eq":
            same = ObjectDict([Item(n, x.tag) for n, x in model.items()])
            if not (d == same) or d != same:
                raise Violation("equal collections compare unequal")
            if model:
                n = rng.choice(list(model))
                less = ObjectDict([x for k, x in model.items() if k != n])
                alt = ObjectDict([Item(k, x.tag + (10 if k == n else 0)) for k, x in model.items()])
                if d == less or less == d or d == alt:
                    raise Violation(f"collections differing in {n!r} compare equal")
        if list(d) != list(model) or len(d) != len(model) or [id(x) for x in d.values()] != [id(x) for x in model.values()] or list(d.keys()) != list(model) or [(k, id(v)) for k, v in d.items()] != [(k, id(v)) for k, v in model.items()]:
            raise Violation(f"after {op}: {d} instead of {list(model.values())}")
        obs.see(("collection", op, min(len(model), 4)), kind="collection_steps")


# ------------------------------------------------------------------------------------------------- catalogues
def catalogue(rng, dialect, modes, world, R):
    conn = sc.connection(dialect, modes, R.namespaces(rng))
    return conn.generator, conn.generator.converter.dataclasses_to_catalog(R.entity_types(rng))


def members(cat, kind):
    out = []
    for ns in cat.namespaces.values():
        if kind == "table":
            out += list(ns.tables.values())
        elif kind == "column":
            out += [c for t in ns.tables.values() for c in t.columns.values()]
        elif kind == "constraint":
            out += [c for t in ns.tables.values() for c in t.constraints.values()]
        elif kind == "enum":
            out += list(ns.enums.values())
        elif kind == "struct":
            out += list(ns.structs.values())
        elif kind == "member":
            out += [m for s in ns.structs.values() for m in s.members.values()]
        elif kind == "namespace":
            out.append(ns)
    return out


ALTERATIONS = ["type", "nullable", "default", "identity", "coldoc", "tabdoc", "pk", "unique", "fkref", "fkcols", "fktab", "check", "enum", "member", "memdoc", "structdoc", "dropcol", "dropcon", "droptab", "addcol", "dropmem", "addtab", "dropenum", "dropstruct", "dropns"]


def alter(rng, cat, k=None):
    """Makes exactly one semantic change; returns its description, or None when the catalogue has nothing to change."""
    if k is None:
        k = rng.choice(ALTERATIONS)
    cols, tabs = members(cat, "column"), members(cat, "table")
    if not tabs or not cols:
        return None
    if k in ("type", "nullable", "default", "identity", "coldoc"):
        c = rng.choice(cols)
        if k == "type":
            c.data_type = rng.choice([x for x in (SqlBooleanType(), SqlIntegerType(8), SqlIntegerType(2), SqlDoubleType(), SqlVariableCharacterType(81), SqlUserDefinedType(GlobalId("other"))) if fp(x) != fp(c.data_type)])
        elif k == "nullable":
            c.nullable = not c.nullable
        elif k == "default":
            c.default = rng.choice([x for x in (None, "0", "1", "'x'") if x != c.default])
        elif k == "identity":
            c.identity = not c.identity
        else:
            c.description = rng.choice([x for x in (None, "text", "Text") if x != c.description])
        return k
    if k == "tabdoc":
        t = rng.choice(tabs)
        t.description = rng.choice([x for x in (None, "text", "Text") if x != t.description])
        return k
    if k == "pk":
        t = rng.choice(tabs)
        t.primary_key = tuple(t.primary_key) + (LocalId("other"),)
        return k
    cons = members(cat, "constraint")
    if k in ("unique", "fkref", "fkcols", "fktab", "check"):
        cand = [c for c in cons if isinstance(c, UniqueConstraint if k == "unique" else CheckConstraint if k == "check" else ForeignConstraint)]
        if not cand:
            return None
        c = rng.choice(cand)
        if k == "unique":
            c.unique_columns = tuple(c.unique_columns) + (LocalId("other"),)
        elif k == "check":
            c.condition = c.condition + " AND 1 = 1"
        elif k == "fkcols":
            c.foreign_columns = (LocalId("other"),)
        elif k == "fktab":
            c.reference = ConstraintReference(QualifiedId("elsewhere", "other"), c.reference.columns)
        else:
            c.reference = ConstraintReference(c.reference.table, (LocalId("other"),))
        return k
    if k == "enum":
        es = members(cat, "enum")
        if not es:
            return None
        e = rng.choice(es)
        e.values = rng.choice([e.values + ["extra"], e.values[:-1], e.values[:-1] + ["changed"]] + ([e.values[::-1], e.values[1:] + e.values[:1]] if len(e.values) > 1 else []))
        return k
    if k in ("member", "memdoc", "structdoc", "dropmem"):
        ss = members(cat, "struct")
        if not ss:
            return None
        s = rng.choice(ss)
        if not s.members and k != "structdoc":
            return None
        if k == "structdoc":
            s.description = rng.choice([x for x in (None, "text") if x != s.description])
        elif k == "dropmem":
            s.members.remove(rng.choice(list(s.members)))
        else:
            m = rng.choice(list(s.members.values()))
            if k == "member":
                m.data_type = rng.choice([x for x in (SqlBooleanType(), SqlIntegerType(2)) if fp(x) != fp(m.data_type)])
            else:
                m.description = rng.choice([x for x in (None, "text") if x != m.description])
        return k
    t = rng.choice(tabs)
    ns = next(n for n in cat.namespaces.values() if any(x is t for x in n.tables.values()))
    if "pysqlsync_extra" in t.columns or "pysqlsync_extra" in ns.tables:
        return None
    if k == "dropcol" and not t.columns:
        return None
    if k == "dropcol":
        t.columns.remove(rng.choice(list(t.columns)))
    elif k == "addcol":
        t.columns.add(Column(LocalId("pysqlsync_extra"), SqlIntegerType(8), True))
    elif k == "dropcon":
        if not t.constraints:
            return None
        t.constraints.remove(rng.choice(list(t.constraints)))
    elif k == "droptab":
        ns.tables.remove(t.name.local_id)
    elif k == "addtab":
        ns.tables.add(Table(QualifiedId(ns.name.local_id or None, "pysqlsync_extra"), [Column(LocalId("id"), SqlIntegerType(8), False)], primary_key=(LocalId("id"),)))
    elif k in ("dropenum", "dropstruct"):
        c = ns.enums if k == "dropenum" else ns.structs
        if not c:
            return None
        c.remove(rng.choice(list(c)))
    elif k == "dropns":
        cat.namespaces.remove(ns.name.local_id)
    return k


def world_of(rng):
    d = rng.choice(["postgresql", "postgresql"] + sg.DIALECTS)
    modes = sc.random_modes(rng, d, foreign=0.9)
    world = sg.gen_world(rng, d, modes, sg.Features(max_modules=3, max_tables=3, max_fields=5))
    return d, modes, world


def equality(obs: Obs, seed: int):
    rng = random.Random(f"c20/eq/{seed}")
    d, modes, world = world_of(rng)
    with sg.Rendered(world) as R, sg.Rendered(world) as R2:
        _, a = catalogue(rng, d, modes, world, R)
        _, b = catalogue(rng, d, modes, world, R2)
        if a != b or not (a == b):
            raise Violation(f"{d}: equal declarations give unequal models")
        base = fp(a)
        for _ in range(12):
            c = copy.deepcopy(a)
            if not (c == a) or fp(c) != base:
                raise Violation(f"{d}: copy differs from the original")
            k = alter(rng, c)
            if k is None:
                continue
            if fp(a) != base:
                raise Violation(f"{d}: changing a copy ({k}) changed the original")
            if c == a or a == c or not (c != a):
                raise Violation(f"{d}: models that differ ({k}) compare equal")
            obs.see((d, "unequal", k), kind="comparisons")


def objects(cat):
    return {(n, kind, o): fp(getattr(ns, kind)[o]) for n, ns in cat.namespaces.items() for kind in ("enums", "structs", "tables") for o in getattr(ns, kind)}


def part(cat, rng, p):
    """Two catalogues whose union is the given one; each object goes to the first, the second or both."""
    sides = []
    assign = {k: rng.choice(p) for k in objects(cat)}
    for side in "ab":
        nss = []
        for n, ns in cat.namespaces.items():
            sub = {kind: [copy.deepcopy(o) for name, o in getattr(ns, kind).items() if side in assign[(n, kind, name)]] for kind in ("enums", "structs", "tables")}
            if any(sub.values()) or rng.random() < 0.3:
                nss.append(type(ns)(ns.name, **sub))
        sides.append(Catalog(nss))
    return sides, assign


def merging(obs: Obs, seed: int):
    rng = random.Random(f"c20/merge/{seed}")
    d, modes, world = world_of(rng)
    with sg.Rendered(world) as R:
        _, cat = catalogue(rng, d, modes, world, R)
        want = objects(cat)
        (a, b), assign = part(cat, rng, rng.choice([["a", "b"], ["a", "b", "ab"], ["ab"], ["a"], ["b"], ["a", "ab"]]))
        oa, fb = objects(a), fp(b)
        a.merge(b)
        got = objects(a)
        if got != want:
            extra, missing = set(got) - set(want), set(want) - set(got)
            raise Violation(f"{d}: union has extra {sorted(extra)[:3]}, lacks {sorted(missing)[:3]}, differs in {[k for k in want if k in got and got[k] != want[k]][:3]}")
        if fp(b) != fb:
            raise Violation(f"{d}: merging changed the operand it reads from")
        obs.see((d, "union", len({s for s in assign.values()}), min(len(want), 6)), kind="merges")
        before = fp(a)
        a.merge(b)
        a.merge(copy.deepcopy(a))
        if fp(a) != before:
            raise Violation(f"{d}: merging the same again changes the model")
        obs.see((d, "idempotent"), kind="merges")
        # the result does not share parts with the operand
        for _ in range(4):
            alter(rng, a)
            if fp(b) != fb:
                raise Violation(f"{d}: changing the merged model changes the operand")
        obs.see((d, "independent"), kind="merges")
        # conflicting definitions
        for kind in rng.sample(ALTERATIONS, 6) + ["enum", "enum", "member"]:
            (a, b), assign = part(cat, rng, ["ab"])
            ob = objects(b)
            k = alter(rng, b, kind)
            if k is None:
                continue
            nb = objects(b)
            conflict = any(x in ob and nb[x] != ob[x] for x in nb)
            try:
                a.merge(b)
            except FormationError:
                if not conflict:
                    raise Violation(f"{d}: merge refused although only {k} objects were added or removed")
                obs.see((d, "conflict", k), kind="conflicts")
            else:
                if conflict:
                    raise Violation(f"{d}: merge accepted a conflicting definition ({k})")
                if objects(a) != {**want, **nb}:
                    raise Violation(f"{d}: union after {k} is wrong")
                obs.see((d, "union", k), kind="merges")


def referenced(ns, cat):
    """Namespaces whose objects a namespace uses, from the raw attributes."""
    out = set()

    def walk(ty):
        while hasattr(ty, "element_type"):
            ty = ty.element_type
        if isinstance(ty, SqlUserDefinedType) and ty.ref.scope_id is not None:
            out.add(ty.ref.scope_id)

    for s in ns.structs.values():
        for m in s.members.values():
            walk(m.data_type)
    for t in ns.tables.values():
        for c in t.columns.values():
            walk(c.data_type)
        for c in t.constraints.values():
            if isinstance(c, ForeignConstraint) and c.reference.table.scope_id is not None:
                out.add(c.reference.table.scope_id)
    out.discard(ns.name.local_id)
    return out & set(cat.namespaces)


def sorting(obs: Obs, seed: int):
    rng = random.Random(f"c20/sort/{seed}")
    d = rng.choice(["postgresql", "postgresql", "mssql"])
    modes = sc.random_modes(rng, d, foreign=0.8)
    world = sg.gen_world(rng, d, modes, sg.Features(max_modules=5, max_tables=2, max_fields=5, scalars=[("int",), ("str", 80)], docs=False))
    with sg.Rendered(world) as R:
        _, cat = catalogue(rng, d, modes, world, R)
        objs = objects(cat)
        order = list(cat.namespaces)
        for _ in range(6):
            rng.shuffle(order)
            cat.namespaces.reorder(order)
            cat.sort()
            if objects(cat) != objs or sorted(cat.namespaces) != sorted(order):
                raise Violation(f"{d}: sorting changed the contents")
            pos = {n: i for i, n in enumerate(cat.namespaces)}
            edges = 0
            for n, ns in cat.namespaces.items():
                for r in referenced(ns, cat):
                    edges += 1
                    if pos[r] > pos[n]:
                        raise Violation(f"{d}: namespace {r!r} comes after {n!r}, which uses it")
            obs.see((d, "namespaces", len(pos), min(edges, 5)), kind="sorts")
        # structures within a namespace: those used by others come first
        for n, ns in cat.namespaces.items():
            seen = set()
            for s in ns.structs.values():
                for m in s.members.values():
                    ty = m.data_type
                    while hasattr(ty, "element_type"):
                        ty = ty.element_type
                    if isinstance(ty, SqlUserDefinedType) and (ty.ref.scope_id or "") == n and ty.ref.local_id in ns.structs and ty.ref.local_id not in seen:
                        raise Violation(f"{d}: structure {s.name} comes before {ty.ref}, which it is made of")
                seen.add(s.name.local_id)
                obs.see((d, "struct"), kind="struct_orders")


def operands(obs: Obs, seed: int):
    """Computing a mutation reads both models and changes neither (the order of namespaces aside)."""
    rng = random.Random(f"c20/ops/{seed}")
    d, modes, world = world_of(rng)
    w2, log = ev.evolve(rng, world, d, modes, sg.Features(max_modules=3, max_tables=3, max_fields=5))
    with sg.Rendered(world) as R, sg.Rendered(w2) as R2:
        _, a = catalogue(rng, d, modes, world, R)
        conn = sc.connection(d, modes, R2.namespaces(rng))
        gen = conn.generator
        b = gen.converter.dataclasses_to_catalog(R2.entity_types(rng))
        fa, fb = fp(a, False), fp(b, False)
        inner = [fp(ns) for _, ns in sorted(b.namespaces.items())]
        gen.state = a
        try:
            stmt = gen.get_mutate_stmt(b)
        except FormationError:
            stmt = None
            obs.see((d, "refused"), kind="mutations")
        else:
            again = gen.get_mutate_stmt(b)
            if stmt != again:
                raise Violation(f"{d}: computing the mutation again gives different statements")
            obs.see((d, "mutated", stmt is None, tuple(sorted({k for k, _ in log}))[:3]), kind="mutations")
        if fp(a, False) != fa:
            raise Violation(f"{d}: synchronizing changed the source model ({log})")
        if fp(b, False) != fb or [fp(ns) for _, ns in sorted(b.namespaces.items())] != inner:
            raise Violation(f"{d}: synchronizing changed the target model ({log})")
        # and a schema needs nothing to become itself
        gen.state = b
        same = copy.deepcopy(b)
        try:
            stmt = gen.get_mutate_stmt(same)
        except FormationError as e:
            raise Violation(f"{d}: a model cannot become itself: {e}")
        if stmt is not None:
            raise Violation(f"{d}: a model needs statements to become itself: {sc.brief(stmt)}")
        obs.see((d, "self"), kind="mutations")


def questions(obs: Obs, seed: int):
    """What a table answers about its columns, against its constraints in any order."""
    rng = random.Random(f"c20/questions/{seed}")
    names = rng.sample(["id", "a", "b", "c", "d", "Ä", "x y"], rng.randint(2, 7))
    columns = [Column(LocalId(n), SqlIntegerType(8), rng.random() < 0.5, identity=rng.random() < 0.2) for n in names]
    key = tuple(rng.sample(names, 1 if rng.random() < 0.8 else 2))
    constraints, unique, refers, targets = [], set(), {}, set()
    for i in range(rng.randint(0, 7)):
        kind = rng.choice(["unique", "foreign", "foreign", "check"])
        cols = tuple(rng.sample(names, rng.choice([1, 1, 2]) if len(names) > 1 else 1))
        name = LocalId(f"k{i}")
        if kind == "unique":
            constraints.append(UniqueConstraint(name, tuple(LocalId(c) for c in cols)))
            if len(cols) == 1:
                unique.add(cols[0])
        elif kind == "check":
            constraints.append(CheckConstraint(name, "1 = 1"))
        else:
            to = QualifiedId("n", f"t{i}")
            targets.add(str(to))
            constraints.append(ForeignConstraint(name, tuple(LocalId(c) for c in cols), ConstraintReference(to, tuple(LocalId(f"y{j}") for j in range(len(cols))))))
            if len(cols) == 1:
                refers.setdefault(cols[0], f"t{i}")
    table = Table(QualifiedId("n", "me"), columns, primary_key=tuple(LocalId(c) for c in key), constraints=constraints)
    others = [Table(QualifiedId("n", f"t{i}"), [Column(LocalId("y0"), SqlIntegerType(8), False)], primary_key=(LocalId("y0"),)) for i in range(7)]
    catalog = Catalog([Namespace(LocalId("n"), enums=[], structs=[], tables=rng.sample(others + [table], 8))])
    before = fp(catalog)

    def same(what, got, want):
        if got != want:
            raise Violation(f"{what} is {got!r} instead of {want!r} for a key of {key} and {[str(c) for c in constraints]}")
        obs.see((what, bool(want), len(names), len(key)), kind="questions")

    def refused(what, fn):
        try:
            got = fn()
        except KeyError:
            obs.see((what, "refused"), kind="questions")
        else:
            raise Violation(f"{what} is {got!r} for a key of {key} and {[str(c) for c in constraints]}, which has no answer")

    for col in columns:
        n = col.name.local_id
        same("is_unique_column", table.is_unique_column(col), n in unique)
        same("is_relation", table.is_relation(col), n in refers)
        if n in refers:
            same("get_constraint", table.get_constraint(col.name).table.local_id, refers[n])
            same("get_referenced_table", catalog.get_referenced_table(table.name, col.name).name.local_id, refers[n])
        else:
            refused("get_constraint", lambda: table.get_constraint(col.name))
        if len(key) == 1:
            same("is_primary_column", table.is_primary_column(col.name), n in key)
            same("is_lookup_column", table.is_lookup_column(col), n in key or n in unique)
    order = tuple(rng.sample(names, rng.randint(1, len(names))))
    same("get_columns", [c.name.local_id for c in table.get_columns(order)], list(order))
    same("get_columns of all", [c.name.local_id for c in table.get_columns()], names)
    identity = {c.name.local_id for c in columns if c.identity}
    same("get_value_columns", [c.name.local_id for c in table.get_value_columns(order)], [n for n in order if n not in key and n not in identity])
    same("get_referenced_tables", {str(x) for x in table.get_referenced_tables()}, targets)
    if len(key) == 1:
        same("get_primary_column", table.get_primary_column().name.local_id, key[0])
        same("is_lookup_table", table.is_lookup_table(), len(names) == 2 and all(n in key or n in unique for n in names))
    else:
        refused("get_primary_column", table.get_primary_column)
    try:
        table.get_columns(order + ("no such",))
    except ValueError:
        pass
    else:
        raise Violation("a column that the table does not have is found")
    if fp(catalog) != before:
        raise Violation("a question changed the model")


def state_and_tables(obs: Obs, seed: int):
    """Discovered namespaces are merged into the generator state; operands stay what they were."""
    rng = random.Random(f"c20/state/{seed}")
    n = rng.randint(2, 5)
    nss = []
    for i in range(n):
        ts = [Table(QualifiedId(f"n{i}", f"t{j}"), [Column(LocalId("id"), SqlIntegerType(8), False)], primary_key=(LocalId("id"),)) for j in range(rng.randint(0, 3))]
        nss.append(Namespace(LocalId(f"n{i}"), enums=[], structs=[], tables=ts))
    state = Catalog()
    want = {}
    for step in range(10):
        ns = rng.choice(nss)
        f = fp(ns)
        state.merge(Catalog([ns]))
        want[ns.name.local_id] = f
        if fp(ns) != f:
            raise Violation("merging changed the namespace")
        got = {k: fp(v) for k, v in state.namespaces.items()}
        if got != want:
            raise Violation(f"state holds {sorted(got)} instead of {sorted(want)}")
        if any(state.namespaces[k] is x for k in state.namespaces for x in nss):
            raise Violation("state shares a namespace with the operand")
        for k, v in want.items():
            for t in range(3):
                tid = QualifiedId(k, f"t{t}")
                exists = f"t{t}" in state.namespaces[k].tables
                try:
                    tab = state.get_table(tid)
                except KeyError:
                    if exists:
                        raise Violation(f"{tid} not found")
                else:
                    if not exists or tab.name != tid:
                        raise Violation(f"look-up of {tid} gives {tab.name}")
        obs.see(("state", len(want)), kind="state_merges")


def main():
    c = Check(
        "C20",
        "distinct (dialect, operation, kind of change or shape) for which the model contents before and after were compared by an independent deep description",
        ["models are those the library derives from generated declarations of four dialects, plus hand-built ones", "the order of namespaces within a catalogue carries no meaning except after sorting", "values of lookup tables are not part of table equality in this library and are not judged"],
    )
    for s in c.seeds(c.pick(600, 8000), 1):
        c.add(collection, seed=s)
    for s in c.seeds(c.pick(250, 3000), 2):
        c.add(equality, seed=s)
    for s in c.seeds(c.pick(400, 6000), 3):
        c.add(merging, seed=s)
    for s in c.seeds(c.pick(300, 4000), 4):
        c.add(sorting, seed=s)
    for s in c.seeds(c.pick(1000, 12000), 5):
        c.add(operands, seed=s)
    for s in c.seeds(c.pick(50, 400), 6):
        c.add(state_and_tables, seed=s)
    for s in c.seeds(c.pick(800, 12000), 7):
        c.add(questions, seed=s)
    c.require(questions=10000, collection_steps=2000, comparisons=800, merges=500, conflicts=100, sorts=500, mutations=400, state_merges=200)
    c.finish()


main()
