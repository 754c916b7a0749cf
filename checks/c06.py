"""C06: drop permissions are honoured; refused changes leave the schema alone."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy
import itertools
import random
import types

import evolve
import harness
import populate
import probes
import scenario as sc
import specgen as sg
from harness import Check, Obs, Skip, Violation

from pysqlsync.formation.object_types import FormationError

KINDS = ("enum", "struct", "table", "namespace")


async def start(dialect, modes, world, rng):
    srv = sc.backend(dialect).server
    with sg.Rendered(world) as R:
        conn = sc.connection(dialect, modes, R.namespaces(rng))
        async with conn as ctx:
            try:
                await sc.create(conn, ctx, R, rng)
            except Exception as e:
                raise Skip(f"creation fails (C01): {e}")
    if sc.failed(srv.events) or sg.compare_catalogue(world, dialect, modes, srv):
        raise Skip("creation fails (C01)")
    populate.fill(rng, world, dialect, modes, srv, 3)
    return srv


def objects(desc):
    return {(kind, s, n): d for s, sd in desc.items() for kind, key in (("table", "tables"), ("enum", "enums"), ("struct", "structs")) for n, d in sd[key].items()}


def contents(srv):
    return {(t.schema, t.name): sorted(repr(sorted(r.items(), key=repr)) for r in srv.dump_rows(t)) for t in srv.tables()}


def declared(world, dialect, modes, server):
    out = {("table", s or server.default, n) for s, n in sg.expected_tables(world, dialect, modes)}
    if modes.enum == "type" and dialect == "postgresql":
        out |= {("enum", world.modules[mi].schema or server.default, n) for mi, n in sg.used_enums(world) if not n.startswith("X") and len(world.enum((mi, n)).values) > 1}
    if modes.struct == "type" and dialect == "postgresql":
        out |= {("struct", world.modules[mi].schema or server.default, n) for mi, n in sg.used_structs(world)}
    return out


def vanishing(world, w2, dialect, modes, kind):
    """Whether an object of the kind disappears from a schema that remains."""
    server = types.SimpleNamespace(default="?")
    new = declared(w2, dialect, modes, server)
    left = {s for _, s, _ in new}
    return any(k[0] == kind and k not in new and k[1] in left for k in declared(world, dialect, modes, server))


def protected(dialect, allow, key, names_left):
    """Whether an object absent from the target may not be removed."""
    kind, s, n = key
    if dialect in ("postgresql", "mssql") and s not in names_left:
        return not allow["namespace"]
    return not allow[kind]


def permissions(obs: Obs, dialect: str, seed: int, only=None, bits=None, vanish=None):
    """`bits` are permissions, and `vanish` is a kind of object of which at least one disappears."""
    rng = random.Random(f"c06/{dialect}/{seed}/{only}/{bits}/{vanish}" if vanish else f"c06/{dialect}/{seed}/{only}")
    modes = sc.random_modes(rng, dialect, foreign=1.0, init=0.3)
    if vanish in ("enum", "struct"):
        setattr(modes, vanish, "type")
    if modes.enum == "check":
        modes.enum = "relation"
    allow = {k: rng.random() < 0.4 if bits is None else bool(bits >> i & 1) for i, k in enumerate(KINDS)}
    feats = sc.stable_features(dialect, max_tables=rng.choice([2, 4]), max_modules=3, hostile=rng.random() < 0.4)
    for _ in range(60):
        world = sg.gen_world(rng, dialect, modes, feats)
        w2, log = evolve.evolve(rng, world, dialect, modes, feats, only=only, n=rng.choice([1, 2, 3]) if only else None)
        if vanish is None or vanishing(world, w2, dialect, modes, vanish):
            break
    else:
        raise Skip(f"no {vanish} vanishes")

    async def body():
        srv = await start(dialect, modes, world, rng)
        old = {(world.modules[mi].schema, t.name): {f.name for f in t.fields} for mi, t in world.all_tables()}
        for mi, t in w2.all_tables():
            for f in t.fields:
                if f.name not in old.get((w2.modules[mi].schema, t.name), {f.name}) and f.default is sg.NOVALUE:
                    f.nullable = True
        before, rows = objects(srv.describe()), contents(srv)
        schemas = set(srv.describe())
        goal = declared(w2, dialect, modes, srv)
        left = {s for _, s, _ in goal}
        gone = [k for k in before if k not in goal]
        keep = [k for k in gone if protected(dialect, allow, k, left)]
        n = len(srv.events)
        error = None
        with sg.Rendered(w2) as R:
            conn = sc.connection(dialect, modes, R.namespaces(rng), **{f"allow_drop_{k}": v for k, v in allow.items()})
            async with conn as ctx:
                try:
                    await sc.synchronize(dialect, conn, ctx, R, rng)
                except Exception as e:
                    error = e
        after, rows2 = objects(srv.describe()), contents(srv)
        tag = f"allowed {[k for k in KINDS if allow[k]]}; edits {log}"
        # nothing protected is removed or altered, whatever the outcome
        for k in keep:
            if k not in after:
                raise Violation(f"{k} is removed; {tag}")
            d = sc.difference(strip(before[k]), strip(after[k]))
            if d:
                raise Violation(f"{k}, which may not be removed, changes: {d[:3]}; {tag}")
            if k[0] == "table":
                t = next(t for t in rows if t[1] == k[2] and t[0] == k[1])
                if rows[t] != rows2.get(t):
                    raise Violation(f"rows of {k}, which may not be removed, change: {rows[t][:3]} -> {rows2.get(t, [])[:3]}; {tag}")
            obs.see((dialect, "kept", k[0], tuple(allow.values())), kind="kept")
        if not allow["namespace"]:
            lost = schemas - set(srv.describe())
            if lost:
                raise Violation(f"schemas {lost} are removed; {tag}")
            if schemas - left - {srv.server_default if hasattr(srv, "server_default") else srv.default}:
                obs.count("schemas_kept")
        bad = sc.failed(srv.events[n:])
        if isinstance(error, FormationError):
            if not evolve.refusable(dialect, modes, world, w2):
                raise Violation(f"a permitted change is refused: {error}; {tag}")
            if after != before or rows2 != rows or sc.mutating(srv.events[n:]):
                raise Violation(f"refused after a statement had run: {error}; {tag}")
            obs.count("refused")
            return
        if error is not None:
            code = str(bad[0].error).split(":")[0] if bad else ""
            kinds = {k for k, _ in log}
            if bad and code == "dependent_objects" and keep and any(k[0] in ("table", "struct") for k in keep):
                obs.count("blocked")  # what a retained object needs cannot be removed
                return
            if bad and code in ("not_null_violation", "unique_violation", "foreign_key_violation", "too_long", "range", "value", "type_change_nonempty", "None"):
                obs.count("blocked_by_rows")  # see C05
                return
            raise Violation(f"{bad[0].error if bad else error!r}: {sc.brief(bad[0].text) if bad else ''}; {tag}")
        # everything else is done
        kept_names = {(k[1], k[2]) for k in keep}
        diff = []
        for d in sg.compare_catalogue(w2, dialect, modes, srv):
            if "declared" in d and any(repr(k[2]) in d for k in keep):
                continue
            if "lookup values" in d:
                continue  # stored values have added to them
            if d.startswith("schemas "):
                extra = set(srv.describe()) - left - {srv.default}
                if allow["namespace"] and extra - {k[1] for k in keep}:
                    diff.append(f"schemas {extra} remain")
                continue
            diff.append(d)
        if diff:
            raise Violation(f"permitted changes are left out: {diff[:3]}; {tag}")
        for k in gone:
            if k not in keep:
                obs.see((dialect, "removed", k[0], tuple(allow.values())), kind="removed")
        # the same again
        n = len(srv.events)
        with sg.Rendered(w2) as R:
            conn = sc.connection(dialect, modes, R.namespaces(rng), **{f"allow_drop_{k}": v for k, v in allow.items()})
            async with conn as ctx:
                await sc.synchronize(dialect, conn, ctx, R, rng)
        m = [e for e in sc.mutating(srv.events[n:])]
        if m:
            raise Violation(f"synchronizing again: {sc.brief(m[0].text)}; {tag}")
        obs.count("completed")
        obs.sample(f"{dialect} {modes.key()}: allowed {[k for k in KINDS if allow[k]]}, kept {len(keep)}, removed {len(gone) - len(keep)}")

    sc.run(body())


def strip(d):
    d = copy.deepcopy(d)
    return d


def impossible(obs: Obs, dialect: str, seed: int, kind: str):
    """A change that must be refused hides among changes that are possible."""
    rng = random.Random(f"c06/i/{dialect}/{kind}/{seed}")
    modes = sc.random_modes(rng, dialect, foreign=1.0, init=0.0)
    if kind == "enum_remove":
        modes.enum = "type"
    elif modes.enum == "check":
        modes.enum = "relation"
    feats = sc.stable_features(dialect, max_tables=4, max_modules=2, hostile=rng.random() < 0.4)
    if kind == "text_to_number":
        pass
    for _ in range(40):
        world = sg.gen_world(rng, dialect, modes, feats)
        w2, log = evolve.evolve(rng, world, dialect, modes, feats, without=("enum_remove", "identity", "change_type", "reference", "remove_table", "remove_module"))
        w2 = w2.clone()
        made = make_impossible(rng, world, w2, dialect, modes, kind)
        if made:
            break
    else:
        raise Skip("no candidate")

    async def body():
        srv = await start(dialect, modes, world, rng)
        before, rows = objects(srv.describe()), contents(srv)
        n = len(srv.events)
        with sg.Rendered(w2) as R:
            conn = sc.connection(dialect, modes, R.namespaces(rng))
            async with conn as ctx:
                try:
                    await sc.synchronize(dialect, conn, ctx, R, rng)
                except FormationError as e:
                    error = e
                except Exception as e:
                    bad = sc.failed(srv.events[n:])
                    raise Violation(f"{kind} ({made}) fails with {type(e).__name__} instead of being refused: {bad[0].error if bad else e}; edits {log}")
                else:
                    raise Violation(f"{kind} ({made}) is not refused; statements {[sc.brief(e.text, 120) for e in sc.mutating(srv.events[n:])][:3]}; edits {log}")
        m = sc.mutating(srv.events[n:])
        if m:
            raise Violation(f"{kind} ({made}) is refused after a statement had run: {sc.brief(m[0].text)}; edits {log}")
        if objects(srv.describe()) != before or contents(srv) != rows:
            raise Violation(f"{kind} ({made}) is refused, yet the database changed; edits {log}")
        obs.see((dialect, kind, len(log)), kind="refusals")
        # the schema can still be synchronized with what it is
        with sg.Rendered(world) as R:
            conn = sc.connection(dialect, modes, R.namespaces(rng))
            async with conn as ctx:
                await sc.synchronize(dialect, conn, ctx, R, rng)
        if objects(srv.describe()) != before or contents(srv) != rows:
            raise Violation(f"after {kind} ({made}) was refused, synchronization with the old declaration changes the database")

    sc.run(body())


def make_impossible(rng, first, w, dialect, modes, kind):
    old = {(first.modules[mi].schema, t.name): (mi, t) for mi, t in first.all_tables()}
    both = [(mi, t, old[(w.modules[mi].schema, t.name)][1]) for mi, t in w.all_tables() if (w.modules[mi].schema, t.name) in old]
    rng.shuffle(both)
    if kind == "enum_remove":
        used = sorted(sg.used_enums(w))
        was = {(first.modules[mi].schema, n): first.enum((mi, n)).values for mi, n in sg.used_enums(first)}
        rng.shuffle(used)
        for mi, n in used:
            e = w.enum((mi, n))
            common = [m for m in e.members if m[1] in was.get((w.modules[mi].schema, n), ())]
            if n.startswith("X") or len(common) < 1 or len(e.members) < 3:
                continue
            if any(f.default is not sg.NOVALUE and f.ty[0] in ("enum", "list", "set") for _, t in w.all_tables() for f in t.fields):
                continue
            m = rng.choice(common)
            e.members.remove(m)
            return f"{n} without {m[1]!r}"
    if kind == "identity":
        for mi, t, o in both:
            if dialect == "oracle" and o.pk.identity:
                continue
            if t.pk.ty == o.pk.ty and t.pk.name == o.pk.name and t.pk.ty[0] in ("int", "int64", "int32"):
                t.pk.identity = not o.pk.identity
                return f"{t.name}.{t.pk.name}"
    if kind == "reference":
        # the constraint keeps its name (fk_<table>_<column>) and refers elsewhere
        for mi, t, o in both:
            for f in t.fields:
                of = next((x for x in o.fields if x.name == f.name), None)
                if of is None or f.ty[0] != "ref" or of.ty[0] != "ref" or f.unique:
                    continue
                target = (first.modules[of.ty[1][0]].schema, of.ty[1][1])
                ty = first.table(of.ty[1]).pk.ty
                for mj, u in w.all_tables():
                    if (mj < mi or mj == mi and w.modules[mi].tables.index(u) < w.modules[mi].tables.index(t)) and (w.modules[mj].schema, u.name) != target and u.pk.ty == ty and ty[0] != "ref":
                        f.ty = ("ref", (mj, u.name))
                        return f"{t.name}.{f.name} refers to {u.name} instead of {target}"
    if kind == "text_to_number":
        for mi, t, o in both:
            for f in t.fields:
                of = next((x for x in o.fields if x.name == f.name), None)
                if of is not None and not f.pk and of.ty[0] == "str" and len(of.ty) > 1 and of.ty[1] > 1 and not f.unique and not of.unique and f.ty[0] != "ref":
                    f.ty = ("int",)
                    f.default = sg.NOVALUE
                    t.fields.sort(key=lambda f: f.default is not sg.NOVALUE)
                    return f"{t.name}.{f.name} {of.ty} -> int"
    return None


def rng_kinds(s):
    removals = ["remove_table", "remove_module", "enum_drop", "struct_drop"]
    return removals if s % 2 else removals + ["remove_field", "add_field", "add_table"]


def constraints_remain(srv):
    if not any(k["kind"] == "f" for k in probes.constraints(srv, "User")):
        raise Violation("the foreign key of a table in a schema that may not be dropped is dropped")


def probe_all(c):
    ONE = probes.ONE
    user = ONE.replace("Thing", "User") % "x: M0.Thing"
    for d in ("postgresql", "mssql"):
        c.probe(f"namespace-constraints-{d}", probes.evolves(d, [ONE % "value: int", user], [ONE % "value: int", ""], judge=constraints_remain, allow_drop_namespace=False))


def main():
    c = Check(
        "C06",
        "distinct (dialect, kept or removed, kind of object, permissions) of objects absent from a target, and (dialect, kind of impossible change, number of accompanying edits) that were refused",
        [
            "servers are simulated: lib/simdb executes the migration statements on stored rows",
            "when a schema may be dropped, everything in it may be dropped with it (documented meaning of allow_drop_namespace)",
            "a type that a retained object uses cannot be dropped: the server's refusal is accepted",
        ],
    )
    for d in sg.DIALECTS:
        for s in c.seeds(c.pick(60, 1500), 1):
            c.add(permissions, dialect=d, seed=s)
        for s in c.seeds(c.pick(60, 1500), 2):
            c.add(permissions, dialect=d, seed=s, only=rng_kinds(s))
    for bits in range(2 ** len(KINDS)):
        for d, kind in (("postgresql", "enum"), ("postgresql", "struct"), ("postgresql", "table"), ("mssql", "table"), ("mysql", "table"), ("oracle", "table")):
            if d == "postgresql" or bits & 3 == 0:
                only = {"enum": ["enum_drop", "remove_table"], "struct": ["struct_drop", "remove_table"], "table": ["remove_table"]}[kind]
                for s in c.seeds(c.pick(2, 20), 4):
                    c.add(permissions, dialect=d, seed=s, only=only, bits=bits, vanish=kind)
    for d, kinds in (("postgresql", ("enum_remove", "reference", "text_to_number")), ("mysql", ("reference", "text_to_number")), ("mssql", ("reference", "text_to_number", "identity")), ("oracle", ("reference", "identity"))):
        for k in kinds:
            for s in c.seeds(c.pick(15, 400), 3):
                c.add(impossible, dialect=d, seed=s, kind=k)
    probe_all(c)
    c.require(kept=100, removed=50, refusals=60, completed=100)
    c.finish()


main()
