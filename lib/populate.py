"""Rows put straight into a simulated server, and what they mean in terms of the declaration."""

from __future__ import annotations

import datetime as dt
import json
import random
import uuid
from typing import Any, Dict, List, Optional

import specgen as sg
from simdb.server import SqlError
from simdb.values import Json

NOVALUE = sg.NOVALUE


def find(world, dialect, server, mi, name):
    return server.find_table(sg.db_name(dialect, world.modules[mi].schema, name))


def lookup_id(server, t, value) -> int:
    idc, vc = t.col("id"), t.col("value")
    for r in t.rows.values():
        if r.get(vc.uid) == value:
            return r[idc.uid]
    # identifiers with gaps
    n = max([r[idc.uid] for r in t.rows.values()], default=0) + 1 + (len(t.rows) % 2)
    server.do_insert(t, {idc.uid: n, vc.uid: server.ts.store(vc.type, value, "value")})
    t.next_id = max(t.next_id, n + 1)
    return n


def jsonable(world, ty, v):
    if v is None:
        return None
    if ty[0] in ("list", "set"):
        return [jsonable(world, ty[1], x) for x in v]
    if ty[0] == "struct":
        return {f.name: jsonable(world, f.ty, v[f.name]) for f in world.struct(ty[1]).fields if v[f.name] is not None}
    if isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, (dt.datetime, dt.date, dt.time)):
        return v.isoformat()
    if isinstance(v, bytes):
        import base64

        return base64.b64encode(v).decode()
    return str(v)


def encode(world, dialect, modes, ty, server, coltype, v) -> Any:
    """The stored form of a canonical value; the inverse of specgen.decode."""
    if v is None:
        return None
    k = ty[0]
    if k in ("ref", "duni"):
        ref = ty[1] if k == "ref" else ty[1][0]
        return encode(world, dialect, modes, world.table(ref).pk.ty, server, coltype, v)
    if k == "xenum" or (k == "enum" and modes.enum == "relation"):
        return lookup_id(server, find(world, dialect, server, *ty[1]), str(v))
    if k == "enum" and not isinstance(v, str) and modes.enum != "check" and not (isinstance(coltype, tuple) and coltype[0] == "json"):
        v = str(v)
    if (k in ("list", "set") and modes.array == "json") or (k == "struct" and modes.struct == "json"):
        text = json.dumps(jsonable(world, ty, v))
        return text if dialect in ("mssql", "oracle") else Json(text)
    if k in ("list", "set"):
        return [encode(world, dialect, modes, ty[1], server, coltype[1], x) for x in v]
    if k == "struct":
        t = server.types[coltype[1]]
        by = {f.name: f for f in world.struct(ty[1]).fields}
        return tuple(encode(world, dialect, modes, by[m[0]].ty, server, m[1], v[m[0]]) for m in t.members)
    if k == "date" and dialect == "oracle":
        return dt.datetime(v.year, v.month, v.day)
    if k == "time" and dialect == "oracle":
        return dt.timedelta(hours=v.hour, minutes=v.minute, seconds=v.second, microseconds=v.microsecond)
    if k == "bool" and dialect == "mysql":
        return int(v)
    if k == "uuid" and dialect in ("mysql", "oracle"):
        return v.bytes
    if k in ("ipv4", "ipv6", "ip") and dialect != "postgresql":
        return v.packed
    if k in ("float", "float64", "float32", "enum", "literal") or isinstance(v, (dt.date, dt.time)):
        return server.ts.store(coltype, v, "value")
    return v


def decode_row(world, dialect, modes, server, t: sg.Table, row: dict) -> Dict[str, Any]:
    """A stored row as canonical values of the fields of the declaration."""
    return {f.name: sg.canon(world, f.ty, sg.decode(world, dialect, modes, f.ty, server, row[f.name])) for f in t.fields if not sg.is_relation(modes, f) and f.name in row}


def fill(rng: random.Random, world: sg.World, dialect: str, modes: sg.Modes, server, most: int = 6) -> Dict[tuple, List[dict]]:
    """Adds rows to every table (and join table) of the declaration; returns canonical rows by (module, table)."""
    keys: Dict[tuple, list] = {}
    out: Dict[tuple, List[dict]] = {}
    for mi, t in world.all_tables():
        tab = find(world, dialect, server, mi, t.name)
        keys[(mi, t.name)] = []
        out[(mi, t.name)] = []
        n = rng.choice([0, 1, 2, most, most])
        for _ in range(n):
            rec = {}
            for f in t.fields:
                if sg.is_relation(modes, f):
                    continue
                v = sg.gen_value(rng, world, dialect, f.ty, f.nullable, keys)
                if v is NOVALUE:
                    if not f.nullable:
                        rec = None
                        break
                    v = None
                rec[f.name] = sg.canon(world, f.ty, v)
            if rec is None:
                continue
            row = {}
            for f in t.fields:
                if f.name in rec:
                    c = tab.col(f.name)
                    row[c.uid] = encode(world, dialect, modes, f.ty, server, c.type, rec[f.name])
            try:
                server.do_insert(tab, row)
            except SqlError as e:
                if e.code in ("unique_violation", "check_violation"):
                    continue
                raise
            if t.pk.identity:
                tab.next_id = max(tab.next_id, 1)
            keys[(mi, t.name)].append(rec[t.pk.name])
            out[(mi, t.name)].append(decode_row(world, dialect, modes, server, t, server_row(tab, row)))
            # what was stored is what was meant
            for name, v in rec.items():
                f = next(f for f in t.fields if f.name == name)
                got = out[(mi, t.name)][-1][name]
                if not sg.same(got, v):
                    raise AssertionError(f"populate: {f} {v!r} stored as {row[tab.col(name).uid]!r} reads {got!r}")
    for mi, t in world.all_tables():
        for f in t.fields:
            if not sg.is_relation(modes, f):
                continue
            item = f.ty[1]
            right = item[1][1]
            tab = find(world, dialect, server, mi, f"{t.name}_{f.name}_{right}")
            left_keys = keys[(mi, t.name)]
            rt = find(world, dialect, server, *item[1])
            if item[0] == "ref":
                rpk = world.table(item[1]).pk
                rights = [encode(world, dialect, modes, rpk.ty, server, tab.cols[2].type, k) for k in keys[item[1]]]
            else:
                rights = [lookup_id(server, rt, v) for v in world.enum(item[1]).values[:3]]
            for _ in range(rng.randint(0, 4)):
                if not left_keys or not rights:
                    break
                u = uuid.UUID(int=rng.getrandbits(128))
                vals = [encode(world, dialect, modes, ("uuid",), server, tab.cols[0].type, u), encode(world, dialect, modes, t.pk.ty, server, tab.cols[1].type, rng.choice(left_keys)), rng.choice(rights)]
                try:
                    server.do_insert(tab, {c.uid: v for c, v in zip(tab.cols, vals)})
                except SqlError as e:
                    if e.code != "unique_violation":
                        raise
    return out


def server_row(tab, row) -> dict:
    return {c.name: row.get(c.uid) for c in tab.cols}


def rows_of(world, dialect, modes, server, mi, t) -> List[dict]:
    tab = find(world, dialect, server, mi, t.name)
    return [decode_row(world, dialect, modes, server, t, r) for r in server.dump_rows(tab)]
