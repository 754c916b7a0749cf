"""Renaming equivariance: the same work is done twice, once with plain labels and once with hostile characters in their
place; every statement must be the same token by token, with each label replaced by its hostile counterpart."""

from __future__ import annotations

import copy
import json
import random
import re
from collections import Counter
from typing import Any, List, Optional

import harness  # noqa: F401
from simdb.lexer import SqlError, tokenize

from pysqlsync.formation.object_dict import ObjectDict
from pysqlsync.formation.object_types import CheckConstraint
from pysqlsync.model.id_types import GlobalId, LocalId, PrefixedId, QualifiedId

MARK_START = re.compile(r"k(\d{4})x")
MARK = re.compile(r"k(\d{4})x(?:p*)y")


def number(name: str) -> int:
    """The number of the label in a name."""
    m = MARK_START.search(name)
    return int(m.group(1)) if m else -1


PIECES = [
    "'", "''", '"', '""', "\\", "\\\\", "%", "%s", "%(a)s", "%%", ";", ";\n", "--", "-- ", "/*", "*/", "\n", "\r\n", "\t", "$1", ":1", "?", "{x}", "{}", "`", "[", "]", "]]",
    ".", 'a"b.c"', "\u00e9", "\U0001f600", "\u2028", "'; DROP TABLE canary; --", '"; DROP TABLE canary; --', "');", "a_b", "~", "~~", "#", "@", "&", "$$", "$q$", "\x1a", "\x7f", "\\'", '\\"', "\\n", "\\%", "a\\",
    "E'", "N'", "q'[", "||", " ", "  ", "\b", "\f", "\x0b", "NULL", " AND ", "1=1",
]


ONE_LINE = 5000  # numbers of labels without line breaks


class Labels:
    """Labels for names and texts; `hostile` selects the characters placed within them."""

    def __init__(self, junk: List[str], hostile: bool, known: Optional[dict] = None):
        self.junk = junk
        self.hostile = hostile
        self.known: dict = {} if known is None else known

    def junk_of(self, n: int) -> str:
        j = self.junk[n % len(self.junk)]
        return re.sub(r"[\r\n]", " ", j) if n >= ONE_LINE else j

    def spell(self, n: int, hostile: bool) -> str:
        j = self.junk_of(n)
        return f"k{n:04d}x" + (j if hostile else "p" * len(j)) + "y"

    def label(self, kind: str, text: str) -> str:
        n = self.known.setdefault((kind, text), len(self.known) + (ONE_LINE if kind == "line" else 0))
        return self.spell(n, self.hostile)

    def apply(self, text: str) -> str:
        """Replaces plain labels by their hostile counterparts."""
        return MARK.sub(lambda m: self.spell(int(m.group(1)), True), text)

    def deep(self, x: Any) -> Any:
        if isinstance(x, str):
            return self.apply(x)
        if isinstance(x, dict):
            return {self.deep(k): self.deep(v) for k, v in x.items()}
        if isinstance(x, (list, tuple, set, frozenset)):
            return type(x)(self.deep(v) for v in x)
        return x


def junk(rng: random.Random, n: int, dialect: str, *, most: int = 3, without=(), names=True) -> List[str]:
    """Strings of hostile characters that the dialect can store in names and texts."""
    out = []
    while len(out) < n:
        s = "".join(rng.choice(PIECES) for _ in range(rng.randint(1, most)))
        if any(w in s for w in without):
            continue
        if dialect == "oracle" and names and ('"' in s or "$" in s):
            continue  # no double quote in names; tables with a dollar sign count as system tables
        if dialect == "mssql" and ("\\\n" in s or "\\\r\n" in s):
            continue  # line continuation within a literal
        if "__" in s:
            continue  # separates the schema from the table in dialects without schemas
        out.append(s)
    return out


# ---------------------------------------------------------------------------------------------------------------------
# alignment of statements


def like_parts(pattern: str, esc: str) -> list:
    """A LIKE pattern as a list of literal strings and wildcards."""
    out: list = []
    lit = ""
    i = 0
    while i < len(pattern):
        c = pattern[i]
        if c == esc and i + 1 < len(pattern):
            lit += pattern[i + 1]
            i += 2
            continue
        if c in "%_":
            out += [("text", lit), ("wild", c)]
            lit = ""
        else:
            lit += c
        i += 1
    out.append(("text", lit))
    return [p for p in out if p != ("text", "")]


class Mismatch(Exception):
    pass


def _is(toks, i, *words):
    return 0 <= i < len(toks) and toks[i].is_word(*words)


def shape(labels: Optional[Labels], sql: str, dialect: str, seen=None) -> list:
    """A script as a list of statements, each a tuple of decoded tokens. With `labels`, plain labels are replaced by
    their hostile counterparts, i.e. the result is what the hostile script has to look like."""
    out, cur = [], []
    toks = [t for t in tokenize(sql, dialect) if t.kind != "eof"]
    name = labels.apply if labels else (lambda v: v)
    for i, t in enumerate(toks):
        if t.kind == "comment":
            raise Mismatch(f"comment in a statement: {t.raw[:100]!r}")
        if t.kind == "op" and t.val == ";":
            if cur:
                out.append(tuple(unordered(cur)))
            cur = []
            continue
        if t.kind == "str" and _is(toks, i - 1, "LIKE"):
            esc = toks[i + 2].val if _is(toks, i + 1, "ESCAPE") and i + 2 < len(toks) else ("\\" if dialect in ("mysql", "postgresql") else "")
            cur.append(("like", tuple((k, name(v)) for k, v in like_parts(t.val, esc))))
            if seen is not None and MARK.search(t.val):
                seen["like"] = seen.get("like", 0) + 1
            continue
        if t.kind == "str" and (_is(toks, i - 1, "IMMEDIATE") or (_is(toks, i - 2, "EXEC", "EXECUTE") and toks[i - 1].is_op("("))):
            cur.append(("nested", tuple(shape(labels, t.val, dialect, seen))))
            continue
        if t.kind in ("str", "id"):
            v = name(t.val)
            if t.kind == "str" and t.val[:1] in ("[", "{"):
                try:
                    doc = json.loads(t.val)
                except ValueError:
                    doc = None
                if isinstance(doc, (list, dict)):
                    cur.append(("json", json.dumps(labels.deep(doc) if labels else doc, sort_keys=True)))
                    continue
            cur.append((t.kind, derived(v)))
            if seen is not None and v != t.val:
                before = next((x.val.upper() for x in reversed(toks[:i]) if x.kind == "word"), "")
                seen[f"{t.kind} after {before}"] = seen.get(f"{t.kind} after {before}", 0) + 1
            continue
        cur.append((t.kind, t.val))
    if cur:
        out.append(tuple(unordered(cur)))
    return out


def unordered(st: list) -> list:
    """New lookup values come from a set: the order of rows to insert in a lookup table does not matter."""
    for i, (k, v) in enumerate(st):
        if k == "word" and v == "VALUES" and st[i - 3:i] == [("op", "("), ("id", "value"), ("op", ")")]:
            j = i + 1
            rows = []
            while j + 2 < len(st) and st[j] == ("op", "(") and st[j + 2] == ("op", ")"):
                rows.append(st[j + 1])
                j += 4
            return st[:i + 1] + sorted(rows, key=repr) + st[max(j - 1, i + 1):]
    return st


def derived(name: str) -> str:
    """Names of constraints are made of other names; a dot within may be spelled differently."""
    return name.replace(".", "_") if name[:3] in ("pk_", "fk_", "uq_", "ch_", "df_") else name


def spelled(st: tuple) -> str:
    return " ".join(repr(v) if k in ("str", "id", "like", "nested") else str(v) for k, v in st)


def align(labels: Labels, plain: List[str], hostile: List[str], dialect: str) -> dict:
    """Compares two lists of scripts statement by statement and token by token, regardless of the order of statements.
    Returns the places in which labels were seen, with their number."""
    seen: dict = {}
    want: List[tuple] = []
    for s in plain:
        want += shape(labels, s, dialect, seen)
    got: List[tuple] = []
    for s in hostile:
        try:
            got += shape(None, s, dialect)
        except SqlError as e:
            raise Mismatch(f"the statement cannot be tokenised: {e}: {s[:300]!r}")
    a, b = Counter(want), Counter(got)
    if a != b:
        extra = sorted((b - a).elements(), key=spelled)
        missing = sorted((a - b).elements(), key=spelled)
        x = extra[0] if extra else ()
        near = max(missing, key=lambda m: sum(p == q for p, q in zip(m, x)), default=())
        k = next((i for i, (p, q) in enumerate(zip(near, x)) if p != q), min(len(near), len(x)))
        raise Mismatch(f"{len(missing)} of {len(want)} statements differ, e.g. {spelled(x[max(0, k - 6):k + 4])[:260]} instead of {spelled(near[max(0, k - 6):k + 4])[:260]}")
    return seen


# ---------------------------------------------------------------------------------------------------------------------
# labelling of schema models


def quoted(name: str) -> str:
    return '"' + name.replace('"', '""') + '"'


def relabel_sql(text: str, dialect: str, name) -> str:
    """Replaces the names within an SQL expression."""
    out, at = "", 0
    for t in tokenize(text, "standard"):
        if t.kind == "id":
            out += text[at:t.pos] + quoted(name(t.val))
            at = t.end
    return out + text[at:]


def relabel(x: Any, labels: Labels, dialect: str) -> Any:
    """A copy of a schema model in which names and descriptions are labels."""
    go = lambda v: relabel(v, labels, dialect)
    name = lambda v: labels.label("name", v)
    if isinstance(x, GlobalId):
        return x
    if isinstance(x, LocalId):
        return LocalId(name(x.id)) if x.id else x
    if isinstance(x, (PrefixedId, QualifiedId)):
        return type(x)(name(x.namespace) if x.namespace is not None else None, name(x.id))
    if isinstance(x, ObjectDict):
        return ObjectDict([go(v) for v in x.values()])
    if isinstance(x, (list, tuple, set)):
        return type(x)(go(v) for v in x)
    if isinstance(x, dict):
        return {k: go(v) for k, v in x.items()}
    if hasattr(x, "__dict__") and type(x).__module__.startswith("pysqlsync") and not isinstance(x, type):
        y = copy.copy(x)
        for k, v in vars(x).items():
            if k == "description":
                # MySQL keeps the first line of a description
                v = labels.label("line" if dialect == "mysql" else "text", v) if v is not None else None
            elif k == "condition" and isinstance(x, CheckConstraint):
                v = relabel_sql(v, dialect, name)
            else:
                v = go(v)
            setattr(y, k, v)
        return y
    return x


def relabel_world(world, labels: Labels, schemas: bool = False):
    """A copy of a declared world in which texts are labels: enumeration values, literals, default values; and names of
    schemas if so desired."""
    w = world.clone()
    text = lambda s: labels.label("text", s)

    def types(ty):
        if ty[0] == "literal":
            return ("literal", tuple(text(v) for v in ty[1]))
        return tuple(types(v) if isinstance(v, tuple) and v and v[0] in ("literal", "list", "set") else v for v in ty)

    def field(f):
        f.ty = types(f.ty)
        if isinstance(f.default, str) and f.ty[0] == "str" and (len(f.ty) == 1 or f.ty[1] >= 80):
            f.default = text(f.default)

    for m in w.modules:
        if schemas and m.schema:
            m.schema = labels.label("name", m.schema)
        for e in m.enums:
            e.members = [(n, text(v)) for n, v in e.members]
        for s in m.structs:
            for f in s.fields:
                field(f)
        for t in m.tables:
            for f in t.fields:
                field(f)
    return w
