"""Dialect-aware SQL lexer.

The token stream is what a real server of the dialect would see; it is the oracle for every claim that some text
reaches the server as one exact token.
"""

from __future__ import annotations

import re
from dataclasses import dataclass
from typing import List, Optional


class SqlError(Exception):
    """Server-side error. `code` is a short mechanism label (stable across runs)."""

    def __init__(self, code: str, message: str) -> None:
        super().__init__(f"{code}: {message}")
        self.code = code
        self.message = message


class Unsupported(Exception):
    """The simulator does not implement this construct: the run is inconclusive, never a verdict."""


# statements of the current scenario that could not be executed for lack of support, whatever the program made of the error
UNSUPPORTED: List[Unsupported] = []


@dataclass
class Tok:
    kind: str  # id word str num param op comment eof
    val: object
    pos: int
    end: int
    raw: str = ""
    flag: str = ""  # e.g. 'E', 'N' for strings

    def is_word(self, *words: str) -> bool:
        return self.kind == "word" and str(self.val).upper() in words

    def is_op(self, *ops: str) -> bool:
        return self.kind == "op" and self.val in ops


_WS = " \t\r\n\f\v"
_OPS3 = ("::", "<=", ">=", "<>", "!=", "||", ":=", "->", "@>", "<@", "&&", "=>")
_num_re = re.compile(r"(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?")
_word_re = re.compile(r"[^\W\d][\w$]*|@@?[\w.]+|_\w+", re.UNICODE)

_PG_ESC = {"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}
_MY_ESC = {"0": "\0", "'": "'", '"': '"', "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a", "\\": "\\"}


def tokenize(sql: str, dialect: str, sql_mode: str = "ANSI_QUOTES") -> List[Tok]:
    toks: List[Tok] = []
    i, n = 0, len(sql)
    if "\0" in sql:
        raise SqlError("nul", "statement contains a NUL character")
    mysql = dialect == "mysql"
    backslash = mysql and "NO_BACKSLASH_ESCAPES" not in sql_mode
    spark = dialect in ("snowflake", "delta")  # token level only: backslash escapes within plain literals
    backslash = backslash or spark
    ansi = (not mysql) or "ANSI_QUOTES" in sql_mode or "ANSI" in sql_mode.split(",")

    def add(kind, val, start, end, flag=""):
        toks.append(Tok(kind, val, start, end, sql[start:end], flag))

    while i < n:
        c = sql[i]
        if c in _WS:
            i += 1
            continue
        # comments
        if c == "-" and sql.startswith("--", i):
            if not mysql or i + 2 >= n or sql[i + 2] in _WS:
                j = sql.find("\n", i)
                j = n if j < 0 else j
                add("comment", sql[i:j], i, j)
                i = j
                continue
        if c == "#" and mysql:
            j = sql.find("\n", i)
            j = n if j < 0 else j
            add("comment", sql[i:j], i, j)
            i = j
            continue
        if c == "/" and sql.startswith("/*", i):
            depth, j = 1, i + 2
            nested = dialect in ("postgresql", "mssql")
            while j < n and depth:
                if sql.startswith("*/", j):
                    depth -= 1
                    j += 2
                elif nested and sql.startswith("/*", j):
                    depth += 1
                    j += 2
                else:
                    j += 1
            if depth:
                raise SqlError("syntax", "unterminated comment")
            add("comment", sql[i:j], i, j)
            i = j
            continue
        # strings
        flag = ""
        k = i
        if c in "EeNnQqBbXx" and i + 1 < n and sql[i + 1] == "'":
            up = c.upper()
            if up == "E" and dialect in ("postgresql", "redshift"):
                flag, k = "E", i + 1
            elif up == "N":
                flag, k = "N", i + 1
            elif up == "Q" and dialect == "oracle":
                open_ = sql[i + 2]
                close = {"[": "]", "{": "}", "(": ")", "<": ">"}.get(open_, open_)
                j = sql.find(close + "'", i + 3)
                if j < 0:
                    raise SqlError("syntax", "unterminated q-string")
                add("str", sql[i + 3 : j], i, j + 2)
                i = j + 2
                continue
            elif up in "XB" and dialect != "mssql":
                j = sql.find("'", i + 2)
                if j < 0:
                    raise SqlError("syntax", "unterminated bit string")
                add("hex", sql[i + 2 : j], i, j + 1, up)
                i = j + 1
                continue
        if sql[k] == "'" or (sql[k] == '"' and not ansi):
            q = sql[k]
            j = k + 1
            out = []
            esc = backslash or flag == "E"
            while True:
                if j >= n:
                    raise SqlError("syntax", "unterminated quoted string")
                ch = sql[j]
                if ch == q:
                    if j + 1 < n and sql[j + 1] == q:
                        if dialect != "delta":  # adjacent literals are concatenated
                            out.append(q)
                        j += 2
                        continue
                    break
                if ch == "\\" and esc:
                    if j + 1 >= n:
                        raise SqlError("syntax", "unterminated quoted string")
                    e = sql[j + 1]
                    if flag == "E":
                        if e in _PG_ESC:
                            out.append(_PG_ESC[e])
                            j += 2
                        elif e in "01234567":
                            m = re.compile(r"[0-7]{1,3}").match(sql, j + 1)
                            out.append(chr(int(m.group(0), 8)))
                            j = m.end()
                        elif e in "xX" and re.compile(r"[0-9a-fA-F]{1,2}").match(sql, j + 2):
                            m = re.compile(r"[0-9a-fA-F]{1,2}").match(sql, j + 2)
                            out.append(chr(int(m.group(0), 16)))
                            j = m.end()
                        elif e == "u" or e == "U":
                            w = 4 if e == "u" else 8
                            m = re.compile(r"[0-9a-fA-F]{%d}" % w).match(sql, j + 2)
                            if not m:
                                raise SqlError("syntax", "invalid Unicode escape")
                            out.append(chr(int(m.group(0), 16)))
                            j = m.end()
                        else:
                            out.append(e)
                            j += 2
                    else:
                        if dialect == "snowflake" and e == "Z":
                            out.append(e)
                        elif dialect == "snowflake" and e == "f":
                            out.append("\f")
                        elif e in ("%", "_") and dialect != "snowflake":
                            out.append("\\" + e)
                        else:
                            out.append(_MY_ESC.get(e, e))
                        j += 2
                    continue
                if ch == "\\" and dialect == "mssql" and j + 1 < n and sql[j + 1] == "\n":
                    j += 2  # T-SQL line continuation
                    continue
                out.append(ch)
                j += 1
            add("str", "".join(out), i, j + 1, flag)
            i = j + 1
            continue
        # quoted identifiers
        if (c == '"' and ansi) or (c == "`" and mysql) or (c == "[" and dialect == "mssql"):
            close = "]" if c == "[" else c
            j = i + 1
            out = []
            while True:
                if j >= n:
                    raise SqlError("syntax", "unterminated quoted identifier")
                if sql[j] == close:
                    if j + 1 < n and sql[j + 1] == close:
                        out.append(close)
                        j += 2
                        continue
                    break
                out.append(sql[j])
                j += 1
            name = "".join(out)
            if not name:
                raise SqlError("syntax", "zero-length delimited identifier")
            if dialect == "oracle" and '"' in name:
                raise SqlError("identifier", "identifier contains a double quote")
            add("id", name, i, j + 1)
            i = j + 1
            continue
        if c == "$" and dialect in ("postgresql", "redshift"):
            m = re.compile(r"\$(\d+)").match(sql, i)
            if m:
                add("param", int(m.group(1)), i, m.end())
                i = m.end()
                continue
            m = re.compile(r"\$(\w*)\$").match(sql, i)
            if m:
                j = sql.find(m.group(0), m.end())
                if j < 0:
                    raise SqlError("syntax", "unterminated dollar-quoted string")
                add("str", sql[m.end() : j], i, j + len(m.group(0)))
                i = j + len(m.group(0))
                continue
        if c == "?" and dialect == "mssql":
            add("param", None, i, i + 1)
            i += 1
            continue
        if c == "\x01" and mysql:
            # argument marker planted by the driver after client-side interpolation
            m = re.compile("\x01(\\d+)\x01").match(sql, i)
            if m:
                add("param", int(m.group(1)) + 1, i, m.end())
                i = m.end()
                continue
        if c == ":" and dialect == "oracle":
            m = re.compile(r":(\d+)").match(sql, i)
            if m:
                add("param", int(m.group(1)), i, m.end())
                i = m.end()
                continue
        m = _num_re.match(sql, i)
        if m and m.group(0):
            add("num", m.group(0), i, m.end())
            i = m.end()
            continue
        m = _word_re.match(sql, i)
        if m and m.group(0):
            add("word", m.group(0), i, m.end())
            i = m.end()
            continue
        for op in _OPS3:
            if sql.startswith(op, i):
                add("op", op, i, i + len(op))
                i += len(op)
                break
        else:
            add("op", c, i, i + 1)
            i += 1
    return toks


def split_statements(toks: List[Tok]) -> List[List[Tok]]:
    """Splits on top-level semicolons; a PL/SQL block is one statement. Comment tokens are dropped."""
    out: List[List[Tok]] = []
    cur: List[Tok] = []
    block = False
    for t in toks:
        if t.kind == "comment":
            continue
        if not cur and t.is_word("BEGIN", "DECLARE"):
            block = True
        if t.is_op(";"):
            if block:
                cur.append(t)
                if len(cur) >= 2 and cur[-2].is_word("END"):
                    out.append(cur)
                    cur, block = [], False
                    continue
                # `END IF ;` ends with IF, so it does not close the block
                continue
            if cur:
                out.append(cur)
            cur = []
            continue
        cur.append(t)
    if cur:
        out.append(cur)
    return out


def statement_texts(sql: str, dialect: str, sql_mode: str = "ANSI_QUOTES") -> List[str]:
    toks = [t for t in tokenize(sql, dialect, sql_mode) if t.kind != "eof"]
    return [sql[st[0].pos : st[-1].end] for st in split_statements(toks)]
