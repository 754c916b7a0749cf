"""Recursive-descent parser for the statement shapes a schema synchronizer can emit, per dialect."""

from __future__ import annotations

from typing import Any, List, Optional, Tuple

from .lexer import SqlError, Tok, Unsupported, split_statements, tokenize

EOF = Tok("eof", "", -1, -1)


class N:
    """AST node: attribute bag."""

    def __init__(self, k: str, **kw: Any) -> None:
        self.k = k
        self.__dict__.update(kw)

    def __repr__(self) -> str:
        return f"N({self.__dict__})"


# canonical type names per dialect: word sequence -> (canonical, min args, max args)
_T = {
    "postgresql": {
        "bigint": ("bigint", 0, 0), "int8": ("bigint", 0, 0), "integer": ("integer", 0, 0), "int": ("integer", 0, 0),
        "int4": ("integer", 0, 0), "smallint": ("smallint", 0, 0), "int2": ("smallint", 0, 0),
        "boolean": ("boolean", 0, 0), "bool": ("boolean", 0, 0), "real": ("real", 0, 0), "float4": ("real", 0, 0),
        "double precision": ("double precision", 0, 0), "float8": ("double precision", 0, 0), "float": ("double precision", 0, 1),
        "numeric": ("numeric", 0, 2), "decimal": ("numeric", 0, 2), "text": ("text", 0, 0), "varchar": ("varchar", 0, 1),
        "character varying": ("varchar", 0, 1), "char": ("char", 0, 1), "character": ("char", 0, 1),
        "timestamp": ("timestamp", 0, 1), "timestamptz": ("timestamptz", 0, 1), "time": ("time", 0, 1), "timetz": ("timetz", 0, 1),
        "date": ("date", 0, 0), "interval": ("interval", 0, 1), "uuid": ("uuid", 0, 0), "inet": ("inet", 0, 0),
        "cidr": ("cidr", 0, 0), "bytea": ("bytea", 0, 0), "json": ("json", 0, 0), "jsonb": ("jsonb", 0, 0), "macaddr": ("macaddr", 0, 0),
    },
    "mysql": {
        "tinyint": ("tinyint", 0, 1), "smallint": ("smallint", 0, 1), "mediumint": ("mediumint", 0, 1), "int": ("int", 0, 1),
        "integer": ("int", 0, 1), "bigint": ("bigint", 0, 1), "boolean": ("bool", 0, 0), "bool": ("bool", 0, 0),
        "real": ("double", 0, 0), "double": ("double", 0, 0), "double precision": ("double", 0, 0), "float": ("float", 0, 1),
        "decimal": ("decimal", 0, 2), "numeric": ("decimal", 0, 2), "date": ("date", 0, 0), "datetime": ("datetime", 0, 1),
        "timestamp": ("timestamp", 0, 1), "time": ("time", 0, 1), "char": ("char", 0, 1), "varchar": ("varchar", 1, 1),
        "tinytext": ("tinytext", 0, 0), "text": ("text", 0, 0), "mediumtext": ("mediumtext", 0, 0), "longtext": ("longtext", 0, 0),
        "binary": ("binary", 0, 1), "varbinary": ("varbinary", 1, 1), "blob": ("blob", 0, 0), "mediumblob": ("mediumblob", 0, 0),
        "longblob": ("longblob", 0, 0), "tinyblob": ("tinyblob", 0, 0), "json": ("json", 0, 0),
    },
    "mssql": {
        "bit": ("bit", 0, 0), "tinyint": ("tinyint", 0, 0), "smallint": ("smallint", 0, 0), "int": ("int", 0, 0), "integer": ("int", 0, 0),
        "bigint": ("bigint", 0, 0), "real": ("real", 0, 0), "float": ("float", 0, 1), "double precision": ("float", 0, 0),
        "decimal": ("decimal", 0, 2), "numeric": ("numeric", 0, 2), "date": ("date", 0, 0), "time": ("time", 0, 1),
        "datetime": ("datetime", 0, 0), "datetime2": ("datetime2", 0, 1), "datetimeoffset": ("datetimeoffset", 0, 1),
        "char": ("char", 0, 1), "varchar": ("varchar", 0, 1), "nchar": ("nchar", 0, 1), "nvarchar": ("nvarchar", 0, 1),
        "binary": ("binary", 0, 1), "varbinary": ("varbinary", 0, 1), "uniqueidentifier": ("uniqueidentifier", 0, 0),
        "text": ("text", 0, 0),
    },
    "oracle": {
        "number": ("number", 0, 2), "integer": ("integer", 0, 0), "int": ("integer", 0, 0), "smallint": ("integer", 0, 0),
        "decimal": ("decimal", 0, 2), "numeric": ("decimal", 0, 2), "float": ("float", 0, 1), "real": ("real", 0, 0),
        "double precision": ("double precision", 0, 0), "binary_float": ("binary_float", 0, 0), "binary_double": ("binary_double", 0, 0),
        "varchar2": ("varchar2", 1, 1), "varchar": ("varchar2", 1, 1), "nvarchar2": ("nvarchar2", 1, 1), "char": ("char", 0, 1),
        "clob": ("clob", 0, 0), "nclob": ("nclob", 0, 0), "blob": ("blob", 0, 0), "raw": ("raw", 1, 1), "date": ("date", 0, 0),
        "timestamp": ("timestamp", 0, 1), "boolean": ("boolean", 0, 0), "json": ("json", 0, 0),
        "interval day to second": ("interval day to second", 0, 0),
    },
}


class Parser:
    def __init__(self, toks: List[Tok], dialect: str, text: str) -> None:
        self.t = [t for t in toks if t.kind != "comment"]
        self.d = dialect
        self.i = 0
        self.text = text
        self.nparam = 0

    # -- helpers ---------------------------------------------------------------------------------------------------
    def peek(self, k: int = 0) -> Tok:
        return self.t[self.i + k] if self.i + k < len(self.t) else EOF

    def next(self) -> Tok:
        t = self.peek()
        self.i += 1
        return t

    def err(self, what: str = "") -> SqlError:
        t = self.peek()
        return SqlError("syntax", f"syntax error near {t.raw or t.val!r} {what} in: {self.text[:300]}")

    def word(self, *words: str) -> bool:
        """consume a sequence of unquoted words"""
        for k, w in enumerate(words):
            if not self.peek(k).is_word(w):
                return False
        self.i += len(words)
        return True

    def need(self, *words: str) -> None:
        if not self.word(*words):
            raise self.err("expected " + " ".join(words))

    def op(self, o: str) -> bool:
        if self.peek().is_op(o):
            self.i += 1
            return True
        return False

    def need_op(self, o: str) -> None:
        if not self.op(o):
            raise self.err("expected " + o)

    def end(self) -> None:
        if self.peek().kind != "eof":
            raise self.err("expected end of statement")

    def ident(self) -> str:
        t = self.next()
        if t.kind == "id":
            return str(t.val)
        if t.kind == "word":
            return self.fold(str(t.val))
        self.i -= 1
        raise self.err("expected identifier")

    def fold(self, w: str) -> str:
        if self.d == "oracle":
            return w.upper()
        if self.d in ("postgresql", "redshift"):
            return w.lower()
        return w

    def qname(self) -> Tuple[Optional[str], str]:
        a = self.ident()
        if self.op("."):
            b = self.ident()
            if self.peek().is_op("."):
                raise Unsupported("three-part name")
            return (a, b)
        return (None, a)

    def string(self) -> str:
        t = self.next()
        if t.kind != "str":
            self.i -= 1
            raise self.err("expected string literal")
        return str(t.val)

    def collist(self) -> List[str]:
        self.need_op("(")
        cols = [self.ident()]
        while self.op(","):
            cols.append(self.ident())
        self.need_op(")")
        return cols

    # -- types -----------------------------------------------------------------------------------------------------
    def type(self) -> tuple:
        d = "postgresql" if self.d == "redshift" else self.d
        t = self.peek()
        if t.kind == "id" or (t.kind == "word" and self.peek(1).is_op(".")):
            if d != "postgresql":
                raise SqlError("type", f"unknown data type {t.raw}")
            base: tuple = ("user", self.qname())
        elif t.kind == "word":
            w = str(t.val).lower()
            if d == "mysql" and w == "enum":
                self.next()
                self.need_op("(")
                vals = [self.string()]
                while self.op(","):
                    vals.append(self.string())
                self.need_op(")")
                base = ("enum", tuple(vals))
            else:
                for cand in ("interval day to second", "double precision", "character varying", w):
                    parts = cand.split()
                    if parts[0] == w and all(self.peek(k).is_word(p.upper()) for k, p in enumerate(parts)) and cand in _T[d]:
                        self.i += len(parts)
                        break
                else:
                    raise SqlError("type", f"unknown data type {w}")
                name, lo, hi = _T[d][cand]
                args: List[Any] = []
                if self.peek().is_op("(") and hi > 0:
                    self.next()
                    while True:
                        a = self.next()
                        if a.kind == "num":
                            args.append(int(str(a.val)))
                        elif a.is_word("MAX") and d == "mssql":
                            args.append("max")
                        else:
                            raise self.err("type argument")
                        if d == "oracle" and self.peek().is_word("CHAR", "BYTE"):
                            self.next()
                        if not self.op(","):
                            break
                    self.need_op(")")
                if not lo <= len(args) <= hi:
                    raise SqlError("type", f"bad argument count for {cand}")
                if d == "mysql" and name == "bool":
                    name, args = "tinyint", [1]
                base = (name, *args)
        else:
            raise self.err("expected data type")
        if d in ("postgresql", "oracle") and base[0] in ("timestamp", "time"):
            if self.word("WITH", "TIME", "ZONE"):
                base = (base[0] + "tz", *base[1:])
            elif self.word("WITHOUT", "TIME", "ZONE"):
                pass
        if d == "mysql" and self.word("UNSIGNED"):
            base = (base[0] + " unsigned", *base[1:])
        if d == "postgresql":
            if self.word("ARRAY"):
                base = ("array", base)
            while self.peek().is_op("[") and self.peek(1).is_op("]"):
                self.i += 2
                base = ("array", base)
        self.check_type(base)
        return base

    def check_type(self, t: tuple) -> None:
        d = self.d
        name, args = t[0], t[1:]

        def rng(lo, hi):
            for a in args[:1]:
                if a != "max" and not (isinstance(a, int) and lo <= a <= hi):
                    raise SqlError("type", f"type argument out of range: {t}")

        if d == "postgresql":
            if name in ("varchar", "char"):
                rng(1, 10485760)
            elif name in ("timestamp", "timestamptz", "time", "timetz"):
                rng(0, 6)
            elif name == "numeric":
                rng(1, 1000)
        elif d == "mysql":
            if name in ("datetime", "timestamp", "time"):
                rng(0, 6)
            elif name == "varchar":
                rng(0, 16383)  # characters of up to four bytes in a row of 65535 bytes
            elif name == "decimal":
                rng(1, 65)
                if len(args) == 2 and args[1] > min(30, args[0]):
                    raise SqlError("type", f"bad scale {t}")
            elif name in ("binary", "char"):
                rng(0, 255)
        elif d == "mssql":
            if name in ("varchar", "char", "binary", "varbinary"):
                rng(1, 8000)
            elif name in ("nvarchar", "nchar"):
                rng(1, 4000)
            elif name in ("datetime2", "time"):
                rng(0, 7)
            elif name in ("decimal", "numeric"):
                rng(1, 38)
                if len(args) == 2 and args[1] > args[0]:
                    raise SqlError("type", f"bad scale {t}")
        elif d == "oracle":
            if name in ("number", "decimal"):
                rng(1, 38)
            elif name == "varchar2":
                rng(1, 4000)
            elif name in ("raw",):
                rng(1, 2000)
            elif name == "char":
                rng(1, 2000)
            elif name in ("timestamp", "timestamptz"):
                rng(0, 9)

    # -- expressions -----------------------------------------------------------------------------------------------
    def expr(self) -> tuple:
        return self.e_or()

    def e_or(self):
        a = self.e_and()
        while self.word("OR"):
            a = ("op", "or", a, self.e_and())
        return a

    def e_and(self):
        a = self.e_not()
        while self.word("AND"):
            a = ("op", "and", a, self.e_not())
        return a

    def e_not(self):
        if self.word("NOT"):
            return ("un", "not", self.e_not())
        return self.e_cmp()

    def e_cmp(self):
        a = self.e_add()
        while True:
            if self.word("IS"):
                neg = self.word("NOT")
                self.need("NULL")
                a = ("isnull", a, neg)
                continue
            neg = False
            save = self.i
            if self.word("NOT"):
                neg = True
            if self.word("IN"):
                self.need_op("(")
                items = [self.expr()]
                while self.op(","):
                    items.append(self.expr())
                self.need_op(")")
                a = ("in", a, items, neg)
                continue
            if self.word("LIKE"):
                p = self.e_add()
                esc = None
                if self.word("ESCAPE"):
                    esc = self.string()
                a = ("like", a, p, esc, neg)
                continue
            if self.word("BETWEEN"):
                lo = self.e_add()
                self.need("AND")
                a = ("between", a, lo, self.e_add(), neg)
                continue
            if neg:
                self.i = save
                return a
            t = self.peek()
            if t.kind == "op" and t.val in ("=", "<>", "!=", "<", ">", "<=", ">="):
                self.next()
                a = ("op", "<>" if t.val == "!=" else t.val, a, self.e_add())
                continue
            return a

    def e_add(self):
        a = self.e_mul()
        while True:
            t = self.peek()
            if t.kind == "op" and t.val in ("+", "-", "||"):
                self.next()
                a = ("op", t.val, a, self.e_mul())
            else:
                return a

    def e_mul(self):
        a = self.e_unary()
        while True:
            t = self.peek()
            if t.kind == "op" and t.val in ("*", "/", "%"):
                self.next()
                a = ("op", t.val, a, self.e_unary())
            else:
                return a

    def e_unary(self):
        if self.op("-"):
            a = self.e_unary()
            if a[0] == "lit" and a[2] == "num":
                return ("lit", "-" + a[1], "num")
            return ("un", "-", a)
        if self.op("+"):
            return self.e_unary()
        return self.e_postfix()

    def e_postfix(self):
        a = self.e_primary()
        while self.peek().is_op("::"):
            if self.d not in ("postgresql", "redshift"):
                raise self.err("cast operator")
            self.next()
            a = ("cast", a, self.type())
        return a

    def e_primary(self):
        t = self.peek()
        if t.kind == "str":
            self.next()
            return ("lit", str(t.val), "str")
        if t.kind == "num":
            self.next()
            return ("lit", str(t.val), "num")
        if t.kind == "hex":
            self.next()
            return ("lit", str(t.val), "hex")
        if t.kind == "param":
            self.next()
            self.nparam += 1
            return ("param", t.val if t.val is not None else self.nparam)
        if self.op("("):
            items = [self.expr()]
            while self.op(","):
                items.append(self.expr())
            self.need_op(")")
            return items[0] if len(items) == 1 else ("row", items)
        if t.kind == "word":
            w = str(t.val).upper()
            if w == "NULL":
                self.next()
                return ("lit", None, "null")
            if w in ("TRUE", "FALSE"):
                if self.d == "mssql":
                    raise SqlError("syntax", f"{w} is not a literal in T-SQL")
                self.next()
                return ("lit", w == "TRUE", "bool")
            if w == "DEFAULT":
                self.next()
                return ("default",)
            if w in ("TIMESTAMP", "DATE", "TIME", "INTERVAL") and self.peek(1).kind == "str" and self.d != "mssql":
                self.next()
                return ("typedlit", w.lower(), self.string())
            if w in ("CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME", "LOCALTIMESTAMP") and not self.peek(1).is_op("("):
                self.next()
                return ("fn", w, [])
            if w == "CAST" and self.peek(1).is_op("("):
                self.i += 2
                e = self.expr()
                self.need("AS")
                ty = self.type()
                self.need_op(")")
                return ("cast", e, ty)
            if w == "ROW" and self.peek(1).is_op("("):
                self.next()
                self.need_op("(")
                items = [self.expr()]
                while self.op(","):
                    items.append(self.expr())
                self.need_op(")")
                return ("row", items)
            if w == "ARRAY" and self.peek(1).is_op("["):
                self.i += 2
                items = []
                if not self.peek().is_op("]"):
                    items.append(self.expr())
                    while self.op(","):
                        items.append(self.expr())
                self.need_op("]")
                return ("array", items)
            if self.peek(1).is_op("("):
                self.i += 2
                args = []
                if not self.peek().is_op(")"):
                    if self.op("*"):
                        args.append(("star",))
                    else:
                        args.append(self.expr())
                        while self.op(","):
                            args.append(self.expr())
                self.need_op(")")
                return ("fn", w, args)
        if t.kind in ("id", "word"):
            if t.kind == "word" and str(t.val).upper() in ("SELECT", "FROM", "WHERE", "ON", "SET", "VALUES", "AND", "OR"):
                raise self.err("expression")
            parts = [self.ident()]
            quoted = t.kind == "id"
            while self.op("."):
                parts.append(self.ident())
                quoted = True
            return ("col", tuple(parts[:-1]), parts[-1], quoted)
        raise self.err("expression")

    # -- statements ------------------------------------------------------------------------------------------------
    def statement(self) -> N:
        n = self._statement()
        self.end()
        return n

    def _statement(self) -> N:
        if self.word("CREATE"):
            return self.create()
        if self.word("DROP"):
            return self.drop()
        if self.word("ALTER"):
            return self.alter()
        if self.word("COMMENT"):
            return self.comment()
        if self.word("INSERT"):
            return self.insert()
        if self.word("MERGE"):
            return self.merge()
        if self.word("UPDATE"):
            return self.update()
        if self.word("DELETE"):
            return self.delete()
        if self.word("SELECT"):
            return self.select()
        if self.word("SET"):
            self.i = len(self.t)
            return N("set")
        if self.peek().is_word("IF") and self.d == "mssql":
            return self.mssql_if()
        if self.peek().is_word("BEGIN") and self.d == "oracle":
            return self.plsql()
        raise self.err("unrecognized statement")

    def raw_from(self, start_tok: int) -> str:
        if start_tok >= len(self.t):
            return ""
        return self.text[self.t[start_tok].pos : self.t[-1].end]

    def mssql_if(self) -> N:
        self.need("IF")
        neg = self.word("NOT")
        self.need("EXISTS")
        self.need_op("(")
        depth, start = 1, self.i
        while depth:
            t = self.next()
            if t.kind == "eof":
                raise self.err("unbalanced")
            if t.is_op("("):
                depth += 1
            elif t.is_op(")"):
                depth -= 1
        query = self.text[self.t[start].pos : self.t[self.i - 2].end]
        self.need("EXEC")
        self.need_op("(")
        body = self.string()
        self.need_op(")")
        return N("mssql_if", neg=neg, query=query, body=body)

    def plsql(self) -> N:
        # BEGIN EXECUTE IMMEDIATE '...'; [EXCEPTION WHEN OTHERS THEN IF SQLCODE != -n THEN RAISE; END IF;] END;
        self.need("BEGIN")
        bodies = []
        while self.word("EXECUTE", "IMMEDIATE"):
            bodies.append(self.string())
            self.need_op(";")
        ignore = None
        if self.word("EXCEPTION", "WHEN", "OTHERS", "THEN"):
            self.need("IF", "SQLCODE")
            self.need_op("!=")
            neg = self.op("-")
            code = int(str(self.next().val))
            ignore = -code if neg else code
            self.need("THEN", "RAISE")
            self.need_op(";")
            self.need("END", "IF")
            self.need_op(";")
        self.need("END")
        self.need_op(";")
        return N("plsql", bodies=bodies, ignore=ignore)

    def create(self) -> N:
        if self.word("SCHEMA"):
            ine = self.word("IF", "NOT", "EXISTS")
            if self.d == "mssql" and ine:
                raise self.err("IF NOT EXISTS not supported")
            if self.d == "oracle":
                raise SqlError("syntax", "CREATE SCHEMA requires AUTHORIZATION in Oracle")
            return N("create_schema", name=self.ident(), if_not_exists=ine)
        if self.word("TYPE"):
            if self.d != "postgresql":
                raise SqlError("syntax", f"CREATE TYPE AS is not supported in {self.d}")
            name = self.qname()
            self.need("AS")
            if self.word("ENUM"):
                self.need_op("(")
                vals = []
                if not self.peek().is_op(")"):
                    vals.append(self.string())
                    while self.op(","):
                        vals.append(self.string())
                self.need_op(")")
                return N("create_enum", name=name, values=vals)
            self.need_op("(")
            members = []
            if not self.peek().is_op(")"):
                members.append((self.ident(), self.type()))
                while self.op(","):
                    members.append((self.ident(), self.type()))
            self.need_op(")")
            return N("create_struct", name=name, members=members)
        if self.word("TABLE"):
            ine = self.word("IF", "NOT", "EXISTS")
            name = self.qname()
            self.need_op("(")
            cols, cons = [], []
            while True:
                if self.peek().is_word("CONSTRAINT", "PRIMARY", "UNIQUE", "FOREIGN", "CHECK"):
                    cons.append(self.constraint())
                else:
                    cols.append(self.column())
                if not self.op(","):
                    break
            self.need_op(")")
            comment = None
            if self.d == "mysql" and self.word("COMMENT"):
                self.op("=")
                comment = self.string()
            return N("create_table", name=name, cols=cols, cons=cons, comment=comment, if_not_exists=ine)
        raise self.err("CREATE")

    def constraint(self) -> N:
        name = None
        if self.word("CONSTRAINT"):
            name = self.ident()
        if self.word("PRIMARY", "KEY"):
            return N("con", name=name, kind="p", cols=self.collist())
        if self.word("UNIQUE"):
            return N("con", name=name, kind="u", cols=self.collist())
        if self.word("FOREIGN", "KEY"):
            cols = self.collist()
            self.need("REFERENCES")
            ref = self.qname()
            refcols = self.collist() if self.peek().is_op("(") else None
            if self.word("ON", "DELETE") or self.word("ON", "UPDATE"):
                raise Unsupported("referential action")
            return N("con", name=name, kind="f", cols=cols, ref=ref, refcols=refcols)
        if self.word("CHECK"):
            self.need_op("(")
            start = self.i
            e = self.expr()
            raw = self.text[self.t[start].pos : self.t[self.i - 1].end]
            self.need_op(")")
            return N("con", name=name, kind="c", cols=[], expr=e, raw=raw)
        if self.d == "mssql" and self.word("DEFAULT"):
            start = self.i
            e = self.expr()
            self.need("FOR")
            return N("con", name=name, kind="d", cols=[self.ident()], expr=e)
        raise self.err("constraint")

    def column(self) -> N:
        name = self.ident()
        return self.column_rest(name)

    def column_rest(self, name: str) -> N:
        c = N("column", name=name, type=self.type(), nullable=None, default=None, default_raw=None, df_name=None,
              identity=False, comment=None, has_default=False, charset=None)
        seen_constraint = False
        while True:
            if self.word("NOT", "NULL"):
                c.nullable = False
                seen_constraint = True
            elif self.word("NULL"):
                c.nullable = True
            elif self.word("DEFAULT"):
                if self.d == "oracle" and seen_constraint:
                    raise SqlError("syntax", "DEFAULT clause must precede inline constraints")
                self._default(c)
            elif self.d == "mssql" and self.peek().is_word("CONSTRAINT"):
                self.next()
                c.df_name = self.ident()
                self.need("DEFAULT")
                self._default(c)
            elif self.d == "mssql" and self.word("IDENTITY"):
                if self.op("("):
                    self.next(), self.need_op(","), self.next()
                    self.need_op(")")
                c.identity = True
            elif self.d in ("postgresql", "oracle") and (
                self.word("GENERATED", "BY", "DEFAULT", "AS", "IDENTITY") or self.word("GENERATED", "ALWAYS", "AS", "IDENTITY")
            ):
                c.identity = True
            elif self.d == "mysql" and self.word("AUTO_INCREMENT"):
                c.identity = True
            elif self.d == "mysql" and self.word("COMMENT"):
                c.comment = self.string()
            elif self.d == "mysql" and self.word("CHARACTER", "SET"):
                c.charset = self.ident()
            elif self.d == "mysql" and self.word("COLLATE"):
                self.ident()
            else:
                return c

    def _default(self, c: N) -> None:
        start = self.i
        e = self.e_add() if self.d != "mysql" else self.e_postfix_default()
        c.default = e
        c.has_default = True
        c.default_raw = self.text[self.t[start].pos : self.t[self.i - 1].end]

    def e_postfix_default(self):
        if self.peek().is_op("("):
            self.next()
            e = self.expr()
            self.need_op(")")
            return ("paren", e)
        return self.e_unary()

    def drop(self) -> N:
        if self.word("SCHEMA"):
            ie = self.word("IF", "EXISTS")
            name = self.ident()
            cascade = self.word("CASCADE")
            return N("drop_schema", name=name, if_exists=ie, cascade=cascade)
        if self.word("TYPE"):
            ie = self.word("IF", "EXISTS")
            names = [self.qname()]
            while self.op(","):
                names.append(self.qname())
            return N("drop_type", names=names, if_exists=ie, cascade=self.word("CASCADE"))
        if self.word("TABLE"):
            ie = self.word("IF", "EXISTS")
            names = [self.qname()]
            while self.op(","):
                names.append(self.qname())
            if len(names) > 1 and self.d == "oracle":
                raise SqlError("syntax", "DROP TABLE takes one table in Oracle")
            cc = False
            if self.d == "oracle":
                cc = self.word("CASCADE", "CONSTRAINTS")
                self.word("PURGE")
            elif self.d == "postgresql":
                cc = self.word("CASCADE")
            return N("drop_table", names=names, if_exists=ie, cascade=cc)
        raise self.err("DROP")

    def alter(self) -> N:
        if self.word("SESSION"):
            self.i = len(self.t)
            return N("set")
        if self.word("TYPE"):
            if self.d != "postgresql":
                raise SqlError("syntax", "ALTER TYPE")
            name = self.qname()
            if self.word("ADD", "VALUE"):
                ine = self.word("IF", "NOT", "EXISTS")
                v = self.string()
                if self.peek().is_word("BEFORE", "AFTER"):
                    raise Unsupported("ADD VALUE BEFORE/AFTER")
                return N("enum_add", name=name, value=v, if_not_exists=ine)
            if self.word("RENAME", "TO"):
                return N("type_rename", name=name, to=self.ident())
            acts = []
            while True:
                if self.word("DROP", "ATTRIBUTE"):
                    acts.append(N("drop", name=self.ident()))
                elif self.word("ADD", "ATTRIBUTE"):
                    acts.append(N("add", name=self.ident(), type=self.type()))
                elif self.word("ALTER", "ATTRIBUTE"):
                    nm = self.ident()
                    if not self.word("SET", "DATA", "TYPE"):
                        self.need("TYPE")
                    acts.append(N("type", name=nm, type=self.type()))
                else:
                    raise self.err("ALTER TYPE action")
                if not self.op(","):
                    break
            return N("struct_alter", name=name, acts=acts)
        self.need("TABLE")
        name = self.qname()
        acts = getattr(self, "alter_" + self.d)()
        return N("alter_table", name=name, acts=acts)

    def _sep(self, fn) -> list:
        acts = fn()
        while self.op(","):
            acts.extend(fn())
        return acts

    def alter_postgresql(self):
        def one():
            if self.peek().is_word("ADD"):
                self.next()
                if self.peek().is_word("CONSTRAINT", "PRIMARY", "UNIQUE", "FOREIGN", "CHECK"):
                    return [N("add_con", con=self.constraint())]
                self.word("COLUMN")
                return [N("add_col", col=self.column())]
            if self.word("DROP", "CONSTRAINT"):
                ie = self.word("IF", "EXISTS")
                return [N("drop_con", name=self.ident(), if_exists=ie)]
            if self.word("DROP"):
                self.word("COLUMN")
                return [N("drop_col", name=self.ident())]
            if self.word("RENAME", "COLUMN"):
                a = self.ident()
                self.need("TO")
                return [N("rename_col", name=a, to=self.ident())]
            if self.word("ALTER"):
                self.word("COLUMN")
                c = self.ident()
                if self.word("SET", "DATA", "TYPE") or self.word("TYPE"):
                    ty = self.type()
                    using = None
                    if self.word("USING"):
                        using = self.expr()
                    return [N("col_type", name=c, type=ty, using=using)]
                if self.word("SET", "NOT", "NULL"):
                    return [N("set_null", name=c, nullable=False)]
                if self.word("DROP", "NOT", "NULL"):
                    return [N("set_null", name=c, nullable=True)]
                if self.word("SET", "DEFAULT"):
                    return [N("set_default", name=c, expr=self.e_or())]
                if self.word("DROP", "DEFAULT"):
                    return [N("set_default", name=c, expr=None)]
                if self.word("DROP", "IDENTITY"):
                    return [N("identity", name=c, value=False)]
                if self.word("ADD", "GENERATED"):
                    if not self.word("BY", "DEFAULT"):
                        self.need("ALWAYS")
                    self.need("AS", "IDENTITY")
                    return [N("identity", name=c, value=True)]
            raise self.err("ALTER TABLE action")

        acts = self._sep(one)
        if len(acts) > 1 and any(a.k == "rename_col" for a in acts):
            raise SqlError("syntax", "RENAME must be the only action")
        return acts

    def alter_mysql(self):
        def one():
            if self.word("COMMENT"):
                self.op("=")
                return [N("table_comment", value=self.string())]
            if self.word("ADD"):
                if self.peek().is_word("CONSTRAINT", "PRIMARY", "UNIQUE", "FOREIGN", "CHECK"):
                    return [N("add_con", con=self.constraint())]
                self.word("COLUMN")
                return [N("add_col", col=self.column())]
            if self.word("DROP", "CONSTRAINT"):
                return [N("drop_con", name=self.ident(), if_exists=False)]
            if self.word("DROP", "PRIMARY", "KEY"):
                return [N("drop_pk")]
            if self.word("DROP"):
                self.word("COLUMN")
                return [N("drop_col", name=self.ident())]
            if self.word("CHANGE"):
                self.word("COLUMN")
                a = self.ident()
                return [N("change_col", name=a, col=self.column())]
            if self.word("MODIFY"):
                self.word("COLUMN")
                return [N("modify_col", col=self.column())]
            if self.word("RENAME", "COLUMN"):
                a = self.ident()
                self.need("TO")
                return [N("rename_col", name=a, to=self.ident())]
            raise self.err("ALTER TABLE action")

        return self._sep(one)

    def alter_mssql(self):
        if self.word("ADD"):
            def one():
                if self.peek().is_word("CONSTRAINT", "PRIMARY", "UNIQUE", "FOREIGN", "CHECK", "DEFAULT"):
                    return [N("add_con", con=self.constraint())]
                return [N("add_col", col=self.column())]

            return self._sep(one)
        if self.word("DROP"):
            acts = []
            mode = "CONSTRAINT"
            while True:
                if self.word("CONSTRAINT"):
                    mode = "CONSTRAINT"
                elif self.word("COLUMN"):
                    mode = "COLUMN"
                elif not acts:
                    mode = "CONSTRAINT"  # bare name
                if mode == "CONSTRAINT":
                    acts.append(N("drop_con", name=self.ident(), if_exists=False))
                else:
                    acts.append(N("drop_col", name=self.ident()))
                if not self.op(","):
                    break
            return acts
        if self.word("ALTER", "COLUMN"):
            name = self.ident()
            ty = self.type()
            nullable = True
            if self.word("NOT", "NULL"):
                nullable = False
            else:
                self.word("NULL")
            return [N("alter_col", name=name, type=ty, nullable=nullable)]
        raise self.err("ALTER TABLE action")

    def alter_oracle(self):
        acts = []
        while self.peek().kind != "eof":
            if self.word("ADD"):
                if self.peek().is_word("CONSTRAINT"):
                    acts.append(N("add_con", con=self.constraint()))
                else:
                    self.word("COLUMN")  # tolerated: some releases accept it
                    paren = self.op("(")
                    acts.append(N("add_col", col=self.column()))
                    if paren:
                        self.need_op(")")
            elif self.word("MODIFY"):
                paren = self.op("(")
                acts.append(self.oracle_modify())
                if paren:
                    self.need_op(")")
            elif self.word("DROP", "CONSTRAINT"):
                acts.append(N("drop_con", name=self.ident(), if_exists=False))
            elif self.word("DROP", "COLUMN"):
                acts.append(N("drop_col", name=self.ident()))
            elif self.word("RENAME", "COLUMN"):
                a = self.ident()
                self.need("TO")
                acts.append(N("rename_col", name=a, to=self.ident()))
            else:
                raise self.err("ALTER TABLE action")
        if not acts:
            raise self.err("ALTER TABLE action")
        return acts

    def oracle_modify(self) -> N:
        name = self.ident()
        m = N("modify_ora", name=name, type=None, has_default=False, default=None, default_raw=None, nullable=None, identity=None)
        if self.peek().kind == "word" and not self.peek().is_word("DEFAULT", "NOT", "NULL", "GENERATED", "DROP"):
            m.type = self.type()
        while self.peek().kind != "eof" and not self.peek().is_op(")"):
            if self.word("DEFAULT"):
                start = self.i
                m.default = self.e_add()
                m.has_default = True
                m.default_raw = self.text[self.t[start].pos : self.t[self.i - 1].end]
            elif self.word("NOT", "NULL"):
                m.nullable = False
            elif self.word("NULL"):
                m.nullable = True
            elif self.word("GENERATED", "BY", "DEFAULT", "AS", "IDENTITY"):
                m.identity = True
            elif self.word("DROP", "IDENTITY"):
                m.identity = False
            else:
                raise self.err("MODIFY")
        return m

    def comment(self) -> N:
        if self.d not in ("postgresql", "oracle"):
            raise self.err("COMMENT ON")
        self.need("ON")
        if self.word("COLUMN"):
            parts = [self.ident()]
            while self.op("."):
                parts.append(self.ident())
            kind, name = "column", tuple(parts)
            if len(parts) < 2:
                raise self.err("column name")
        elif self.word("TABLE"):
            kind, name = "table", self.qname()
        elif self.word("TYPE"):
            kind, name = "type", self.qname()
        else:
            raise self.err("COMMENT ON")
        self.need("IS")
        text = None if self.word("NULL") else self.string()
        return N("comment", kind=kind, name=name, text=text)

    def insert(self) -> N:
        self.need("INTO")
        name = self.qname()
        alias = None
        cols = self.collist() if self.peek().is_op("(") else None
        n = N("insert", name=name, cols=cols, rows=None, select=None, conflict=None, dup=None)
        if self.word("VALUES"):
            rows = []
            while True:
                self.need_op("(")
                items = [self.expr()]
                while self.op(","):
                    items.append(self.expr())
                self.need_op(")")
                rows.append(items)
                if not self.op(","):
                    break
            n.rows = rows
        elif self.word("SELECT"):
            n.select = self.select(stop=("ON",))
        else:
            raise self.err("INSERT source")
        if self.d == "postgresql" and self.word("ON", "CONFLICT"):
            target = self.collist() if self.peek().is_op("(") else None
            self.need("DO")
            if self.word("NOTHING"):
                n.conflict = (target, None)
            else:
                self.need("UPDATE", "SET")
                if target is None:
                    raise SqlError("syntax", "ON CONFLICT DO UPDATE requires inference specification")
                n.conflict = (target, self.assignments())
        elif self.d == "mysql" and self.word("ON", "DUPLICATE", "KEY", "UPDATE"):
            n.dup = self.assignments()
        return n

    def assignments(self):
        out = []
        while True:
            col = self.qcol()
            self.need_op("=")
            out.append((col, self.expr()))
            if not self.op(","):
                return out

    def qcol(self):
        parts = [self.ident()]
        while self.op("."):
            parts.append(self.ident())
        return (tuple(parts[:-1]), parts[-1])

    def merge(self) -> N:
        if self.d not in ("mssql", "oracle"):
            raise self.err("MERGE")
        self.need("INTO")
        name = self.qname()
        talias = self.ident()
        self.need("USING")
        self.need_op("(")
        self.need("VALUES")
        rows = []
        while True:
            self.need_op("(")
            items = [self.expr()]
            while self.op(","):
                items.append(self.expr())
            self.need_op(")")
            rows.append(items)
            if not self.op(","):
                break
        self.need_op(")")
        salias = self.ident()
        scols = self.collist()
        self.need("ON")
        self.need_op("(")
        cond = self.expr()
        self.need_op(")")
        upd = ins = None
        while self.word("WHEN"):
            if self.word("MATCHED"):
                self.need("THEN", "UPDATE", "SET")
                upd = self.assignments()
            else:
                self.need("NOT", "MATCHED", "THEN", "INSERT")
                cols = self.collist()
                self.need("VALUES")
                self.need_op("(")
                items = [self.expr()]
                while self.op(","):
                    items.append(self.expr())
                self.need_op(")")
                ins = (cols, items)
        if upd is None and ins is None:
            raise self.err("MERGE without action")
        if self.d == "mssql" and not self.text.rstrip().endswith(";"):
            raise SqlError("syntax", "A MERGE statement must be terminated by a semi-colon")
        return N("merge", name=name, talias=talias, salias=salias, rows=rows, scols=scols, cond=cond, upd=upd, ins=ins)

    def alias(self) -> Optional[str]:
        self.word("AS")
        t = self.peek()
        if t.kind == "id" or (t.kind == "word" and not t.is_word(
            "SET", "FROM", "WHERE", "JOIN", "ON", "INNER", "LEFT", "ORDER", "GROUP", "LIMIT")):
            return self.ident()
        return None

    def update(self) -> N:
        name = self.qname()
        alias = self.alias()
        joins = []
        if self.d == "mysql":
            while self.word("JOIN") or self.word("INNER", "JOIN"):
                jn = self.qname()
                ja = self.alias()
                self.need("ON")
                joins.append((jn, ja, self.expr()))
        self.need("SET")
        sets = self.assignments()
        frm = []
        if self.d == "postgresql" and self.word("FROM"):
            fn = self.qname()
            frm.append((fn, self.alias()))
        where = self.expr() if self.word("WHERE") else None
        return N("update", name=name, alias=alias, joins=joins, sets=sets, frm=frm, where=where)

    def delete(self) -> N:
        self.need("FROM")
        name = self.qname()
        where = self.expr() if self.word("WHERE") else None
        return N("delete", name=name, where=where)

    def select(self, stop=()) -> N:
        distinct = self.word("DISTINCT")
        items = []
        while True:
            if self.op("*"):
                items.append((("star",), "*"))
            else:
                e = self.expr()
                nm = None
                if self.word("AS"):
                    nm = self.ident()
                items.append((e, nm or (e[2] if e[0] == "col" else "?column?")))
            if not self.op(","):
                break
        frm = None
        where = None
        order = []
        if self.word("FROM"):
            frm = (self.qname(), None)
            t = self.peek()
            if t.kind == "id" or (t.kind == "word" and not t.is_word("WHERE", "ORDER", "ON", "LIMIT", "JOIN")):
                frm = (frm[0], self.ident())
        if self.word("WHERE"):
            where = self.expr()
        if self.word("ORDER", "BY"):
            order.append(self.expr())
            while self.op(","):
                order.append(self.expr())
        return N("select", distinct=distinct, items=items, frm=frm, where=where, order=order)


def parse_script(sql: str, dialect: str, sql_mode: str = "ANSI_QUOTES") -> List[Tuple[N, str]]:
    """Parses a script into [(statement AST, text)]."""
    toks = tokenize(sql, dialect, sql_mode)
    out = []
    for st in split_statements(toks):
        text = sql[st[0].pos : st[-1].end]
        has_semi = sql[st[-1].end :].lstrip().startswith(";")
        # positions in `text` are relative to `sql`
        p = Parser(st, dialect, sql)
        p.text = sql if not (dialect == "mssql") else sql
        if st[0].is_word("MERGE") and dialect == "mssql" and not has_semi:
            raise SqlError("syntax", "A MERGE statement must be terminated by a semi-colon")
        n = p.statement()
        n.nparam = p.nparam
        out.append((n, text))
    return out
