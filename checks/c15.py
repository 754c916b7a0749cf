"""C15: connection URLs are decoded exactly, drivers receive just those values, and the password stays out of all text."""

import contextlib
import dataclasses
import io
import logging
import os
import sys
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random
from urllib.parse import quote

import harness
from harness import Check, Obs, Violation
import populate
import redshift
import scenario as sc
import specgen as sg
from simdb import drivers

from pysqlsync.base import ConnectionParameters
from pysqlsync.connection import ConnectionSSLMode
from pysqlsync.factory import get_dialect, get_parameters

SERVER_DIALECTS = list(sg.DIALECTS) + ["redshift"]
SSL = {m.value: m for m in ConnectionSSLMode}
NICE = "abcXYZ019-._~"
RESERVED = ":/?#[]@!$&'()*+,;=%"
NASTY = " \"\\{}|^`<>\t\n\r\x00\x7f"
WIDE = "éßİ日本語Ωж\u2028\U0001f600"
WORDS = ["", "%20", "%2F", "%%", "//", "/", "..", "}", "{x}", ";PWD=other", ";SERVER=evil", "a=b", "user@host", ":5432", "?ssl=disable", "#x", "+", "%", "\\", "''", "@localhost", "{", "}}", " lead", "trail ", ";", "&ssl=disable"]
HOSTS = ["localhost", "server.example.com", "127.0.0.1", "10.0.0.255", "db-1.internal", "a", "xn--bcher-kva.example"]
HOSTS6 = ["::1", "fe80::1:2", "2001:db8::ff00:42:8329"]


def text(rng, n=12):
    k = rng.random()
    if k < 0.25:
        return "".join(rng.choice(NICE) for _ in range(rng.randint(1, n)))
    if k < 0.5:
        return (rng.choice(WORDS) + rng.choice(["", "x", "p1"]) + rng.choice(WORDS)) or "w"
    return "".join(rng.choice(rng.choice([NICE, NICE, RESERVED, NASTY, WIDE])) for _ in range(rng.randint(1, n)))


def encoded(rng, s, extra=""):
    """One of the many percent-encodings of a text that are legal at its position."""
    safe = rng.choice(["", "", extra])
    out = []
    for c in s:
        if c in safe or (c.isascii() and (c.isalnum() or c in "-._~") and rng.random() < 0.95):
            out.append(c)
        else:
            q = "".join(f"%{b:02X}" for b in c.encode("utf-8"))
            out.append(q.lower() if rng.random() < 0.3 else q)
    return "".join(out)


def components(rng, hosts6=True):
    c = dict(host=None, port=None, username=None, password=None, database=None, ssl=None)
    c["host"] = rng.choice(HOSTS + (HOSTS6 if hosts6 else []))
    if rng.random() < 0.7:
        c["port"] = rng.choice([1, 80, 1234, 5432, 65535, rng.randint(1, 65535)])
    if rng.random() < 0.85:
        c["username"] = text(rng)
        if rng.random() < 0.85:
            c["password"] = text(rng)
    if rng.random() < 0.8:
        c["database"] = text(rng)
    if rng.random() < 0.6:
        c["ssl"] = rng.choice(list(SSL.values()))
    return c


def url_of(rng, dialect, c):
    u = f"{dialect}://"
    if c["username"] is not None:
        u += encoded(rng, c["username"], "!$&'()*+,;=")
        if c["password"] is not None:
            u += ":" + encoded(rng, c["password"], "!$&'()*+,;=:")
        u += "@"
    u += f"[{c['host']}]" if ":" in c["host"] else c["host"]
    if c["port"] is not None:
        u += f":{c['port']}"
    if c["database"] is not None:
        u += "/" + encoded(rng, c["database"], "!$&'()*+,;=:@")
    elif rng.random() < 0.3:
        u += rng.choice(["", "/"])
    if c["ssl"] is not None:
        u += "?" + rng.choice(["", "application=x&"]) + "ssl=" + rng.choice([c["ssl"].value, c["ssl"].value.replace("-", "%2D")])
    return u


FIELDS = ("host", "port", "username", "password", "database", "ssl")


def as_dict(p):
    return {f: getattr(p, f) for f in FIELDS}


def urls(obs: Obs, seed: int, n: int = 300):
    rng = random.Random(f"c15/{seed}")
    for _ in range(n):
        c = components(rng)
        d = rng.choice(SERVER_DIALECTS)
        u = url_of(rng, d, c)
        try:
            dialect, p = get_parameters(u)
        except Exception as e:
            raise Violation(f"{u!r} is refused: {type(e).__name__}: {e}")
        got = as_dict(p)
        if c["database"] is None and got["database"] == "":
            got["database"] = None  # a URL that ends with a slash
        if dialect != d or got != c:
            diff = {k: (got[k], c[k]) for k in FIELDS if got[k] != c[k]}
            raise Violation(f"{u!r}: dialect {dialect}, (got, encoded): {diff}")
        kinds = []
        for k in ("username", "password", "database"):
            v = c[k]
            kinds.append("none" if v is None else "".join(sorted({"r" if ch in RESERVED else "n" if ch in NASTY else "w" if not ch.isascii() else "a" for ch in v})))
        obs.see(("url", c["port"] is None, c["ssl"] and c["ssl"].value, *kinds), kind="URLs decoded")
        textual(obs, p, c)
        obs.sample(u)


def textual(obs, p, c):
    """The textual form names everything but the password."""
    s = str(p)
    if not (c["host"] and ":" in c["host"]):
        try:
            _, again = get_parameters("x://" + s)
        except Exception as e:
            raise Violation(f"textual form {s!r} cannot be parsed: {e}")
        want = dict(c, password=None)
        if as_dict(again) != want:
            raise Violation(f"textual form {s!r} stands for {as_dict(again)} instead of {want}")
        obs.see(None, kind="textual forms parsed")
    q = "pw" + "".join(random.Random(s).choice("QWXYZ0123456789#/;") for _ in range(10))  # cannot be confused with another component
    p2 = dataclasses.replace(p, password=q)
    for how, t in (("str", str(p2)), ("repr", repr(p2)), ("format", f"{p2}"), ("%s", "%s" % p2), ("%r", "%r" % p2)):
        if q in t or quote(q, safe="") in t or repr(q)[1:-1] in t:
            raise Violation(f"{how} of connection parameters contains the password: {t}")
    if c["password"] is not None and (str(p) != str(p2) or repr(p) != repr(p2)):
        raise Violation(f"text depends on the password: {p} {p2} {p!r} {p2!r}")
    obs.see(None, kind="texts without password")


def refusals(obs: Obs, seed: int):
    """Malformed options are refused without giving away the password."""
    rng = random.Random(f"c15r/{seed}")
    for bad in ["ssl=yes", "ssl=REQUIRE", "ssl=require&ssl=disable", "ssl=disable&ssl=disable", "ssl=verify", "ssl=verify_ca", "ssl=none", "ssl=require%20", "ssl"]:
        for _ in range(3):
            c = components(rng)
            c["username"], c["ssl"] = c["username"] or "u", None
            c["password"] = "S3cr3t!" + "".join(rng.choice("QWXYZ") for _ in range(8))
            u = url_of(rng, "postgresql", c) + "?" + bad
            try:
                _, p = get_parameters(u)
            except ValueError as e:
                if c["password"] in str(e) or quote(c["password"], safe="") in str(e):
                    raise Violation(f"error contains the password: {e}")
                obs.see(("refused", bad), kind="malformed URLs refused")
            else:
                raise Violation(f"option {bad!r} is accepted as {p.ssl}")
    for port in ["99999", "abc", "-1"]:
        u = f"mysql://u:S3cr3tQQ@h:{port}/d"
        try:
            _, p = get_parameters(u)
        except ValueError as e:
            if "S3cr3tQQ" in str(e):
                raise Violation(f"error contains the password: {e}")
            obs.see(("refused", port), kind="malformed URLs refused")
        else:
            raise Violation(f"port {port!r} is accepted as {p.port}")


# --- what drivers receive ---------------------------------------------------------------------------------------------


def odbc(s):
    """Attributes of an ODBC connection string in order, by the rules of the driver manager."""
    out, i = [], 0
    while i < len(s):
        if s[i] in "; \t\r\n":
            i += 1
            continue
        j = s.find("=", i)
        if j < 0:
            raise Violation(f"malformed connection string at {s[i:]!r}")
        key = s[i:j].strip().upper()
        i = j + 1
        while i < len(s) and s[i] == " ":
            i += 1
        if i < len(s) and s[i] == "{":
            i += 1
            v = ""
            while True:
                if i >= len(s):
                    raise Violation(f"unterminated value of {key}")
                if s[i] == "}":
                    if s[i + 1 : i + 2] == "}":
                        v += "}"
                        i += 2
                        continue
                    break
                v += s[i]
                i += 1
            i += 1
            j = s.find(";", i)
            j = len(s) if j < 0 else j
            if s[i:j].strip():
                raise Violation(f"text after the value of {key}: {s[i:j]!r}")
        else:
            j = s.find(";", i)
            j = len(s) if j < 0 else j
            v = s[i:j].rstrip()
        i = j + 1
        out.append((key, v))
    return out


ODBC_ALIAS = {"UID": "user", "USER": "user", "PWD": "password", "PASSWORD": "password", "DATABASE": "database", "SERVER": "server", "ADDRESS": "server", "ADDR": "server", "NETWORK ADDRESS": "server"}
ODBC_HARMLESS = {"DRIVER", "APP", "LONGASMAX", "TRUSTSERVERCERTIFICATE", "ENCRYPT", "CHARSET", "MARS_CONNECTION", "TIMEOUT", "AUTOCOMMIT", "ATTRS_BEFORE", "ANSI", "READONLY"}


def received(dialect, kw):
    """(host, port, user, password, database) as the driver understands them."""
    r = {k: v for k, v in kw.items() if v is not None}
    if dialect == "postgresql":
        if "dsn" in r or "passfile" in r or "service" in r:
            raise Violation(f"further connection source: {sorted(r)}")
        if r.get("server_settings"):
            raise Violation(f"settings {r['server_settings']}")
        return r.get("host"), r.get("port"), r.get("user"), r.get("password"), r.get("database")
    if dialect == "mysql":
        for k in ("read_default_file", "unix_socket"):
            if k in r:
                raise Violation(f"further connection source: {k}")
        return r.get("host"), r.get("port"), r.get("user"), r.get("password"), r.get("db", r.get("database"))
    if dialect == "redshift":
        return r.get("host"), r.get("port"), r.get("db_user", r.get("user")), r.get("password"), r.get("database")
    if dialect == "oracle":
        host, port, service = r.get("host"), r.get("port"), r.get("service_name")
        if "dsn" in r:
            import oracledb

            cp = oracledb.ConnectParams()
            cp.parse_connect_string(r["dsn"])
            host, port, service = cp.host, cp.port, cp.service_name
            if cp.user is not None or cp.sid is not None:
                raise Violation(f"connect string with {cp}")
        return host, port, r.get("user"), r.get("password"), service
    seen = {}
    items = odbc(r.pop("connstring", "") or "") + [(k.upper(), v) for k, v in r.items()]
    for k, v in items:
        if k in ODBC_HARMLESS:
            if isinstance(v, str) and k == "APP" and v != "pysqlsync":
                raise Violation(f"application name {v!r}")
            continue
        if k not in ODBC_ALIAS:
            raise Violation(f"attribute {k}={v!r} in the connection string was not asked for")
        if ODBC_ALIAS[k] in seen:
            raise Violation(f"attribute {k} given twice")
        seen[ODBC_ALIAS[k]] = v
    server = seen.get("server")
    host, port = server, None
    if server and "," in server:
        host, port = server.rsplit(",", 1)
        port = int(port)
    return host, port, seen.get("user"), seen.get("password"), seen.get("database")


DEFAULTS = {  # accepted for an absent component
    "postgresql": dict(host=[None, "localhost"], port=[None, 5432], user=[None], password=[None], database=[None]),
    "mysql": dict(host=[None, "localhost"], port=[None, 3306], user=[None], password=[None, ""], database=[None]),
    "mssql": dict(host=[None, "localhost"], port=[None, 1433], user=[None], password=[None], database=[None]),
    "oracle": dict(host=[None, "localhost"], port=[None, 1521], user=[None], password=[None], database=[None, "FREEPDB1"]),
    "redshift": dict(host=[None], port=[None, 5439], user=[None], password=[None], database=[None]),
}


def backend(dialect):
    if dialect == "redshift":
        redshift.install()
        b = drivers.Backend("postgresql")
        drivers.route("redshift", b)
        return b
    return sc.backend(dialect)


def handed(obs: Obs, dialect: str, seed: int, n: int = 25):
    rng = random.Random(f"c15h/{dialect}/{seed}")
    for _ in range(n):
        c = components(rng, hosts6=dialect not in ("oracle", "mssql"))
        if rng.random() < 0.3:
            c["host"] = None
        if dialect == "oracle":
            c["database"] = rng.choice([None, "FREEPDB1", "xe", "my.service.example", "svc_1"])
        if dialect in ("mssql", "oracle", "redshift"):
            c["ssl"] = None
        if dialect == "mssql":
            for k in ("username", "password", "database"):
                if c[k] is not None and "\x00" in c[k]:
                    c[k] = c[k].replace("\x00", "0")
        b = backend(dialect)
        via_url = c["host"] is not None and rng.random() < 0.5
        if via_url:
            d, p = get_parameters(url_of(rng, dialect, c))
        else:
            d, p = dialect, ConnectionParameters(**c)

        async def body():
            async with get_dialect(d).create_connection(p):
                pass

        sc.run(body())
        if not b.connects:
            raise Violation("no connection was opened")
        for kw in b.connects:
            got = dict(zip(("host", "port", "user", "password", "database"), received(dialect, kw)))
            want = dict(host=c["host"], port=c["port"], user=c["username"], password=c["password"], database=c["database"])
            for k, v in want.items():
                if dialect == "redshift" and k == "password":
                    if got[k] not in (None, v):
                        raise Violation(f"the driver receives the password {got[k]!r} instead of {v!r}")
                elif v is None or (k == "database" and v == ""):
                    if got[k] not in DEFAULTS[dialect][k] and got[k] != v and not (k == "database" and got[k] == ""):
                        raise Violation(f"the driver receives {k}={got[k]!r} though none was given")
                elif got[k] != v:
                    raise Violation(f"the driver receives {k}={got[k]!r} instead of {v!r}")
            obs.see((dialect, via_url, *(v is None for v in want.values())), kind="connects inspected")
    obs.sample(f"{dialect}: last {want}")


# --- secrets ----------------------------------------------------------------------------------------------------------


class Listener(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.lines = []

    def emit(self, record):
        try:
            self.lines.append(self.format(record))
        except Exception as e:
            self.lines.append(f"unformattable {e}")
        self.lines.append(repr(record.__dict__))


@contextlib.contextmanager
def listening():
    """Everything logged, printed or warned about inside the block."""
    handler = Listener()
    root = logging.getLogger()
    level, disabled = root.level, logging.root.manager.disable
    out, err = io.StringIO(), io.StringIO()
    lib = logging.getLogger("pysqlsync")
    liblevel = lib.level
    try:
        logging.disable(logging.NOTSET)
        root.setLevel(logging.DEBUG)
        lib.setLevel(logging.DEBUG)
        root.addHandler(handler)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            handler.finish = lambda: handler.lines + [out.getvalue(), err.getvalue()] + [str(w.message) for w in caught]
            yield handler
    finally:
        root.removeHandler(handler)
        root.setLevel(level)
        lib.setLevel(liblevel)
        logging.disable(disabled)


def chain(e):
    import traceback

    seen, out = set(), []
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        out.append(f"{e!r} {e} {getattr(e, '__notes__', '')}")
        e = e.__cause__ or e.__context__
    return out


def secrecy(obs: Obs, dialect: str, seed: int):
    """A session with successes and failures of every kind; nothing the library says names the password."""
    rng = random.Random(f"c15s/{dialect}/{seed}")
    token = "".join(rng.choice("QWXYZ9847") for _ in range(14))
    secret = rng.choice(["", "p@", "%", "a b", "'", "é", "{", ";", "\\"]) + token + rng.choice(["", "!", "}", "/"])
    ssl = rng.choice([None] + list(ConnectionSSLMode)) if dialect in ("postgresql", "mysql") else None
    p = ConnectionParameters(host="db.example", port=1234, username="user", password=secret, database="testdb", ssl=ssl)
    texts = []

    def look(where, parts):
        for t in parts:
            texts.append(where)
            if token in t:
                raise Violation(f"{where} contains the password: {t[max(0, t.find(token) - 120):t.find(token) + 40]!r}")

    modes = None
    if dialect != "redshift":
        while True:
            modes = sc.random_modes(rng, dialect, foreign=1.0, init=1.0)
            if modes.enum != "check":
                break
        world = sg.gen_world(rng, dialect, modes, sc.stable_features(dialect, max_tables=3, max_modules=2))

    async def session(b, fault):
        if modes is None:
            conn = get_dialect(dialect).create_connection(p)
            texts.extend(("conn", repr(conn), str(conn)))
            async with conn as ctx:
                look("a context", [repr(ctx), str(ctx)])
                await ctx.execute('CREATE TABLE "t" ("id" integer);')
            return
        with sg.Rendered(world) as R:
            conn = get_dialect(dialect).create_connection(p, sg.generator_options(modes, R.namespaces(rng)))
            look("a connection", [repr(conn), str(conn)])
            async with conn as ctx:
                look("a context", [repr(ctx), str(ctx)])
                explorer = get_dialect(dialect).create_explorer(ctx)
                await explorer.synchronize(modules=R.modules)
                if fault == "statement":
                    await ctx.execute("THIS IS NOT SQL;")
                if fault == "caller":
                    raise KeyError("caller")
                await explorer.synchronize(modules=R.modules)

    for fault in [None, "connect", "open", "statement", "caller", "close", "late"]:
        b = backend(dialect)
        if fault == "connect":
            b.connect_fault = lambda kw, n: rng.choice([OSError, ConnectionRefusedError, RuntimeError])("cannot connect")
        elif fault in ("open", "late"):
            count = [0]
            at = 1 if fault == "open" else rng.randint(2, 12)

            def call(method, stmt):
                count[0] += 1
                return RuntimeError("server went away") if count[0] == at else None

            b.call_fault = call
        elif fault == "close":
            b.close_fault = RuntimeError("cannot close")
        with listening() as heard:
            try:
                sc.run(session(b, fault))
            except Violation:
                raise
            except Exception as e:
                errors = chain(e)
            else:
                errors = []
            lines = heard.finish()
        look("an error", errors)
        look("a log record", lines)
        if not heard.lines:
            raise Violation("nothing was logged: the monitor is not attached")
        obs.see((dialect, fault, bool(errors), ssl and ssl.value), len(lines) + len(errors), kind="texts without password")
        obs.count("log records", len(heard.lines) // 2)
        obs.count("errors inspected", len(errors))


def factory_secrecy(obs: Obs, seed: int):
    rng = random.Random(f"c15f/{seed}")
    for _ in range(10):
        token = "".join(rng.choice("QWXYZ9847") for _ in range(14))
        with listening() as heard:
            d, p = get_parameters(f"postgresql://u:{token}@h/db?ssl=require")
            try:
                get_dialect("nonesuch")
            except ValueError:
                pass
            lines = heard.finish()
        for t in lines + [str(p), repr(p)]:
            if token in t:
                raise Violation(f"the password is shown: {t!r}")
        obs.see("factory", kind="texts without password")


# --- probes -----------------------------------------------------------------------------------------------------------


def probe_database(obs):
    _, p = get_parameters("postgresql://u@h/my%2Fdb%20x")
    if p.database != "my/db x":
        raise Violation(f"database {p.database!r}")
    _, p = get_parameters("postgresql://u@h/db;x=1")
    if p.database != "db;x=1":
        raise Violation(f"database {p.database!r}")


def probe_odbc(obs):
    b = sc.backend("mssql")

    async def body():
        async with get_dialect("mssql").create_connection(ConnectionParameters(host="h", username="u", password="x;SERVER=evil;PWD=y", database="d}")):
            pass

    sc.run(body())
    got = received("mssql", b.connects[0])
    if got != ("h", None, "u", "x;SERVER=evil;PWD=y", "d}"):
        raise Violation(f"{got}")


def probe_repr(obs):
    if "hush99" in repr(ConnectionParameters(host="h", password="hush99")):
        raise Violation("repr shows the password")


def main():
    c = Check(
        "C15",
        "distinct (component presence and character classes of user, password, database; port; option) in URLs decoded, (dialect, components given) in driver calls inspected, (dialect, kind of failure, error raised, option) in sessions listened to",
        [
            "drivers are stand-ins that record what they receive; ODBC connection strings are decoded by the documented rules, Oracle connect strings by the driver's own parser",
            "the textual form of parameters whose host is a literal IPv6 address is not parsed again",
            "Oracle service names are ordinary names (the connect string has no escapes); an empty user name or password counts as absent",
            "Redshift authenticates with IAM and receives no password; SQL Server, Oracle and Redshift have no transport-security option",
        ],
    )
    for s in c.seeds(c.pick(12, 200), 1):
        c.add(urls, seed=s)
    for s in c.seeds(c.pick(2, 10), 2):
        c.add(refusals, seed=s)
        c.add(factory_secrecy, seed=s)
    for d in SERVER_DIALECTS:
        for s in c.seeds(c.pick(8, 100), 3):
            c.add(handed, dialect=d, seed=s)
        for s in c.seeds(c.pick(10, 120), 4):
            c.add(secrecy, dialect=d, seed=s)
    c.probe("database-decoding", probe_database)
    c.probe("odbc-injection", probe_odbc)
    c.probe("repr-password", probe_repr)
    c.require(**{"URLs decoded": 2000, "connects inspected": 500, "log records": 500, "errors inspected": 50, "malformed URLs refused": 20})
    c.finish()


main()
