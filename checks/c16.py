"""C16: the transport of a connection is what the requested mode asks for, whatever the server does."""

import asyncio
import atexit
import contextlib
import datetime
import os
import shutil
import socket
import ssl
import struct
import sys
import tempfile
import threading

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import random

import harness
from harness import Check, Obs, Violation
import scenario as sc

import aiomysql
import asyncpg
import pymysql
from pymysql.constants import CLIENT

from pysqlsync.base import ConnectionParameters
from pysqlsync.connection import ConnectionSSLMode
from pysqlsync.factory import get_dialect, get_parameters

M = ConnectionSSLMode
STRICT = (M.require, M.verify_ca, M.verify_full)
DIALECTS = ("postgresql", "mysql")


# --- drivers that record ---------------------------------------------------------------------------------------------


def transport(dialect, kw):
    """What the driver does when given these arguments: (kind, verifies the certificate, verifies the host name)."""
    v = kw.get("ssl")
    if isinstance(v, ssl.SSLContext):
        return "tls", v.verify_mode == ssl.CERT_REQUIRED, bool(v.check_hostname and v.verify_mode == ssl.CERT_REQUIRED)
    if dialect == "mysql":
        if v:
            raise Violation(f"aiomysql takes no {v!r} for an SSL context")
        return "plain", False, False
    if v is None:
        return "driver default", False, False
    if v is False or v == "disable":
        return "plain", False, False
    if v is True:
        return "tls", True, True
    table = {"allow": ("either", False, False), "prefer": ("either", False, False), "require": ("tls", False, False), "verify-ca": ("tls", True, False), "verify-full": ("tls", True, True)}
    if v in table:
        return table[v]
    raise Violation(f"unknown ssl argument {v!r}")


FAULTS = {
    "postgresql": {
        "refused": lambda: ConnectionRefusedError(111, "Connection refused"),
        "reset": lambda: ConnectionResetError(104, "reset"),
        "rejected": lambda: ConnectionError("server rejected SSL upgrade"),
        "tls": lambda: ssl.SSLError(1, "handshake failure"),
        "certificate": lambda: ssl.SSLCertVerificationError(1, "certificate verify failed"),
        "unreachable": lambda: OSError(113, "No route to host"),
        "authorization": lambda: asyncpg.exceptions.InvalidAuthorizationSpecificationError("no pg_hba.conf entry"),
        "password": lambda: asyncpg.exceptions.InvalidPasswordError("wrong"),
        "timeout": lambda: TimeoutError(),
        "other": lambda: RuntimeError("driver error"),
    },
    "mysql": {
        "refused": lambda: pymysql.err.OperationalError(2003, "Can't connect"),
        "lost": lambda: pymysql.err.OperationalError(2013, "Lost connection"),
        "secure": lambda: pymysql.err.OperationalError(3159, "Connections using insecure transport are prohibited"),
        "denied": lambda: pymysql.err.OperationalError(1045, "Access denied"),
        "tls": lambda: ssl.SSLError(1, "handshake failure"),
        "certificate": lambda: ssl.SSLCertVerificationError(1, "certificate verify failed"),
        "internal": lambda: pymysql.err.InternalError(1, "internal"),
        "timeout": lambda: TimeoutError(),
        "other": lambda: RuntimeError("driver error"),
    },
}
FALLS_BACK = {"postgresql": ("refused", "reset", "rejected"), "mysql": ("refused", "lost", "secure", "denied")}


def preferred(mode):
    return {M.disable: ["plain"], M.prefer: ["tls", "plain"], M.allow: ["plain", "tls"]}.get(mode, ["tls"])


def judge_attempts(dialect, mode, attempts):
    """Each attempt's transport is admissible for the mode."""
    plan = preferred(mode)
    if len(attempts) > len(plan):
        raise Violation(f"{mode.value}: {len(attempts)} connection attempts {attempts}")
    for i, (kind, ca, host) in enumerate(attempts):
        if kind != plan[i]:
            raise Violation(f"{mode.value}: attempt {i + 1} uses transport '{kind}' instead of '{plan[i]}'")
        if mode is M.verify_ca and not ca:
            raise Violation("verify-ca: certificate is not verified")
        if mode is M.verify_full and not (ca and host):
            raise Violation(f"verify-full: certificate verified: {ca}, host name verified: {host}")


def recorded(obs: Obs, dialect: str, mode: str, outcomes: list, capable: bool = True, via_url: bool = False):
    """One connect; attempt i ends as outcomes[i] says ('ok' or the name of a fault)."""
    m = M(mode)
    b = sc.backend(dialect)
    raised = []

    def fault(kw, n):
        name = outcomes[n - 1] if n <= len(outcomes) else "other"
        if name == "ok":
            return None
        e = FAULTS[dialect][name]()
        raised.append(e)
        return e

    b.connect_fault = fault
    if dialect == "mysql" and not capable:
        original = b.open

        def opened(conn, kw):
            conn = original(conn, kw)
            conn.server_capabilities &= ~CLIENT.SSL
            return conn

        b.open = opened
    if via_url:
        _, p = get_parameters(f"{dialect}://user:pw@db.example:1234/testdb?ssl={mode}")
    else:
        p = ConnectionParameters(host="db.example", port=1234, username="user", password="pw", database="testdb", ssl=m)

    async def body():
        async with get_dialect(dialect).create_connection(p) as ctx:
            await ctx.execute("SELECT 1;")

    error = None
    try:
        sc.run(body())
    except Exception as e:
        error = e
    attempts = [transport(dialect, kw) for kw in b.connects]
    judge_attempts(dialect, m, attempts)
    ran = [c for c in b.calls if c[1] in ("execute", "cursor.execute", "query") or "SELECT 1" in str(c[2])]
    if not attempts:
        raise Violation("no attempt to connect")
    # the outcome the sequence of attempts leads to
    good = False
    for i in range(len(attempts)):
        name = outcomes[i] if i < len(outcomes) else "other"
        if name == "ok" and attempts[i][0] == "tls" and not capable:
            name = "secure"  # the driver connects without encryption
        if name == "ok":
            good = True
            if i + 1 != len(attempts):
                raise Violation(f"{mode}: another attempt after a successful one")
        elif i + 1 == len(attempts) and i + 1 < len(preferred(m)) and name in FALLS_BACK[dialect]:
            raise Violation(f"{mode}: no fall back after {name}")
    if good and error is not None:
        raise Violation(f"{mode}: connected, yet {error!r} was raised")
    if not good and error is None:
        raise Violation(f"{mode} {outcomes}: no attempt succeeded{'' if capable else ' with encryption'}, yet a session was used")
    if not good and ran:
        raise Violation(f"{mode}: statements were sent over a connection that must not be used: {ran[:2]}")
    if error is not None and raised and error is not raised[-1] and not (error.__cause__ is raised[-1] or type(error) is type(raised[-1])) and capable:
        raise Violation(f"{mode}: {error!r} surfaced instead of {raised[-1]!r}")
    for conn in b.conns:
        if conn.closed_count != 1:
            raise Violation(f"{mode}: a native connection was closed {conn.closed_count} times")
    obs.see((dialect, mode, tuple(outcomes[: len(attempts)]), capable, via_url), kind="connects judged")
    obs.count("attempts classified", len(attempts))
    obs.count("fall backs seen", len(attempts) - 1)
    obs.sample(f"{dialect} {mode} {outcomes}: {attempts} -> {error!r}")


def unspecified(obs: Obs, dialect: str):
    """Without a mode the driver decides; a single attempt is made."""
    for out in ["ok", *FAULTS[dialect]]:
        b = sc.backend(dialect)
        b.connect_fault = lambda kw, n: None if out == "ok" else FAULTS[dialect][out]()

        async def body():
            async with get_dialect(dialect).create_connection(ConnectionParameters(host="h", username="u")):
                pass

        try:
            sc.run(body())
        except Exception:
            if out == "ok":
                raise
        else:
            if out != "ok":
                raise Violation("a failure to connect did not surface")
        if len(b.connects) != 1:
            raise Violation(f"{len(b.connects)} attempts")
        obs.see((dialect, "unspecified", out), kind="connects judged")


# --- real drivers, servers on the loopback network --------------------------------------------------------------------

_certs = {}


def certificates():
    """Key and certificate files: 'trusted' (right name), 'stranger' (other name), 'selfsigned'; and the authority's."""
    if _certs:
        return _certs
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import ec

    home = tempfile.mkdtemp(prefix="c16-")
    atexit.register(shutil.rmtree, home, ignore_errors=True)
    now = datetime.datetime.now(datetime.timezone.utc)

    def name(cn):
        return x509.Name([x509.NameAttribute(x509.NameOID.COMMON_NAME, cn)])

    def make(file, cn, san, issuer=None):
        key = ec.generate_private_key(ec.SECP256R1())
        ik, ic = issuer or (key, None)
        b = x509.CertificateBuilder().subject_name(name(cn)).issuer_name(ic.subject if ic else name(cn)).public_key(key.public_key())
        b = b.serial_number(x509.random_serial_number()).not_valid_before(now - datetime.timedelta(days=1)).not_valid_after(now + datetime.timedelta(days=30))
        b = b.add_extension(x509.BasicConstraints(ca=san is None, path_length=None), critical=True)
        b = b.add_extension(x509.SubjectKeyIdentifier.from_public_key(key.public_key()), critical=False)
        b = b.add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(ik.public_key()), critical=False)
        if san is None:
            b = b.add_extension(x509.KeyUsage(False, False, False, False, False, True, True, False, False), critical=True)
        else:
            b = b.add_extension(x509.SubjectAlternativeName([x509.DNSName(n) for n in san]), critical=False)
        cert = b.sign(ik, hashes.SHA256())
        path = os.path.join(home, file)
        with open(path + ".key", "wb") as f:
            f.write(key.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.NoEncryption()))
        with open(path + ".crt", "wb") as f:
            f.write(cert.public_bytes(serialization.Encoding.PEM))
        _certs[file] = path
        return key, cert

    ca = make("authority", "Test Authority", None)
    make("trusted", "localhost", ["localhost"], ca)
    make("stranger", "elsewhere.example", ["elsewhere.example"], ca)
    make("selfsigned", "localhost", ["localhost"])
    return _certs


class Peer:
    """A database server that speaks just enough of the protocol to be connected to; it records what it sees."""

    def __init__(self, tls="accept", plain="accept", cert="trusted"):
        self.tls, self.plain, self.cert = tls, plain, cert
        self.log = []  # one list of events for each connection
        self.broken = []

    def context(self):
        c = certificates()
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        ctx.load_cert_chain(c[self.cert] + ".crt", c[self.cert] + ".key")
        return ctx

    async def __aenter__(self):
        self.server = await asyncio.start_server(self._client, "127.0.0.1", 0)
        self.port = self.server.sockets[0].getsockname()[1]
        return self

    async def __aexit__(self, *a):
        self.server.close()

    async def _client(self, r, w):
        events = []
        self.log.append(events)
        try:
            await asyncio.wait_for(self.talk(r, w, events), 10)
        except (asyncio.IncompleteReadError, ConnectionError, ssl.SSLError, asyncio.TimeoutError, OSError) as e:
            events.append(f"end:{type(e).__name__}")
        except asyncio.CancelledError:
            raise
        except Exception as e:  # a defect of this stand-in
            self.broken.append(repr(e))
        finally:
            with contextlib.suppress(Exception):
                w.close()


class PgPeer(Peer):
    async def talk(self, r, w, events):
        n, code = struct.unpack("!II", await r.readexactly(8))
        secure = False
        if code == 80877103:
            events.append("asks for tls")
            if self.tls == "close":
                return
            if self.tls == "error":
                w.write(b"E" + struct.pack("!I", 4 + 10) + b"SFATAL\0\0\0\0")
                await w.drain()
                return
            if self.tls == "reject":
                w.write(b"N")
                await w.drain()
            elif self.tls == "garbage":
                w.write(b"S" + b"this is not a handshake" * 20)
                await w.drain()
                await r.read(100)
                return
            else:
                w.write(b"S")
                await w.drain()
                await w.start_tls(self.context())
                events.append("tls")
                secure = True
            n, code = struct.unpack("!II", await r.readexactly(8))
        body = await r.readexactly(n - 8)
        if code != 196608:
            raise ValueError(f"startup code {code}")
        events.append("startup over tls" if secure else "startup in plain text")
        if not secure and self.plain != "accept":
            if self.plain == "refuse":
                m = b"SFATAL\0VFATAL\0C28000\0Mno pg_hba.conf entry, no encryption\0\0"
                w.write(b"E" + struct.pack("!I", 4 + len(m)) + m)
                await w.drain()
            return

        def msg(kind, data):
            return kind + struct.pack("!I", 4 + len(data)) + data

        out = msg(b"R", struct.pack("!I", 0))
        for k, v in (("server_version", "16.3"), ("client_encoding", "UTF8"), ("server_encoding", "UTF8"), ("integer_datetimes", "on"), ("standard_conforming_strings", "on"), ("TimeZone", "UTC")):
            out += msg(b"S", k.encode() + b"\0" + v.encode() + b"\0")
        out += msg(b"K", struct.pack("!II", 1, 2)) + msg(b"Z", b"I")
        w.write(out)
        await w.drain()
        events.append("session over tls" if secure else "session in plain text")
        while True:
            head = await r.readexactly(5)
            data = await r.readexactly(struct.unpack("!I", head[1:])[0] - 4)
            if head[:1] == b"X":
                events.append("closed")
                return
            if head[:1] == b"Q":
                events.append("query")
                w.write(msg(b"C", b"SET\0") + msg(b"Z", b"I"))
                await w.drain()


class MyPeer(Peer):
    """Blocking, on threads: the client sends its TLS greeting without waiting, which must not be read ahead."""

    async def __aenter__(self):
        self.sock = socket.create_server(("127.0.0.1", 0))
        self.port = self.sock.getsockname()[1]
        self.threads = []
        self.acceptor = threading.Thread(target=self.serve, daemon=True)
        self.acceptor.start()
        return self

    def serve(self):
        while True:
            try:
                s, _ = self.sock.accept()
            except OSError:
                return
            if self.stopped:
                s.close()
                return
            s.settimeout(10)
            t = threading.Thread(target=self.client, args=(s,), daemon=True)
            self.threads.append(t)
            t.start()

    stopped = False

    async def __aexit__(self, *a):
        self.stopped = True
        with contextlib.suppress(OSError):
            socket.create_connection(("127.0.0.1", self.port), timeout=5).close()  # wakes the acceptor
        await asyncio.to_thread(self.acceptor.join, 10)
        self.sock.close()
        for t in self.threads:
            await asyncio.to_thread(t.join, 15)

    def client(self, s):
        events = []
        self.log.append(events)
        box = [s]
        try:
            self.talk_blocking(box, events)
        except (EOFError, OSError) as e:
            events.append(f"end:{type(e).__name__}")
        except Exception as e:
            self.broken.append(repr(e))
        finally:
            with contextlib.suppress(OSError):
                box[0].close()

    def talk_blocking(self, box, events):
        seq = [0]

        def exactly(n):
            out = b""
            while len(out) < n:
                d = box[0].recv(n - len(out))
                if not d:
                    raise EOFError
                out += d
            return out

        def send(data):
            box[0].sendall(struct.pack("<I", len(data))[:3] + bytes([seq[0] & 255]) + data)
            seq[0] += 1

        def receive():
            h = exactly(4)
            seq[0] = h[3] + 1
            return exactly(h[0] | h[1] << 8 | h[2] << 16)

        if self.tls == "close" and self.plain == "close":
            return
        caps = CLIENT.CAPABILITIES | CLIENT.PLUGIN_AUTH | CLIENT.CONNECT_WITH_DB | CLIENT.SSL
        caps &= ~(CLIENT.PLUGIN_AUTH_LENENC_CLIENT_DATA | CLIENT.CONNECT_ATTRS)
        if self.tls == "reject":
            caps &= ~CLIENT.SSL
        salt = b"abcdefgh" + b"ijklmnopqrst"
        g = bytes([10]) + b"8.0.36\0" + struct.pack("<I", 7) + salt[:8] + b"\0" + struct.pack("<H", caps & 0xFFFF)
        g += bytes([45]) + struct.pack("<H", 2) + struct.pack("<H", caps >> 16 & 0xFFFF) + bytes([21]) + b"\0" * 10 + salt[8:] + b"\0mysql_native_password\0"
        send(g)
        data = receive()
        secure = False
        flags = struct.unpack("<I", data[:4])[0]
        if flags & CLIENT.SSL and len(data) == 32:
            events.append("asks for tls")
            if self.tls in ("close", "error"):
                return
            if self.tls == "garbage":
                box[0].sendall(b"this is not a handshake" * 20)
                box[0].recv(100)
                return
            box[0] = self.context().wrap_socket(box[0], server_side=True)
            events.append("tls")
            secure = True
            data = receive()
        events.append("startup over tls" if secure else "startup in plain text")
        if not secure and self.plain != "accept":
            if self.plain == "refuse":
                send(b"\xff" + struct.pack("<H", 3159) + b"#HY000insecure transport prohibited")
            return
        ok = b"\0\0\0" + struct.pack("<HH", 2, 0)
        send(ok)
        events.append("session over tls" if secure else "session in plain text")
        while True:
            data = receive()
            if data[:1] == b"\x01":
                events.append("closed")
                return
            if b"vmarker" in data:
                events.append("query")
            send(ok)


@contextlib.contextmanager
def real_drivers():
    saved = asyncpg.connect, aiomysql.connect, dict(os.environ)
    try:
        asyncpg.connect, aiomysql.connect = asyncpg.connection.connect, aiomysql.connection.connect
        os.environ["SSL_CERT_FILE"] = certificates()["authority"] + ".crt"
        for k in [k for k in os.environ if k.startswith("PG")]:
            del os.environ[k]
        yield
    finally:
        asyncpg.connect, aiomysql.connect = saved[:2]
        os.environ.clear()
        os.environ.update(saved[2])


def loopback(obs: Obs, dialect: str, mode: str, tls: str, plain: str, cert: str, env: str = ""):
    m = M(mode) if mode else None
    peer = (PgPeer if dialect == "postgresql" else MyPeer)(tls, plain, cert)
    error = []

    async def body():
        async with peer:
            p = ConnectionParameters(host="localhost", port=peer.port, username="user", password="pw", database="db", ssl=m)
            try:
                async with get_dialect(dialect).create_connection(p) as ctx:
                    await ctx.execute("SET vmarker = 1")
            except Exception as e:
                error.append(e)
            await asyncio.sleep(0.02)

    with real_drivers():
        if env:
            os.environ["PGSSLMODE"] = env
        sc.run(body())
    if peer.broken:
        raise RuntimeError(f"stand-in server: {peer.broken}")
    runs = peer.log
    used = ["tls" if "session over tls" in e else "plain" for e in runs if "query" in e]
    what = f"{dialect} {mode} (server: tls {tls}, plain {plain}, certificate {cert}): {runs}, error {error}"
    if len(used) > 1:
        raise Violation(f"several sessions: {what}")
    if bool(used) == bool(error):
        raise Violation(f"outcome does not match what the server saw: {what}")
    tries = ["tls" if "asks for tls" in e else "plain" for e in runs]
    if m is M.disable:
        if "tls" in tries:
            raise Violation(f"encryption used though disabled: {what}")
        if len(tries) > 1:
            raise Violation(f"more than one attempt: {what}")
        if plain == "accept" and not used:
            raise Violation(f"could not connect: {what}")
    elif m in STRICT:
        for e in runs:
            if "query" in e and "session over tls" not in e:
                raise Violation(f"statement sent in plain text: {what}")
            if dialect == "postgresql" and "startup in plain text" in e:
                raise Violation(f"connection opened in plain text: {what}")
        if used and (m is not M.require) and cert == "selfsigned":
            raise Violation(f"certificate not verified: {what}")
        if used and m is M.verify_full and cert == "stranger":
            raise Violation(f"host name not verified: {what}")
        fine = tls == "accept" and (m is M.require or cert == "trusted" or (m is M.verify_ca and cert == "stranger"))
        if fine and not used:
            raise Violation(f"could not connect: {what}")
        if len(tries) > 1:
            raise Violation(f"more than one attempt: {what}")
    elif m is M.prefer:
        if dialect == "postgresql" and tries[0] != "tls":
            raise Violation(f"encryption not tried first: {what}")
        if tls == "accept" and (len(tries) > 1 or used != ["tls"]):
            raise Violation(f"encryption is available, yet not used: {what}")
        if tls == "reject" and plain == "accept" and used != ["plain"]:
            raise Violation(f"no fall back: {what}")
        if len(tries) > 2:
            raise Violation(f"more than two attempts: {what}")
    elif m is M.allow:
        if tries[0] != "plain":
            raise Violation(f"plain text not tried first: {what}")
        if plain == "accept" and (len(tries) > 1 or used != ["plain"]):
            raise Violation(f"plain text is available, yet not used: {what}")
        if len(tries) > 2:
            raise Violation(f"more than two attempts: {what}")
    obs.see((dialect, mode, tls, plain, cert, env, tuple(tries), bool(used)), kind="connects over the network")
    obs.count("network attempts", len(tries))
    obs.count("encrypted sessions", used.count("tls"))
    obs.count("plain sessions", used.count("plain"))
    obs.count("failures surfaced", len(error))
    obs.sample(what)


# --- probes -----------------------------------------------------------------------------------------------------------


def probe_pg_disable(obs):
    recorded(obs, "postgresql", "disable", ["ok"])


def probe_pg_fallback(obs):
    recorded(obs, "postgresql", "prefer", ["rejected", "ok"])
    recorded(obs, "postgresql", "allow", ["ok"])


def probe_mysql_plain(obs):
    recorded(obs, "mysql", "require", ["ok"], capable=False)


def main():
    c = Check(
        "C16",
        "distinct (dialect, mode, outcomes of the attempts, server capability, URL or object) with recording drivers and (dialect, mode, server behaviour, certificate, attempts seen, session or error) with the real drivers over the loopback network",
        [
            "recording drivers interpret their arguments as asyncpg and aiomysql do; the real asyncpg and aiomysql then connect to servers on the loopback network that log each transport they see",
            "PostgreSQL and MySQL are the dialects with a transport-security option; without the option the driver decides",
            "aiomysql logs in before it can be seen whether the server lacks TLS; such a connection is closed without a statement of the caller, and an error surfaces",
            "which failures make 'prefer' and 'allow' fall back is driver-specific: connection errors (PostgreSQL), operational errors (MySQL)",
        ],
    )
    for d in DIALECTS:
        c.add(unspecified, dialect=d)
        names = ["ok", *FAULTS[d]]
        for m in M:
            for a in names:
                for second in names if len(preferred(m)) > 1 else ["ok", "refused"]:
                    if a == "ok" and second != "ok":
                        continue
                    c.add(recorded, dialect=d, mode=m.value, outcomes=[a, second], via_url=len(a) % 2 == 0)
            if d == "mysql":
                c.add(recorded, dialect=d, mode=m.value, outcomes=["ok", "ok"], capable=False)
                c.add(recorded, dialect=d, mode=m.value, outcomes=["ok", "denied"], capable=False)
            for tls in ("accept", "reject", "close", "error", "garbage"):
                for plain in ("accept", "refuse", "close"):
                    for cert in ("trusted", "stranger", "selfsigned") if tls == "accept" else ("trusted",):
                        c.add(loopback, dialect=d, mode=m.value, tls=tls, plain=plain, cert=cert)
                        if d == "postgresql" and plain == "accept" and cert == "trusted":
                            for env in ("disable", "prefer", "require"):
                                c.add(loopback, dialect=d, mode=m.value, tls=tls, plain=plain, cert=cert, env=env)
    c.probe("pg-disable", probe_pg_disable)
    c.probe("pg-fallback", probe_pg_fallback)
    c.probe("mysql-plain", probe_mysql_plain)
    c.require(**{"connects judged": 200, "fall backs seen": 50, "connects over the network": 150, "encrypted sessions": 30, "plain sessions": 20, "failures surfaced": 50})
    c.finish()


main()
