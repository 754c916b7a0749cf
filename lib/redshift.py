"""Stand-in for the part of redshift_connector that the library uses; it knows canned answers only."""

import harness  # noqa: F401
from simdb import drivers


class FakeRedshift:
    """The part of redshift_connector that the library uses."""

    def __init__(self, backend):
        self.backend = backend
        self.autocommit = False
        self.closed_count = 0
        self.no = 0

    def cursor(self):
        return FakeRedshiftCursor(self)

    def close(self):
        self.backend.calls.append((self.no, "close", "", None))
        self.closed_count += 1
        if self.backend.close_fault:
            raise self.backend.close_fault


class FakeRedshiftCursor:
    def __init__(self, conn):
        self.conn = conn
        self.rows = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass

    def _go(self, method, sql):
        b = self.conn.backend
        if b.block:
            b.block(method, sql)
        b.calls.append((self.conn.no, method, sql, None))
        if b.call_fault:
            e = b.call_fault(method, sql)
            if e is not None:
                raise e

    def execute(self, sql, args=None, stream=None):
        self._go("execute", sql)
        if sql in self.conn.backend.server.canned:
            self.rows = [list(r) for r in self.conn.backend.server.canned[sql][1]]
        return self

    def executemany(self, sql, records):
        self._go("executemany", sql)
        return self

    def fetchall(self):
        return tuple(self.rows)


def install():
    import redshift_connector

    def connect(**kw):
        b = drivers.ROUTES["redshift"](kw)
        return b.open(FakeRedshift(b), kw)

    redshift_connector.connect = connect
