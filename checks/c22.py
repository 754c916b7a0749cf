"""C22: blocking drivers run off the event loop without mixing up results."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import asyncio
import itertools
import random
import threading
import time
import warnings

import harness
import redshift
import scenario as sc
import specgen as sg
from harness import Check, Obs, Skip, Violation
from simdb import drivers

from pysqlsync.base import ConnectionParameters, GeneratorOptions, QueryException
from pysqlsync.factory import get_dialect
from pysqlsync.formation.object_types import Column, Table
from pysqlsync.model.data_types import SqlIntegerType
from pysqlsync.model.id_types import LocalId
from pysqlsync.util.dispatch import thread_dispatch

warnings.simplefilter("ignore", RuntimeWarning)
PATIENCE = 20  # seconds after which an event that has to happen counts as lost


class Call:
    """One blocking call: when it may start, and what was seen of it."""

    def __init__(self, no, who=None):
        self.no, self.who = no, who
        self.issued = False
        self.starts = 0
        self.ends = 0
        self.gate = threading.Event()
        self.thread = None
        self.early = False
        self.stuck = False


class Gates:
    """Holds blocking calls at a gate until a task on the event loop lets them pass."""

    def __init__(self):
        self.lock = threading.Lock()
        self.waiting = []
        self.order = []
        self.most = 0
        self.trace = []

    def enter(self, call):
        with self.lock:
            call.starts += 1
            call.early |= not call.issued
            call.thread = threading.current_thread()
            self.waiting.append(call)
            self.most = max(self.most, len(self.waiting))
            self.trace.append(f"+{call.no}")
        if not call.gate.wait(PATIENCE):
            call.stuck = True
        with self.lock:
            call.ends += 1
            self.trace.append(f"-{call.no}")

    def take(self, rng):
        with self.lock:
            if not self.waiting:
                return None
            return self.waiting.pop(rng.randrange(len(self.waiting)))


class Heart:
    """Counts the turns of an event loop."""

    def __init__(self):
        self.ticks = 0

    async def beat(self):
        while True:
            self.ticks += 1
            await asyncio.sleep(0)


async def porter(gates, rng, done, heart, hold):
    """Lets waiting calls pass one at a time in random order, each only after the loop has made some turns."""
    idle = None
    while not done.is_set():
        wait_for = rng.choice([0, 1, 3])
        with gates.lock:
            ready = len(gates.waiting)
        if ready <= rng.choice([0, 0, hold]) and idle is None and not ready:
            idle = time.monotonic()
        if ready:
            idle = None
            for _ in range(wait_for):
                await asyncio.sleep(0)
            if rng.random() < 0.3:
                await asyncio.sleep(0.001)  # let further calls arrive
            call = gates.take(rng)
            before = heart.ticks
            for _ in range(5):
                await asyncio.sleep(0)
            if heart.ticks <= before:
                raise Violation("other tasks do not run while a call is in progress")
            call.gate.set()
        else:
            await asyncio.sleep(0.0003)
            if idle is not None and time.monotonic() - idle > PATIENCE:
                return


class Boom(Exception):
    pass


class Deep(LookupError):
    pass


def judge_calls(obs, calls, loop_threads, gates, what):
    for c in calls:
        if c.stuck:
            raise Violation(f"{what}: the event loop did not run while call {c.no} was in progress (order {' '.join(gates.trace)})")
        if c.early:
            raise Violation(f"{what}: call {c.no} started before it was issued")
        if c.issued and (c.starts, c.ends) != (1, 1):
            raise Violation(f"{what}: call {c.no} was issued once but started {c.starts} and ended {c.ends} times")
        if not c.issued and c.starts:
            raise Violation(f"{what}: call {c.no} was never issued but ran {c.starts} times")
        if c.thread in loop_threads:
            raise Violation(f"{what}: call {c.no} ran on the thread of the event loop")
    obs.count("calls", len(calls))
    obs.see(" ".join(gates.trace)[:400], n=len(calls), kind="calls judged")
    if gates.most > 1:
        obs.count("runs with overlapping calls")


def make_function(gates, calls, results):
    def blocking(call, a, *rest, flavour="value", **kw):
        gates.enter(call)
        token = results[call.no]
        if (a, rest, kw) != token["args"]:
            token["wrong"] = f"arguments {(a, rest, kw)} instead of {token['args']}"
        if flavour == "raise":
            raise token["error"]
        if flavour == "none":
            return None
        return token["value"]

    return blocking


async def direct_body(rng, gates, obs, cancels, numbers, calls, threads):
    threads.add(threading.current_thread())
    heart = Heart()
    beat = asyncio.ensure_future(heart.beat())
    done = asyncio.Event()
    results = {}
    fn = make_function(gates, calls, results)
    dispatched = thread_dispatch(fn)
    if rng.random() < 0.3:

        class Holder:
            @thread_dispatch
            def method(self, *a, **kw):
                return fn(*a, **kw)

        dispatched = Holder().method
    doors = asyncio.ensure_future(porter(gates, rng, done, heart, 2))
    cancelled = []

    def new():
        c = Call(next(numbers))
        calls.append(c)
        args = (rng.randint(0, 9), tuple(rng.sample("abc", rng.randint(0, 2))), {k: rng.random() for k in rng.sample(["x", "y"], rng.randint(0, 2))})
        results[c.no] = {"args": args, "value": object(), "error": rng.choice([Boom, Deep, OSError, ValueError, KeyError, RuntimeError])(f"error of {c.no}")}
        return c, args

    async def once(how=None):
        c, (a, rest, kw) = new()
        flavour = rng.choice(["value", "value", "raise", "none"])
        pending = dispatched(c, a, *rest, flavour=flavour, **kw)
        if rng.random() < 0.3:
            # a coroutine that nobody awaits yet
            for _ in range(rng.randint(1, 5)):
                await asyncio.sleep(0)
            if rng.random() < 0.15:
                pending.close()
                obs.count("calls never awaited")
                return
        c.issued = True
        if how == "cancel":
            task = asyncio.ensure_future(pending)
            for _ in range(rng.randint(0, 6)):
                await asyncio.sleep(0)
            if rng.random() < 0.5:
                await asyncio.sleep(0.001)
            if c.starts == 0 and not task.done():
                # not started yet: it may or may not run
                c.issued = None
            t0 = heart.ticks
            task.cancel()
            try:
                got = await task
                outcome = "completed"
                if got is not (None if flavour == "none" else results[c.no]["value"]):
                    raise Violation(f"call {c.no} returned {got!r} of another call")
            except asyncio.CancelledError:
                outcome = "cancelled"
            except Exception as e:
                outcome = "failed"
                if e is not results[c.no]["error"]:
                    raise Violation(f"call {c.no} raised {e!r} instead of its own error")
            cancelled.append((c, outcome, heart.ticks - t0))
            obs.count(f"cancelled calls that {outcome}")
            return
        try:
            got = await pending
        except Exception as e:
            if isinstance(e, Violation):
                raise
            if flavour != "raise" or e is not results[c.no]["error"]:
                raise Violation(f"call {c.no} raised {e!r} instead of {'its own error' if flavour == 'raise' else 'returning'}")
            obs.count("errors delivered")
        else:
            want = {"raise": "an error", "none": None}.get(flavour, results[c.no]["value"])
            if got is not want:
                raise Violation(f"call {c.no} returned {got!r} instead of {want!r}")
            obs.count("results delivered")
        if "wrong" in results[c.no]:
            raise Violation(results[c.no]["wrong"])
        if not c.ends:
            raise Violation(f"call {c.no} was reported complete while in progress")

    async def session(k):
        for _ in range(rng.randint(1, 5)):
            await once("cancel" if cancels and rng.random() < 0.3 else None)
            if rng.random() < 0.2:
                await asyncio.gather(*(once() for _ in range(rng.randint(2, 3))))

    try:
        await asyncio.wait_for(asyncio.gather(*(session(k) for k in range(rng.choice([1, 2, 4, 8])))), 4 * PATIENCE)
    except asyncio.TimeoutError:
        raise Violation("a call was never answered")
    finally:
        done.set()
        beat.cancel()
        with gates.lock:
            left = list(gates.waiting)
        for c in left:
            c.gate.set()
    await asyncio.sleep(0)
    if doors.done() and doors.exception():
        raise doors.exception()
    doors.cancel()
    obs.count("turns of the event loop", heart.ticks)


def direct(obs: Obs, seed: int, cancels: bool = False, loops: int = 1):
    rng = random.Random(f"c22d/{seed}/{cancels}/{loops}")
    numbers = itertools.count(1)
    calls, threads, gates = [], set(), [Gates() for _ in range(loops)]
    errors = []

    def one(i):
        try:
            sc.run(direct_body(random.Random(f"{seed}/{i}"), gates[i], obs, cancels, numbers, parts[i], threads))
        except BaseException as e:
            errors.append(e)

    parts = [[] for _ in range(loops)]
    if loops == 1:
        one(0)
    else:
        ts = [threading.Thread(target=one, args=(i,)) for i in range(loops)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    if errors:
        raise errors[0]
    for i in range(loops):
        for c in parts[i]:
            if c.issued is None:
                if c.starts > 1 or c.starts != c.ends:
                    raise Violation(f"call {c.no} started {c.starts} and ended {c.ends} times")
                c.issued = bool(c.starts)
        judge_calls(obs, parts[i], threads, gates[i], "call")


# --- sessions of dialects with a blocking driver -----------------------------------------------------------------


def database_of(dialect, kw):
    text = kw.get("connstring") or kw.get("dsn") or kw.get("database")
    return int(str(text).split("testdb")[1].split(";")[0].split("/")[0].rstrip("}"))


class Server0:
    """A server that only knows canned answers."""

    def __init__(self):
        self.canned = {}


def sessions(obs: Obs, dialect: str, seed: int, cancels: bool = False):
    rng = random.Random(f"c22s/{dialect}/{seed}/{cancels}")
    gates = Gates()
    n = rng.choice([2, 3, 5])
    backends = []
    calls = {}  # statement -> Call
    every = []
    threads = {threading.current_thread()}
    off_loop = []

    def block_for(i):
        def block(method, sql):
            off_loop.append((threading.current_thread(), method))
            c = calls.get(sql)
            if c is not None:
                if c.who != i:
                    raise Violation(f"statement of session {c.who} reached session {i}")
                gates.enter(c)

        return block

    class DriverError(Exception):
        pass

    def fault(method, sql):
        if "FAIL" in sql:
            e = errors[sql] = DriverError(f"refused {sql}")
            return e
        return None

    errors = {}
    if dialect == "redshift":
        redshift.install()
    for i in range(n):
        b = drivers.Backend(dialect) if dialect != "redshift" else drivers.Backend(dialect, Server0())
        b.block = block_for(i)
        b.call_fault = fault
        backends.append(b)
    drivers.route(dialect, lambda kw: backends[database_of(dialect, kw)])
    numbers = itertools.count(1)
    issued = [[] for _ in range(n)]

    async def session(i, heart):
        options = GeneratorOptions()
        conn = get_dialect(dialect).create_connection(ConnectionParameters(host="h", port=1, username="u", password="p", database=f"testdb{i}"), options)
        await asyncio.sleep(0)
        async with conn as ctx:
            for _ in range(rng.randint(1, 6)):
                no = next(numbers)
                kind = rng.choice(["query", "query", "one", "fail", "failquery", "execute", "rows", "keys"])
                if kind in ("rows", "keys"):
                    # a statement executed with several records
                    made = Table(LocalId(f"d{no}"), [Column(LocalId("k"), SqlIntegerType(8), False)], primary_key=(LocalId("k"),))
                    text = conn.generator.get_table_delete_stmt(made)
                    keys = rng.sample(range(99), rng.randint(1, 4))
                    if dialect != "redshift":
                        backends[i].server.run_script(f'CREATE TABLE "d{no}" ("k" {"bigint" if dialect == "mssql" else "number"} NOT NULL)')
                else:
                    text = f"SELECT a, b FROM t{no}" if kind in ("query", "one") else (f"SELECT FAIL{no}" if kind == "failquery" else (f"FAIL {no}" if kind == "fail" else f"SELECT {no}"))
                rows = [(no, f"{i}/{j}") for j in range(1 if kind == "one" else rng.randint(0, 4))]
                backends[i].server.canned[text] = (["a", "b"], rows)
                c = Call(no, i)
                calls[text] = c
                every.append(c)
                if kind == "one":
                    aw = ctx.query_one(tuple[int, str], text)
                elif kind in ("query", "failquery"):
                    aw = ctx.query_all(tuple[int, str], text)
                elif kind == "rows":
                    aw = ctx.execute_all(text, [(key,) for key in keys])
                elif kind == "keys":
                    aw = ctx.delete_rows(made, int, keys)
                else:
                    aw = ctx.execute(text)
                for _ in range(rng.randint(0, 2)):
                    await asyncio.sleep(0)
                c.issued = True
                issued[i].append(text)
                if cancels and rng.random() < 0.35:
                    task = asyncio.ensure_future(aw)
                    t = time.monotonic()
                    while c.starts == 0 and time.monotonic() - t < PATIENCE:
                        await asyncio.sleep(0.0003)
                    task.cancel()
                    try:
                        await task
                        obs.count("cancelled calls that completed")
                    except asyncio.CancelledError:
                        obs.count("cancelled calls that cancelled")
                    except Exception:
                        obs.count("cancelled calls that failed")
                    continue
                try:
                    got = await aw
                except Exception as e:
                    if "FAIL" not in text:
                        raise Violation(f"{dialect}: {text} of session {i} failed with {e!r}")
                    chain, x = [], e
                    while x is not None:
                        chain.append(x)
                        x = x.__cause__
                    if errors.get(text) not in chain:
                        raise Violation(f"{dialect}: {text} of session {i} failed with {e!r}, not with its own error")
                    if isinstance(e, QueryException) and e.query != text:
                        raise Violation(f"{dialect}: the error of {text} names {e.query}")
                    obs.count("errors delivered")
                else:
                    if "FAIL" in text:
                        raise Violation(f"{dialect}: {text} was refused by the driver but returned {got!r}")
                    if kind == "query" and got != rows or kind == "one" and got != rows[0]:
                        raise Violation(f"{dialect}: {text} of session {i} returned {got} instead of {rows}")
                    obs.count("records processed" if kind in ("rows", "keys") else "results delivered")

    async def body():
        heart = Heart()
        beat = asyncio.ensure_future(heart.beat())
        done = asyncio.Event()
        doors = asyncio.ensure_future(porter(gates, rng, done, heart, 2))
        try:
            await asyncio.wait_for(asyncio.gather(*(session(i, heart) for i in range(n))), 4 * PATIENCE)
        except asyncio.TimeoutError:
            raise Violation(f"{dialect}: a call was never answered")
        finally:
            done.set()
            beat.cancel()
            with gates.lock:
                left = list(gates.waiting)
            for c in left:
                c.gate.set()
        await asyncio.sleep(0)
        if doors.done() and doors.exception():
            raise doors.exception()
        doors.cancel()
        obs.count("turns of the event loop", heart.ticks)

    sc.run(body())
    judge_calls(obs, every, threads, gates, dialect)
    if any(t in threads for t, _ in off_loop):
        raise Violation(f"{dialect}: a driver call ran on the thread of the event loop")
    for i, b in enumerate(backends):
        if len(b.conns) != 1:
            raise Violation(f"{dialect}: session {i} opened {len(b.conns)} connections")
        seen = [s for _, m, s, _ in b.calls if s in calls]
        if seen != issued[i]:
            raise Violation(f"{dialect}: session {i} issued {issued[i]} but the driver saw {seen}")
        if b.conns[0].closed_count != 1 or b.calls[-1][1] != "close":
            raise Violation(f"{dialect}: session {i}: connection closed {b.conns[0].closed_count} times, last call {b.calls[-1][1]}")
        obs.see(kind="session logs compared")


def main():
    c = Check(
        "C22",
        "a situation is a distinct order in which concurrent blocking calls started and ended",
        ["the drivers are stand-ins whose calls block until a task on the event loop lets them pass", "a call that is not let past within 20 s shows that the event loop stood still"],
    )
    for s in c.seeds(c.pick(120, 3000), 1):
        c.add(direct, seed=s)
    for s in c.seeds(c.pick(40, 1500), 2):
        c.add(direct, seed=s, cancels=True)
    for s in c.seeds(c.pick(30, 800), 3):
        c.add(direct, seed=s, loops=3)
    for d in ("mssql", "oracle", "redshift"):
        for s in c.seeds(c.pick(40, 1000), 4):
            c.add(sessions, dialect=d, seed=s)
        for s in c.seeds(c.pick(20, 500), 5):
            c.add(sessions, dialect=d, seed=s, cancels=True)
    c.probe("cancelled-call", p_cancel)
    c.require(**{"calls judged": 1000, "results delivered": 500, "errors delivered": 100, "records processed": 200, "runs with overlapping calls": 50, "session logs compared": 100})
    c.finish()


def p_cancel(obs):
    async def body():
        gate, started = threading.Event(), threading.Event()

        @thread_dispatch
        def call():
            started.set()
            gate.wait(2)

        heart = Heart()
        beat = asyncio.ensure_future(heart.beat())
        task = asyncio.ensure_future(call())
        while not started.is_set():
            await asyncio.sleep(0.001)
        t0 = heart.ticks
        task.cancel()
        asyncio.get_running_loop().call_later(0.02, gate.set)
        t = time.monotonic()
        try:
            await task
        except asyncio.CancelledError:
            pass
        beat.cancel()
        if time.monotonic() - t > 1.5:
            raise Violation(f"the event loop made {heart.ticks - t0} turns while a cancelled call was in progress")

    sc.run(body())


main()
