"""C12: data sources deliver each record once, in order, in bounded batches."""

import asyncio
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import harness  # noqa: F401
from harness import Check, Obs, Skip, Violation
import scenario as sc
import specgen as sg
import pysqlsync.base as base


class Boom(Exception):
    pass


class Trace:
    """Online monitor: counts records pulled from the source, records delivered, transformer calls."""

    def __init__(self):
        self.pulled = 0
        self.delivered = 0
        self.calls = 0
        self.gets = 0


def record(i, width):
    return tuple((i, f"r{i}", None if i % 3 == 0 else i * 10, -i)[c % 4] if c < 4 else i * 100 + c for c in range(width))


def make_source(rng, kind, n, width, tr, fail_at=None):
    """A source of n records; pulling is counted; raises Boom when asked for record number fail_at."""

    def note(i):
        if fail_at is not None and i == fail_at:
            raise Boom(f"source {i}")
        tr.pulled += 1
        return record(i, width)

    if kind == "list":
        tr.pulled = n
        return [record(i, width) for i in range(n)]
    if kind == "tuple":
        tr.pulled = n
        return tuple(record(i, width) for i in range(n))
    if kind == "range-like":
        class Seq:
            def __len__(self):
                return n

            def __iter__(self):
                for i in range(n):
                    yield note(i)

        return Seq()
    if kind == "generator":

        def gen():
            for i in range(n):
                yield note(i)
            if fail_at is not None and fail_at >= n:
                raise Boom("source end")

        return gen()
    if kind == "iterator":

        class It:
            i = 0

            def __iter__(self):
                return self

            def __next__(self):
                if self.i >= n:
                    if fail_at is not None and fail_at >= n:
                        raise Boom("source end")
                    raise StopIteration
                self.i += 1
                return note(self.i - 1)

        return It()
    if kind == "async":
        pauses = [rng.random() < 0.3 for _ in range(min(n, 50))] or [False]

        async def agen():
            for i in range(n):
                if pauses[i % len(pauses)]:
                    await asyncio.sleep(0)
                yield note(i)
            if fail_at is not None and fail_at >= n:
                raise Boom("source end")

        return agen()
    if kind == "async-iterator":

        class AIt:
            i = 0

            def __aiter__(self):
                return self

            async def __anext__(self):
                if self.i >= n:
                    if fail_at is not None and fail_at >= n:
                        raise Boom("source end")
                    raise StopAsyncIteration
                self.i += 1
                return note(self.i - 1)

        return AIt()
    raise KeyError(kind)


KINDS = ["list", "tuple", "range-like", "generator", "iterator", "async", "async-iterator"]


class Recorder(base.RecordTransformer):
    """A context-dependent transformer: its function depends on the batch it was given."""

    def __init__(self, tr, tag, col, log, mode, fail=None):
        self.tr, self.tag, self.col, self.log, self.mode, self.fail = tr, tag, col, log, mode, fail

    async def get(self, records):
        self.tr.gets += 1
        if not isinstance(records, (list, tuple)):
            records = list(records)
        snapshot = list(records)
        n = self.tr.gets
        if self.fail == ("get", n):
            raise Boom("get")
        if self.mode == "async":
            await asyncio.sleep(0)
        self.log.append(("get", self.tag, len(snapshot), snapshot[0] if snapshot else None, snapshot[-1] if snapshot else None))
        if self.mode == "none":
            return None
        seen = {r[self.col] for r in snapshot}

        def fn(v):
            self.tr.calls += 1
            self.log.append(("fn", self.tag, v))
            if v not in seen:
                raise Violation(f"function of column {self.tag} obtained for one batch is applied to a value {v!r} of another")
            if self.fail is not None and self.fail[0] == "fn" and self.fail[1] == v:
                raise Boom(f"fn {v}")
            return (self.tag, v)

        return fn


async def drain(src, size, tr, check_readahead, stop_after=None, tasks=False):
    out, sizes, kept = [], [], []
    err = None
    it = src.batches()
    if tr.pulled and check_readahead:
        raise Violation("records are read before the first batch is requested")
    try:
        async for batch in it:
            sizes.append(len(batch))
            kept.append((batch, list(batch)))
            out.extend(batch)
            if not batch:
                raise Violation("empty batch delivered")
            if len(batch) > size:
                raise Violation(f"batch of {len(batch)} records exceeds the configured size {size}")
            tr.delivered += len(batch)
            if check_readahead and tr.pulled != tr.delivered:
                raise Violation(f"{tr.pulled} records read from the source while {tr.delivered} have been delivered")
            if tasks:
                await asyncio.sleep(0)
                if check_readahead and tr.pulled != tr.delivered:
                    raise Violation("the source is read while a batch is being processed")
            if stop_after is not None and len(sizes) >= stop_after:
                break
    except Boom as e:
        err = e
    for b, copy in kept:
        if list(b) != copy:
            raise Violation("a delivered batch is changed afterwards")
    return out, sizes, err


class patched_size:
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = base.BATCH_SIZE
        base.BATCH_SIZE = self.n
        return self

    def __exit__(self, *a):
        base.BATCH_SIZE = self.old


def effective():
    """Whether the module constant governs batching at run time (else the shipped value is used)."""

    async def body():
        with patched_size(3):
            return [len(b) async for b in base.to_data_source([(i,) for i in range(7)]).batches()]

    return max(asyncio.run(body())) <= 3


def build(rng, source, width, tr, log, fail=None):
    """A pipeline of selections and transformations over a source with its reference function."""
    depth = rng.choice([0, 1, 1, 2, 3])
    src, ref, w, shape = source, (lambda r: r), width, []
    specs = []
    failed_stage = rng.randrange(depth) if depth else None
    for level in range(depth):
        kind = rng.choice(["select", "transform", "both"])
        stage_fail = fail if level == failed_stage else None
        shape.append(kind)
        if kind == "select":
            idx = [rng.randrange(w) for _ in range(rng.randint(1, w + 1))] if rng.random() < 0.5 else rng.sample(range(w), rng.randint(1, w))
            src = base.SelectorDataSource(src, idx)
            ref = (lambda p, idx: lambda r: tuple(p(r)[i] for i in idx))(ref, idx)
            w = len(idx)
        else:
            idx = list(range(w)) if kind == "transform" else rng.sample(range(w), rng.randint(1, w))
            trans, modes = [], []
            for k, col in enumerate(idx):
                mode = rng.choice(["fn", "async", "none", "scalar", "scalar-none"])
                tag = f"{level}.{k}"
                if mode == "scalar":
                    def fn(v, tag=tag):
                        tr.calls += 1
                        log.append(("fn", tag, v))
                        return (tag, v)
                    trans.append(base.ScalarTransformer(fn))
                elif mode == "scalar-none":
                    trans.append(base.ScalarTransformer(None))
                else:
                    trans.append(Recorder(tr, tag, col, log, mode, stage_fail if k == 0 else None))
                modes.append((mode, tag))
            src = base.TransformerDataSource(src, trans) if kind == "transform" else base.SelectorTransformerDataSource(src, idx, trans)

            def ref2(r, p=ref, idx=idx, modes=modes):
                r = p(r)
                return tuple(((tag, r[i]) if mode in ("fn", "async", "scalar") and r[i] is not None else r[i]) for (mode, tag), i in zip(modes, idx))

            specs.append((idx, modes, ref))
            ref, w = ref2, len(idx)
    return src, ref, shape, specs


def pipeline(obs: Obs, seed: int, size: int, n: int, kind: str, patch: bool = True):
    rng = random.Random(f"c12/{seed}/{size}/{n}/{kind}")
    width = rng.randint(1, 6)
    tr, log = Trace(), []
    with patched_size(size) if patch else patched_size(base.BATCH_SIZE):
        src = base.to_data_source(make_source(rng, kind, n, width, tr))
        src, ref, shape, specs = build(rng, src, width, tr, log)
        check = kind not in ("list", "tuple")
        out, sizes, err = asyncio.run(drain(src, size, tr, check, tasks=rng.random() < 0.5))
    if err:
        raise Violation(f"unexpected error {err}")
    expected = [ref(record(i, width)) for i in range(n)]
    if len(out) != len(expected):
        raise Violation(f"{len(out)} records delivered instead of {len(expected)} ({kind}, {shape}, batches {sizes})")
    for i, (a, b) in enumerate(zip(out, expected)):
        if tuple(a) != tuple(b):
            raise Violation(f"record {i} is {a!r}, expected {b!r} ({kind}, {shape})")
    # each transformation function ran once per non-NULL value of its field, in record order
    for idx, modes, prev in specs:
        for i, (mode, tag) in zip(idx, modes):
            if mode in ("fn", "async", "scalar"):
                want = [v for v in (prev(record(k, width))[i] for k in range(n)) if v is not None]
                got = [e[2] for e in log if e[0] == "fn" and e[1] == tag]
                if got != want:
                    raise Violation(f"function of field {tag} applied to {len(got)} values, expected {len(want)} (first difference {next((x for x in zip(got, want) if x[0] != x[1]), None)})")
            if mode in ("fn", "async", "none"):
                lens = [e[2] for e in log if e[0] == "get" and e[1] == tag]
                if sum(lens) != n or any(x == 0 or x > size for x in lens):
                    raise Violation(f"transformer {tag} was shown batches of {lens} records for {n} records")
    obs.see((kind, tuple(shape), "empty" if n == 0 else "exact" if n % size == 0 else "partial", min(len(sizes), 3)), kind="pipelines")
    obs.count("batches", len(sizes))
    obs.count("records", n)
    obs.count("transformer_calls", tr.calls)
    obs.sample(f"{kind} n={n} size={size} pipeline={shape}: batches {sizes[:8]}")


def interrupted(obs: Obs, seed: int, size: int, n: int, kind: str):
    """A failing source or transformation: a correct prefix was delivered and the error reaches the consumer."""
    rng = random.Random(f"c12x/{seed}/{size}/{n}/{kind}")
    width = rng.randint(1, 5)
    tr, log = Trace(), []
    where = rng.choice(["source", "source", "fn", "get"])
    if kind in ("list", "tuple", "range-like") and where == "source":
        where = rng.choice(["fn", "get"])
    fail_at = rng.choice([0, n // 2, n - 1, n, (n // size) * size, max(0, (n // size) * size - 1)])
    fail_at = min(fail_at, n)
    with patched_size(size):
        if where == "source":
            src = base.to_data_source(make_source(rng, kind, n, width, tr, fail_at=fail_at))
            src, ref, shape, specs = build(rng, src, width, tr, log)
            out, sizes, err = asyncio.run(drain(src, size, tr, False))
            k = fail_at // size * size
        else:
            src = base.to_data_source(make_source(rng, kind, n, width, tr))
            if where == "get":
                k = rng.randint(1, max(1, -(-n // size)))
                fail, good = ("get", k), (k - 1) * size
            else:
                v = rng.randrange(n) if n else 0
                fail, good = ("fn", v), v // size * size
            t = [Recorder(tr, str(c), c, log, "fn", fail if c == 0 else None) for c in range(width)]
            if where == "get":
                # one transformer only so that its call count is the batch number
                t = [Recorder(tr, "0", 0, log, "fn", fail)] + [base.ScalarTransformer(None) for _ in range(width - 1)]
            if rng.random() < 0.5:
                src = base.TransformerDataSource(src, t)
            else:
                src = base.SelectorTransformerDataSource(src, list(range(width)), t)
            tags = {c for c in range(width) if isinstance(t[c], Recorder)}
            ref = lambda r: tuple((str(c), v) if c in tags and v is not None else v for c, v in enumerate(r))  # noqa: E731
            if n == 0:
                raise Skip("nothing to fail on")
            out, sizes, err = asyncio.run(drain(src, size, tr, False))
            k = good
    if err is None:
        raise Violation(f"an error raised by the {where} ({kind}, at {fail_at} of {n}) is lost; {len(out)} records delivered")
    if len(out) > (fail_at if where == "source" else n):
        raise Violation("more records delivered than were read")
    if [tuple(r) for r in out] != [ref(record(i, width)) for i in range(len(out))]:
        raise Violation("records delivered before the error are not the leading records of the source")
    if len(out) != k:
        raise Violation(f"{len(out)} records were delivered before the error, {k} belong to completed batches")
    obs.see((kind, where, k > 0), kind="errors_propagated")


def abandoned(obs: Obs, seed: int, size: int, n: int, kind: str):
    """The consumer stops early: nothing beyond the delivered batches has been read."""
    rng = random.Random(f"c12a/{seed}")
    width = rng.randint(1, 4)
    tr, log = Trace(), []
    with patched_size(size):
        src = base.to_data_source(make_source(rng, kind, n, width, tr))
        src, ref, shape, specs = build(rng, src, width, tr, log)
        out, sizes, err = asyncio.run(drain(src, size, tr, kind not in ("list", "tuple"), stop_after=rng.randint(1, 3)))
    if [tuple(r) for r in out] != [ref(record(i, width)) for i in range(len(out))]:
        raise Violation("records differ from the leading records of the source")
    obs.see((kind, "abandoned", tuple(shape)), kind="abandoned")


def interleaved(obs: Obs, seed: int):
    """Several sources are drained by concurrent tasks: no record crosses over."""
    rng = random.Random(f"c12i/{seed}")
    size = rng.randint(1, 5)

    async def one(i, n, kind):
        tr, log = Trace(), []
        src = base.to_data_source(make_source(rng, kind, n, 3, tr))
        src, ref, shape, specs = build(rng, src, 3, tr, log)
        out = []
        async for b in src.batches():
            for _ in range(rng.randint(0, 3)):
                await asyncio.sleep(0)
            if not b or len(b) > size:
                raise Violation(f"batch of {len(b)} with size {size}")
            out.extend(b)
        if [tuple(r) for r in out] != [ref(record(k, 3)) for k in range(n)]:
            raise Violation("records differ when sources are drained concurrently")
        return (kind, n)

    async def body():
        return await asyncio.gather(*(one(i, rng.randint(0, 17), rng.choice(KINDS)) for i in range(6)))

    with patched_size(size):
        for k, n in asyncio.run(body()):
            obs.see(("interleaved", k), kind="interleaved")


def end_to_end(obs: Obs, dialect: str, seed: int):
    """insert_rows, upsert_rows and execute_all: what reaches the driver, and how far the source has been read by then."""
    rng = random.Random(f"c12e/{dialect}/{seed}")
    size = rng.choice([1, 2, 3, 5, 8])
    n = rng.choice([0, 1, size - 1, size, size + 1, 2 * size, 3 * size + 1, rng.randint(0, 30)])
    op = rng.choice(["insert", "upsert", "execute_all"])
    kind = rng.choice(KINDS)
    src = "@dataclass\nclass Item:\n    id: PrimaryKey[int64]\n    num: int64\n    opt: Optional[int64]\n    neg: int64\n"
    modes = sg.DEFAULT_MODES[dialect].clone() if hasattr(sg.DEFAULT_MODES[dialect], "clone") else sg.DEFAULT_MODES[dialect]
    name = f"c12mod{os.getpid()}"
    import types

    m = types.ModuleType(name)
    sys.modules[name] = m
    exec(compile(sg.PRELUDE + src, name, "exec"), m.__dict__)
    order = ("id", "num", "opt", "neg")
    perm = list(range(4))
    rng.shuffle(perm)
    omit = rng.random() < 0.4
    tr = Trace()

    def row(i):
        r = (i, i * 10, None if i % 3 == 0 else i, -i)
        out = [r[p] for p in perm]
        return tuple(out + ["junk"]) if omit else tuple(out)

    def note(i):
        tr.pulled += 1
        return row(i)

    if kind in ("list", "tuple"):
        records = [row(i) for i in range(n)]
    elif kind.startswith("async"):

        async def agen():
            for i in range(n):
                if i % 2:
                    await asyncio.sleep(0)
                yield note(i)

        records = agen()
    else:
        records = (note(i) for i in range(n))

    marks = []

    async def body():
        b = sc.backend(dialect)
        conn = sc.connection(dialect, modes, {m: "s1"})
        async with conn as ctx:
            await ctx.execute(conn.generator.create(tables=[m.Item]))
            t = ctx.get_table(m.Item)
            dbt = b.server.tables()[0]
            marks.clear()

            def observe(method, stmt):
                if method in ("copy", "executemany", "query"):
                    marks.append((len(dbt.rows), tr.pulled))

            b.call_fault = observe
            names = tuple(order[p] for p in perm) + (("",) if omit else ())
            types_ = tuple(int for _ in perm) + ((type(None),) if omit else ())
            if op == "execute_all":
                g = conn.generator
                stmt = g.get_table_insert_stmt(t, tuple(order[p] for p in perm))
                await ctx.execute_all(stmt, records if not omit else _strip(records))
            else:
                fn = ctx.insert_rows if op == "insert" else ctx.upsert_rows
                await fn(t, records, field_types=types_, field_names=names)
            b.call_fault = None
            got = sorted(tuple(r[c] for c in order) for r in b.server.dump_rows(dbt))
            want = sorted((i, i * 10, None if i % 3 == 0 else i, -i) for i in range(n))
            key = lambda r: tuple(int(x) if x is not None else None for x in r)  # noqa: E731
            if [key(r) for r in got] != want:
                raise Violation(f"{op} of {n} records from a {kind} in batches of {size} stored {[key(r) for r in got][:5]}...({len(got)})")
            for stored, pulled in marks:
                if kind not in ("list", "tuple") and pulled - stored > size:
                    raise Violation(f"{pulled} records read from the source when {stored} had been stored, batch size {size}")
            obs.see((dialect, op, kind, omit, len(marks) > 1), kind="driver_batches")
            obs.count("driver_calls", len(marks))
            obs.count("records_stored", n)

    with patched_size(size):
        sc.run(body())
    del sys.modules[name]


def _strip(records):
    if hasattr(records, "__aiter__"):

        async def g():
            async for r in records:
                yield r[:-1]

        return g()
    if isinstance(records, list):
        return [r[:-1] for r in records]
    return (r[:-1] for r in records)


def shipped_size(obs: Obs, n: int, kind: str):
    """The constant as shipped, with enough records for several batches."""
    tr = Trace()
    rng = random.Random(1)
    size = base.BATCH_SIZE

    async def body():
        k = 0
        sizes = []
        src = base.to_data_source(make_source(rng, kind, n, 2, tr))
        src = base.SelectorTransformerDataSource(src, [1, 0], [base.ScalarTransformer(lambda v: v + "!"), base.ScalarTransformer(None)])
        async for b in src.batches():
            if not b or len(b) > size:
                raise Violation(f"batch of {len(b)} records, configured size {size}")
            tr.delivered += len(b)
            if kind != "list" and tr.pulled != tr.delivered:
                raise Violation(f"{tr.pulled} read, {tr.delivered} delivered")
            for r in b:
                if r != (f"r{k}!", k):
                    raise Violation(f"record {k} delivered as {r!r}")
                k += 1
            sizes.append(len(b))
        if k != n:
            raise Violation(f"{k} of {n} records delivered")
        return sizes

    sizes = asyncio.run(body())
    obs.see(("shipped", kind, len(sizes)), kind="shipped")
    obs.count("records", n)
    obs.count("batches", len(sizes))


def main():
    c = Check(
        "C12",
        "distinct (source kind, pipeline of selections and transformations, full/partial/empty last batch, number of batches), error locations and (dialect, operation, source kind) observed with delivery matching the reference",
        ["the batch size is lowered through the module constant BATCH_SIZE where that is effective; the shipped value is exercised with several hundred thousand records"],
    )
    eff = effective()
    rng = random.Random(f"c12/{c.seed}")
    size0 = base.BATCH_SIZE
    if eff:
        for s in c.seeds(c.pick(900, 12000), 1):
            size = rng.choice([1, 2, 3, 4, 7, 10])
            n = rng.choice([0, 1, size - 1, size, size + 1, 2 * size - 1, 2 * size, 2 * size + 1, rng.randint(0, 40)])
            c.add(pipeline, seed=s, size=size, n=n, kind=rng.choice(KINDS))
        for s in c.seeds(c.pick(500, 6000), 2):
            size = rng.choice([1, 2, 3, 5, 8])
            n = rng.choice([1, size, size + 1, 2 * size, 3 * size + 2, rng.randint(1, 30)])
            c.add(interrupted, seed=s, size=size, n=n, kind=rng.choice(KINDS))
        for s in c.seeds(c.pick(200, 2000), 3):
            c.add(abandoned, seed=s, size=rng.choice([1, 2, 5]), n=rng.randint(8, 30), kind=rng.choice(KINDS))
        for s in c.seeds(c.pick(100, 1500), 4):
            c.add(interleaved, seed=s)
        for d in sg.DIALECTS:
            for s in c.seeds(c.pick(60, 800), 5):
                c.add(end_to_end, dialect=d, seed=s)
    else:
        for s in c.seeds(20, 6):
            c.add(pipeline, seed=s, size=size0, n=rng.choice([0, 1, size0, size0 + 1]), kind=rng.choice(KINDS), patch=False)
    for k in ("list", "generator", "async"):
        for n in [size0 - 1, size0, size0 + 1, 2 * size0 + 1][: c.pick(3, 4)]:
            c.add(shipped_size, n=n, kind=k)
    c.require(shipped=5)
    c.finish()


main()
