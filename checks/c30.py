"""C30: the work of an access does not grow with the file, and that of a scan only in proportion to it."""

import gc
import io
import os
import sys
import time
import tracemalloc

from segpy.binary_reel_header import BinaryReelHeader
from segpy.catalog import CatalogBuilder
from segpy.packer import make_header_packer
from segpy.reader import SegYReader, SegYReader2D, SegYReader3D, create_reader
from segpy.toolkit import catalog_traces, format_extended_textual_header
from segpy.trace_header import TraceHeaderRev1
from segpy.util import hash_for_file, make_sorted_distinct_sequence
from segpy.writer import write_segy

from harness import model
from harness.core import Scenario
from harness.observe import MemDataset, VirtualFile

PROPERTY = 'C30'
LEVEL = 'exploration'
RULE = ('A case is a geometry, a kind of catalog or an operation, performed at two sizes; the work of each is measured by the lines and calls '
        'which the interpreter executes (outside of the harness), the bytes it allocates and the processor time it takes. Distinct by what is '
        'measured and the sizes.')
ASSUMPTIONS = ['keys and trace indexes are of the type int',
               'work within single calls of the interpreter\'s own types is only seen in the allocations and the processor time, with a wide margin']

HARNESS = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BATCH = 30  # Accesses measured together
SMALL = 3000
LARGE = 200_000


class Events:
    """The lines, calls and resumptions executed."""

    def __init__(self):
        self.count = 0

    def __enter__(self):
        m = sys.monitoring
        self.tool = next(i for i in range(6) if m.get_tool(i) is None)
        m.use_tool_id(self.tool, 'work')

        def event(code, _):
            if code.co_filename.startswith(HARNESS):
                return m.DISABLE
            self.count += 1

        for e in (m.events.LINE, m.events.PY_START, m.events.PY_RESUME):
            m.register_callback(self.tool, e, event)
        m.restart_events()
        m.set_events(self.tool, m.events.LINE | m.events.PY_START | m.events.PY_RESUME)
        return self

    def __exit__(self, *_):
        m = sys.monitoring
        m.set_events(self.tool, 0)
        for e in (m.events.LINE, m.events.PY_START, m.events.PY_RESUME):
            m.register_callback(self.tool, e, None)
        m.free_tool_id(self.tool)


def events(fn):
    with Events() as e:
        fn()
    return e.count


def allocated(fn):
    tracemalloc.start()
    try:
        fn()
        return tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()


def seconds(fn, times=7):
    best = None
    enabled = gc.isenabled()
    gc.disable()
    try:
        for _ in range(times):
            start = time.thread_time()
            fn()
            taken = time.thread_time() - start
            best = taken if best is None else min(best, taken)
    finally:
        if enabled:
            gc.enable()
    return best


def ignoring(fn, *args):
    try:
        return fn(*args)
    except (KeyError, ValueError):
        return None


def constant(ctx, make, what):
    """A batch of accesses, made for either size, is as much work."""
    small, large = make(0), make(1)
    small(), large()
    a, b = events(small), events(large)
    ctx.check(b <= 2 * a + 60 * BATCH, '{}: {} lines and calls executed for {} accesses in the large one, {} in the small one', what, b, BATCH, a)
    p, q = allocated(small), allocated(large)
    ctx.check(q <= 2 * p + 100_000, '{}: {} bytes allocated during accesses in the large one, {} in the small one', what, q, p)
    s, t = seconds(small), seconds(large)
    for _ in range(3):
        if t <= 5 * s + 0.010:
            break
        t = min(t, seconds(large))
    ctx.check(t <= 5 * s + 0.010, '{}: {:.1f} ms for {} accesses in the large one, {:.1f} ms in the small one', what, t * 1e3, BATCH, s * 1e3)
    ctx.count('events_observed', a + b)
    ctx.count('constant_measurements')
    ctx.evaluated(what)


def proportional(ctx, make, n, factor, what, timed=True):
    """A single operation, made for n and factor * n items."""
    make(n)()
    a, b = events(make(n)), events(make(factor * n))
    ctx.check(a > 0, '{}: nothing observed', what)
    ctx.check(b <= 1.5 * factor * a + 5000, '{}: {} lines and calls executed for {} items, {} for {}', what, b, factor * n, a, n)
    if timed:
        s = seconds(make(n), 3)
        t = seconds(make(factor * n), 3)
        for _ in range(3):
            if t <= 2.5 * factor * s + 0.050:
                break
            t = min(t, seconds(make(factor * n), 2))
        ctx.check(t <= 2.5 * factor * s + 0.050, '{}: {:.1f} ms for {} items, {:.1f} ms for {}', what, t * 1e3, factor * n, s * 1e3, n)
    ctx.count('events_observed', a + b)
    ctx.count('proportional_measurements')
    ctx.evaluated(what, n, factor)


GEOMETRIES = ('grid', 'transposed', 'hole', 'spread', 'shuffled', 'backwards')


def triples_of(rng, kind, n):
    """(inline, crossline, CDP) of each of about n traces."""
    width = int(n ** 0.5)
    n -= n % width
    if kind == 'transposed':
        triples = [(i % width, 100 + 2 * (i // width), 7 + 3 * i) for i in range(n)]
    elif kind == 'spread':
        triples = [((i // width) ** 2, (i % width) ** 2, i + i // 3) for i in range(n)]
    else:
        triples = [(100 + 2 * (i // width), i % width, 7 + 3 * i) for i in range(n)]
    if kind == 'hole':
        del triples[rng.randrange(n // 2, n)]
    elif kind == 'shuffled':
        rng.shuffle(triples)
    elif kind == 'backwards':
        triples.reverse()
    return triples


def catalog(pairs):
    builder = CatalogBuilder()
    for key, value in pairs:
        builder.add(key, value)
    return builder.create()


HEAD = model.FileModel([' ' * 80] * 40, {'data_sample_format': 2}, [], []).encode()


def readers(rng, kind, n, pattern):
    triples = triples_of(rng, kind, n)
    n = len(triples)
    fh = VirtualFile(HEAD, n, pattern, 1, lines=triples.__getitem__)
    parts = [fh, (' ' * 80,) * 40, BinaryReelHeader(data_sample_format=2), [], catalog((i, fh.offset(i)) for i in range(n)), catalog((i, fh.length(i)) for i in range(n))]
    rest = [TraceHeaderRev1, 'ascii']
    return triples, (SegYReader(*parts, *rest),
                     SegYReader2D(*parts, catalog((t[2], i) for i, t in enumerate(triples)), *rest),
                     SegYReader3D(*parts, catalog((t[:2], i) for i, t in enumerate(triples)), *rest),
                     SegYReader3D(*parts, {t[:2]: i for i, t in enumerate(triples)}, *rest))


def access(ctx):
    """Every kind of access to readers of few and of many traces."""
    rng = ctx.rng
    kind = GEOMETRIES[ctx.case % len(GEOMETRIES)]
    pattern = [[1], [0, 1, 2]][ctx.case // 2 % 2]
    sizes = [readers(rng, kind, n, pattern) for n in (SMALL, LARGE if not ctx.thorough else rng.choice([LARGE, 2 * LARGE]))]
    chosen = []
    for triples, _ in sizes:
        n = len(triples)
        chosen.append([0, n - 1] + [rng.randrange(n) for _ in range(BATCH - 2)])
    packer = make_header_packer(TraceHeaderRev1, '>')

    def batch(of, fn):
        """For a kind of reader, a function of it, the index of a trace, and its triple."""
        def make(size):
            triples, all_readers = sizes[size]
            reader = all_readers[of]
            arguments = [(i, triples[i]) for i in chosen[size]]

            def run():
                for i, t in arguments:
                    ignoring(fn, reader, i, t)
            return run
        constant(ctx, make, '{} of {} traces ({} samples): {}'.format(type(sizes[0][1][of]).__name__, kind, pattern, fn.__doc__))

    def trace_header(r, i, t):
        """trace_header()"""
        r.trace_header(i)

    def trace_header_with(r, i, t):
        """trace_header() with another packer"""
        r.trace_header(i, packer)

    def trace_samples(r, i, t):
        """trace_samples()"""
        r.trace_samples(i)

    def counts(r, i, t):
        """num_trace_samples(), num_traces(), max_num_trace_samples(), dimensionality"""
        r.num_trace_samples(i), r.num_traces(), r.max_num_trace_samples(), r.dimensionality

    def absent_trace(r, i, t):
        """trace_header() of an absent trace"""
        r.trace_header(10**7 + i)

    def first_index(r, i, t):
        """the first of trace_indexes()"""
        next(iter(r.trace_indexes()))

    for of in (ctx.case % 3,):
        for fn in (trace_header, trace_header_with, trace_samples, counts, absent_trace, first_index):
            batch(of, fn)

    def cdp_index(r, i, t):
        """trace_index() and has_trace_index()"""
        assert r.has_trace_index(t[2]) and r.trace_index(t[2]) == i

    def absent_cdp(r, i, t):
        """has_trace_index() of an absent CDP"""
        assert not r.has_trace_index(-1 - t[2])

    def absent_cdp_index(r, i, t):
        """trace_index() of an absent CDP"""
        r.trace_index(-1 - t[2])

    def cdp_numbers(r, i, t):
        """cdp_numbers() and num_cdps()"""
        numbers = r.cdp_numbers()
        assert t[2] in numbers and -1 not in numbers and len(numbers) == r.num_cdps() and numbers[numbers.index(t[2])] == t[2]

    for fn in (cdp_index, absent_cdp, absent_cdp_index, cdp_numbers):
        batch(1, fn)

    def line_index(r, i, t):
        """trace_index() and has_trace_index()"""
        assert r.has_trace_index(t[:2]) and r.trace_index(t[:2]) == i

    def absent_lines(r, i, t):
        """has_trace_index() of an absent pair"""
        assert not r.has_trace_index((t[0], -1)) and not r.has_trace_index((-1, t[1]))

    def absent_lines_index(r, i, t):
        """trace_index() of an absent pair"""
        r.trace_index((-1, t[1]))

    def line_numbers(r, i, t):
        """inline_numbers(), xline_numbers(), num_inlines() and num_xlines()"""
        for numbers, number, n in ((r.inline_numbers(), t[0], r.num_inlines()), (r.xline_numbers(), t[1], r.num_xlines())):
            assert number in numbers and -1 not in numbers and len(numbers) == n and numbers[numbers.index(number)] == number

    def first_pair(r, i, t):
        """the first of inline_xline_numbers()"""
        next(iter(r.inline_xline_numbers()))

    for fn in (line_index, absent_lines, absent_lines_index, line_numbers, first_pair):
        batch(2, fn)
    # Any mapping will do
    batch(3, line_numbers)
    ctx.state(kind, len(pattern))
    ctx.count('readers_measured', 8)


CATALOGS = {
    'regular keys and values': lambda i: (5 + 2 * i, 3600 + 244 * i),
    'regular keys, falling values': lambda i: (5 + 2 * i, 10**9 - 244 * i),
    'regular keys, one value': lambda i: (5 + 2 * i, 1500),
    'regular keys, any values': lambda i: (5 + 2 * i, i * i),
    'any keys, one value': lambda i: (i * i, 1500),
    'any keys and values': lambda i: (i * i, i * i + i % 3),
}


def catalogs(ctx):
    """Catalogs and sequences of numbers, directly."""
    rng = ctx.rng
    what = sorted(CATALOGS)[ctx.case % len(CATALOGS)]
    rule = CATALOGS[what]
    made = [catalog(map(rule, range(n))) for n in (SMALL, LARGE)]
    chosen = [[rng.randrange(n) for _ in range(BATCH)] for n in (SMALL, LARGE)]

    def batch(fn):
        def make(size):
            arguments = [rule(i) for i in chosen[size]]

            def run():
                for k, v in arguments:
                    ignoring(fn, made[size], k, v)
            return run
        constant(ctx, make, 'catalog of {} ({}): {}'.format(what, type(made[0]).__name__, fn.__doc__))

    def lookup(c, k, v):
        """a lookup"""
        assert c[k] == v

    def absent(c, k, v):
        """a lookup of an absent key"""
        c[-1 - k]

    def contains(c, k, v):
        """membership"""
        assert k in c and -1 - k not in c

    def others(c, k, v):
        """len(), get(), repr() and the first key"""
        assert c.get(k) == v and c.get(-1 - k) is None
        len(c), repr(c), next(iter(c))

    for fn in (lookup, absent, contains, others):
        batch(fn)
    sequences = [make_sorted_distinct_sequence(rule(i)[0] for i in range(n)) for n in (SMALL, LARGE)]

    def made_of(fn):
        def make(size):
            arguments = [(i, rule(i)[0]) for i in chosen[size]]

            def run():
                for i, k in arguments:
                    fn(sequences[size], i, k)
            return run
        constant(ctx, make, 'sequence of the keys of {} ({}): {}'.format(what, type(sequences[0]).__name__, fn.__doc__))

    def member(s, i, k):
        """membership"""
        assert k in s and -1 - k not in s

    def index(s, i, k):
        """indexing and index()"""
        assert s[i] == k and s.index(k) == i and s[-1] >= k and len(s) > i

    for fn in (member, index):
        made_of(fn)
    ctx.count('catalogs_measured', 2)


def building(ctx):
    """What has to look at every trace looks at each a bounded number of times."""
    rng = ctx.rng
    factor = 8
    kind = GEOMETRIES[ctx.case % len(GEOMETRIES)]
    seed = rng.random()

    def pairs_of(n):
        r = type(rng)(seed)
        return [(t[:2], i) for i, t in enumerate(triples_of(r, kind, n))]

    made = {n: pairs_of(n) for n in (2500, 2500 * factor)}
    proportional(ctx, lambda n: lambda: catalog(made[n]), 2500, factor, 'catalog of the lines of {} traces'.format(kind))
    rule = CATALOGS[sorted(CATALOGS)[ctx.case % len(CATALOGS)]]
    items = {n: [rule(i) for i in range(n)] for n in (2500, 2500 * factor)}
    for pairs in items.values():
        rng.shuffle(pairs)
    proportional(ctx, lambda n: lambda: catalog(items[n]), 2500, factor, 'catalog of ' + sorted(CATALOGS)[ctx.case % len(CATALOGS)])
    proportional(ctx, lambda n: lambda: make_sorted_distinct_sequence(k for k, _ in items[n]), 2500, factor, 'make_sorted_distinct_sequence()')

    def file(n):
        t = triples_of(type(rng)(seed), kind, n)
        return VirtualFile(HEAD, len(t), [0, 1], 1, lines=t.__getitem__)

    files = {n: file(n) for n in (400, 400 * factor)}

    def scan(n):
        def run():
            files[n].seek(len(HEAD))
            catalog_traces(files[n], 4)
        return run

    def open_and_use(n):
        def run():
            files[n].seek(0)
            reader = create_reader(files[n], cache_directory=None, progress=lambda p: None)
            for _ in reader.trace_indexes():
                pass
            reader.max_num_trace_samples()
            if reader.dimensionality == 3:
                for _ in reader.inline_xline_numbers():
                    pass
                reader.num_inlines(), reader.num_xlines()
        return run

    proportional(ctx, scan, 400, factor, 'catalog_traces() of {} traces'.format(kind), timed=False)
    proportional(ctx, open_and_use, 400, factor, 'create_reader() of {} traces'.format(kind), timed=False)
    proportional(ctx, lambda n: lambda: hash_for_file(files[n], 'ascii'), 400, factor, 'hash_for_file()', timed=False)
    ctx.state(kind)


def writing(ctx):
    rng = ctx.rng
    factor = 8
    format_ = rng.choice(model.FORMATS)
    m = model.FileModel([' ' * 80] * 40, {'data_sample_format': format_}, [], [])

    def dataset(n, samples):
        one = model.FileModel(m.text, m.binary, [], [({'num_samples': samples, 'ensemble_num': i}, [i % 100] * samples) for i in range(n)])
        return MemDataset(one, type(rng)(1))

    datasets = {n: dataset(n, 2) for n in (150, 150 * factor)}
    proportional(ctx, lambda n: lambda: write_segy(io.BytesIO(), datasets[n], progress=lambda p: None), 150, factor, 'write_segy() of traces of {}'.format(format_))
    long = {n: dataset(2, n) for n in (1000, 1000 * factor)}
    proportional(ctx, lambda n: lambda: write_segy(io.BytesIO(), long[n]), 1000, factor, 'write_segy() of samples of {}'.format(format_))
    data = {}
    for n in long:
        fh = io.BytesIO()
        write_segy(fh, long[n])
        data[n] = create_reader(io.BytesIO(fh.getvalue()), cache_directory=None)
    proportional(ctx, lambda n: lambda: data[n].trace_samples(1), 1000, factor, 'trace_samples() of {}'.format(format_))

    # A part, whatever the length of the trace
    ends = [(min(data), data[min(data)]), (max(data), data[max(data)])]

    def part(size):
        n, reader = ends[size]

        def run():
            for k in range(BATCH):
                reader.trace_samples(k % 2, n - 10 - k, n - k)
        return run
    constant(ctx, part, 'part of a trace of {}'.format(format_))
    line = rng.choice(['x', 'A line of text', 'word ' * 40, ''])
    texts = {n: '\n'.join([line] * n) for n in (500, 500 * factor)}
    proportional(ctx, lambda n: lambda: format_extended_textual_header(texts[n], 'ascii', True), 500, factor, 'format_extended_textual_header() of lines {!r}'.format(line[:20]))
    long_line = {n: 'text ' * n for n in (2000, 2000 * factor)}
    proportional(ctx, lambda n: lambda: format_extended_textual_header(long_line[n], 'ascii'), 2000, factor, 'format_extended_textual_header() of a long line')
    ctx.count('written')


def history(ctx):
    """Work does not depend on what exists or was done before."""
    data = model.FileModel([' ' * 80] * 40, {'data_sample_format': 2}, [], [({'num_samples': 3, 'ensemble_num': i}, [1, 2, 3]) for i in range(5)]).encode()
    packer = make_header_packer(TraceHeaderRev1, '>')
    alive = []

    def headers():
        for i in range(BATCH):
            h = TraceHeaderRev1(line_sequence_num=i)
            h.ensemble_num = i
            assert h.ensemble_num == i and h.num_samples == TraceHeaderRev1.num_samples.default
            assert h.copy(num_samples=7).ensemble_num == i
            packer.unpack(packer.pack(h))

    def use():
        for _ in range(BATCH):
            r = create_reader(io.BytesIO(data), cache_directory=None)
            r.trace_header(3), r.trace_samples(2)

    def packers():
        for endian in '<>' * (BATCH // 2):
            make_header_packer(TraceHeaderRev1, endian)

    one = create_reader(io.BytesIO(data), cache_directory=None)

    def accesses():
        for i in range(BATCH):
            one.trace_header(i % 5), one.trace_samples(i % 5), one.num_trace_samples(i % 5)

    before = {}
    for fn in (headers, use, packers, accesses):
        fn()
        before[fn] = events(fn), seconds(fn)
    rounds = 40 if not ctx.thorough else 200
    for _ in range(rounds):
        use()
        headers()
        accesses()
        packers()
    alive += [TraceHeaderRev1(line_sequence_num=i) for i in range(5000)]
    alive += [create_reader(io.BytesIO(data), cache_directory=None) for _ in range(200)]
    alive += [r.trace_header(1) for r in alive[-200:]]
    for fn, (a, s) in before.items():
        b, t = events(fn), seconds(fn)
        ctx.check(b <= 1.5 * a + 500, '{}(): {} lines and calls executed after other uses, {} before', fn.__name__, b, a)
        for _ in range(3):
            if t <= 4 * s + 0.010:
                break
            t = min(t, seconds(fn))
        ctx.check(t <= 4 * s + 0.010, '{}(): {:.1f} ms after other uses, {:.1f} ms before', fn.__name__, t * 1e3, s * 1e3)
        ctx.count('events_observed', a + b)
    ctx.count('histories_measured')
    ctx.evaluated(ctx.case, rounds)


SCENARIOS = [
    Scenario('access', access, 6, 24, ['constant_measurements', 'events_observed', 'readers_measured'], cpu_limit=60),
    Scenario('catalogs', catalogs, 6, 24, ['constant_measurements', 'catalogs_measured'], cpu_limit=60),
    Scenario('building', building, 6, 36, ['proportional_measurements'], cpu_limit=60),
    Scenario('writing', writing, 8, 60, ['proportional_measurements', 'written'], cpu_limit=60),
    Scenario('history', history, 2, 8, ['histories_measured'], cpu_limit=60),
]
