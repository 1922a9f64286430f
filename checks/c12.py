import functools
import io
import numbers
import os
import pickle

from segpy.dataset import DelegatingDataset
from segpy.reader import create_reader
from segpy.toolkit import catalog_traces
from segpy.writer import write_segy

from harness import gen, model
from harness.core import Scenario
from harness.observe import TRACE_FORMATS, MemDataset, TracingFile, check_reader, content, eq_content, handles, write_file

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('A case is a call of create_reader(), catalog_traces() or write_segy() on random content with a callback (of various kinds of '
        'callable) whose calls are judged as they happen; or with a callback which raises at one of its calls, for every '
        'call in turn; or with something which is not callable. Distinct by content and kind of callback.')
ASSUMPTIONS = []


class Monitor:
    """Judges a sequence of progress calls."""

    def __init__(self, ctx, what, raise_at=None, error=None):
        self.ctx = ctx
        self.what = what
        self.values = []
        self.raise_at = raise_at
        self.error = error
        self.returned = False

    def __call__(self, p):
        ctx = self.ctx
        ctx.count('progress_calls')
        ctx.check(not self.returned, self.what + ': progress reported after the call had returned')
        ctx.check(isinstance(p, numbers.Real), self.what + ': progress {!r} is not a number', p)
        ctx.check(0 <= p <= 1, self.what + ': progress {!r} is not between zero and one, after {}', p, self.values[-5:])
        if self.values:
            ctx.check(p >= self.values[-1], self.what + ': progress {!r} after {!r}', p, self.values[-1])
        self.values.append(p)
        if self.raise_at is not None and len(self.values) - 1 == self.raise_at:
            raise self.error

    def method(self, p):
        return self(p)

    def with_default(self, p, ignored=None):
        return self(p)

    def done(self):
        self.returned = True
        self.ctx.check(self.values, self.what + ': no progress was reported')
        self.ctx.eq(self.values[-1], 1, self.what + ': last progress (of {} reports)'.format(len(self.values)))
        self.ctx.count('monitored_calls')

    def advances(self, largest):
        """No gap between successive reports is larger."""
        gaps = [b - a for a, b in zip(self.values, self.values[1:])]
        self.ctx.check(self.values[0] <= largest and max(gaps, default=0) <= largest,
                       self.what + ': progress advances by {} at once (reports: {})', max(gaps, default=1), self.values[:5])
        self.ctx.count('advancing_calls')

    def callback(self, rng):
        k = rng.randrange(6)
        if k == 0:
            return self
        if k == 1:
            return self.method
        if k in (2, 5):
            # What it returns is irrelevant
            answer = rng.choice([False, True, 0, 1, 'stop', NotImplemented, StopIteration, []])
            return lambda p: (self(p), answer)[1]
        if k == 3:
            return functools.partial(Monitor.with_default, self, ignored=3)
        return FalsyCallable(self)


class FalsyCallable:
    """A callable which is false, as an empty container of callbacks might be."""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, p):
        self.fn(p)

    def __bool__(self):
        return False


class MyError(Exception):
    pass


def errors(rng):
    return rng.choice([MyError, ValueError, EOFError, OSError, TypeError, KeyError, StopIteration, KeyboardInterrupt, AttributeError, pickle.PicklingError, IndexError])('from the callback')


def random_model(rng):
    kind = rng.choice(['small', 'small', 'small', 'many', 'long'])
    if kind == 'many':
        return gen.file_model(rng, geometry_kind=rng.choice(['grid', 'line', 'sparse', 'almost']), max_side=rng.choice([10, 20]), max_samples=4, header_style='sparse')
    if kind == 'long':
        return gen.file_model(rng, long_traces=True)
    return gen.file_model(rng, max_side=4, max_samples=10)


def reading(ctx):
    rng = ctx.rng
    m = random_model(rng)
    data = m.encode()
    if m.traces and rng.random() < 0.3:
        # Ends within the samples of the last trace, or with part of a header
        cut = rng.choice([1, 100, len(m.traces[-1][1]) * model.SAMPLE_SIZE[m.format]])
        end = m.trace_offsets()[-1] + 240
        data = data[:max(end, len(data) - cut)] if rng.random() < 0.7 else data + bytes(rng.randint(1, 239))
        ctx.count('files_with_ragged_ends')
    a = dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision], dimensionality=rng.choice([None, None, 1, 2, 3]))
    path = write_file(ctx.path('f.sgy'), data)
    cache = rng.choice([None, None, '.segpy', ctx.path('cache')])
    for turn in range(2 if cache else 1):
        fh = ctx.keep(open(path, 'rb')) if cache or rng.random() < 0.5 else io.BytesIO(data)
        monitor = Monitor(ctx, 'create_reader(cache_directory={!r}), turn {}'.format(cache and 'some', turn))
        reader = create_reader(fh, progress=monitor.callback(rng), cache_directory=cache, **a)
        monitor.done()
        if data == m.encode():
            check_reader(ctx, reader, m, a['dimensionality'])
        else:
            for i in range(reader.num_traces()):
                reader.trace_header(i)
        ctx.state('read', len(monitor.values) if len(monitor.values) < 30 else 30, cache is None, turn)
    # Toolkit
    for _ in range(1):
        fh = handles(ctx, data, name='g.sgy')
        fh.seek(m.data_start())
        monitor = Monitor(ctx, 'catalog_traces()')
        result = catalog_traces(fh, model.SAMPLE_SIZE[m.format], TRACE_FORMATS[m.revision], m.endian, monitor.callback(rng))
        monitor.done()
        fh.seek(m.data_start())
        without = catalog_traces(fh, model.SAMPLE_SIZE[m.format], TRACE_FORMATS[m.revision], m.endian)
        ctx.eq([r if r is None else dict(r) for r in result], [r if r is None else dict(r) for r in without], 'catalog_traces() with and without progress')
    ctx.evaluated(data, cache is None)
    ctx.sample(values=monitor.values[:5] + monitor.values[-3:], n=len(monitor.values), **m.summary())


def empty_handle(ctx):
    """catalog_traces() where there is nothing at all, or nothing after the current position."""
    rng = ctx.rng
    data = bytes(rng.choice([0, 0, 1, 239]))
    fh = handles(ctx, data)
    if rng.random() < 0.3:
        fh.seek(len(data) + rng.choice([0, 0, 1000]))
    at = fh.tell()
    monitor = Monitor(ctx, 'catalog_traces() of a handle of {} bytes at {}'.format(len(data), at))
    endian = rng.choice('><')
    trace_format = TRACE_FORMATS[rng.choice(['rev0', 'rev1'])]
    result = catalog_traces(fh, rng.choice([1, 2, 4]), trace_format, endian, monitor.callback(rng))
    monitor.done()
    fh.seek(at)
    without = catalog_traces(fh, 4, trace_format, endian)
    ctx.eq([r if r is None else dict(r) for r in result], [r if r is None else dict(r) for r in without], 'catalog_traces() with and without progress')
    ctx.eq(len(result[0]), 0, 'number of traces')
    ctx.count('empty_handles')
    ctx.evaluated(len(data), at, endian, ctx.case)


def very_many(ctx):
    """Progress over thousands of traces."""
    rng = ctx.rng
    n = rng.choice([1001, 3500, 5200, 10001] + [40000] * ctx.thorough)
    side = rng.choice([1, 50, n])
    traces = [({'num_samples': 1 + (t % 7 == 0), 'ensemble_num': t + 1, 'inline_number': t // side, 'crossline_number': t % side}, [t % 100] * (1 + (t % 7 == 0))) for t in range(n)]
    m = model.FileModel([' ' * 80] * 40, {'data_sample_format': 8}, [], traces)
    data = m.encode()
    monitor = Monitor(ctx, 'create_reader() of {} traces'.format(n))
    reader = create_reader(io.BytesIO(data), encoding='ascii', progress=monitor.callback(rng), cache_directory=None)
    monitor.done()
    ctx.eq(reader.num_traces(), n, 'number of traces')
    monitor.advances(0.5)
    monitor = Monitor(ctx, 'catalog_traces() of {} traces'.format(n))
    f = io.BytesIO(data)
    f.seek(m.data_start())
    catalog_traces(f, 1, progress=monitor.callback(rng))
    monitor.done()
    monitor.advances(0.5)
    monitor = Monitor(ctx, 'write_segy() of {} traces'.format(n))
    out = io.BytesIO()
    write_segy(out, reader, progress=monitor.callback(rng), encoding='ascii')
    monitor.done()
    monitor.advances(0.5)
    ctx.check(out.getvalue() == data, 'the file changed when rewritten')
    ctx.count('very_many_traces', n)
    ctx.evaluated(n, side)


def writing(ctx):
    rng = ctx.rng
    m = random_model(rng)
    fh = io.BytesIO()
    monitor = Monitor(ctx, 'write_segy() of {} traces'.format(len(m.traces)))
    kwargs = dict(encoding=m.encoding, trace_header_format=TRACE_FORMATS[m.revision], endian=m.endian)
    write_segy(fh, MemDataset(m, rng, TRACE_FORMATS[m.revision]), progress=monitor.callback(rng), **kwargs)
    monitor.done()
    ctx.check(fh.getvalue() == m.encode(), 'write_segy() with progress wrote another file')
    plain = io.BytesIO()
    write_segy(plain, MemDataset(m, rng, TRACE_FORMATS[m.revision]), **kwargs)
    ctx.check(fh.getvalue() == plain.getvalue(), 'write_segy() without progress wrote another file')
    if len(m.traces) > 4:
        ctx.check(len(set(monitor.values)) > 2, 'write_segy() of {} traces reported only {}', len(m.traces), monitor.values[:5])
    ctx.state('write', min(len(monitor.values), 30))
    ctx.count('files_written')
    ctx.evaluated(m.encode(), 'write')


class Selected(DelegatingDataset):
    """Some of the traces of another dataset, in another order."""

    def __init__(self, source, order):
        super().__init__(source)
        self._order = order

    def trace_indexes(self):
        return iter(self._order)

    def num_traces(self):
        return len(self._order)


def selecting(ctx):
    """Progress while writing datasets the indexes of whose traces are not 0, 1, 2..."""
    rng = ctx.rng
    m = gen.file_model(rng, geometry_kind=rng.choice(['grid', 'line', 'sparse', 'one']), max_side=rng.choice([2, 4, 8]), max_samples=4, header_style='sparse')
    n = len(m.traces)
    order = list(range(n))
    kind = rng.choice(['reversed', 'every', 'shuffled', 'tail', 'none'])
    if kind == 'reversed':
        order.reverse()
    elif kind == 'every':
        order = order[rng.randrange(3)::rng.randint(2, 4)]
    elif kind == 'shuffled':
        rng.shuffle(order)
    elif kind == 'tail':
        order = order[-rng.randint(1, 3):]
    else:
        order = []
    ds = Selected(MemDataset(m, rng, TRACE_FORMATS[m.revision]), order)
    fh = io.BytesIO()
    monitor = Monitor(ctx, 'write_segy() of traces {} of {}'.format(kind, n))
    write_segy(fh, ds, progress=monitor.callback(rng), encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    monitor.done()
    ctx.check(fh.getvalue() == m.copy(traces=[m.traces[i] for i in order]).encode(), 'write_segy() of {} traces wrote another file', kind)
    ctx.count('selections')
    ctx.state('select', kind, min(len(monitor.values), 30))
    ctx.evaluated(m.encode(), tuple(order))


def expect(ctx, fn, error, what):
    try:
        fn()
    except BaseException as e:
        if e is error:
            return
        # StopIteration cannot pass through generators
        ctx.fail('{}: {!r} reached the caller rather than {!r}'.format(what, e, error))
    ctx.fail('{}: the exception raised by the callback was lost'.format(what))


def raising(ctx):
    """The callback raises at its n-th call, for each n."""
    rng = ctx.rng
    m = gen.file_model(rng, geometry_kind=rng.choice(['grid', 'line', 'one', 'duplicates', 'none']), max_side=2, max_samples=3)
    data = m.encode()
    path = write_file(ctx.path('f.sgy'), data)
    a = dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    cache = ctx.path('cache')

    def calls(fn):
        monitor = Monitor(ctx, 'counting')
        fn(monitor)
        return len(monitor.values)

    def read(monitor):
        with open(path, 'rb') as f:
            try:
                return create_reader(f, progress=monitor, cache_directory=cache, **a)
            finally:
                ctx.check(not f.closed, 'the handle was closed')

    def catalogue(monitor):
        f = io.BytesIO(data)
        f.seek(m.data_start())
        catalog_traces(f, model.SAMPLE_SIZE[m.format], TRACE_FORMATS[m.revision], m.endian, monitor)

    out = []

    def write(monitor):
        f = io.BytesIO()
        out.append(f)
        write_segy(f, MemDataset(m, rng, TRACE_FORMATS[m.revision]), progress=monitor, encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])

    for name, fn in (('create_reader()', read), ('catalog_traces()', catalogue), ('write_segy()', write)):
        n = calls(fn)
        for k in range(n) if n < 12 else sorted({0, 1, n - 1, n - 2} | {rng.randrange(n) for _ in range(6)}):
            if os.path.isdir(cache):
                for f in os.listdir(cache):
                    os.unlink(os.path.join(cache, f))
            error = errors(rng)
            what = '{} with {!r} at call {} of {}'.format(name, error, k, n)
            ctx.note(what)
            monitor = Monitor(ctx, what, k, error)
            expect(ctx, lambda: fn(monitor), error, what)
            ctx.eq(len(monitor.values), k + 1, what + ': number of calls')
            if fn is read:
                for f in os.listdir(cache) if os.path.isdir(cache) else ():
                    with open(os.path.join(cache, f), 'rb') as e:
                        try:
                            pickle.load(e)
                        except Exception as x:
                            ctx.fail('{}: a partial cache entry was left: {!r}'.format(what, x))
                with open(path, 'rb') as f:
                    check_reader(ctx, create_reader(f, cache_directory=cache, **a), m, None, what + '; afterwards')
            elif fn is write:
                ctx.check(not out[-1].closed, what + ': the handle was closed')
                ctx.check(data.startswith(out[-1].getvalue()), what + ': what was written is not the beginning of the file')
            ctx.count('exceptions_propagated')
        ctx.evaluated(data, name)
    with open(path, 'rb') as f:
        ctx.check(f.read() == data, 'the file was modified')


def not_callable(ctx):
    rng = ctx.rng
    m = gen.file_model(rng, max_side=2, max_samples=3)
    data = m.encode()
    path = write_file(ctx.path('f.sgy'), data)
    a = dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    for thing in (0, 1, '', 'print', False, True, [], [print], {}, object(), 0.5, b'', ()):
        what = 'progress={!r}'.format(thing)
        with open(path, 'rb') as f:
            ctx.raises(TypeError, lambda: create_reader(f, progress=thing, **a), 'create_reader({})'.format(what))
            ctx.raises(TypeError, lambda: create_reader(f, progress=thing, cache_directory=None, **a), 'create_reader({})'.format(what))
        f = io.BytesIO(data)
        f.seek(m.data_start())
        ctx.raises(TypeError, lambda: catalog_traces(f, model.SAMPLE_SIZE[m.format], TRACE_FORMATS[m.revision], m.endian, thing), 'catalog_traces({})'.format(what))
        ctx.eq(sorted(os.listdir(ctx.tmp)), ['f.sgy'], what + ': files')
        out = TracingFile(writable=True)
        ctx.raises(TypeError, lambda: write_segy(out, MemDataset(m, rng, TRACE_FORMATS[m.revision]), encoding=m.encoding, endian=m.endian,
                                                 trace_header_format=TRACE_FORMATS[m.revision], progress=thing), 'write_segy({})'.format(what))
        ctx.eq([e for e in out.log if e[0] == 'write'], [], what + ': written')
        ctx.count('refusals', 4)
    # An entry exists already
    with open(path, 'rb') as f:
        create_reader(f, **a)
    with open(path, 'rb') as f:
        ctx.raises(TypeError, lambda: create_reader(f, progress=5, **a), 'create_reader(progress=5) with a cache entry')
        check_reader(ctx, create_reader(f, progress=None, **a), m, None, 'progress=None')
    ctx.evaluated(data)


def failing_calls(ctx):
    """Progress of calls which fail is monotonic as well, and an equal outcome is obtained without a callback."""
    rng = ctx.rng
    m = gen.file_model(rng, geometry_kind=rng.choice(['grid', 'line']), max_side=3, max_samples=4, revision='rev1')
    data = bytearray(m.encode())
    kind = rng.choice(['format', 'samples', 'dataset', 'full'])
    if kind == 'format':
        data[3224:3226] = b'\x7f\x7f'
    elif kind == 'samples':
        o = rng.choice(m.trace_offsets())
        data[o + 114:o + 116] = b'\xff\xff'
    if kind in ('format', 'samples'):
        monitor = Monitor(ctx, 'create_reader() of a damaged file')
        a = dict(encoding=m.encoding, endian=m.endian, cache_directory=None)
        ctx.raises((ValueError, EOFError), lambda: create_reader(io.BytesIO(data), progress=monitor, **a), 'damaged ' + kind)
        ctx.raises((ValueError, EOFError), lambda: create_reader(io.BytesIO(data), **a), 'damaged ' + kind)
    else:
        k = rng.randrange(len(m.traces))
        ds = MemDataset(m, rng)
        error = MyError('from the dataset' if kind == 'dataset' else 'from the handle')
        if kind == 'dataset':
            original = ds.trace_samples

            def trace_samples(i, start=None, stop=None):
                if i == k:
                    raise error
                return original(i, start, stop)
            ds.trace_samples = trace_samples
            out = io.BytesIO()
        else:
            count = [0]

            def before(entry):
                if entry[0] == 'write':
                    count[0] += 1
                    if count[0] > k:
                        raise error
            out = TracingFile(writable=True, before=before)
        monitor = Monitor(ctx, 'write_segy() which fails')
        expect(ctx, lambda: write_segy(out, ds, progress=monitor, encoding=m.encoding, endian=m.endian), error, kind)
        ctx.check(1 not in monitor.values, 'write_segy() reported completion before failing')
    ctx.count('failures_' + kind)
    ctx.evaluated(bytes(data), kind)


SCENARIOS = [
    Scenario('reading', reading, 300, 6000, ['progress_calls', 'monitored_calls', 'files_with_ragged_ends']),
    Scenario('empty-handle', empty_handle, 40, 400, ['empty_handles']),
    Scenario('very-many', very_many, 6, 60, ['very_many_traces', 'advancing_calls']),
    Scenario('writing', writing, 300, 6000, ['progress_calls', 'files_written']),
    Scenario('selecting', selecting, 150, 3000, ['selections', 'progress_calls']),
    Scenario('raising', raising, 60, 1200, ['exceptions_propagated']),
    Scenario('not-callable', not_callable, 16, 60, ['refusals']),
    Scenario('failing-calls', failing_calls, 100, 1500, ['failures_format', 'failures_samples', 'failures_dataset', 'failures_full']),
]
