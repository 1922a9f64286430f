import gc
import gzip
import io
import os
import struct
import tracemalloc
import weakref

from segpy.binary_reel_header import BinaryReelHeader
from segpy.dataset import Dataset, DelegatingDataset
from segpy.reader import create_reader
from segpy.trace_header import TraceHeaderRev1
from segpy.writer import write_segy

from harness import gen, model
from harness.core import Scenario
from harness.observe import TRACE_FORMATS, MemDataset, TracingFile, VirtualFile, check_header, check_reader, check_samples, content, eq_content, header_dict, real_samples, write_file

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = ('A case is a random file read through a handle which records every operation, a sequence of accesses each of whose reads are '
        'compared with the region it needs, a dataset and handle which record the interleaving of requests and writes, or a file of several '
        'gigabytes computed on demand. Distinct by content and operations.')
ASSUMPTIONS = ['memory is measured by tracemalloc, so as allocated by Python and NumPy']

MUTATING = ('write', 'truncate')


def regions(m):
    """(start, stop) of the headers, and of the samples, of a file."""
    headers = [(0, m.data_start())]
    samples = []
    size = model.SAMPLE_SIZE[m.format]
    for o, (h, s) in zip(m.trace_offsets(), m.traces):
        headers.append((o, o + 240))
        samples.append((o + 240, o + 240 + len(s) * size))
    return headers, samples


def reads(log):
    """The positions actually obtained."""
    return [(e[1], e[1] + e[3]) for e in log if e[0] == 'read' and e[3]]


def overlap(a, b):
    return max(0, min(a[1], b[1]) - max(a[0], b[0]))


def no_mutation(ctx, fh, what):
    for e in fh.log:
        ctx.check(e[0] not in MUTATING, '{}: {!r} on the handle', what, e)
    ctx.check(not fh.closed and not fh.closed_calls, '{}: the handle was closed', what)


def within(ctx, log, region, what, allowance=0):
    """Everything read lies in a region."""
    total = 0
    for r in reads(log):
        ctx.check(region[0] <= r[0] and r[1] <= region[1], '{}: read bytes {} to {}, which are outside {} to {}', what, r[0], r[1], *region)
        total += r[1] - r[0]
    ctx.check(total <= region[1] - region[0] + allowance, '{}: read {} bytes to obtain {}', what, total, region[1] - region[0])
    ctx.count('accesses_traced')
    return total


def args(m):
    return dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])


def some_model(rng):
    return gen.file_model(rng, max_side=rng.choice([2, 4]), max_samples=rng.choice([10, 300]), long_traces=rng.random() < 0.1)


def laziness(ctx):
    """Reads of create_reader() and of each access."""
    rng = ctx.rng
    m = some_model(rng)
    if rng.random() < 0.2:
        m.tail = rng.randbytes(rng.randint(1, 239))
    data = m.encode()
    fh = TracingFile(data, writable=rng.random() < 0.5)
    a = args(m)
    guess = rng.random() < 0.3
    if guess:
        del a['encoding']
    reader = create_reader(fh, cache_directory=None, dimensionality=rng.choice([None, None, 1]), **a)
    headers, samples = regions(m)
    obtained = 0
    for r in reads(fh.log):
        obtained += r[1] - r[0]
        for s in samples:
            ctx.check(not overlap(r, s), 'create_reader() read bytes {} to {}, of which samples are at {} to {}', r[0], r[1], *s)
    needed = sum(b - a for a, b in headers)
    # The textual header once more to detect the encoding
    ctx.check(obtained <= needed + 3200 + len(m.tail), 'create_reader() read {} bytes of {} bytes of headers', obtained, needed)
    no_mutation(ctx, fh, 'create_reader()')
    ctx.count('sample_bytes_not_read', sum(b - a for a, b in samples))
    fh.take()
    # Accesses which need no data
    n = len(m.traces)
    list(reader.trace_indexes()), reader.num_traces(), reader.max_num_trace_samples(), reader.dimensionality, reader.encoding, reader.endian
    reader.textual_reel_header, reader.binary_reel_header, reader.extended_textual_header, reader.revision, reader.bytes_per_sample
    reader.data_sample_format, reader.data_sample_format_description, reader.filename, reader.trace_header_format_class
    for i in range(n):
        reader.num_trace_samples(i)
    if reader.dimensionality == 3:
        list(reader.inline_numbers()), list(reader.xline_numbers()), list(reader.inline_xline_numbers())
        for p in reader.inline_xline_numbers():
            reader.has_trace_index(p), reader.trace_index(p)
    elif reader.dimensionality == 2:
        for c in reader.cdp_numbers():
            reader.has_trace_index(c), reader.trace_index(c)
    ctx.eq(reads(fh.take()), [], 'bytes read by accesses other than to trace headers and samples')
    size = model.SAMPLE_SIZE[m.format]
    if n:
        for _ in range(20):
            i = rng.randrange(n)
            s = m.stored_samples(i)
            if rng.random() < 0.4:
                check_header(ctx, reader.trace_header(i), m.trace_values(i), m.layout, 'trace_header({})'.format(i))
                within(ctx, fh.log, headers[1 + i], 'trace_header({})'.format(i))
            else:
                start = rng.randint(0, len(s))
                stop = rng.randint(start, len(s))
                if rng.random() < 0.3:
                    start, stop = None, None
                x, y = start or 0, len(s) if stop is None else stop
                what = 'trace_samples({}, {}, {}) of {}'.format(i, start, stop, len(s))
                check_samples(ctx, reader.trace_samples(i, start, stop), s[x:y], what)
                first = samples[i][0]
                within(ctx, fh.log, (first + x * size, first + y * size), what)
                ctx.count('ranges_traced')
            no_mutation(ctx, fh, 'an access')
            fh.take()
        # Refused accesses read nothing
        for fn in (lambda: reader.trace_samples(n), lambda: reader.trace_samples(0, -1), lambda: reader.trace_samples(0, 0, len(m.traces[0][1]) + 1), lambda: reader.trace_header(-1)):
            ctx.raises(ValueError, fn, 'an access out of range')
        ctx.eq(reads(fh.take()), [], 'bytes read by accesses out of range')
    ctx.check(fh.getvalue() == data, 'the file was modified')
    ctx.evaluated(data)
    ctx.sample(bytes=len(data), read_by_create=obtained, headers=needed, **m.summary())


def huge(ctx):
    """Files of many gigabytes."""
    rng = ctx.rng
    head = model.FileModel(gen.conventional_text(rng), dict(data_sample_format=2, num_samples=32767), [], []).encode()
    n = [33500, 17000, 40000, 33000][ctx.case % 4] if not ctx.thorough else [33500, 17000, 66000, 140000][ctx.case % 4]
    width = rng.choice([7, 100, 163, n])
    fh = VirtualFile(head, n, rng.choice([32767, 32767, 32760]), width, rng.randrange(1000))
    reader = create_reader(fh, encoding='ascii', cache_directory=None)
    ctx.check(fh.bytes_read <= 3600 * 2 + (n + 1) * 240, 'create_reader() read {} bytes of a file of {} traces', fh.bytes_read, n)
    ctx.eq(reader.num_traces(), n, 'num_traces()')
    ctx.eq(reader.dimensionality, 3, 'dimensionality')
    tracemalloc.start()
    try:
        for k in range(60):
            i = rng.choice([0, n - 1, 2**31 // fh.trace_bytes, 2**31 // fh.trace_bytes + 1, min(n - 1, 2**32 // fh.trace_bytes), min(n - 1, 2**32 // fh.trace_bytes + 1), rng.randrange(n)])
            i = min(n - 1, i)
            before = fh.bytes_read
            h = reader.trace_header(i)
            expected = dict({r[0]: r[3] for r in model.TRACE_LAYOUTS['rev1']}, **fh.values(i))
            check_header(ctx, h, expected, model.TRACE_LAYOUTS['rev1'], 'trace_header({}) at byte {}'.format(i, len(head) + i * fh.trace_bytes))
            ctx.check(fh.bytes_read - before <= 240, 'trace_header({}) read {} bytes', i, fh.bytes_read - before)
            a = rng.randrange(fh.num_samples)
            b = min(fh.num_samples, a + rng.randint(0, 20))
            before = fh.bytes_read
            check_samples(ctx, reader.trace_samples(i, a, b), [fh.sample(i, j) for j in range(a, b)], 'trace_samples({}, {}, {}) at byte {}'.format(i, a, b, len(head) + i * fh.trace_bytes))
            ctx.check(fh.bytes_read - before <= 4 * (b - a), 'trace_samples({}, {}, {}) read {} bytes', i, a, b, fh.bytes_read - before)
            pair = (1 + i // width, 1 + i % width)
            ctx.eq(reader.trace_index(pair), i, 'trace_index({})'.format(pair))
            del h
            ctx.count('accesses_beyond_2GB', len(head) + i * fh.trace_bytes >= 2**31)
            ctx.count('accesses_beyond_4GB', len(head) + i * fh.trace_bytes >= 2**32)
        gc.collect()
        tracemalloc.reset_peak()
        base = tracemalloc.get_traced_memory()[0]
        for k in range(6):
            reader.trace_samples(rng.randrange(n))
        gc.collect()
        now, peak = tracemalloc.get_traced_memory()
        ctx.check(now - base < 4 * fh.num_samples, '{} bytes are retained after reading six traces', now - base)
        # The reference itself builds and packs a list of integers
        ctx.count('memory_observations')
    finally:
        tracemalloc.stop()
    ctx.evaluated(n, width, fh.num_samples, fh.bump)
    ctx.sample(traces=n, file_bytes=fh.size)


def retained(ctx):
    """Memory does not grow with accesses."""
    rng = ctx.rng
    n = 30
    traces = [(dict(num_samples=3000, inline_number=1, crossline_number=i), [float(i + j) for j in range(3000)]) for i in range(n)]
    fmt = ctx.rng.choice(model.FORMATS)
    if fmt in model.INT_RANGE:
        traces = [(h, [int(x) % 100 for x in s]) for h, s in traces]
    m = model.FileModel(gen.conventional_text(rng), dict(data_sample_format=fmt), [], traces)
    data = m.encode()
    path = write_file(ctx.path('f.sgy'), data)
    with open(path, 'rb') as fh:
        reader = create_reader(fh, encoding='ascii', cache_directory=None)
        for i in range(2):
            reader.trace_samples(i), reader.trace_header(i)
        gc.collect()
        tracemalloc.start()
        try:
            base = tracemalloc.get_traced_memory()[0]
            for i in range(n):
                reader.trace_samples(i)
                reader.trace_header(i)
            gc.collect()
            now, peak = tracemalloc.get_traced_memory()
        finally:
            tracemalloc.stop()
        ctx.check(now - base < 30000, '{} bytes are retained after {} accesses to different traces', now - base, n)
        ctx.count('memory_observations')
        s = reader.trace_samples(3)
        h = reader.trace_header(3)
        # What was obtained is independent of the reader
        t = reader.trace_samples(4)
        check_samples(ctx, s, m.stored_samples(3), 'samples obtained before those of another trace')
        s[0] = 1
        h.num_samples = 5
        check_samples(ctx, reader.trace_samples(3), m.stored_samples(3), 'samples of a trace obtained before and modified')
        check_header(ctx, reader.trace_header(3), m.trace_values(3), m.layout, 'header of a trace obtained before and modified')
        ctx.count('independent_results')
        # Released with the handle
        refs = [weakref.ref(reader), weakref.ref(h)]
        del reader, s, t, h
        gc.collect()
        ctx.eq([r() for r in refs], [None] * 2, 'objects remaining after their last use')
    ctx.evaluated(data)


def opening(ctx):
    """Opening a large file takes little memory, with the cache and without, the first time and later."""
    rng = ctx.rng
    ns = rng.choice([20000, 32767])
    n = rng.randint(300, 420)
    endian = rng.choice('<>')
    fmt = rng.choice([1, 2, 5])
    header = model.encode_trace_header(dict(num_samples=ns, inline_number=1, crossline_number=1), endian, 'rev1')
    m = model.FileModel(gen.conventional_text(rng), dict(data_sample_format=fmt), [], [], endian=endian)
    path = ctx.path('large.sgy')
    with open(path, 'wb') as f:
        f.write(m.encode())
        for _ in range(n):
            f.write(header)
            # The samples are a hole
            f.seek(ns * 4, os.SEEK_CUR)
        f.truncate(f.tell())
        total = f.tell()
    where = rng.choice([None, ctx.path('cache')])
    for turn in range(2):
        with open(path, 'rb') as fh:
            gc.collect()
            tracemalloc.start()
            try:
                base = tracemalloc.get_traced_memory()[0]
                reader = create_reader(fh, endian=endian, cache_directory=where)
                now, peak = tracemalloc.get_traced_memory()
            finally:
                tracemalloc.stop()
            ctx.check(peak - base < 6000000, 'opening a file of {} bytes (cache {}, turn {}) took {} bytes of memory', total, where, turn, peak - base)
            ctx.eq(reader.num_traces(), n, 'number of traces')
            ctx.eq(reader.max_num_trace_samples(), ns, 'samples of the longest trace')
            ctx.count('memory_observations')
            ctx.count('bytes_opened', total)
            if where:
                ctx.count('openings_with_cache')
    ctx.evaluated(n, ns, fmt, endian, where is None)


def snapshot(directory):
    out = {}
    for root, dirs, files in os.walk(directory):
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), directory)] = 'directory'
        for f in files:
            p = os.path.join(root, f)
            st = os.stat(p)
            with open(p, 'rb') as x:
                out[os.path.relpath(p, directory)] = (st.st_ino, st.st_mode, st.st_mtime_ns, st.st_size, x.read())
    return out


def read_only(ctx):
    """Reading changes no file but those in the cache directory, and reads each sample at most once to hash the file."""
    rng = ctx.rng
    m = some_model(rng)
    data = m.encode()
    os.mkdir(ctx.path('data'))
    path = write_file(ctx.path('data', 'f.sgy'), data)
    write_file(ctx.path('data', 'other.sgy'), b'other')
    os.chdir(ctx.path('data'))
    where = rng.choice([None, '.segpy', ctx.path('cache')])
    before = snapshot(ctx.tmp)
    for turn in range(2):
        how = rng.choice(['rb', 'r+b', 'tracing'])
        if how == 'tracing':
            # The name of the real file, so caching is possible
            fh = TracingFile(data, name=path, writable=True)
        else:
            fh = open(path, how, buffering=rng.choice([0, -1]))
        reader = create_reader(fh, cache_directory=where, **args(m))
        check_reader(ctx, reader, m)
        ctx.check(not fh.closed, 'the handle was closed')
        if how == 'tracing':
            no_mutation(ctx, fh, 'reading')
        reader = None
        fh.close()
        after = snapshot(ctx.tmp)
        cache = os.path.relpath(os.path.join(ctx.path('data'), where), ctx.tmp) if where else None
        for name in set(before) | set(after):
            if cache and (name == cache or name.startswith(cache + os.sep)):
                ctx.count('cache_files')
                continue
            ctx.check(before.get(name) == after.get(name), '{} changed when reading with cache_directory={!r}: {!r} to {!r}',
                      name, where, str(before.get(name))[:100], str(after.get(name))[:100])
            ctx.count('files_unchanged')
    if where:
        for turn in ('without', 'with'):
            fh = TracingFile(data, name=path)
            if turn == 'without':
                for f in os.listdir(ctx.path(cache)):
                    os.unlink(ctx.path(cache, f))
            create_reader(fh, cache_directory=where, **args(m))
            total = sum(b - a for a, b in reads(fh.log))
            headers, samples = regions(m)
            limit = len(data) + (sum(b - a for a, b in headers) + 3200 if turn == 'without' else 0)
            ctx.check(total <= limit, 'create_reader() {} a cache entry read {} bytes of a file of {}', turn, total, len(data))
            largest = max(e[2] for e in fh.log if e[0] == 'read')
            ctx.check(largest <= 1 << 20, 'create_reader() requested {} bytes at once', largest)
            ctx.count('hashing_observed')
    ctx.evaluated(data, where is None)


class Item(list):
    """A list which can be weakly referenced."""


class Watched(Dataset):
    """A dataset which computes its traces, and records what is requested of it."""

    def __init__(self, m, rng, log, fh=None, lazy=True):
        self.m = m
        self.log = log
        self.refs = []
        self.trace_format = TRACE_FORMATS[m.revision]
        self.binary = BinaryReelHeader(**m.binary)
        self.fail_at = None
        # The indexes of the traces, in the order in which they are to be written, which is that of the model
        self.order = list(range(len(m.traces)))
        if rng.random() < 0.4:
            rng.shuffle(self.order)
        self.place = {index: place for place, index in enumerate(self.order)}

    @property
    def textual_reel_header(self):
        self.log.append(('text',))
        return tuple(self.m.text)

    @property
    def binary_reel_header(self):
        self.log.append(('binary',))
        return self.binary

    @property
    def extended_textual_header(self):
        self.log.append(('pages',))
        return (iter(p) for p in self.m.pages)

    def num_traces(self):
        return len(self.m.traces)

    def trace_indexes(self):
        return iter(self.order)

    def alive(self):
        return sorted({k for k, r in self.refs if r() is not None})

    def trace_header(self, i):
        i = self.place[i]
        self.log.append(('header', i, self.alive()))
        if self.fail_at == ('header', i):
            raise KeyError('no header')
        h = self.trace_format(**self.m.traces[i][0])
        self.refs.append((i, weakref.ref(h)))
        return h

    def trace_samples(self, i, start=None, stop=None):
        i = self.place[i]
        self.log.append(('samples', i, start, stop, self.alive()))
        if self.fail_at == ('samples', i):
            raise KeyError('no samples')
        s = Item(real_samples(self.m.format, self.m.traces[i][1]))
        self.refs.append((i, weakref.ref(s)))
        return s


class Output(TracingFile):
    """Records in the log of the dataset."""

    def __init__(self, log, **kw):
        super().__init__(writable=True, **kw)
        self.log = log


def streaming(ctx):
    """The interleaving of requests to the dataset and writes."""
    rng = ctx.rng
    m = some_model(rng)
    log = []
    fh = Output(log)
    ds = Watched(m, rng, log)
    fail = None
    if m.traces and rng.random() < 0.3:
        fail = ds.fail_at = (rng.choice(['header', 'samples']), rng.randrange(len(m.traces)))
    expected = m.encode()
    offsets = m.trace_offsets() + [len(expected)]
    call = lambda: write_segy(fh, ds, encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    if fail:
        ctx.raises(KeyError, call, 'write_segy() of a dataset which fails')
    else:
        call()
    written = 0
    next_trace = 0
    seen = {}
    for e in log:
        ctx.check(e[0] in ('write', 'seek', 'tell', 'text', 'binary', 'pages', 'header', 'samples'), 'write_segy() used {!r}', e)
        if e[0] == 'write':
            ctx.eq(e[1], written, 'position of a write')
            written += e[2]
        elif e[0] == 'seek':
            ctx.eq(e[1], written, 'target of a seek')
        elif e[0] in ('header', 'samples'):
            i = e[1]
            key = (e[0], i)
            ctx.check(key not in seen, '{} of trace {} requested more than once', e[0], i)
            seen[key] = True
            ctx.check(i in (next_trace, next_trace - 1), '{} of trace {} requested after those of trace {}', e[0], i, next_trace - 1)
            next_trace = max(next_trace, i + 1)
            # Everything before is in the file already
            ctx.check(written >= offsets[i], '{} of trace {} requested when only {} of the preceding {} bytes were written', e[0], i, written, offsets[i])
            ctx.check(written <= offsets[i] + 240, '{} of trace {} requested late', e[0], i)
            old = [k for k in e[-1] if k < i - 1]
            ctx.check(not old, 'traces {} are retained when trace {} is requested', old, i)
            ctx.count('requests_observed')
            if ds.order[i] != i:
                ctx.count('permuted_requests')
    if fail:
        i = fail[1]
        ctx.check(fh.getvalue() == expected[:len(fh.getvalue())] and offsets[i] <= written <= offsets[i] + 240,
                  'what was written before the dataset failed is not the beginning of the file: {} bytes', written)
        ctx.count('failing_datasets')
    else:
        ctx.eq(len(seen), 2 * len(m.traces), 'number of headers and samples requested')
        ctx.check(fh.getvalue() == expected, 'the file written differs from what was expected')
    ctx.check(not fh.closed and not fh.closed_calls, 'write_segy() closed the handle')
    ctx.eq(fh.tell(), written, 'position after writing')
    gc.collect()
    ctx.eq(ds.alive(), [], 'traces retained after writing')
    ctx.state([e[0] for e in log][:12], len(log) if len(log) < 50 else 50)
    ctx.evaluated(expected, fail)
    ctx.sample(log=[str(e)[:60] for e in log[:14]], **m.summary())


class Ramp(Dataset):
    """A large dataset of which nothing is stored."""

    def __init__(self, n, length):
        self.n, self.length = n, length
        self.binary = BinaryReelHeader(data_sample_format=2)
        self.peaks = []

    textual_reel_header = ('',) * 40
    extended_textual_header = ()
    dimensionality = 0

    @property
    def binary_reel_header(self):
        return self.binary

    def num_traces(self):
        return self.n

    def trace_header(self, i):
        return TraceHeaderRev1(num_samples=self.length, crossline_number=i)

    def trace_samples(self, i, start=None, stop=None):
        self.peaks.append(tracemalloc.get_traced_memory()[0])
        return range(i, i + self.length)


class Sink(io.RawIOBase):
    """Write-only and unseekable beyond the position; keeps nothing but a digest."""

    def __init__(self):
        self.pos = 0

    def writable(self):
        return True

    def write(self, data):
        self.pos += len(data)
        return len(data)

    def seek(self, offset, whence=0):
        if whence != 0 or offset != self.pos:
            raise OSError('not seekable')
        return self.pos

    def tell(self):
        return self.pos


def memory_of_writing(ctx):
    rng = ctx.rng
    n, length = rng.choice([(60, 3000), (300, 600)])
    ds = Ramp(n, length)
    sink = Sink()
    gc.collect()
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        write_segy(sink, ds, encoding='ascii')
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
    ctx.eq(sink.pos, 3600 + n * (240 + 4 * length), 'bytes written')
    total = n * length * 4
    growth = ds.peaks[-1] - ds.peaks[2]
    ctx.check(growth < total / 4, 'memory grew by {} bytes while writing {} bytes of samples', growth, total)
    # One trace as a tuple of integers takes some 40 bytes per sample
    ctx.check(peak - base < max(200000, length * 200), '{} bytes of memory were used to write traces of {} samples', peak - base, length)
    ctx.count('memory_observations')
    ctx.evaluated(n, length, ctx.case)


def sinks(ctx):
    """Anything which can be written sequentially can be written to."""
    rng = ctx.rng
    m = some_model(rng)
    expected = m.encode()
    kind = rng.choice(['gzip', 'write-only', 'append-unbuffered', 'bytesio', 'update'])
    path = ctx.path('out')
    if kind == 'gzip':
        fh = gzip.open(path, 'wb')
    elif kind == 'write-only':
        fh = open(path, 'wb')
    elif kind == 'append-unbuffered':
        fh = open(path, 'xb', buffering=0)
    elif kind == 'update':
        # Over an older file which is longer; only what is written changes
        write_file(path, b'\xaa' * (len(expected) + 1000))
        fh = open(path, 'r+b')
    else:
        fh = io.BytesIO()
    write_segy(fh, MemDataset(m, rng, TRACE_FORMATS[m.revision], lazy_pages=True), encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    ctx.check(not fh.closed, 'the handle was closed')
    if kind == 'bytesio':
        result = fh.getvalue()
    else:
        fh.close()
        with (gzip.open if kind == 'gzip' else open)(path, 'rb') as f:
            result = f.read()
        if kind == 'update':
            ctx.check(result[len(expected):] == b'\xaa' * 1000, 'bytes beyond the end of what was written changed')
            result = result[:len(expected)]
    ctx.check(result == expected, 'written to {}: differs from what was expected', kind)
    ctx.count('sink_' + kind)
    ctx.evaluated(expected, kind)


def dataset_unmodified(ctx):
    """Neither the parts of a dataset nor a source reader are modified by writing."""
    rng = ctx.rng
    m = some_model(rng)
    if rng.random() < 0.5:
        m.encoding = rng.choice(gen.ENCODINGS) if all(c < '\x80' for line in m.text + sum(m.pages, []) for c in line) else m.encoding
        ds = MemDataset(m, rng, TRACE_FORMATS[m.revision], kept=True)
        headers = [header_dict(ds.trace_header(i), m.layout) for i in range(len(m.traces))]
        identities = [id(ds.trace_header(i)) for i in range(len(m.traces))]
        binary = header_dict(ds.binary_reel_header, model.BINARY)
        before = vars(ds).keys()
        parts = [list(s) for _, s in m.traces]
        kept = [[x for x in s] for s in ds.kept]
        for endian in rng.sample('<>', 2) + [m.endian]:
            out = io.BytesIO()
            write_segy(out, ds, encoding=m.encoding, endian=endian, trace_header_format=TRACE_FORMATS[m.revision])
            ctx.check(out.getvalue() == m.copy(endian=endian).encode(), 'a dataset written several times, finally as {!r}, gives another file', endian)
            ctx.eq([header_dict(ds.trace_header(i), m.layout) for i in range(len(m.traces))], headers, 'trace headers after writing')
            ctx.eq([id(ds.trace_header(i)) for i in range(len(m.traces))], identities, 'trace header objects after writing')
            ctx.eq(header_dict(ds.binary_reel_header, model.BINARY), binary, 'binary header after writing')
            ctx.eq(vars(ds).keys(), before, 'attributes after writing')
            ctx.check([list(s) for _, s in m.traces] == parts, 'samples changed by writing')
            for i, (s, k) in enumerate(zip(ds.kept, kept)):
                ctx.check(repr([x for x in s]) == repr(k), 'the samples of trace {} of the dataset, a {}, were changed by writing', i, type(s).__name__)
                ctx.count('sequences_unmodified')
        ctx.count('datasets_unmodified')
    else:
        data = m.encode()
        fh = TracingFile(data, writable=True)
        reader = create_reader(fh, cache_directory=None, **args(m))
        before = content(reader)
        fh.take()
        out = io.BytesIO()
        source = reader if rng.random() < 0.5 else DelegatingDataset(reader)
        write_segy(out, source, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
        no_mutation(ctx, fh, 'write_segy() from a reader')
        # Each trace is read once
        total = sum(b - a for a, b in reads(fh.log))
        ctx.check(total <= len(data), 'write_segy() from a reader read {} of {} bytes', total, len(data))
        eq_content(ctx, content(reader), before, 'the source after writing')
        ctx.check(fh.getvalue() == data, 'the source file was modified')
        ctx.count('readers_unmodified')
    ctx.evaluated(m.encode())


SCENARIOS = [
    Scenario('laziness', laziness, 400, 8000, ['accesses_traced', 'ranges_traced', 'sample_bytes_not_read']),
    Scenario('huge', huge, 4, 30, ['accesses_beyond_2GB', 'accesses_beyond_4GB', 'memory_observations'], cpu_limit=240),
    Scenario('opening', opening, 4, 30, ['memory_observations'], cpu_limit=240),
    Scenario('retained', retained, 10, 100, ['memory_observations', 'independent_results']),
    Scenario('read-only', read_only, 120, 2400, ['files_unchanged', 'cache_files', 'hashing_observed']),
    Scenario('streaming', streaming, 300, 6000, ['requests_observed', 'failing_datasets']),
    Scenario('memory-of-writing', memory_of_writing, 4, 30, ['memory_observations']),
    Scenario('sinks', sinks, 80, 1600, ['sink_gzip', 'sink_write-only', 'sink_update']),
    Scenario('dataset-unmodified', dataset_unmodified, 150, 3000, ['datasets_unmodified', 'readers_unmodified', 'sequences_unmodified']),
]
