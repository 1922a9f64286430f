import bisect
import io

from segpy.packer import make_header_packer
from segpy.reader import create_reader

from harness import formats, gen, model
from harness.core import Scenario
from harness.observe import TRACE_FORMATS, TracingFile, VirtualFile, check_header, check_reader, check_samples, handles, write_file

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('A case is a random file and a history of accesses through one or several readers which share a handle, interleaved with '
        'movements of that handle, or a file truncated at one position, or all ranges of one trace. Every result is compared with the '
        'content encoded in the file. Non-trivial: at least two accesses to a file with samples; distinct by file and history.')
ASSUMPTIONS = ['accesses are not concurrent']


def open_reader(ctx, fh, m, dimensionality=None, **kw):
    fh.seek(0)
    kw.setdefault('cache_directory', None)
    return create_reader(fh, encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision],
                         dimensionality=dimensionality, **kw)


def indexes(rng, n):
    """A valid trace index, of one of the usual types."""
    i = rng.randrange(n)
    k = rng.random()
    if k < 0.05:
        import numpy
        return numpy.int64(i)
    return i


def access(ctx, reader, m, rng, what):
    """One random access, compared with the model. Returns a key of the access."""
    n = len(m.traces)
    op = rng.choice(['samples', 'samples', 'range', 'range', 'range', 'header', 'header', 'override', 'length', 'text', 'binary', 'pages', 'longest',
                     'bad-index', 'bad-range', 'index', 'iterate'])
    if n == 0 and op not in ('text', 'binary', 'pages', 'longest', 'bad-index'):
        op = 'bad-index'
    i = indexes(rng, n) if n else 0
    ctx.note('{}: {} {}'.format(what, op, i))
    ctx.count('access_' + op)
    if op == 'samples':
        samples = reader.trace_samples(i)
        check_samples(ctx, samples, m.stored_samples(i), '{}: trace_samples({})'.format(what, i))
        if len(samples) and rng.random() < 0.5:
            # What the caller does with them is no business of the reader
            samples.reverse()
            samples[rng.randrange(len(samples))] = samples[0]
            del samples[rng.randrange(len(samples)):]
            ctx.count('results_modified')
    elif op == 'range':
        s = m.stored_samples(i)
        start = rng.choice([None, 0, len(s), rng.randint(0, len(s))])
        stop = rng.choice([None, len(s), rng.randint(start or 0, len(s)), min(len(s), (start or 0) + 1)])
        samples = reader.trace_samples(i, start, stop)
        check_samples(ctx, samples, s[start:stop], '{}: trace_samples({}, {}, {})'.format(what, i, start, stop))
        if rng.random() < 0.3:
            samples.reverse()
            ctx.count('results_modified')
        return op, int(i), start, stop
    elif op == 'header':
        header = reader.trace_header(i)
        check_header(ctx, header, m.trace_values(i), m.layout, '{}: trace_header({})'.format(what, i))
        if rng.random() < 0.5:
            for name in rng.sample([f[0] for f in m.layout], rng.choice([1, 20, len(m.layout)])):
                try:
                    setattr(header, name, rng.choice([0, 1, 2]))
                except ValueError:
                    pass  # The field has another domain
            ctx.count('results_modified')
    elif op == 'override':
        f = formats.sub_format(rng, TRACE_FORMATS[m.revision], m.layout, 1, 240)
        packer = make_header_packer(f.cls, m.endian)
        values = m.trace_values(i)
        if rng.random() < 0.3:
            # A packer of the same format but of the other byte order, whose result is unspecified here
            try:
                reader.trace_header(i, header_packer_override=make_header_packer(TRACE_FORMATS[m.revision], '<' if m.endian == '>' else '>'))
            except (EOFError, ValueError):
                pass
            check_header(ctx, reader.trace_header(i), values, m.layout, '{}: trace_header({}) after one with another packer'.format(what, i))
        header = reader.trace_header(i, header_packer_override=packer)
        ctx.eq({r[0]: getattr(header, r[0]) for r in f.layout}, {r[0]: values[r[0]] for r in f.layout}, '{}: trace_header({}) with another packer'.format(what, i))
    elif op == 'length':
        ctx.eq(reader.num_trace_samples(i), len(m.traces[i][1]), '{}: num_trace_samples({})'.format(what, i))
    elif op == 'text':
        ctx.eq(list(reader.textual_reel_header), m.text, what + ': textual_reel_header')
    elif op == 'binary':
        check_header(ctx, reader.binary_reel_header, m.binary_values(), model.BINARY, what + ': binary_reel_header')
    elif op == 'pages':
        ctx.eq([list(p) for p in reader.extended_textual_header], m.pages, what + ': extended_textual_header')
    elif op == 'longest':
        ctx.eq(reader.max_num_trace_samples(), max((len(s) for _, s in m.traces), default=0), what + ': max_num_trace_samples()')
    elif op == 'bad-index':
        bad = rng.choice([-1, n, n + 1, -n, -n - 1, 2**31, -2**31, 10**12])
        if 0 <= bad < n:
            bad = -1
        ctx.raises(ValueError, lambda: reader.trace_samples(bad), '{}: trace_samples({}) of {}'.format(what, bad, n))
        ctx.raises(ValueError, lambda: reader.trace_header(bad), '{}: trace_header({}) of {}'.format(what, bad, n))
        ctx.raises(ValueError, lambda: reader.trace_samples(bad, 0, 0), '{}: trace_samples({}, 0, 0) of {}'.format(what, bad, n))
        ctx.raises((LookupError, ValueError), lambda: reader.num_trace_samples(bad), '{}: num_trace_samples({}) of {}'.format(what, bad, n))
    elif op == 'bad-range':
        s = len(m.traces[i][1])
        for start, stop in [(None, s + 1), (None, -1), (-1, None), (s + 1, None), (s + 1, s + 1), (s, s - 1), (1, 0), (-1, -1), (-2, s), (0, s + 10**9)]:
            ctx.raises(ValueError, lambda: reader.trace_samples(i, start, stop), '{}: trace_samples({}, {}, {}) of {} samples'.format(what, i, start, stop, s))
    elif op == 'index':
        ctx.eq(list(reader.trace_indexes()), list(range(n)), what + ': trace_indexes()')
        ctx.eq(reader.num_traces(), n, what + ': num_traces()')
    elif op == 'iterate':
        # Accesses during an iteration over the indexes
        for t in reader.trace_indexes():
            check_samples(ctx, reader.trace_samples(t), m.stored_samples(t), '{}: trace_samples({}) during iteration'.format(what, t))
            u = rng.randrange(n)
            check_header(ctx, reader.trace_header(u), m.trace_values(u), m.layout, '{}: trace_header({}) during iteration'.format(what, u))
    return op, int(i)


def histories(ctx):
    rng = ctx.rng
    m = gen.file_model(rng, max_side=4, max_samples=rng.choice([5, 20, 60]), text=rng.choice(['conventional', 'any']))
    if m.traces and rng.random() < 0.3:
        m.tail = rng.randbytes(rng.choice([1, 100, 239]))
    data = m.encode(rng if rng.random() < 0.5 else None)
    fh = handles(ctx, data)
    kinds = rng.choice([[None], [None, None], [None, 1], [None, 1, None], [1, 1]])
    readers = [(open_reader(ctx, fh, m, d), 'reader {} (dimensionality {})'.format(k, d)) for k, d in enumerate(kinds)]
    ctx.note(repr(m.summary()))
    log = []
    for _ in range(rng.choice([4, 12, 40])):
        if rng.random() < 0.35:
            k = rng.random()
            if k < 0.4:
                fh.seek(rng.randint(0, len(data)))
            elif k < 0.6:
                fh.seek(0, 2)
            elif k < 0.7:
                fh.seek(len(data) + rng.randint(1, 10000))
            else:
                fh.read(rng.randint(0, 500))
            ctx.count('handle_moved')
        reader, what = rng.choice(readers)
        ctx.state(m.segy_type, m.endian, type(reader).__name__, log[-1][0] if log else None)
        log.append(access(ctx, reader, m, rng, what))
    ctx.check(not fh.closed, 'the handle was closed')
    ctx.evaluated(*([data, repr(log)] if any(s for _, s in m.traces) else []))
    ctx.sample(history=log[:12], **m.summary())


def all_ranges(ctx):
    """Every range of samples of a trace, valid or not."""
    rng = ctx.rng
    fmt = model.FORMATS[ctx.case % 5]
    m = gen.file_model(rng, fmt, geometry_kind=rng.choice(['line', 'grid']), max_side=3, max_samples=rng.choice([1, 3, 9]))
    data = m.encode()
    fh = handles(ctx, data)
    reader = open_reader(ctx, fh, m)
    i = rng.randrange(len(m.traces))
    s = m.stored_samples(i)
    n = len(s)
    edges = [None] + list(range(-2, n + 3))
    for start in edges:
        for stop in edges:
            a, b = start if start is not None else 0, stop if stop is not None else n
            what = 'trace_samples({}, {}, {}) of {} samples'.format(i, start, stop, n)
            if 0 <= a <= b <= n:
                check_samples(ctx, reader.trace_samples(i, start, stop), s[a:b], what)
                ctx.count('valid_ranges')
            else:
                ctx.raises(ValueError, lambda: reader.trace_samples(i, start, stop), what)
                ctx.count('invalid_ranges')
    ctx.evaluated(data, i)


def long_ranges(ctx):
    """Ranges of long traces, whose samples all differ."""
    rng = ctx.rng
    fmt = rng.choice(model.FORMATS)
    m = gen.file_model(rng, fmt, long_traces=True, geometry_kind='line')
    for k, (h, s) in enumerate(m.traces):
        if fmt != model.INT8:
            s[:] = [float(j - 16000 + k) if fmt in (1, 5) else j - 16000 + k for j in range(len(s))]
    data = m.encode()
    fh = handles(ctx, data)
    reader = open_reader(ctx, fh, m)
    for _ in range(30):
        i = rng.randrange(len(m.traces))
        s = m.stored_samples(i)
        a = rng.randint(0, len(s))
        b = rng.choice([a, min(len(s), a + 1), rng.randint(a, len(s)), len(s), min(len(s), a + 256)])
        check_samples(ctx, reader.trace_samples(i, a, b), s[a:b], 'trace_samples({}, {}, {})'.format(i, a, b))
        ctx.count('long_ranges')
    ctx.evaluated(data)


def huge_file(ctx):
    """Accesses to a file of several gigabytes, computed on demand, whose traces may differ in length."""
    rng = ctx.rng
    endian = rng.choice('><')
    head = model.FileModel(gen.conventional_text(rng), dict(data_sample_format=2, num_samples=32767), [], [], 'ascii', endian).encode()
    pattern = rng.choice([[32767], [32767, 32767, 32766], [32767, 0, 32767, 5, 32000]])
    mean = sum(240 + 4 * k for k in pattern) // len(pattern)
    limit = [2**32, 2**31, 2**32, 2**33 if ctx.thorough else 2**31][ctx.case % 4]
    n = int(limit / mean * 1.1)
    width = rng.choice([7, 163, n])
    fh = VirtualFile(head, n, pattern, width, rng.randrange(1000), endian,
                     lines=None if rng.random() < 0.5 else lambda i: (5, 5, i * 3 if i % 1000 else i * 3 + 1))
    reader = create_reader(fh, encoding='ascii', endian=endian, cache_directory=None)
    ctx.eq(reader.num_traces(), n, 'num_traces()')
    edges = [k for k in (bisect.bisect_left(range(n + 1), limit, key=fh.offset) for limit in (2**31, 2**32, 2**33)) if k < n]
    defaults = {r[0]: r[3] for r in model.TRACE_LAYOUTS['rev1']}
    for _ in range(150):
        i = rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)] + [max(0, min(n - 1, e + rng.randint(-2, 2))) for e in edges])
        o = fh.offset(i)
        if rng.random() < 0.3:
            fh.seek(rng.randrange(fh.size))
        k = rng.choice(['header', 'samples', 'samples', 'length', 'index', 'all'])
        if k == 'header':
            check_header(ctx, reader.trace_header(i), dict(defaults, **fh.values(i)), model.TRACE_LAYOUTS['rev1'], 'trace_header({}) at byte {}'.format(i, o))
        elif k == 'samples':
            a = rng.randint(0, fh.length(i))
            b = min(fh.length(i), a + rng.randint(0, 30))
            check_samples(ctx, reader.trace_samples(i, a, b), [fh.sample(i, j) for j in range(a, b)], 'trace_samples({}, {}, {}) at byte {}'.format(i, a, b, o))
        elif k == 'length':
            ctx.eq(reader.num_trace_samples(i), fh.length(i), 'num_trace_samples({}) at byte {}'.format(i, o))
        elif k == 'index':
            key = fh.lines(i)[:2] if reader.dimensionality == 3 else fh.lines(i)[2]
            ctx.eq(reader.trace_index(key), i, 'trace_index({})'.format(key))
        elif rng.random() < 0.1:
            check_samples(ctx, reader.trace_samples(i), [fh.sample(i, j) for j in range(fh.length(i))], 'trace_samples({}) at byte {}'.format(i, o))
        ctx.count('accesses_beyond_2GB', o >= 2**31)
        ctx.count('accesses_beyond_4GB', o >= 2**32)
    for bad in (-1, n, n + 1, 2 * n):
        ctx.raises(ValueError, lambda: reader.trace_header(bad), 'trace_header({}) of {}'.format(bad, n))
        ctx.raises(ValueError, lambda: reader.trace_samples(bad), 'trace_samples({}) of {}'.format(bad, n))
    ctx.evaluated(n, repr(pattern), width, fh.bump)
    ctx.sample(traces=n, file_bytes=fh.size, lengths=pattern)


def truncated_access(ctx, reader, m, limit, k, what):
    """Accesses to the first k traces of which only the first limit bytes of the file are present."""
    size = model.SAMPLE_SIZE[m.format]
    offsets = m.trace_offsets()
    for i in range(k):
        s = m.stored_samples(i)
        start = offsets[i] + 240
        check_header(ctx, reader.trace_header(i), m.trace_values(i), m.layout, '{}: trace_header({})'.format(what, i))
        ctx.eq(reader.num_trace_samples(i), len(s), '{}: num_trace_samples({})'.format(what, i))
        present = max(0, min(len(s), (limit - start) // size))
        check_samples(ctx, reader.trace_samples(i, 0, present), s[:present], '{}: the {} samples present of trace {}'.format(what, present, i))
        if present == len(s):
            check_samples(ctx, reader.trace_samples(i), s, '{}: trace_samples({})'.format(what, i))
        else:
            for a, b in [(None, None), (0, present + 1), (present, present + 1), (len(s) - 1, None), (present, None)]:
                ctx.raises(EOFError, lambda: reader.trace_samples(i, a, b), '{}: trace_samples({}, {}, {}) of which {} samples are present'.format(what, i, a, b, present))
                ctx.count('missing_data_reported')


def truncation(ctx):
    """A file which ends at some position."""
    rng = ctx.rng
    m = gen.file_model(rng, geometry_kind=rng.choice(['grid', 'line', 'sparse', 'one']), max_side=2, max_samples=rng.choice([2, 5, 20]), pages=rng.choice([0, 0, 1, 2]))
    data = m.encode()
    offsets = m.trace_offsets()
    boundaries = [3200, 3599, 3600, 3601, m.data_start(), len(data)]
    for o, (_, s) in zip(offsets, m.traces):
        end = o + 240 + len(s) * model.SAMPLE_SIZE[m.format]
        boundaries += [o, o + 1, o + 239, o + 240, o + 241, end - 1, end]
    points = set(rng.sample(boundaries, min(len(boundaries), 8))) | {rng.randint(0, len(data)) for _ in range(3)}
    for limit in sorted(p for p in points if 0 <= p <= len(data)):
        what = 'file of {} truncated to {} bytes'.format(len(data), limit)
        ctx.note(what)
        fh = handles(ctx, data[:limit], name='t{}.sgy'.format(limit))
        if limit < 3600:
            ctx.raises(ValueError, lambda: open_reader(ctx, fh, m), what)
        elif limit < m.data_start():
            ctx.raises(EOFError, lambda: open_reader(ctx, fh, m), what)
        else:
            k = sum(o + 240 <= limit for o in offsets)
            reader = open_reader(ctx, fh, m)
            ctx.eq(reader.num_traces(), k, what + ': num_traces()')
            truncated_access(ctx, reader, m, limit, k, what)
            complete = m.copy(traces=m.traces[:k])
            if k and offsets[k - 1] + 240 + len(m.traces[k - 1][1]) * model.SAMPLE_SIZE[m.format] <= limit:
                check_reader(ctx, reader, complete, None, what)
        ctx.check(not fh.closed, what + ': the handle was closed')
        ctx.count('truncations')
        ctx.evaluated(data, limit)


def truncated_long_traces(ctx):
    """Traces of many kilobytes of which some is missing."""
    rng = ctx.rng
    m = gen.file_model(rng, fmt=rng.choice(model.FORMATS), geometry_kind='none', pages=0, text='conventional')
    for n in (rng.choice([32767, 20000, 16385, 8193, 5000]), rng.choice([32767, 17000, 9000])):
        some = gen.samples(rng, m.format, 97)
        m.traces.append((dict(num_samples=n), [some[(i + i // 97) % 97] for i in range(n)]))
    data = m.encode()
    offsets = m.trace_offsets()
    size = model.SAMPLE_SIZE[m.format]
    for _ in range(5):
        k = rng.choice([1, 2])
        o, n = offsets[k - 1] + 240, len(m.traces[k - 1][1])
        limit = o + rng.choice([0, size * n - 1, size * n - size, rng.randint(0, size * n), min(size * n - 1, 65536), min(size * n - 1, 65536 + size), size * (n // 2)])
        what = 'file of {} bytes truncated to {}, {} bytes into a trace of {}'.format(len(data), limit, limit - o, size * n)
        ctx.note(what)
        reader = open_reader(ctx, handles(ctx, data[:limit], name='t{}.sgy'.format(limit)), m)
        ctx.eq(reader.num_traces(), k, what + ': num_traces()')
        truncated_access(ctx, reader, m, limit, k, what)
        ctx.count('long_truncations')
        ctx.evaluated(data, limit)


def shrinking(ctx):
    """A file which is truncated after the reader has been created."""
    rng = ctx.rng
    m = gen.file_model(rng, geometry_kind=rng.choice(['grid', 'line']), max_side=3, max_samples=6)
    data = m.encode()
    path = write_file(ctx.path('f.sgy'), data)
    fh = ctx.keep(open(path, 'rb', buffering=0))
    reader = open_reader(ctx, fh, m)
    offsets = m.trace_offsets()
    size = model.SAMPLE_SIZE[m.format]
    limit = len(data)
    for _ in range(4):
        limit = rng.randint(m.data_start(), limit)
        with open(path, 'r+b') as f:
            f.truncate(limit)
        what = 'file truncated to {} bytes while in use'.format(limit)
        ctx.eq(reader.num_traces(), len(m.traces), what + ': num_traces()')
        for i, o in enumerate(offsets):
            s = m.stored_samples(i)
            if o + 240 <= limit:
                check_header(ctx, reader.trace_header(i), m.trace_values(i), m.layout, '{}: trace_header({})'.format(what, i))
            else:
                ctx.raises(EOFError, lambda: reader.trace_header(i), '{}: trace_header({}) at {}'.format(what, i, o))
            if o + 240 + len(s) * size <= limit:
                check_samples(ctx, reader.trace_samples(i), s, '{}: trace_samples({})'.format(what, i))
            elif s:
                ctx.raises(EOFError, lambda: reader.trace_samples(i), '{}: trace_samples({}) at {}'.format(what, i, o))
                ctx.count('missing_data_reported')
        ctx.evaluated(data, limit)


def several_files(ctx):
    """Readers of different files used alternately, none of which knows of the others."""
    rng = ctx.rng
    readers = []
    for k in range(rng.randint(2, 4)):
        m = gen.file_model(rng, max_side=3, max_samples=8)
        fh = io.BytesIO(m.encode()) if rng.random() < 0.5 else ctx.keep(open(write_file(ctx.path('{}.sgy'.format(k)), m.encode()), 'rb'))
        readers.append((open_reader(ctx, fh, m), m, 'file {}'.format(k)))
    log = []
    for _ in range(30):
        reader, m, what = rng.choice(readers)
        log.append((what,) + access(ctx, reader, m, rng, what))
    for reader, m, what in readers:
        check_reader(ctx, reader, m, None, what)
    ctx.count('alternating_readers', len(readers))
    ctx.evaluated(repr(log), *[m.encode() for _, m, _ in readers])


SCENARIOS = [
    Scenario('histories', histories, 700, 14000, ['access_' + op for op in (
        'samples', 'range', 'header', 'override', 'length', 'text', 'binary', 'pages', 'longest', 'bad-index', 'bad-range', 'index', 'iterate')] + ['handle_moved', 'results_modified']),
    Scenario('all-ranges', all_ranges, 100, 2000, ['valid_ranges', 'invalid_ranges']),
    Scenario('long-ranges', long_ranges, 24, 300, ['long_ranges']),
    Scenario('huge-file', huge_file, 4, 40, ['accesses_beyond_2GB', 'accesses_beyond_4GB'], cpu_limit=240),
    Scenario('truncation', truncation, 250, 5000, ['truncations', 'missing_data_reported']),
    Scenario('truncated-long-traces', truncated_long_traces, 24, 300, ['long_truncations', 'missing_data_reported']),
    Scenario('shrinking', shrinking, 100, 2000, ['missing_data_reported']),
    Scenario('several-files', several_files, 80, 1500, ['alternating_readers']),
]
