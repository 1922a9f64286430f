"""C26: objects which have nothing to do with each other do not affect each other, however their use is interleaved."""

import io
import itertools
import math
import os
import pickle
import random
import struct

import numpy

from segpy.binary_reel_header import BinaryReelHeader
from segpy.catalog import CatalogBuilder
from segpy.dataset import DelegatingDataset
from segpy.encoding import guess_encoding
from segpy.header import are_equal
from segpy.ibm_float import IBMFloat, ibm2ieee, ieee2ibm
from segpy.ibm_float_packer import pack_ibm_floats, unpack_ibm_floats
from segpy.packer import make_header_packer
from segpy.reader import create_reader, SegYReader2D, SegYReader3D
from segpy.toolkit import (catalog_traces, pack_values, read_binary_reel_header, read_textual_reel_header, read_trace_header, unpack_values,
                           write_binary_reel_header, write_textual_reel_header, write_trace_header)
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
from segpy.util import batched, complementary_intervals, contains_duplicates, minmax
from segpy.writer import write_segy
from segpy_numpy.extract import extract_inline_3d, extract_trace_header_field_3d, extract_xline_3d

from harness import formats, gen, model
from harness.core import Scenario
from harness.gen import expected_dimensionality
from harness.observe import (MemDataset, TRACE_FORMATS, TracingFile, check_bytes, check_header, check_index, check_reader, check_samples,
                             check_type, model_triples, real_samples, sample_sequence, write_file)
from harness.sched import Scheduler, freely

PROPERTY = 'C26'
LEVEL = 'exploration'
RULE = ('A case is a set of activities (reading, writing, cataloguing, packing, converting, extracting, failing), each on objects of its own or on '
        'shared objects which are only queried, whose results are each judged against the model of its own content; they are run in threads '
        'preempted by a scheduler at lines or bytecodes of segpy, in threads preempted by the interpreter, or alternately in one thread. '
        'Distinct by activities and schedule; a state is a pair of functions, one entered while a thread is preempted in the other.')
ASSUMPTIONS = ['a file handle is used by one reader or writer at a time, as it has one position',
               'an object is not modified while another thread uses it']


def options(m):
    return dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])


def small_model(rng, **kw):
    return gen.file_model(rng, max_samples=kw.pop('max_samples', 6), max_side=3, **kw)


# -- activities on their own objects: each takes a Ctx and a random generator of its own, and returns a callable

def reading(ctx, rng):
    m = small_model(rng)
    fh = TracingFile(m.encode()) if rng.random() < 0.3 else io.BytesIO(m.encode())
    order = list(range(len(m.traces)))
    rng.shuffle(order)

    def run():
        reader = create_reader(fh, **options(m))
        check_reader(ctx, reader, m, what='reader in thread', order=order)
        check_reader(ctx, reader, m, what='reader in thread, again', order=order)
    return run


def writing(ctx, rng):
    m = small_model(rng, words=False)
    ds = MemDataset(m, rng)
    out = TracingFile(writable=True)

    def run():
        write_segy(out, ds, trace_header_format=TRACE_FORMATS[m.revision], encoding=m.encoding, endian=m.endian)
        check_bytes(ctx, out.getvalue(), m.encode(), m, 'file written in thread')
    return run


def copying(ctx, rng):
    m = small_model(rng, variable_pages=False)
    fh, out = io.BytesIO(m.encode()), io.BytesIO()

    def run():
        reader = create_reader(fh, **options(m))
        ds = DelegatingDataset(reader)
        seen = []
        write_segy(out, ds, trace_header_format=TRACE_FORMATS[m.revision], encoding=m.encoding, endian=m.endian, progress=seen.append)
        check_bytes(ctx, out.getvalue(), m.encode(), m, 'file copied in thread')
        ctx.check(seen and seen[-1] == 1 and seen == sorted(seen), 'progress of copying in thread: {}', seen)
    return run


def caching(directory):
    def make(ctx, rng):
        m = small_model(rng)
        path = write_file(ctx.path('file-{}.sgy'.format(rng.getrandbits(40))), m.encode())

        def run():
            for _ in range(2):
                with open(path, 'rb') as f:
                    reader = create_reader(f, cache_directory=directory, **options(m))
                    check_reader(ctx, reader, m, what='cached reader in thread')
                    again = pickle.loads(pickle.dumps(reader))
                check_reader(ctx, again, m, what='pickled reader in thread')
                del again
        return run
    return make


def header_records(ctx, rng):
    cls, layout, start, length = rng.choice([
        (BinaryReelHeader, model.BINARY, 3201, 400), (TraceHeaderRev1, model.TRACE_REV1, 1, 240), (TraceHeaderRev0, model.TRACE_REV0, 1, 240)])
    endian = rng.choice('><')
    histories = [[gen.header_values(rng, layout) for _ in range(3)] for _ in range(3)]

    def run():
        packer = make_header_packer(cls, endian)
        for history in histories:
            header = cls()
            expected = {row[0]: row[3] for row in layout}
            for values in history:
                for n, v in values.items():
                    setattr(header, n, v)
                expected.update(values)
                check_header(ctx, header, expected, layout, 'header in thread')
                b = packer.pack(header)
                ctx.eq(bytes(b), model.encode_header(layout, start, length, expected, endian), 'header packed in thread')
                other = packer.unpack(b)
                check_header(ctx, other, expected, layout, 'header unpacked in thread')
                ctx.check(are_equal(header, other), 'header unpacked in thread is not equal')
                third = other.copy()
                check_header(ctx, third, expected, layout, 'header copied in thread')
                del other
    return run


def header_formats(ctx, rng):
    parts = [formats.random_format(rng) for _ in range(3)]
    endian = rng.choice('><')
    values = [f.values(rng) for f in parts]
    seed = rng.getrandbits(40)

    def run():
        mine = random.Random(seed)
        for f, v in zip(parts, values):
            packer = make_header_packer(f.cls, endian)
            b = packer.pack(f.cls(**v))
            ctx.eq(bytes(b), model.encode_header(f.layout, f.start, f.length, v, endian), 'user-defined header packed in thread')
            check_header(ctx, packer.unpack(b), v, f.layout, 'user-defined header unpacked in thread')
            g = formats.random_format(mine)
            check_header(ctx, g.cls(), {r[0]: r[3] for r in g.layout}, g.layout, 'header of a format defined in thread')
            s = formats.sub_format(mine, TraceHeaderRev1, model.TRACE_REV1, 1, 240)
            h = {r[0]: gen.from_domain(mine, r[4]) for r in model.TRACE_REV1}
            check_header(ctx, make_header_packer(s.cls, endian).unpack(model.encode_header(model.TRACE_REV1, 1, 240, h, endian)), h, s.layout,
                         'header of sub-format defined in thread')
    return run


def numbers(ctx, rng):
    words = [rng.getrandbits(32) for _ in range(6)]
    floats = [gen.ibm_representable(rng) for _ in range(6)]

    def run():
        data = struct.pack('>6I', *words)
        for w, f in zip(words, unpack_ibm_floats(data, 6)):
            ctx.eq(float(f), model.ibm_float(w), 'IBM word {:08x} unpacked in thread'.format(w))
            ctx.eq(bytes(f), struct.pack('>I', w), 'bytes of IBM word {:08x} in thread'.format(w))
        ctx.eq(bytes(pack_ibm_floats(floats)), b''.join(model.ibm_bytes(x) for x in floats), 'IBM floats packed in thread')
        for w, x in zip(words, floats):
            a, b = IBMFloat.from_bytes(struct.pack('>I', w)), IBMFloat.from_float(x)
            fa, fb = model.ibm_float(w), model.ibm_float(struct.unpack('>I', model.ibm_bytes(x))[0])
            ctx.eq((a < b, a <= b, a == b, a > b), (fa < fb, fa <= fb, fa == fb, fa > fb), 'comparison of {} and {} in thread'.format(fa, fb))
            ctx.eq(a * x, fa * x, 'product in thread')
            ctx.eq((math.trunc(a), int(b)), (math.trunc(fa), int(fb)), 'integers of {} and {} in thread'.format(fa, fb))
            ctx.eq(ibm2ieee(ieee2ibm(x)), fb, 'conversion of {!r} in thread'.format(x))
    return run


def samples(ctx, rng):
    batches = []
    for _ in range(4):
        fmt = rng.choice([f for f in model.FORMATS if f != model.IBM])
        values = gen.samples(rng, fmt, rng.randint(0, 12), words=False)
        batches.append((fmt, values, sample_sequence(rng, fmt, values), rng.choice('><')))

    def run():
        for fmt, values, sequence, endian in batches:
            code = model.SAMPLE_CODE[fmt]
            data = model.encode_samples(fmt, values, endian)
            ctx.eq(bytes(pack_values(sequence, code, endian)), data, 'samples packed in thread')
            check_samples(ctx, unpack_values(data, code, endian), model.decode_samples(fmt, data, endian), 'samples unpacked in thread')
    return run


def cataloguing(ctx, rng):
    histories = []
    for _ in range(2):
        triples = gen.geometry(rng, max_side=4)
        two = rng.random() < 0.5
        histories.append([((i, x) if two else c, t) for t, (i, x, c) in enumerate(triples)])

    def run():
        builders = [CatalogBuilder() for _ in histories]
        for entries in itertools.zip_longest(*histories):
            for b, e in zip(builders, entries):
                if e is not None:
                    b.add(*e)
        for b, h in zip(builders, histories):
            catalog = b.create()
            d = dict(h)
            if len(d) < len(h):
                ctx.check(catalog is None, 'catalog of repeated keys created in thread')
                continue
            ctx.eq(sorted(catalog), sorted(d), 'keys of a catalog created in thread')
            for k, v in d.items():
                ctx.eq(catalog[k], v, 'catalog created in thread: [{}]'.format(k))
            ctx.eq({k: v for k, v in catalog.items()}, d, 'items of a catalog created in thread')
    return run


def text(ctx, rng):
    encoding = rng.choice(gen.ENCODINGS)
    lines = gen.conventional_text(rng)
    data = model.encode_text(lines, encoding)
    values = gen.header_values(rng, model.BINARY)
    endian = rng.choice('><')

    def run():
        fh = io.BytesIO(data + model.encode_binary(values, endian))
        ctx.eq(guess_encoding(data), encoding, 'encoding guessed in thread')
        ctx.eq(list(read_textual_reel_header(fh, encoding)), lines, 'text read in thread')
        expected = {r[0]: values.get(r[0], r[3]) for r in model.BINARY}
        header = read_binary_reel_header(fh, endian=endian)
        check_header(ctx, header, expected, model.BINARY, 'binary header read in thread')
        out = io.BytesIO()
        write_textual_reel_header(out, lines, encoding)
        write_binary_reel_header(out, header, endian)
        ctx.eq(out.getvalue(), data + model.encode_binary(expected, endian), 'headers written in thread')
    return run


def trace_headers(ctx, rng):
    revision = rng.choice(['rev0', 'rev1'])
    layout = model.TRACE_LAYOUTS[revision]
    endian = rng.choice('><')
    values = [{r[0]: gen.from_domain(rng, r[4]) for r in layout} for _ in range(4)]

    def run():
        packer = make_header_packer(TRACE_FORMATS[revision], endian)
        out = io.BytesIO()
        for v in values:
            write_trace_header(out, TRACE_FORMATS[revision](**v), packer)
        data = out.getvalue()
        ctx.eq(data, b''.join(model.encode_trace_header(v, endian, revision) for v in values), 'trace headers written in thread')
        fh = io.BytesIO(data)
        for i in (2, 0, 3, 1):
            check_header(ctx, read_trace_header(fh, packer, i * 240), values[i], layout, 'trace header read in thread')
    return run


def failing(ctx, rng):
    """Everything here fails, which is nobody else's business."""
    m = small_model(rng, geometry_kind='grid')
    while not m.traces:
        m = small_model(rng, geometry_kind='grid')
    data = m.encode()
    cut = rng.randrange(0, 3600)
    layout = model.TRACE_REV1
    row = rng.choice([r for r in layout])
    bad = gen.outside_domain(rng, row[4], row[2])

    def run():
        ctx.raises((EOFError, ValueError), lambda: create_reader(io.BytesIO(data[:cut]), **options(m)), 'reading {} bytes in thread'.format(cut))
        reader = create_reader(io.BytesIO(data), **options(m))
        for i in (len(m.traces), -1):
            ctx.raises(ValueError, lambda: reader.trace_samples(i), 'trace_samples({}) in thread'.format(i))
            ctx.raises(ValueError, lambda: reader.trace_header(i), 'trace_header({}) in thread'.format(i))
        header = TraceHeaderRev1()
        if bad is not None:
            ctx.raises((ValueError, OverflowError), lambda: setattr(header, row[0], bad), 'setting {} to {} in thread'.format(row[0], bad))
        check_header(ctx, header, {r[0]: r[3] for r in layout}, layout, 'header after a refused assignment in thread')
        ctx.raises(OverflowError, lambda: IBMFloat.from_float(1e300), 'IBMFloat.from_float(1e300) in thread')
        ctx.raises(FloatingPointError, lambda: IBMFloat.from_float(1e-200), 'IBMFloat.from_float(1e-200) in thread')
        ctx.raises(OSError, lambda: write_segy(Full(), MemDataset(m, random.Random(1)), trace_header_format=TRACE_FORMATS[m.revision],
                                               encoding=m.encoding, endian=m.endian), 'writing to a full disk in thread')
    return run


class Full(io.RawIOBase):
    def writable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        return offset

    def tell(self):
        return 0

    def write(self, b):
        raise OSError(28, 'No space left on device')


def extracting(ctx, rng):
    m = small_model(rng, revision='rev1', geometry_kind=rng.choice(['grid', 'sparse']), fmt=rng.choice([model.INT16, model.INT32, model.FLOAT32]))
    reader = create_reader(io.BytesIO(m.encode()), dimensionality=3, **options(m))
    where = {(i, x): t for t, (i, x, _) in enumerate(model_triples(m))}
    inlines, xlines = sorted({i for i, _ in where}), sorted({x for _, x in where})
    depth = max(len(s) for _, s in m.traces)

    def run():
        for i in inlines:
            a = extract_inline_3d(reader, i)
            ctx.eq(a.shape, (len(xlines), depth), 'shape of an inline extracted in thread')
            for row, x in enumerate(xlines):
                t = where.get((i, x))
                line(ctx, m, a[row], t)
        for x in xlines:
            a = extract_xline_3d(reader, x)
            ctx.eq(a.shape, (len(inlines), depth), 'shape of a crossline extracted in thread')
            for row, i in enumerate(inlines):
                line(ctx, m, a[row], where.get((i, x)))
        h = extract_trace_header_field_3d(reader, ['file_sequence_num']).file_sequence_num
        for (a, i), (b, x) in itertools.product(enumerate(inlines), enumerate(xlines)):
            if (i, x) in where:
                ctx.eq(int(h[a, b]), m.trace_values(where[i, x])['file_sequence_num'], 'header field extracted in thread')
            else:
                ctx.check(numpy.ma.getmaskarray(h)[a, b], 'absent header field extracted in thread')
    return run


def line(ctx, m, row, t):
    mask = numpy.ma.getmaskarray(row)
    values = m.stored_samples(t) if t is not None else []
    ctx.eq(list(mask), [k >= len(values) for k in range(len(row))], 'mask of a trace extracted in thread')
    with numpy.errstate(all='ignore'):
        for k, v in enumerate(values):
            a = numpy.ma.getdata(row)[k]
            ctx.check(a == numpy.asarray(v).astype(row.dtype) or a != a, 'sample {} extracted in thread is {}, expected {}', k, a, v)


def utilities(ctx, rng):
    n = rng.randint(1, 20)
    size = rng.randint(1, 6)
    items = [rng.randint(0, 9) for _ in range(n)]

    def run():
        ctx.eq([list(b) for b in batched(items, size)], [items[i:i + size] for i in range(0, n, size)], 'batched() in thread')
        ctx.eq(minmax(items), (min(items), max(items)), 'minmax() in thread')
        ctx.eq(contains_duplicates(sorted(items)), len(set(items)) < n, 'contains_duplicates() in thread')
        spans = [range(3, 5), range(7, 8)]
        ctx.eq([list(g) for g in complementary_intervals(spans, start=0, stop=10)], [[0, 1, 2], [5, 6], [8, 9]], 'complementary_intervals() in thread')
    return run


# -- activities on shared objects which are not modified

def shared_index(ctx, rng):
    m = small_model(rng)
    reader = create_reader(io.BytesIO(m.encode()), **options(m))
    triples = model_triples(m)
    dimensionality = expected_dimensionality(triples, lines=m.revision == 'rev1')

    def run():
        check_index(ctx, reader, triples, 'index shared by threads')
        check_type(ctx, reader, dimensionality, len(triples), 'reader shared by threads')
        ctx.eq(reader.num_traces(), len(triples), 'num_traces() of a reader shared by threads')
        ctx.eq(reader.max_num_trace_samples(), max((len(s) for _, s in m.traces), default=0), 'max_num_trace_samples() of a reader shared by threads')
        ctx.eq([reader.num_trace_samples(i) for i in reader.trace_indexes()], [len(s) for _, s in m.traces], 'num_trace_samples() of a reader shared by threads')
        check_header(ctx, reader.binary_reel_header, m.binary_values(), model.BINARY, 'binary header shared by threads')
    return [run] * 3


def shared_packer(ctx, rng):
    if rng.random() < 0.5:
        cls, layout, start, length = rng.choice([
            (BinaryReelHeader, model.BINARY, 3201, 400), (TraceHeaderRev1, model.TRACE_REV1, 1, 240), (TraceHeaderRev0, model.TRACE_REV0, 1, 240)])
        values = [{r[0]: gen.from_domain(rng, r[4]) for r in layout} for _ in range(6)]
    else:
        f = formats.random_format(rng)
        cls, layout, start, length = f.cls, f.layout, f.start, f.length
        values = [f.values(rng) for _ in range(6)]
    endian = rng.choice('><')
    packer = make_header_packer(cls, endian)

    def user(mine):
        def run():
            for v in mine:
                b = packer.pack(cls(**v))
                ctx.eq(bytes(b), model.encode_header(layout, start, length, v, endian), 'header packed by a packer shared by threads')
                check_header(ctx, packer.unpack(b), v, layout, 'header unpacked by a packer shared by threads')
        return run
    return [user(values[:3]), user(values[3:]), user(values[1:4])]


OWN = [reading, reading, writing, copying, header_records, header_formats, numbers, samples, cataloguing, text, trace_headers, failing,
       extracting, utilities]
SHARED = [shared_index, shared_packer]


def activities(ctx, n):
    rng = ctx.rng
    out, names = [], []
    while len(out) < n:
        mine = random.Random(rng.getrandbits(64))
        k = rng.random()
        if k < 0.15:
            make = rng.choice(SHARED)
            made = make(ctx, mine)
        elif k < 0.25:
            make = caching
            made = [caching(ctx.path('cache'))(ctx, random.Random(mine.getrandbits(60))) for _ in range(2)]
        elif k < 0.5:
            # Two of the same sort are most likely to share what they should not
            make = rng.choice(OWN)
            made = [make(ctx, random.Random(mine.getrandbits(60))) for _ in range(2)]
        else:
            make = rng.choice(OWN)
            made = [make(ctx, mine)]
        out.extend(made)
        names.extend([make.__name__] * len(made))
        ctx.note('{} x {}'.format(len(made), make.__name__))
    return out, names


def scheduled(ctx):
    rng = ctx.rng
    tasks, names = activities(ctx, rng.choice([2, 2, 3, 3, 4]))
    opcodes = rng.random() < 0.3
    s = Scheduler(rng, mean_run=rng.choice([1, 5, 20, 20, 100, 1000]), opcodes=opcodes,
                  limit=rng.choice([10000, 40000, 40000, 200000 if ctx.thorough else 80000]))
    s.run(tasks)
    ctx.count('steps', s.steps)
    ctx.count('preemptions', len(s.schedule))
    ctx.count('activities', len(tasks))
    for name in set(names):
        ctx.count('ran_' + name)
    for a, f, b, g in s.schedule:
        ctx.state(f, g)
    ctx.evaluated(tuple(names), tuple(s.schedule))
    ctx.sample(activities=names, opcodes=opcodes, steps=s.steps, preemptions=len(s.schedule), beginning=[list(x) for x in s.schedule[:6]])


def preempted(ctx):
    """Threads preempted by the interpreter itself, including in the code of the library."""
    rng = ctx.rng
    rounds = 3
    for _ in range(rounds):
        tasks, names = activities(ctx, rng.choice([4, 6, 8]))
        freely(tasks, rng.choice([1e-6, 1e-5, 1e-4]))
        ctx.count('activities', len(tasks))
        ctx.evaluated(tuple(names), rng.getrandbits(60))
    ctx.sample(activities=names)


# -- one thread

def steps_of(ctx, rng, m, fh, reader, what):
    """A generator which examines a reader one operation at a time."""
    triples = model_triples(m)
    n = len(m.traces)
    order = list(range(n)) * 2
    rng.shuffle(order)
    iterators = [('trace_indexes()', reader.trace_indexes, list(range(n)))]
    distinct = len({(i, x) for i, x, _ in triples}) == n
    if isinstance(reader, SegYReader3D) and distinct and m.revision == 'rev1':
        iterators += [('inline_numbers()', reader.inline_numbers, sorted({i for i, _, _ in triples})),
                      ('xline_numbers()', reader.xline_numbers, sorted({x for _, x, _ in triples}))]
    elif isinstance(reader, SegYReader2D) and len({c for _, _, c in triples}) == n:
        iterators += [('cdp_numbers()', reader.cdp_numbers, sorted({c for _, _, c in triples}))]
    live = []
    for t in order:
        k = rng.random()
        if k < 0.35:
            check_header(ctx, reader.trace_header(t), m.trace_values(t), m.layout, '{}: trace_header({})'.format(what, t))
        elif k < 0.6:
            check_samples(ctx, reader.trace_samples(t), m.stored_samples(t), '{}: trace_samples({})'.format(what, t))
        elif k < 0.7:
            size = len(m.traces[t][1])
            a = rng.randint(0, size)
            b = rng.randint(a, size)
            check_samples(ctx, reader.trace_samples(t, a, b), m.stored_samples(t)[a:b], '{}: trace_samples({}, {}, {})'.format(what, t, a, b))
        elif k < 0.8:
            ctx.raises(ValueError, lambda: reader.trace_samples(n + rng.randint(0, 3)), what + ': trace_samples() of an absent trace')
        elif k < 0.9:
            name, fn, expected = rng.choice(iterators)
            live.append((name, iter(fn()), [], expected))
        else:
            ctx.eq(tuple(reader.textual_reel_header), tuple(m.text), what + ': textual_reel_header')
        if rng.random() < 0.3 and fh is not None:
            # The position of the handle belongs to its owner
            fh.seek(rng.choice([0, 1, 3600, rng.randint(0, 5000)]))
            if rng.random() < 0.5:
                fh.read(rng.randint(0, 300))
        yield
        for name, it, seen, expected in live:
            if len(seen) <= len(expected):
                for x in itertools.islice(it, rng.randint(0, 3)):
                    seen.append(x)
                ctx.eq(seen, expected[:len(seen)], '{}: {} so far'.format(what, name))
    for name, it, seen, expected in live:
        seen.extend(it)
        ctx.eq(seen, expected, '{}: {}'.format(what, name))
        ctx.count('iterators_finished')
    yield
    check_index(ctx, reader, triples, what)


def chunked_write(ctx, rng, m, others):
    """Write a file, with other activities going on each time the writer asks the dataset for anything."""
    class Distracted(DelegatingDataset):
        def _distract(self):
            others()

        def trace_header(self, trace_index):
            self._distract()
            return super().trace_header(trace_index)

        def trace_samples(self, trace_index, start=None, stop=None):
            r = super().trace_samples(trace_index, start, stop)
            self._distract()
            return r

    source = create_reader(io.BytesIO(m.encode()), **options(m)) if rng.random() < 0.5 else MemDataset(m, rng)
    out = io.BytesIO()
    write_segy(out, Distracted(source), trace_header_format=TRACE_FORMATS[m.revision], encoding=m.encoding, endian=m.endian,
               progress=lambda p: others())
    check_bytes(ctx, out.getvalue(), m.encode(), m, 'file written while other files are used')
    ctx.count('files_written')


def alternating(ctx):
    """Several readers and writers used in turn in one thread; some readers share a handle."""
    rng = ctx.rng
    pending = []
    models = [small_model(rng, words=False) for _ in range(rng.randint(1, 3))]
    for i, m in enumerate(models):
        data = m.encode()
        path = write_file(ctx.path('f{}.sgy'.format(i)), data)
        fh = rng.choice([lambda: io.BytesIO(data), lambda: TracingFile(data), lambda: ctx.keep(open(path, 'rb'))])()
        for j in range(rng.choice([1, 2, 2, 3])):
            reader = create_reader(fh, **options(m))
            pending.append(steps_of(ctx, rng, m, fh, reader, 'reader {} of file {}'.format(j, i)))
            ctx.count('readers')

    def advance():
        for _ in range(rng.randint(0, 2)):
            if pending:
                g = rng.choice(pending)
                running = g.gi_running
                if running:
                    continue
                if next(g, 'done') == 'done':
                    pending.remove(g)
                ctx.count('operations')

    m = small_model(rng, words=False)
    chunked_write(ctx, rng, m, advance)
    while pending:
        advance()
    ctx.evaluated(tuple(len(m.traces) for m in models), rng.getrandbits(60))
    ctx.sample(files=len(models), traces=[len(m.traces) for m in models])


def nested(ctx):
    """A progress function which itself uses segpy, and datasets derived from each other."""
    rng = ctx.rng
    m, other = small_model(rng), small_model(rng, words=False)
    data = m.encode()
    tasks = []
    reports = []

    def alone(p):
        reports.append(p)

    def use(p):
        reports.append(p)
        if rng.random() < 0.3:
            mine = random.Random(rng.getrandbits(60))
            make = rng.choice(OWN)
            make(ctx, mine)()
            tasks.append(make.__name__)
        if rng.random() < 0.3:
            # Operations of the same kinds, which report their own progress elsewhere
            own = []
            create_reader(io.BytesIO(other.encode()), progress=own.append, **options(other))
            write_segy(io.BytesIO(), MemDataset(other, rng), trace_header_format=TRACE_FORMATS[other.revision], encoding=other.encoding,
                       endian=other.endian, progress=own.append)
            tasks.append('reporting')

    def both(run, what):
        """The reports of progress are those made when nothing else is in use."""
        del reports[:]
        run(alone)
        expected = list(reports)
        del reports[:]
        result = run(use)
        ctx.eq(reports, expected, what + ': reports of progress')
        ctx.count('reports_compared', len(expected))
        return result

    reader = both(lambda p: create_reader(io.BytesIO(data), progress=p, **options(m)), 'create_reader() whose progress function uses segpy')
    check_reader(ctx, reader, m, what='reader whose progress function uses segpy')

    def write(p):
        out = io.BytesIO()
        write_segy(out, MemDataset(other, random.Random(7)), trace_header_format=TRACE_FORMATS[other.revision], encoding=other.encoding,
                   endian=other.endian, progress=p)
        return out.getvalue()

    check_bytes(ctx, both(write, 'write_segy() whose progress function uses segpy'), other.encode(), other,
                'file written while its progress function uses segpy')
    offsets, lengths, *_ = both(
        lambda p: catalog_traces(io.BytesIO(data[m.data_start():]), model.SAMPLE_SIZE[m.format], TRACE_FORMATS[m.revision], m.endian, p),
        'catalog_traces() whose progress function uses segpy')
    ctx.eq([offsets[i] for i in range(len(offsets))], [t - m.data_start() for t in m.trace_offsets()],
           'offsets from catalog_traces() whose progress function uses segpy')
    ctx.eq(len(lengths), len(m.traces), 'catalog_traces() whose progress function uses segpy')
    ctx.count('nested_activities', len(tasks))
    ctx.evaluated(tuple(tasks), len(m.traces), len(other.traces))


SCENARIOS = [
    Scenario('scheduled', scheduled, quick=500, thorough=12000, requires=['preemptions']),
    Scenario('preempted', preempted, quick=60, thorough=1500, requires=['activities']),
    Scenario('alternating', alternating, quick=300, thorough=8000, requires=['operations', 'iterators_finished', 'files_written']),
    Scenario('nested', nested, quick=150, thorough=4000, requires=['nested_activities', 'reports_compared']),
]
