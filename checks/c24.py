"""C24: the low-level toolkit functions agree with the file format and with each other."""

import io
import struct
from array import array

from segpy import datatypes, toolkit
from segpy.binary_reel_header import BinaryReelHeader
from segpy.datatypes import DataSampleFormat, SegYType
from segpy.field_types import Int16, Int32, NNInt16
from segpy.header import Header
from segpy.ibm_float import IBMFloat
from segpy.packer import make_header_packer
from segpy.revisions import SegYRevision, SegYRevisionError, canonicalize_revision, integer_to_decimal_revision
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

from harness import formats, gen, model, observe
from harness.core import Scenario
from harness.model import IBM, IbmWord
from harness.observe import TracingFile

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = ('A case is a handle of random bytes (with a random position) and toolkit operations on it, or a sequence of traces to be catalogued, '
        'or a data sample format, revision or type. Non-trivial: at least one value, header or trace is transferred; distinct by the '
        'bytes, position, type, count and byte order.')
ASSUMPTIONS = ['IBM floats are always big-endian', 'the bytes of a binary reel header occupy 400 bytes and those of a trace header 240']

TYPES = {
    'int32': ('i', -2**31, 2**31 - 1),
    'nnint32': ('I', 0, 2**31 - 1),
    'int16': ('h', -2**15, 2**15 - 1),
    'nnint16': ('H', 0, 2**15 - 1),
    'int8': ('b', -128, 127),
    'nnint8': ('B', 0, 127),
    'float32': ('f', None, None),
    'ibm': (None, None, None),
}


def some_count(rng):
    return rng.choice([rng.randint(0, 3000), rng.choice([255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 16385, 32767, 32768, 40000, 65535, 65536, 65537, 70001])])


def random_values(rng, type_name, n):
    code, lo, hi = TYPES[type_name]
    if n > 3000:
        # Cheap to make, and no two neighbouring values alike
        some = random_values(rng, type_name, 499)
        return [some[(i * 7 + i // 499) % 499] for i in range(n)]
    if type_name == 'ibm':
        return [IbmWord(rng.getrandbits(32)) if rng.random() < 0.1 else gen.ibm_representable(rng) for _ in range(n)]
    if type_name == 'float32':
        return [gen.sample(rng, model.FLOAT32) for _ in range(n)]
    return [gen.integer(rng, lo, hi) for _ in range(n)]


def encoded(type_name, values, endian):
    if type_name == 'ibm':
        return model.encode_samples(IBM, values, endian)
    return struct.pack('{}{}{}'.format(endian, len(values), TYPES[type_name][0]), *values)


def stored(type_name, values):
    if type_name == 'ibm':
        return [model.stored_sample(IBM, v) for v in values]
    if type_name == 'float32':
        return [model.float32(v) for v in values]
    return values


def kind_of(rng, type_name):
    """A type may be given as a member of the enumeration or as the equal string."""
    return rng.choice([type_name, SegYType(type_name)])


def sequence_of(rng, type_name, values):
    values = [IBMFloat.from_bytes(struct.pack('>I', v)) if type(v) is IbmWord else v for v in values]
    kinds = ['list', 'tuple', 'sequence']
    if not any(isinstance(v, IBMFloat) for v in values):
        kinds.append('array')
    kind = rng.choice(kinds)
    if kind == 'tuple':
        return tuple(values)
    if kind == 'sequence':
        return observe.Samples(values)
    if kind == 'array':
        return array('d' if TYPES[type_name][0] in (None, 'f') else 'q', values)
    return values


def endian_args(rng, endian):
    """The default byte order is big-endian."""
    return {} if endian == '>' and rng.random() < 0.3 else dict(endian=endian)


def handle(ctx, data, writable=False):
    rng = ctx.rng
    kind = rng.choice(['bytesio', 'tracing', 'file', 'unbuffered'])
    if kind == 'bytesio':
        return io.BytesIO(data)
    if kind == 'tracing':
        return TracingFile(data, writable=writable)
    path = observe.write_file(ctx.path('f{}'.format(rng.getrandbits(60))), data)
    return ctx.keep(open(path, 'rb+' if writable else 'rb', **({'buffering': 0} if kind == 'unbuffered' else {})))


def content_of(fh):
    fh.flush()
    fh.seek(0)
    return fh.read()


def values_read(ctx):
    rng = ctx.rng
    for _ in range(4):
        type_name = rng.choice(list(TYPES))
        endian = rng.choice(gen.ENDIANS)
        n = rng.choice([0, 1, 2, 3, rng.randint(0, 60), some_count(rng) if rng.random() < 0.1 else 5])
        values = random_values(rng, type_name, n)
        data = encoded(type_name, values, endian)
        before = rng.randbytes(rng.choice([0, 0, 1, 3, 240, rng.randint(0, 500)]))
        after = rng.randbytes(rng.choice([0, 1, 2, 3, 7, 240]))
        fh = handle(ctx, before + data + after)
        what = '{} x {} {} at {} of {} bytes'.format(n, type_name, endian, len(before), len(before) + len(data) + len(after))
        if rng.random() < 0.5:
            fh.seek(len(before))
            pos = rng.choice([{}, dict(pos=None)])
        else:
            fh.seek(rng.randint(0, len(before) + len(data)))
            pos = dict(pos=len(before))
        kw = dict(seg_y_type=kind_of(rng, type_name), num_items=n, **pos, **endian_args(rng, endian))
        if type_name == 'int32' and rng.random() < 0.3:
            del kw['seg_y_type']  # the default
        if n == 1 and rng.random() < 0.3:
            del kw['num_items']
        actual = toolkit.read_binary_values(fh, **kw)
        ctx.eq(fh.tell(), len(before) + len(data), 'position after reading ' + what)
        observe.check_samples(ctx, actual, stored(type_name, values), 'values read from ' + what)
        if type_name == 'ibm':
            # Bit patterns are preserved
            ctx.eq([bytes(v) for v in actual], [data[i:i + 4] for i in range(0, len(data), 4)], 'bit patterns of ' + what)
        # Truncation anywhere within
        if data:
            for cut in {len(data) - 1, rng.randrange(len(data)), 0, max(0, len(data) - model_size(type_name))}:
                short = handle(ctx, (before + data)[:len(before) + cut])
                ctx.raises(EOFError, lambda: toolkit.read_binary_values(short, len(before), type_name, n, endian), 'reading {} of {} bytes of {}'.format(cut, len(data), what))
                ctx.check(not short.closed, 'the handle was closed')
                ctx.count('short_reads')
            short = handle(ctx, before)
            ctx.raises(EOFError, lambda: toolkit.read_binary_values(short, len(before) + rng.randint(0, 1000), type_name, n, endian), 'reading beyond the end')
        ctx.count('values_transferred', n)
        ctx.evaluated(*([what, data] if n else []))


def model_size(type_name):
    return 4 if type_name in ('ibm', 'float32') else struct.calcsize('>' + TYPES[type_name][0])


def values_written(ctx):
    rng = ctx.rng
    for _ in range(4):
        type_name = rng.choice(list(TYPES))
        endian = rng.choice(gen.ENDIANS)
        n = rng.choice([0, 1, 2, 3, rng.randint(0, 60), some_count(rng) if rng.random() < 0.1 else 4])
        values = random_values(rng, type_name, n)
        data = encoded(type_name, values, endian)
        original = rng.randbytes(rng.randint(0, 600))
        at = rng.randint(0, len(original))
        fh = handle(ctx, original, writable=True)
        fh.seek(at)
        what = '{} x {} {} at {} of {} bytes'.format(n, type_name, endian, at, len(original))
        fn = rng.choice([toolkit.write_binary_values, toolkit.write_trace_samples])
        fn(fh, sequence_of(rng, type_name, values), kind_of(rng, type_name), **endian_args(rng, endian))
        ctx.eq(fh.tell(), at + len(data), 'position after writing ' + what)
        expected = original[:at] + data + original[at + len(data):]
        observe.check_bytes(ctx, content_of(fh), expected, None, 'bytes after writing ' + what)
        # and back
        back = toolkit.read_binary_values(fh, at, type_name, n, endian)
        observe.check_samples(ctx, back, stored(type_name, values), 'values read back ' + what)
        # Values which do not fit are refused, rather than wrapped, and nothing is written
        code, lo, hi = TYPES[type_name]
        bad = {
            'ibm': [float('nan'), float('inf'), float('-inf'), 1e76, -1e76, 1e-90],
            'float32': [1e39, -1e39, 3.5e38],
        }.get(type_name) or [v for v in (lo - 1, -2**40, 2**40, 2**32, -2**31 - 1, 2 * hi + 2 if lo == 0 else hi + 1)
                             if not (lo <= v <= (2 * hi + 1 if lo == 0 else hi))]
        sequence = [v if not isinstance(v, IbmWord) else 1.0 for v in values]
        sequence.insert(rng.randint(0, n), rng.choice(bad))
        before = content_of(fh)
        fh.seek(at)
        ctx.raises(Exception, lambda: fn(fh, sequence, type_name, endian), 'writing {!r} as {}'.format(sequence, type_name))
        ctx.eq(fh.tell(), at, 'position after refused values')
        ctx.eq(content_of(fh), before, 'bytes after refused values')
        ctx.count('values_refused')
        ctx.count('values_transferred', n)
        ctx.evaluated(*([what, data] if n else []))


def buffers(ctx):
    """pack_values and unpack_values."""
    rng = ctx.rng
    for _ in range(6):
        type_name = rng.choice([t for t in TYPES if t != 'ibm'])
        code = TYPES[type_name][0]
        endian = rng.choice(gen.ENDIANS)
        n = rng.choice([0, 1, 2, rng.randint(0, 40)])
        values = random_values(rng, type_name, n)
        data = encoded(type_name, values, endian)
        packed = toolkit.pack_values(sequence_of(rng, type_name, values), code, **endian_args(rng, endian))
        ctx.eq(bytes(packed), data, 'pack_values({}, {}, {})'.format(values, code, endian))
        for buf in (data, bytearray(data)):
            copy = bytes(buf)
            actual = toolkit.unpack_values(buf, code, **endian_args(rng, endian))
            observe.check_samples(ctx, actual, stored(type_name, values), 'unpack_values({}, {})'.format(code, endian))
            ctx.eq(bytes(buf), copy, 'buffer after unpack_values')
        ctx.count('values_transferred', n)
        ctx.evaluated(*([code, endian, data] if n else []))


HEADERS = [('rev1', TraceHeaderRev1), ('rev0', TraceHeaderRev0)]


def trace_headers(ctx):
    rng = ctx.rng
    for _ in range(3):
        revision, cls = rng.choice(HEADERS)
        layout = model.TRACE_LAYOUTS[revision]
        endian = rng.choice(gen.ENDIANS)
        values = {r[0]: r[3] for r in layout}
        values.update(gen.header_values(rng, layout))
        packer = make_header_packer(cls, **endian_args(rng, endian))
        clean = model.encode_trace_header(values, endian, revision)
        noisy = model.encode_trace_header(values, endian, revision, rng)
        before, after = rng.randbytes(rng.randint(0, 300)), rng.randbytes(rng.randint(0, 300))
        what = '{} {} header at {}'.format(revision, endian, len(before))
        # Read
        fh = handle(ctx, before + noisy + after)
        fh.seek(len(before))
        args = []
        if rng.random() < 0.5:
            fh.seek(rng.randint(0, len(before) + 240))
            args = [len(before)]
        header = toolkit.read_trace_header(fh, packer, *args)
        ctx.check(type(header) is cls, 'type of ' + what)
        observe.check_header(ctx, header, values, layout, what)
        ctx.eq(fh.tell(), len(before) + 240, 'position after reading ' + what)
        # Write over something else
        original = rng.randbytes(rng.randint(0, 600))
        at = rng.randint(0, len(original))
        out = handle(ctx, original, writable=True)
        out.seek(at)
        toolkit.write_trace_header(out, rng.choice([header, cls(**values)]), packer)
        ctx.eq(out.tell(), at + 240, 'position after writing ' + what)
        observe.check_bytes(ctx, content_of(out), original[:at] + clean + original[at + 240:], None, 'written ' + what)
        # Truncated
        for cut in {0, 239, rng.randrange(240)}:
            short = handle(ctx, (before + noisy)[:len(before) + cut])
            ctx.raises(EOFError, lambda: toolkit.read_trace_header(short, packer, len(before)), '{} of 240 bytes of {}'.format(cut, what))
            ctx.count('short_reads')
        # A part of the header
        sub = formats.sub_format(rng, cls, layout, 1, 240)
        part = toolkit.read_trace_header(fh, make_header_packer(sub.cls, endian), len(before))
        for row in sub.layout:
            ctx.eq(getattr(part, row[0]), values[row[0]], '{}: field {} of a sub-format'.format(what, row[0]))
        ctx.eq(fh.tell(), len(before) + 240, 'position after reading part of ' + what)
        ctx.count('headers_transferred')
        ctx.evaluated(what, noisy)


def binary_headers(ctx):
    rng = ctx.rng
    for _ in range(3):
        endian = rng.choice(gen.ENDIANS)
        values = {r[0]: r[3] for r in model.BINARY}
        values.update(gen.header_values(rng, model.BINARY))
        clean = model.encode_binary(values, endian)
        noisy = model.encode_binary(values, endian, rng)
        before, after = rng.randbytes(rng.choice([3200, 3200, 0, 17])), rng.randbytes(rng.randint(0, 300))
        fh = handle(ctx, before + noisy + after)
        fh.seek(len(before))
        kw = endian_args(rng, endian)
        if rng.random() < 0.3:
            kw['binary_reel_header_format'] = BinaryReelHeader
        header = toolkit.read_binary_reel_header(fh, **kw)
        what = '{} binary reel header at {}'.format(endian, len(before))
        observe.check_header(ctx, header, values, model.BINARY, what)
        ctx.eq(fh.tell(), len(before) + 400, 'position after reading ' + what)
        original = rng.randbytes(rng.randint(0, 900))
        at = rng.randint(0, len(original))
        out = handle(ctx, original, writable=True)
        out.seek(at)
        toolkit.write_binary_reel_header(out, header, **endian_args(rng, endian))
        ctx.eq(out.tell(), at + 400, 'position after writing ' + what)
        observe.check_bytes(ctx, content_of(out), original[:at] + clean + original[at + 400:], None, 'written ' + what)
        for cut in {0, 399, rng.randrange(400)}:
            short = handle(ctx, (before + noisy)[:len(before) + cut])
            short.seek(len(before))
            ctx.raises((EOFError, ValueError), lambda: toolkit.read_binary_reel_header(short, endian=endian), '{} of 400 bytes of {}'.format(cut, what))
            ctx.count('short_reads')
        # What is derived from it
        fmt = values['data_sample_format']
        bps = model.SAMPLE_SIZE[fmt]
        ctx.eq(toolkit.bytes_per_sample(header), bps, 'bytes_per_sample for {}'.format(fmt))
        ctx.eq(toolkit.samples_per_trace(header), values['num_samples'], 'samples_per_trace')
        ctx.eq(toolkit.trace_length_bytes(header, bps), 240 + bps * values['num_samples'], 'trace_length_bytes')
        ctx.eq(toolkit.num_extended_textual_headers(header), values['num_extended_textual_headers'], 'num_extended_textual_headers')
        revision = toolkit.extract_revision(header)
        ctx.eq(revision, values['format_revision_num'], 'extract_revision')
        ctx.check(isinstance(revision, SegYRevision), 'extract_revision gave a {}', type(revision))
        ctx.count('headers_transferred')
        ctx.evaluated(what, noisy)


def custom_catalog_format(rng):
    """A trace header format in which the fields which matter are elsewhere."""
    size = {'i': 4, 'h': 2}
    rows, types = [], {}
    with_lines = rng.random() < 0.6
    wanted = [('file_sequence_num', 'i', Int32), ('ensemble_num', rng.choice('ih'), None), ('num_samples', rng.choice('hi'), None)]
    if with_lines:
        wanted += [('inline_number', rng.choice('ih'), None), ('crossline_number', rng.choice('ih'), None)]
    elif rng.random() < 0.5:
        # One of them is no line number
        wanted += [(rng.choice(['inline_number', 'crossline_number']), rng.choice('ih'), None)]
    wanted += [('other_{}'.format(i), rng.choice('ih'), None) for i in range(rng.randint(0, 6))]
    rng.shuffle(wanted)
    pos = 1
    for name, code, t in wanted:
        pos += rng.choice([0, 0, 2, 7, 20])
        t = t or (Int32 if code == 'i' else NNInt16 if name == 'num_samples' else Int16)
        bits = 31 if code == 'i' else 15
        rows.append((name, pos, code, 0, (0 if t is NNInt16 else -2**bits, 2**bits - 1)))
        types[name] = t
        pos += size[code]
    assert pos <= 241
    rng.shuffle(rows)
    cls = formats.make_class('Custom', (Header,), rows, types, START_OFFSET_IN_BYTES=1, LENGTH_IN_BYTES=240)
    return cls, rows


def catalogues(ctx):
    """catalog_traces against the bytes, for every bytes-per-sample, byte order, header format, position and truncation."""
    rng = ctx.rng
    kind = rng.choice(['rev1', 'rev1', 'rev0', 'custom'])
    if kind == 'custom':
        cls, layout = custom_catalog_format(rng)
    else:
        cls, layout = dict(HEADERS)[kind], model.TRACE_LAYOUTS[kind]
    domains = {r[0]: r[4] for r in layout}
    with_lines = 'inline_number' in domains and 'crossline_number' in domains
    endian = rng.choice(gen.ENDIANS)
    bps = rng.choice([1, 2, 4, 4, 8, 3])
    triples = gen.geometry(rng, None, 6)

    def clip(name, v):
        lo, hi = domains[name]
        return v if lo <= v <= hi else (v - lo) % (hi - lo + 1) + lo

    chunks = []
    expected = []
    start = rng.choice([0, 3600, 6800, rng.randint(0, 500)])
    pos = start
    lengths = gen.lengths(rng, len(triples))
    for (i, x, c), n in zip(triples, lengths):
        if kind == 'custom':
            values = {r[0]: gen.from_domain(rng, r[4]) for r in layout}
        else:
            values = {r[0]: r[3] for r in layout}
            values.update(gen.header_values(rng, layout))
        values['num_samples'] = n
        values['ensemble_num'] = clip('ensemble_num', c)
        if with_lines:
            values['inline_number'] = clip('inline_number', i)
            values['crossline_number'] = clip('crossline_number', x)
        chunk = model.encode_header(layout, 1, 240, values, endian, rng) + rng.randbytes(n * bps)
        chunks.append(chunk)
        expected.append((pos, n, values['ensemble_num'], (values['inline_number'], values['crossline_number']) if with_lines else None))
        pos += len(chunk)
    data = rng.randbytes(start) + b''.join(chunks)
    # Truncate, or leave something which is not a complete header
    k = rng.random()
    if k < 0.4 and chunks:
        data = data[:rng.randint(start, len(data))]
    elif k < 0.6:
        data += rng.randbytes(rng.randint(0, 239))
    expected = [e for e in expected if e[0] + 240 <= len(data)]
    fh = handle(ctx, data)
    fh.seek(start)
    progress = []
    kw = {}
    if kind != 'rev1' or rng.random() < 0.5:
        kw['trace_header_format'] = cls
    if rng.random() < 0.5:
        kw['progress'] = progress.append
    offsets, lens, cdps, lines = toolkit.catalog_traces(fh, bps, **kw, **endian_args(rng, endian))
    what = '{} traces {} {} from {} of {} bytes'.format(len(expected), kind, endian, start, len(data))
    ctx.eq(dict(offsets.items()), {t: e[0] for t, e in enumerate(expected)}, 'offsets of ' + what)
    ctx.eq(dict(lens.items()), {t: e[1] for t, e in enumerate(expected)}, 'lengths of ' + what)
    for catalog, keys, name in [(cdps, [e[2] for e in expected], 'CDPs'), (lines, [e[3] for e in expected], 'lines')]:
        if name == 'lines' and not with_lines:
            ctx.check(catalog is None, 'a line catalog without line numbers of ' + what)
            ctx.count('absent_catalogs')
        elif len(set(keys)) < len(keys):
            ctx.check(catalog is None, 'a catalog of ambiguous {} {} of {}', name, keys, what)
            ctx.count('ambiguous_catalogs')
        else:
            ctx.check(catalog is not None, 'no catalog of {} {} of {}', name, keys, what)
            ctx.eq(dict(catalog.items()), {k: t for t, k in enumerate(keys)}, '{} of {}'.format(name, what))
            ctx.count('catalogs')
    if 'progress' in kw:
        ctx.check(progress and progress[-1] == 1 and all(0 <= p <= 1 for p in progress) and progress == sorted(progress),
                  'progress {} cataloguing {}', progress, what)
    ctx.check(not fh.closed, 'the handle was closed')
    ctx.raises(TypeError, lambda: toolkit.catalog_traces(fh, bps, progress=rng.choice([1, 'x', []])), 'progress which is not callable')
    ctx.count('traces_catalogued', len(expected))
    ctx.evaluated(*([what, data] if expected else []))


def large_catalogue(ctx):
    """catalog_traces of thousands of traces, up to offsets of many gigabytes."""
    rng = ctx.rng
    endian = rng.choice('><')
    pattern = [[32767], [0], [32767, 0, 32766], [0, 0, 1]][ctx.case % 4]
    n = rng.choice([33000, 40000]) * (1 + ctx.thorough) if ctx.case % 2 == 0 else rng.choice([10000, 33000])
    width = rng.choice([10, 181, 500])
    hole = rng.choice([None, n // 2])
    cdp = rng.choice([lambda i: i, lambda i: 7 + 3 * i + (i == 9000), lambda i: min(i, n - 2)])
    fh = observe.VirtualFile(rng.randbytes(3600), n, pattern, width, 0, endian,
                             lines=lambda i: (100 + (i + (hole is not None and i >= hole)) // width, (i + (hole is not None and i >= hole)) % width, cdp(i)))
    fh.seek(3600)
    offsets, lengths, cdps, lines = toolkit.catalog_traces(fh, 4, endian=endian)
    what = '{} traces of {} samples'.format(n, pattern)
    ctx.eq(len(offsets), n, 'number of offsets of ' + what)
    ctx.eq(len(lengths), n, 'number of lengths of ' + what)
    for i in range(n):
        if offsets[i] != fh.offset(i) or lengths[i] != fh.length(i):
            ctx.fail('trace {} of {}: offset {} and length {}, expected {} and {}'.format(i, what, offsets[i], lengths[i], fh.offset(i), fh.length(i)))
    expected = {cdp(i): i for i in range(n)}
    if len(expected) < n:
        ctx.eq(cdps, None, 'CDPs of ' + what)
    else:
        ctx.eq(dict(cdps), expected, 'CDPs of ' + what)
    ctx.eq(dict(lines), {fh.lines(i)[:2]: i for i in range(n)}, 'lines of ' + what)
    ctx.count('traces_catalogued', n)
    ctx.count('offsets_beyond_4GB', fh.offset(n - 1) >= 2**32)
    ctx.evaluated(n, repr(pattern), width, hole)


def text(ctx):
    """Where the textual functions leave the handle, and what they touch."""
    rng = ctx.rng
    encoding = rng.choice(gen.ENCODINGS)
    before, after = rng.randbytes(rng.choice([0, 0, 11])), rng.randbytes(rng.randint(0, 100))
    lines = gen.any_text(rng, encoding)
    data = model.encode_text(lines, encoding)
    fh = handle(ctx, before + data + after)
    fh.seek(len(before))
    ctx.eq(toolkit.read_textual_reel_header(fh, encoding), tuple(lines), 'textual reel header')
    ctx.eq(fh.tell(), len(before) + 3200, 'position after a textual header')
    cut = rng.choice([0, 1, 3199, rng.randrange(3200)])
    short = handle(ctx, (before + data)[:len(before) + cut])
    short.seek(len(before))
    ctx.raises(EOFError, lambda: toolkit.read_textual_reel_header(short, encoding), '{} bytes of a textual header'.format(cut))
    ctx.count('short_reads')
    # Guessing the encoding leaves the handle as it was
    guessed = model.encode_text(gen.conventional_text(rng), encoding)
    fh = handle(ctx, guessed + after)
    pos = rng.randint(0, 3200 + len(after))
    fh.seek(pos)
    ctx.eq(toolkit.guess_textual_header_encoding(fh), encoding, 'guessed encoding')
    ctx.eq(fh.tell(), pos, 'position after guessing the encoding')
    # Writing lines which are too short, long, few or many
    shaped = [gen.text_line(rng, rng.choice([80, 80, 0, 5, 79, 81, 120])) for _ in range(rng.choice([40, 40, 0, 1, 39, 41, 60]))]
    original = rng.randbytes(rng.randint(0, 5000))
    at = rng.randint(0, len(original))
    out = handle(ctx, original, writable=True)
    out.seek(at)
    toolkit.write_textual_reel_header(out, rng.choice([list, tuple, iter])(shaped), encoding)
    ctx.eq(out.tell(), at + 3200, 'position after writing a textual header')
    observe.check_bytes(ctx, content_of(out), original[:at] + model.encode_text(model.pad_lines(shaped), encoding) + original[at + 3200:], None, 'textual header')
    # Extended headers always follow the reel header
    pages = [gen.page(rng, encoding) for _ in range(rng.randint(0, 3))]
    original = rng.randbytes(rng.choice([3600, 3600, 5000, 14000]))
    out = handle(ctx, original, writable=True)
    out.seek(rng.randint(0, len(original)))
    toolkit.write_extended_textual_headers(out, pages, encoding)
    end = 3600 + 3200 * len(pages)
    ctx.eq(out.tell(), end, 'position after writing extended headers')
    expected = original[:3600] + b''.join(model.encode_text(p, encoding) for p in pages) + original[end:]
    observe.check_bytes(ctx, content_of(out), expected, None, 'extended headers')
    for n in (len(pages), -1):
        header = BinaryReelHeader(num_extended_textual_headers=n)
        if n == -1:
            final = gen.page(rng, encoding, end=True)
            pages = pages + [final]
            toolkit.write_extended_textual_headers(out, pages, encoding)
        out.seek(rng.randint(0, 5000))
        actual = toolkit.read_extended_textual_headers(out, header, encoding)
        ctx.eq([list(p) for p in actual], pages, '{} extended headers'.format(n))
        ctx.eq(out.tell(), 3600 + 3200 * len(pages), 'position after reading extended headers')
    ctx.count('pages_transferred', len(pages))
    ctx.evaluated(data, repr(shaped), len(pages))


def tables(ctx):
    """Every data sample format, type and revision."""
    rng = ctx.rng
    for fmt in range(-3, 300):
        header = Bag(data_sample_format=fmt, num_samples=rng.randint(0, 32767))
        if fmt in model.SAMPLE_SIZE:
            ctx.eq(toolkit.bytes_per_sample(header), model.SAMPLE_SIZE[fmt], 'bytes_per_sample({})'.format(fmt))
            ctx.eq(datatypes.data_sample_format_size_in_bytes(DataSampleFormat(fmt)), model.SAMPLE_SIZE[fmt], 'size of {}'.format(fmt))
            t = datatypes.DATA_SAMPLE_FORMAT_TO_SEG_Y_TYPE[fmt]
            ctx.eq(t, model.SEGY_TYPE[fmt], 'type of {}'.format(fmt))
            ctx.eq(datatypes.SEG_Y_TYPE_TO_DATA_SAMPLE_FORMAT[t], fmt, 'format of {}'.format(t))
            ctx.eq(datatypes.data_sample_format_description(fmt), datatypes.SEG_Y_TYPE_DESCRIPTION[t], 'description of {}'.format(fmt))
        else:
            ctx.raises(ValueError, lambda: toolkit.bytes_per_sample(header), 'bytes_per_sample({})'.format(fmt))
        ctx.count('formats')
    for t, (code, lo, hi) in TYPES.items():
        ctype = datatypes.SEG_Y_TYPE_TO_CTYPE[t]
        ctx.eq(datatypes.size_in_bytes(ctype), model_size(t), 'size of {}'.format(t))
        if code is not None:
            ctx.eq(struct.calcsize('>' + ctype), model_size(t), 'struct size of {}'.format(t))
            ctx.eq(ctype.isupper(), code.isupper(), 'signedness of {}'.format(t))
        limits = datatypes.LIMITS[t]
        if lo is not None:
            ctx.eq((limits.min, limits.max), (lo, hi), 'limits of {}'.format(t))
            ctx.check(datatypes.PY_TYPES[t] is int, 'Python type of {}', t)
        else:
            largest = float(model.MAX_IBM) if t == 'ibm' else model.float32(3.4028234e38)
            ctx.check(largest * (1 - 1e-5) <= limits.max <= largest and limits.min == -limits.max, 'limits {} of {}', limits, t)
            ctx.check(datatypes.PY_TYPES[t] is float, 'Python type of {}', t)
        description = datatypes.SEG_Y_TYPE_DESCRIPTION[t]
        ctx.check(str(8 * model_size(t)) in description, 'description {!r} of {}', description, t)
        ctx.check(('non-neg' in description or 'unsigned' in description) == (lo == 0), 'description {!r} of {}', description, t)
        ctx.check(('IBM' in description) == (t == 'ibm') and ('float' in description) == (lo is None), 'description {!r} of {}', description, t)
        ctx.count('types')
    for bad in ('q', 'x', '', None, 'int32', 4):
        ctx.raises(ValueError, lambda: datatypes.size_in_bytes(bad), 'size_in_bytes({!r})'.format(bad))
    for revision in list(range(-3, 1025)) + [rng.randint(-32768, 32767) for _ in range(200)]:
        expected = {0: 0, 1: 256, 100: 256, 256: 256}.get(revision)
        if expected is None:
            ctx.raises(SegYRevisionError, lambda: canonicalize_revision(revision), 'canonicalize_revision({})'.format(revision))
            ctx.raises(SegYRevisionError, lambda: toolkit.extract_revision(Bag(format_revision_num=revision)), 'extract_revision({})'.format(revision))
        else:
            ctx.eq(int(canonicalize_revision(revision)), expected, 'canonicalize_revision({})'.format(revision))
            ctx.check(isinstance(canonicalize_revision(revision), SegYRevision), 'type of canonicalize_revision({})', revision)
        ctx.count('revisions')
    for hi in range(0, 20):
        for lo in range(10):
            ctx.eq(float(integer_to_decimal_revision(hi * 256 + lo)), hi + lo / 10, 'decimal revision {}.{}'.format(hi, lo))
    ctx.evaluated('tables')


class Bag:
    """A header of another kind."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def assembled(ctx):
    """A whole file made with the toolkit on one handle, then taken apart, in any order, on the same handle."""
    rng = ctx.rng
    m = gen.file_model(rng)
    expected = m.encode()
    cls = observe.TRACE_FORMATS[m.revision]
    fh = handle(ctx, b'', writable=True)
    toolkit.write_textual_reel_header(fh, m.text, m.encoding)
    ctx.eq(fh.tell(), 3200, 'position after the textual header')
    toolkit.write_binary_reel_header(fh, BinaryReelHeader(**m.binary), m.endian)
    ctx.eq(fh.tell(), 3600, 'position after the binary header')
    toolkit.write_extended_textual_headers(fh, m.pages, m.encoding)
    ctx.eq(fh.tell(), m.data_start(), 'position after the extended headers')
    packer = make_header_packer(cls, m.endian)
    for i, (h, s) in enumerate(m.traces):
        toolkit.write_trace_header(fh, cls(**h), packer)
        toolkit.write_trace_samples(fh, observe.sample_sequence(rng, m.format, s), m.segy_type, m.endian)
        ctx.eq(fh.tell(), m.trace_offsets()[i] + 240 + len(s) * model.SAMPLE_SIZE[m.format], 'position after trace {}'.format(i))
    observe.check_bytes(ctx, content_of(fh), expected, m, 'assembled file')
    offsets = m.trace_offsets()
    steps = ['text', 'binary', 'pages', 'catalog', 'guess'] * 2 + [('header', i) for i in range(len(m.traces))] + [('samples', i) for i in range(len(m.traces))] * 2
    rng.shuffle(steps)
    for step in steps[:40]:
        if step == 'text':
            fh.seek(0)
            ctx.eq(toolkit.read_textual_reel_header(fh, m.encoding), tuple(m.text), 'textual header')
        elif step == 'guess':
            ctx.eq(toolkit.guess_textual_header_encoding(fh), m.encoding, 'encoding')
        elif step == 'binary':
            fh.seek(3200)
            observe.check_header(ctx, toolkit.read_binary_reel_header(fh, endian=m.endian), m.binary_values(), model.BINARY, 'binary header')
        elif step == 'pages':
            header = BinaryReelHeader(**m.binary)
            ctx.eq([list(p) for p in toolkit.read_extended_textual_headers(fh, header, m.encoding)], m.pages, 'extended headers')
            ctx.eq(fh.tell(), m.data_start(), 'position after the extended headers')
        elif step == 'catalog':
            fh.seek(m.data_start())
            o, l, _, _ = toolkit.catalog_traces(fh, model.SAMPLE_SIZE[m.format], cls, m.endian)
            ctx.eq([o[i] for i in range(len(o))], offsets, 'offsets')
            ctx.eq([l[i] for i in range(len(l))], [len(s) for _, s in m.traces], 'lengths')
        else:
            kind, i = step
            if kind == 'header':
                observe.check_header(ctx, toolkit.read_trace_header(fh, packer, offsets[i]), m.trace_values(i), m.layout, 'trace header {}'.format(i))
            else:
                s = m.stored_samples(i)
                a = rng.randint(0, len(s))
                b = rng.randint(a, len(s))
                got = toolkit.read_binary_values(fh, offsets[i] + 240 + a * model.SAMPLE_SIZE[m.format], m.segy_type, b - a, m.endian)
                observe.check_samples(ctx, got, s[a:b], 'samples {}:{} of trace {}'.format(a, b, i))
        ctx.state(step if isinstance(step, str) else step[0])
        ctx.count('steps')
    ctx.sample(**m.summary())
    ctx.evaluated(*([expected] if m.traces else []))


SCENARIOS = [
    Scenario('values-read', values_read, 400, 8000, ['values_transferred', 'short_reads']),
    Scenario('values-written', values_written, 400, 8000, ['values_transferred', 'values_refused']),
    Scenario('buffers', buffers, 200, 4000, ['values_transferred']),
    Scenario('trace-headers', trace_headers, 200, 4000, ['headers_transferred', 'short_reads']),
    Scenario('binary-headers', binary_headers, 200, 4000, ['headers_transferred', 'short_reads']),
    Scenario('catalogues', catalogues, 800, 16000, ['traces_catalogued', 'catalogs', 'ambiguous_catalogs', 'absent_catalogs']),
    Scenario('large-catalogue', large_catalogue, 4, 16, ['traces_catalogued', 'offsets_beyond_4GB'], cpu_limit=240),
    Scenario('text', text, 150, 3000, ['pages_transferred', 'short_reads']),
    Scenario('tables', tables, 2, 20, ['formats', 'types', 'revisions']),
    Scenario('assembled', assembled, 200, 4000, ['steps']),
]
