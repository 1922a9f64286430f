"""C21: malformed input gives a documented exception or a truthful reader, always."""

import io
import os
import struct
import tracemalloc

from segpy.binary_reel_header import BinaryReelHeader
from segpy.field_types import Int16, Int32
from segpy.header import Header
from segpy.reader import create_reader
from segpy.revisions import SegYRevisionError

from harness import formats, gen, model, observe
from harness.core import Scenario
from harness.observe import TracingFile

PROPERTY = 'C21'
LEVEL = 'fault_enumeration'
RULE = ('A case is a SEG-Y file damaged by truncation, by overwritten, flipped, inserted, deleted, repeated or spliced bytes, or by extreme field '
        'values; or a file of noise; or an unsuitable argument; or an input error at some operation. An independent decoder judges whether the '
        'bytes are readable and what they denote. Non-trivial: the damaged bytes are at least as long as the reel headers; distinct by the bytes '
        'and arguments.')
ASSUMPTIONS = ['binary header fields with values outside their domains, negative sample counts, undecodable text and misplaced end-of-text stanzas are malformed; anything else is readable',
               'a trace header with a field outside its domain is refused when it is asked for']

DOCUMENTED = (ValueError, EOFError, TypeError, KeyError, UnicodeError, SegYRevisionError)

COMMON = set(gen.COMMON)
COMMON_BYTES = {e: {c.encode(e)[0] for c in COMMON} for e in gen.ENCODINGS}


def guess(data):
    n = len(data)
    if not any(data):
        return 'ascii'
    a, e = [sum(b in COMMON_BYTES[enc] for b in data) for enc in ('ascii', 'cp037')]
    if 2 * a >= n > 2 * e:
        return 'ascii'
    if 2 * e >= n > 2 * a:
        return 'cp037'
    return None


class Malformed(Exception):
    pass


def in_domain(domain, v):
    return domain[0] <= v <= domain[1] if isinstance(domain, tuple) else v in domain


LOOSE = [(name, offset, code, default, (-2**31, 2**31 - 1) if code == 'i' else (-2**15, 2**15 - 1)) for name, offset, code, default, domain in model.BINARY]
LooseBinaryHeader = formats.make_class('LooseBinaryHeader', (Header,), LOOSE, {r[0]: Int32 if r[2] == 'i' else Int16 for r in LOOSE},
                                       START_OFFSET_IN_BYTES=3201, LENGTH_IN_BYTES=400)


def decode(data, encoding, endian, revision, loose):
    """What the bytes denote, else Malformed."""
    if len(data) < 3600:
        raise Malformed('short')
    if encoding is None:
        encoding = guess(data[:3200]) or 'ascii'

    def text(start):
        raw = data[start:start + 3200]
        if len(raw) < 3200:
            raise Malformed('text truncated')
        try:
            s = raw.decode(encoding)
        except UnicodeError:
            raise Malformed('text')
        return [s[i:i + 80] for i in range(0, 3200, 80)]

    lines = text(0)
    binary = model.decode_header(model.BINARY, 3201, data[3200:3600], endian)
    if binary['format_revision_num'] in (1, 100) and not loose:
        binary['format_revision_num'] = 256
    for name, _, _, _, domain in (LOOSE if loose else model.BINARY):
        if not in_domain(domain, binary[name]):
            raise Malformed(name)
    if binary['data_sample_format'] not in model.FORMATS or binary['format_revision_num'] not in (0, 1, 100, 256):
        raise Malformed('format or revision')
    pos, pages, n = 3600, [], binary['num_extended_textual_headers']
    while len(pages) != n:
        page = text(pos)
        pages.append(page)
        pos += 3200
        if model.END_TEXT in page[0]:
            if n < 0:
                break
            if len(pages) != n:
                raise Malformed('end of text')
    size = model.SAMPLE_SIZE[binary['data_sample_format']]
    traces = []
    while pos + 240 <= len(data):
        h = model.decode_header(model.TRACE_LAYOUTS[revision], 1, data[pos:pos + 240], endian)
        if h['num_samples'] < 0:
            raise Malformed('num_samples')
        traces.append((pos, h))
        pos += 240 + h['num_samples'] * size
    return dict(encoding=encoding, text=lines, binary=binary, pages=pages, traces=traces, size=size)


def judge(ctx, reader, d, data, endian, revision, dimensionality, what):
    """A reader is truthful."""
    rng = ctx.rng
    ctx.eq(list(reader.textual_reel_header), d['text'], what + ': text')
    ctx.eq([list(p) for p in reader.extended_textual_header], d['pages'], what + ': pages')
    observe.check_header(ctx, reader.binary_reel_header, d['binary'], model.BINARY, what + ': binary header')
    ctx.eq(int(reader.revision), 256 if d['binary']['format_revision_num'] else 0, what + ': revision')
    traces, fmt, size = d['traces'], d['binary']['data_sample_format'], d['size']
    ctx.eq(reader.data_sample_format, model.SEGY_TYPE[fmt], what + ': format')
    n = len(traces)
    ctx.eq(reader.num_traces(), n, what + ': num_traces()')
    ctx.eq(list(reader.trace_indexes()), list(range(n)), what + ': trace_indexes()')
    ctx.eq(reader.max_num_trace_samples(), max((h['num_samples'] for _, h in traces), default=0), what + ': longest')
    layout = model.TRACE_LAYOUTS[revision]
    chosen = range(n) if n < 12 else sorted({0, n - 1} | set(rng.sample(range(n), 8)))
    for t in chosen:
        pos, h = traces[t]
        ctx.eq(reader.num_trace_samples(t), h['num_samples'], '{}: num_trace_samples({})'.format(what, t))
        bad = [name for name, _, _, _, domain in layout if not in_domain(domain, h[name])]
        if bad:
            ctx.raises(DOCUMENTED, lambda: reader.trace_header(t), '{}: trace_header({}) with {}'.format(what, t, bad))
            ctx.count('headers_refused')
        else:
            observe.check_header(ctx, reader.trace_header(t), h, layout, '{}: trace_header({})'.format(what, t))
        start = pos + 240
        have = min(h['num_samples'], (len(data) - start) // size)
        if have < h['num_samples']:
            ctx.raises(EOFError, lambda: reader.trace_samples(t), '{}: trace_samples({}), of which {} of {} are present'.format(what, t, have, h['num_samples']))
            ctx.count('truncated_traces')
        got = reader.trace_samples(t, 0, have)
        raw = data[start:start + have * size]
        if fmt == model.IBM:
            ctx.eq(b''.join(bytes(s) for s in got), raw, '{}: samples of {}'.format(what, t))
        else:
            observe.check_samples(ctx, got, model.decode_samples(fmt, raw, endian), '{}: samples of {}'.format(what, t))
        if have:
            a = rng.randint(0, have)
            ctx.eq(len(reader.trace_samples(t, a, have)), have - a, '{}: part of {}'.format(what, t))
    # Wherever it is asked for what is not there
    for t in (n, -1, -n - 1, n + 1, 2**31, -2**63, rng.randint(n, 10**6)):
        ctx.raises(DOCUMENTED, lambda: reader.trace_header(t), '{}: trace_header({})'.format(what, t))
        ctx.raises(DOCUMENTED, lambda: reader.trace_samples(t), '{}: trace_samples({})'.format(what, t))
        ctx.raises(DOCUMENTED, lambda: reader.num_trace_samples(t), '{}: num_trace_samples({})'.format(what, t))
    if n:
        t = rng.randrange(n)
        k = traces[t][1]['num_samples']
        for a, b in ((-1, None), (k + 1, None), (None, k + 1), (0, -1), (k, k - 1) if k else (1, 0), (2**40, None), (None, 2**40)):
            ctx.raises(DOCUMENTED, lambda: reader.trace_samples(t, a, b), '{}: trace_samples({}, {}, {}) of {}'.format(what, t, a, b, k))
        ctx.count('accesses_refused', 7)
    triples = [(h.get('inline_number'), h.get('crossline_number'), h['ensemble_num']) for _, h in traces]
    wanted = dimensionality or gen.expected_dimensionality(triples, lines=revision == 'rev1')
    observe.check_type(ctx, reader, wanted, n, what)
    observe.check_index(ctx, reader, triples, what)
    for absent in (2**31, -2**31 - 1, rng.randint(-2**31, 2**31)):
        if wanted == 3 and n and all(absent != i for i, _, _ in triples):
            ctx.raises(DOCUMENTED, lambda: reader.trace_index((absent, 0)), '{}: trace_index of an absent line'.format(what))
            ctx.eq(bool(reader.has_trace_index((absent, 0))), False, '{}: has_trace_index of an absent line'.format(what))
        elif wanted == 2 and n and all(absent != c for _, _, c in triples):
            ctx.raises(DOCUMENTED, lambda: reader.trace_index(absent), '{}: trace_index of an absent CDP'.format(what))
            ctx.eq(bool(reader.has_trace_index(absent)), False, '{}: has_trace_index of an absent CDP'.format(what))
    ctx.count('truthful_readers')
    ctx.count('traces_judged', len(chosen))


def attempt(ctx, data, encoding=None, endian='>', revision='rev1', loose=False, dimensionality=None, what='', handle=None, cache=False, measure=False):
    """Create a reader over the data, and judge the outcome. Returns whether it was readable."""
    try:
        d = decode(data, encoding, endian, revision, loose)
    except Malformed as e:
        d = None
        why = str(e)
    kind = handle or ctx.rng.choice(['bytesio', 'tracing', 'tracing', 'file'])
    path = None
    before = None
    caching = os.path.exists(ctx.path('cache'))
    if kind == 'bytesio':
        fh = io.BytesIO(data)
    elif kind == 'tracing':
        fh = TracingFile(data)
    else:
        path = observe.write_file(ctx.path('damaged.sgy'), data)
        before = os.stat(path)
        fh = ctx.keep(open(path, 'rb'))
    kw = dict(trace_header_format=observe.TRACE_FORMATS[revision], endian=endian)
    if encoding is not None:
        kw['encoding'] = encoding
    if loose:
        kw['binary_reel_header_format'] = LooseBinaryHeader
    if dimensionality is not None:
        kw['dimensionality'] = dimensionality
    kw['cache_directory'] = ctx.path('cache') if cache else None
    what = '{} [{}, {}, {}]'.format(what, 'encoding ' + str(encoding), endian, revision)
    for attempt_number in range(2 if cache else 1):
        if measure:
            tracemalloc.start()
        try:
            try:
                reader = create_reader(fh, **kw)
            except DOCUMENTED as e:
                outcome = e
                reader = None
            finally:
                if measure:
                    _, peak = tracemalloc.get_traced_memory()
                    tracemalloc.stop()
        except Exception as e:
            ctx.fail('{}: create_reader() raised {!r}'.format(what, e))
        if measure:
            # A trace takes at least 240 bytes of the file, and its entries in the catalogs several small objects
            ctx.check(peak < 2_000_000 + 40 * len(data), '{}: create_reader() allocated {} bytes for a file of {}', what, peak, len(data))
            ctx.count('allocations_measured')
        if reader is not None and d is None:
            ctx.fail('{}: create_reader() accepted malformed bytes ({})'.format(what, why))
        if reader is None and d is not None:
            ctx.fail('{}: create_reader() raised {!r} for readable bytes'.format(what, outcome))
        if kind == 'tracing':
            reads = [e for e in fh.log if e[0] == 'read']
            units = (len(d['traces']) + len(d['pages'])) if d else len(data) // 240 + 1
            ctx.check(len(reads) <= 12 + 2 * units, '{}: {} reads for {} traces and headers', what, len(reads), units)
            ctx.check(sum(e[3] for e in reads) <= 16000 + 2 * len(data), '{}: read {} bytes of {}', what, sum(e[3] for e in reads), len(data))
            ctx.check(all(e[2] <= (1 << 20) + len(data) for e in reads), '{}: asked for {} bytes', what, max((e[2] for e in reads), default=0))
            ctx.check(not [e for e in fh.log if e[0] in ('write', 'truncate')], '{}: the file was written to', what)
            ctx.count('operations_observed', len(fh.log))
            fh.take()
        ctx.check(not fh.closed, '{}: the handle was closed', what)
        if reader is not None:
            judge(ctx, reader, d, data, endian, revision, dimensionality, what)
            if kind == 'tracing':
                ctx.check(all(e[2] <= 16000 + 4 * 32767 for e in fh.log if e[0] == 'read'), '{}: an excessive read', what)
        else:
            ctx.count('refused')
            ctx.state(type(outcome).__name__, why)
        # The handle is usable
        fh.seek(0)
        ctx.eq(fh.read(), data, what + ': file content')
        fh.seek(0)
        if kind == 'tracing':
            fh.take()
    if path is not None:
        after = os.stat(path)
        ctx.eq((after.st_size, after.st_mtime_ns), (before.st_size, before.st_mtime_ns), what + ': the file was changed')
        allowed = {'damaged.sgy'} | ({'cache'} if cache or caching else set())
        ctx.check(set(os.listdir(ctx.tmp)) <= allowed, '{}: left {}', what, sorted(os.listdir(ctx.tmp)))
    return d is not None


def read_options(rng, m):
    """Arguments which mostly suit the file."""
    return dict(
        encoding=rng.choice([None, None, m.encoding, m.encoding, rng.choice(gen.ENCODINGS)]),
        endian=m.endian if rng.random() < 0.9 else rng.choice(gen.ENDIANS),
        revision=m.revision if rng.random() < 0.9 else rng.choice(['rev0', 'rev1']),
        loose=rng.random() < 0.15,
        dimensionality=rng.choice([None, None, None, 1, 2, 3]) if len(m.traces) else None,
        cache=rng.random() < 0.1,
    )


INTERESTING_16 = [0, 1, -1, 2, 8, 127, 128, 255, 256, 257, 100, 32767, -32768, 0x2828]
INTERESTING_32 = INTERESTING_16 + [65535, 65536, 2**31 - 1, -2**31, 0x7f7f7f7f]


def damage(rng, data, m):
    """Damage of one kind, with a description."""
    data = bytearray(data)
    n = len(data)
    kind = rng.choice(['truncate', 'truncate', 'bytes', 'bits', 'field', 'field', 'field', 'insert', 'delete', 'repeat', 'zero', 'noise', 'splice', 'swap', 'extend'])
    at = rng.randrange(n)
    if rng.random() < 0.5:
        # Near a boundary
        edges = [0, 3200, 3600] + [3600 + 3200 * (i + 1) for i in range(len(m.pages))] + m.trace_offsets() + [p + 240 for p in m.trace_offsets()]
        at = min(n - 1, max(0, rng.choice(edges) + rng.randint(-3, 3)))
    span = rng.choice([1, 1, 2, 4, 80, 240, rng.randint(1, 1000)])
    if kind == 'truncate':
        del data[at:]
    elif kind == 'bytes':
        for _ in range(rng.choice([1, 1, 2, 5, 20])):
            data[rng.randrange(n)] = rng.choice([0, 1, 0x7f, 0x80, 0xff, 0x40, 0x20, rng.randrange(256)])
    elif kind == 'bits':
        for _ in range(rng.choice([1, 1, 2, 8])):
            data[rng.randrange(n)] ^= 1 << rng.randrange(8)
    elif kind == 'field':
        bases = [(3200, 3201, model.BINARY)] * 2 + [(p, 1, m.layout) for p in m.trace_offsets()]
        for _ in range(rng.choice([1, 1, 2, 6])):
            base, first, layout = rng.choice(bases)
            important = [r for r in layout if r[0] in ('num_samples', 'data_sample_format', 'format_revision_num', 'num_extended_textual_headers',
                                                       'ensemble_num', 'inline_number', 'crossline_number')]
            name, offset, code, _, _ = rng.choice(important if rng.random() < 0.7 else layout)
            value = rng.choice(INTERESTING_16 if code == 'h' else INTERESTING_32)
            endian = m.endian if rng.random() < 0.9 else rng.choice('<>')
            if base + offset - first + struct.calcsize('>' + code) <= n:
                struct.pack_into(endian + code, data, base + offset - first, value)
    elif kind == 'insert':
        data[at:at] = rng.choice([rng.randbytes(span), bytes(span)])
    elif kind == 'delete':
        del data[at:at + span]
    elif kind == 'repeat':
        data[at:at] = data[at:at + span]
    elif kind == 'zero':
        data[at:at + span] = bytes(len(data[at:at + span]))
    elif kind == 'noise':
        data[at:at + span] = rng.randbytes(len(data[at:at + span]))
    elif kind == 'splice':
        other = rng.randrange(n)
        data[at:at + span] = data[other:other + span]
    elif kind == 'swap':
        a, b = sorted((at, rng.randrange(n)))
        data = data[b:] + data[a:b] + data[:a]
    elif kind == 'extend':
        data += rng.choice([rng.randbytes(span), bytes(span), bytes(data[:span])])
    return bytes(data), '{} at {} span {}'.format(kind, at, span)


def small_model(rng, **kw):
    return gen.file_model(rng, max_side=rng.choice([1, 2, 3, 4]), max_samples=rng.choice([2, 8, 30]), **kw)


def damaged(ctx):
    rng = ctx.rng
    m = small_model(rng)
    original = m.encode(rng if rng.random() < 0.5 else None)
    for _ in range(5):
        data, steps = original, []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            if not data:
                break
            data, step = damage(rng, data, m)
            steps.append(step)
            ctx.state(step.split()[0])
        readable = attempt(ctx, data, what='file of {} bytes damaged by {}'.format(len(data), steps), **read_options(rng, m))
        ctx.count('readable_in_spite_of_damage' if readable else 'malformed')
        ctx.evaluated(*([data] if len(data) >= 3600 else []))


def every_byte(ctx):
    """Every byte of a small file is overwritten, and the file is truncated before every byte."""
    rng = ctx.rng
    fmt = model.FORMATS[ctx.case % 5]
    chunk = ctx.case // 5 % 40
    variant = ctx.case // 200
    # The same file for all chunks of a format
    import random
    fixed = random.Random('{}/{}/{}'.format(ctx.seed, fmt, variant))
    m = gen.file_model(fixed, fmt=fmt, pages=1, geometry_kind=['grid', 'line'][variant % 2], max_side=2, max_samples=3)
    data = m.encode()
    positions = range(chunk, len(data), 40)
    readable = 0
    for p in positions:
        options = dict(encoding=rng.choice([None, m.encoding]), endian=m.endian, revision=m.revision, handle='bytesio')
        changed = bytearray(data)
        changed[p] = rng.choice([v for v in (0, 1, 0x7f, 0x80, 0xff, data[p] ^ 1, data[p] ^ 0x80, rng.randrange(256)) if v != data[p]])
        readable += attempt(ctx, bytes(changed), what='byte {} is {}'.format(p, changed[p]), **options)
        readable += attempt(ctx, data[:p], what='truncated to {}'.format(p), **options)
        ctx.count('bytes_overwritten')
        ctx.count('truncations')
        ctx.evaluated(fmt, p, changed[p])
    ctx.count('readable_in_spite_of_damage', readable)


def noise(ctx):
    """Files which are not SEG-Y at all, or whose headers suit them while the rest is noise."""
    rng = ctx.rng
    for _ in range(3):
        n = rng.choice([0, 1, 3199, 3200, 3599, 3600, 3601, 3839, 3840, 3841, rng.randint(3600, 20000)])
        kind = rng.choice(['random', 'zeros', 'ones', 'ascii', 'headers'])
        if kind == 'random':
            data = rng.randbytes(n)
        elif kind == 'zeros':
            data = bytes(n)
        elif kind == 'ones':
            data = bytes([rng.choice([0xff, 0x40, 0x20, 0x01])]) * n
        elif kind == 'ascii':
            data = ''.join(rng.choices(gen.PRINTABLE, k=n)).encode()
        else:
            m = small_model(rng, geometry_kind='none')
            data = m.encode()
            data = data + rng.choice([rng.randbytes(rng.randint(0, 5000)), bytes(rng.choice([240, 239, 2400, rng.randint(0, 30000)]))])
        attempt(ctx, data, encoding=rng.choice([None, 'ascii', 'cp037']), endian=rng.choice('<>'), revision=rng.choice(['rev0', 'rev1']),
                loose=rng.random() < 0.3, dimensionality=rng.choice([None, None, 1, 2, 3]), what='{} bytes of {}'.format(len(data), kind))
        ctx.count('noise_files')
        ctx.evaluated(*([data] if len(data) >= 3600 else []))


def large(ctx):
    """The cost is in proportion to the size of the file, whatever the headers declare."""
    rng = ctx.rng
    m = small_model(rng, geometry_kind='none', pages=0, fmt=rng.choice(model.FORMATS), revision='rev1')
    kind = rng.choice(['zero-length', 'huge-declared', 'long-truncated', 'many-pages', 'unending-pages', 'scattered-lines', 'scattered-cdps', 'same-lines'])
    endian = m.endian
    size = rng.randint(200000, 500000)
    options = {}
    if kind == 'zero-length':
        tail = bytes(size)
    elif kind == 'huge-declared':
        tail = b''.join(model.encode_trace_header(dict(num_samples=32767), endian) + rng.randbytes(50) for _ in range(5))
        m.binary['num_samples'] = 32767
    elif kind == 'long-truncated':
        # Nearly all of a long trace is present
        n = rng.choice([32767, 30000, 17000])
        whole = n * model.SAMPLE_SIZE[m.format]
        tail = model.encode_trace_header(dict(num_samples=n), endian) + bytes(rng.choice([whole, whole - 1, whole - 4, whole // 2, rng.randint(0, whole)]))
        tail = model.encode_trace_header(dict(num_samples=2), endian) + bytes(2 * model.SAMPLE_SIZE[m.format]) + tail
    elif kind in ('many-pages', 'unending-pages'):
        m.binary['num_extended_textual_headers'] = 32767 if kind == 'many-pages' else -1
        tail = b' ' * size
        options = dict(encoding='ascii')
        m.encoding = 'ascii'
        m.text = gen.conventional_text(rng)
    else:
        n = size // 240
        wide = lambda: rng.randint(-2**31, 2**31 - 1)
        headers = []
        for i in range(n):
            if kind == 'scattered-lines':
                h = dict(inline_number=wide(), crossline_number=wide(), ensemble_num=1)
            elif kind == 'scattered-cdps':
                h = dict(ensemble_num=wide())
            else:
                h = dict(inline_number=5 if i else 2**31 - 1, crossline_number=-2**31 + i * rng.choice([1, 1000]), ensemble_num=7)
            headers.append(model.encode_trace_header(h, endian))
        tail = b''.join(headers)
    data = m.encode() + tail
    attempt(ctx, data, endian=endian, what='{} of {} bytes'.format(kind, len(data)), handle=rng.choice(['tracing', 'tracing', 'file']), measure=True, **options)
    ctx.state(kind)
    ctx.count('large_files')
    ctx.evaluated(kind, len(data))


class Handle(io.BytesIO):
    """A handle with unusual qualities."""

    def __init__(self, data, seekable=True, encoding='absent', name=None):
        super().__init__(data)
        self._seekable = seekable
        if encoding != 'absent':
            self.encoding = encoding
        if name is not None:
            self.name = name
        self.mode = 'rb'

    def seekable(self):
        return self._seekable


def snapshot(top):
    out = {}
    for d, _, files in os.walk(top):
        out[d] = None
        for f in files:
            with open(os.path.join(d, f), 'rb') as fh:
                out[os.path.join(d, f)] = fh.read()
    return out


def unsuitable(ctx):
    """Unsuitable arguments are refused with the documented exception before the cache is touched."""
    rng = ctx.rng
    m = small_model(rng, text='conventional')
    data = m.encode()
    base = dict(endian=m.endian, trace_header_format=observe.TRACE_FORMATS[m.revision])
    path = observe.write_file(ctx.path('f.sgy'), data)
    cache_kind = rng.choice(['none', 'relative', 'absolute', 'populated'])
    if cache_kind == 'relative':
        base['cache_directory'] = rng.choice(['.segpy', 'some/where'])
    elif cache_kind == 'none':
        base['cache_directory'] = None
    else:
        base['cache_directory'] = ctx.path('cache')
    if cache_kind == 'populated':
        with open(path, 'rb') as fh:
            create_reader(fh, **base)
    before = snapshot(ctx.tmp)
    good = lambda: ctx.keep(open(path, 'rb'))

    def refused(exceptions, fh, what, still_open=True, **kw):
        args = dict(base)
        args.update(kw)
        ctx.raises(exceptions, lambda: create_reader(fh, **args), what)
        ctx.eq(snapshot(ctx.tmp), before, 'files after refusing ' + what)
        if still_open:
            ctx.check(not fh.closed, 'the handle was closed by refusing {}', what)
        ctx.count('refusals')
        ctx.state(what.split(':')[0], cache_kind)

    closed = open(path, 'rb')
    closed.close()
    refused(ValueError, closed, 'closed handle', False)
    closed = io.BytesIO(data)
    closed.close()
    refused(ValueError, closed, 'closed BytesIO', False)
    refused(TypeError, ctx.keep(open(path, 'r', encoding='latin-1')), 'text handle')
    for encoding in ('utf-8', 'ascii', 'utf-16', 'cp037'):
        # Most content cannot be decoded, and never need be
        refused(TypeError, ctx.keep(open(path, 'r', encoding=encoding)), 'text handle: {}'.format(encoding))
        refused(TypeError, ctx.keep(io.TextIOWrapper(io.BytesIO(data), encoding=encoding)), 'wrapped handle: {}'.format(encoding))
    refused(TypeError, Handle(data, encoding='ascii'), 'handle with an encoding')
    refused(TypeError, Handle(data, seekable=False), 'unseekable handle')
    r, w = os.pipe()
    pr, pw = ctx.keep(os.fdopen(r, 'rb')), ctx.keep(os.fdopen(w, 'wb'))
    refused(TypeError, pr, 'pipe')
    for n in {0, 1, 3199, 3200, 3599, rng.randrange(3600)}:
        fh = Handle(data[:n])
        refused(ValueError, fh, 'short: {} bytes'.format(n))
        fh.seek(0)
        ctx.eq(fh.read(), data[:n], 'content of a short file')
    for endian in ('', '=', '!', '@', '<>', 'big', 'little', None, 1, b'<', '> ', True):
        refused(ValueError, good(), 'endian: {!r}'.format(endian), endian=endian)
    for dimensionality in (0, 4, -1, 5, '2', 1.5, 100, '3D', (3,)):
        refused(ValueError, good(), 'dimensionality: {!r}'.format(dimensionality), dimensionality=dimensionality)
    for progress in (1, 'x', 0.5, [], {}, object(), False, 0, ''):
        refused(TypeError, good(), 'progress: {!r}'.format(progress), progress=progress)
    # Several at once
    refused((ValueError, TypeError), Handle(data[:100]), 'several: short and endian', endian='x')
    refused((ValueError, TypeError), good(), 'several: endian and progress', endian='x', progress=3)
    # A handle whose encoding is None is a binary one
    reader = create_reader(Handle(data, encoding=None), **dict(base, cache_directory=None, encoding=m.encoding))
    observe.check_reader(ctx, reader, m)
    # After all of this the file can be read
    fh = good()
    observe.check_reader(ctx, create_reader(fh, **dict(base, encoding=m.encoding)), m)
    ctx.evaluated(data, cache_kind)


class InputError(OSError):
    pass


def input_errors(ctx):
    """An error at any operation on the handle is reported as such, and a second attempt succeeds."""
    rng = ctx.rng
    m = small_model(rng)
    data = m.encode()
    fail_at = [None]
    seen = [0]

    def before(entry):
        seen[0] += 1
        if fail_at[0] is not None and seen[0] == fail_at[0]:
            raise InputError(5, 'Input/output error')

    kw = dict(endian=m.endian, encoding=m.encoding, trace_header_format=observe.TRACE_FORMATS[m.revision], cache_directory=None)
    fh = TracingFile(data, before=before)
    reader = create_reader(fh, **kw)
    total = seen[0]
    ops = list(range(1, total + 1))
    if len(ops) > 40 and not ctx.thorough:
        ops = ops[:15] + ops[-5:] + rng.sample(ops[15:-5], 15)
    for k in ops:
        fh = TracingFile(data, before=before)
        seen[0], fail_at[0] = 0, k
        ctx.raises((InputError, ) + DOCUMENTED, lambda: create_reader(fh, **kw), 'create_reader() with an input error at operation {} of {}'.format(k, total))
        fail_at[0] = None
        ctx.check(not fh.closed, 'the handle was closed after an input error')
        fh.seek(0)
        again = create_reader(fh, **kw)
        ctx.eq(again.num_traces(), len(m.traces), 'num_traces() of a second attempt')
        ctx.count('input_errors')
        ctx.state('create', k if k < 20 else 20)
    for t in range(min(4, len(m.traces))):
        for access in ('header', 'samples'):
            fn = (lambda: reader.trace_header(t)) if access == 'header' else (lambda: reader.trace_samples(t))
            seen[0] = 0
            fn()
            steps = seen[0]
            for k in range(1, steps + 1):
                seen[0], fail_at[0] = 0, k
                ctx.raises((InputError, ) + DOCUMENTED, fn, '{} of trace {} with an input error'.format(access, t))
                fail_at[0] = None
                if access == 'header':
                    observe.check_header(ctx, fn(), m.trace_values(t), m.layout, 'header after an input error')
                else:
                    observe.check_samples(ctx, fn(), m.stored_samples(t), 'samples after an input error')
                ctx.count('access_errors')
    observe.check_reader(ctx, again if ops else reader, m)
    ctx.evaluated(data)


SCENARIOS = [
    Scenario('damaged', damaged, 700, 16000, ['malformed', 'readable_in_spite_of_damage', 'truthful_readers', 'refused', 'headers_refused', 'truncated_traces', 'operations_observed']),
    Scenario('every-byte', every_byte, 200, 2000, ['bytes_overwritten', 'truncations', 'readable_in_spite_of_damage']),
    Scenario('noise', noise, 250, 6000, ['noise_files', 'refused', 'truthful_readers']),
    Scenario('large', large, 40, 400, ['large_files', 'allocations_measured']),
    Scenario('unsuitable', unsuitable, 40, 400, ['refusals']),
    Scenario('input-errors', input_errors, 40, 600, ['input_errors', 'access_errors']),
]
