"""Observation of segpy through its public interface: comparison with the model, in-memory datasets, tracing handles."""

import bisect
import collections
import io
import math
import os
import struct
import tempfile
from array import array
from collections.abc import Sequence

import numpy

from segpy.binary_reel_header import BinaryReelHeader
from segpy.dataset import Dataset
from segpy.ibm_float import IBMFloat
from segpy.reader import create_reader, SegYReader, SegYReader2D, SegYReader3D
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

from harness import model
from harness.gen import expected_dimensionality
from harness.model import IbmWord

TRACE_FORMATS = {'rev0': TraceHeaderRev0, 'rev1': TraceHeaderRev1}

READER_TYPES = {1: SegYReader, 2: SegYReader2D, 3: SegYReader3D}


# -- comparison

def float_bits(x):
    return struct.pack('>d', float(x))


def same_number(a, b):
    """Equal as numbers, and of equal sign if zero. IBM floats are compared by exact value."""
    a, b = float(a), float(b)
    return a == b or (a != a and b != b)


def header_dict(header, layout):
    return {row[0]: int(getattr(header, row[0])) for row in layout}


def check_header(ctx, header, expected, layout, what):
    for row in layout:
        name = row[0]
        actual = getattr(header, name)
        if not (actual == expected[name]):
            ctx.fail('{}: field {} is {!r}, expected {!r}'.format(what, name, actual, expected[name]))
    ctx.count('header_fields_compared', len(layout))


def check_samples(ctx, actual, expected, what):
    if len(actual) != len(expected):
        ctx.fail('{}: {} samples, expected {}'.format(what, len(actual), len(expected)))
    for i, (a, e) in enumerate(zip(actual, expected)):
        if not (a == e or same_number(a, e)):
            ctx.fail('{}: sample {} of {} is {!r}, expected {!r}'.format(what, i, len(expected), a, e))
        if e == 0 and isinstance(e, float) and not isinstance(a, IBMFloat):
            if float_bits(a) != float_bits(e):
                ctx.fail('{}: sample {} is {!r}, expected {!r}'.format(what, i, a, e))
    ctx.count('samples_compared', len(expected))


def model_triples(m):
    out = []
    for i in range(len(m.traces)):
        v = m.trace_values(i)
        out.append((v.get('inline_number'), v.get('crossline_number'), v['ensemble_num']))
    return out


def check_reader(ctx, reader, m, dimensionality=None, what='reader', order=None, binary_layout=None, layout=None):
    """Compare everything a reader presents with the content of the file.

    Args:
        dimensionality: As was requested from create_reader().
        order: The order in which to access traces.
    """
    layout = layout if layout is not None else m.layout
    ctx.eq(tuple(reader.textual_reel_header), tuple(m.text), what + ': textual_reel_header')
    check_header(ctx, reader.binary_reel_header, m.binary_values(), binary_layout or model.BINARY, what + ': binary_reel_header')
    ctx.eq([list(p) for p in reader.extended_textual_header], m.pages, what + ': extended_textual_header')
    n = len(m.traces)
    ctx.eq(reader.num_traces(), n, what + ': num_traces()')
    ctx.eq(list(reader.trace_indexes()), list(range(n)), what + ': trace_indexes()')
    ctx.eq(reader.max_num_trace_samples(), max((len(s) for _, s in m.traces), default=0), what + ': max_num_trace_samples()')
    ctx.eq(reader.data_sample_format, m.segy_type, what + ': data_sample_format')
    ctx.eq(reader.bytes_per_sample, model.SAMPLE_SIZE[m.format], what + ': bytes_per_sample')
    ctx.eq(reader.encoding, m.encoding, what + ': encoding')
    ctx.eq(reader.endian, m.endian, what + ': endian')
    ctx.eq(int(reader.revision), m.binary_values()['format_revision_num'], what + ': revision')
    triples = model_triples(m)
    expected_dim = expected_dimensionality(triples, lines=m.revision == 'rev1') if dimensionality is None else dimensionality
    check_type(ctx, reader, expected_dim, n, what)
    for i in (order if order is not None else range(n)):
        ctx.eq(reader.num_trace_samples(i), len(m.traces[i][1]), '{}: num_trace_samples({})'.format(what, i))
        check_header(ctx, reader.trace_header(i), m.trace_values(i), layout, '{}: trace_header({})'.format(what, i))
        check_samples(ctx, reader.trace_samples(i), m.stored_samples(i), '{}: trace_samples({})'.format(what, i))
    ctx.count('traces_compared', n)
    check_index(ctx, reader, triples, what)


def check_type(ctx, reader, dimensionality, n, what='reader'):
    """A reader of dimensionality 0 or 1 is the unindexed reader, which reports 1 for a single trace."""
    if dimensionality in (2, 3):
        ctx.eq(reader.dimensionality, dimensionality, what + ': dimensionality')
    else:
        ctx.eq(reader.dimensionality, 1 if n == 1 else 0, what + ': dimensionality')
    ctx.eq(isinstance(reader, SegYReader3D), dimensionality == 3, what + ': is a SegYReader3D')
    ctx.eq(isinstance(reader, SegYReader2D), dimensionality == 2, what + ': is a SegYReader2D')
    ctx.check(isinstance(reader, SegYReader), what + ' is not a SegYReader')


def check_index(ctx, reader, triples, what='reader'):
    """The index of a reader agrees with the numbers in the trace headers (where these are distinct)."""
    if isinstance(reader, SegYReader3D):
        pairs = [(i, x) for i, x, _ in triples]
        if len(set(pairs)) != len(pairs) or (pairs and pairs[0][0] is None):
            # Forced; no index could be built
            ctx.eq(list(reader.inline_xline_numbers()), [], what + ': inline_xline_numbers() of ambiguous lines')
            return
        ctx.eq(list(reader.inline_numbers()), sorted({i for i, _ in pairs}), what + ': inline_numbers()')
        ctx.eq(list(reader.xline_numbers()), sorted({x for _, x in pairs}), what + ': xline_numbers()')
        ctx.eq(reader.num_inlines(), len({i for i, _ in pairs}), what + ': num_inlines()')
        ctx.eq(reader.num_xlines(), len({x for _, x in pairs}), what + ': num_xlines()')
        listed = list(reader.inline_xline_numbers())
        ctx.eq(sorted(listed), sorted(pairs), what + ': inline_xline_numbers()')
        for t, p in enumerate(pairs):
            ctx.eq(reader.trace_index(p), t, '{}: trace_index({})'.format(what, p))
            ctx.eq(reader.has_trace_index(p), True, '{}: has_trace_index({})'.format(what, p))
        ctx.count('line_lookups', len(pairs))
    elif isinstance(reader, SegYReader2D):
        cdps = [c for _, _, c in triples]
        if len(set(cdps)) != len(cdps):
            ctx.eq(list(reader.cdp_numbers()), [], what + ': cdp_numbers() of ambiguous CDPs')
            return
        ctx.eq(list(reader.cdp_numbers()), sorted(cdps), what + ': cdp_numbers()')
        ctx.eq(reader.num_cdps(), len(cdps), what + ': num_cdps()')
        for t, c in enumerate(cdps):
            ctx.eq(reader.trace_index(c), t, '{}: trace_index({})'.format(what, c))
            ctx.eq(reader.has_trace_index(c), True, '{}: has_trace_index({})'.format(what, c))
        ctx.count('cdp_lookups', len(cdps))


def content(reader, layout=None):
    """Everything a reader presents, as a comparable value which does not share anything with it."""
    tlayout = [n for n in reader.trace_header_format_class.ordered_field_names()]
    blayout = [n for n in type(reader.binary_reel_header).ordered_field_names()]
    out = dict(
        type=type(reader).__name__,
        dimensionality=reader.dimensionality,
        text=tuple(reader.textual_reel_header),
        binary=tuple((n, int(getattr(reader.binary_reel_header, n))) for n in blayout),
        binary_type=type(reader.binary_reel_header).__name__,
        pages=tuple(tuple(p) for p in reader.extended_textual_header),
        num_traces=reader.num_traces(),
        indexes=tuple(reader.trace_indexes()),
        longest=reader.max_num_trace_samples(),
        format=str(reader.data_sample_format), description=reader.data_sample_format_description,
        encoding=reader.encoding, endian=reader.endian, revision=int(reader.revision),
        bytes_per_sample=reader.bytes_per_sample,
        header_class=reader.trace_header_format_class.__name__,
        lengths=tuple(reader.num_trace_samples(i) for i in reader.trace_indexes()),
        headers=tuple(tuple(int(getattr(h, n)) for n in tlayout) for h in map(reader.trace_header, reader.trace_indexes())),
        samples=tuple(sample_key(reader.trace_samples(i)) for i in reader.trace_indexes()),
    )
    if isinstance(reader, SegYReader3D):
        out['inlines'] = tuple(reader.inline_numbers())
        out['xlines'] = tuple(reader.xline_numbers())
        pairs = tuple(sorted(reader.inline_xline_numbers()))
        out['pairs'] = tuple((p, reader.trace_index(p), reader.has_trace_index(p)) for p in pairs)
        out['num_lines'] = (reader.num_inlines(), reader.num_xlines())
    elif isinstance(reader, SegYReader2D):
        out['cdps'] = tuple((c, reader.trace_index(c), reader.has_trace_index(c)) for c in reader.cdp_numbers())
        out['num_cdps'] = reader.num_cdps()
    return out


def sample_key(samples):
    return tuple(bytes(s) if isinstance(s, IBMFloat) else (type(s).__name__, float_bits(s) if isinstance(s, float) else s)
                 for s in samples)


def eq_content(ctx, actual, expected, what):
    for key in expected:
        if actual.get(key) != expected[key]:
            from harness.core import brief
            ctx.fail('{}: {} differs: observed {}, expected {}'.format(what, key, brief(actual.get(key)), brief(expected[key])))
    ctx.eq(sorted(actual), sorted(expected), what + ': capabilities')
    ctx.count('contents_compared')


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


def check_bytes(ctx, actual, expected, m, what):
    if actual != expected:
        i = first_difference(actual, expected)
        ctx.fail('{}: {} bytes, expected {}; first difference in {}: {} instead of {}'.format(
            what, len(actual), len(expected), m.where(i) if m is not None else i,
            bytes(actual[max(0, i - 2):i + 8]).hex(), bytes(expected[max(0, i - 2):i + 8]).hex()))
    ctx.count('bytes_compared', len(expected))


# -- datasets

class Samples(Sequence):
    """A sequence which is none of the usual types."""

    def __init__(self, items):
        self._items = list(items)

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        return self._items[i]


def real_samples(fmt, samples):
    """The samples of a model as segpy is given them."""
    return [IBMFloat.from_bytes(struct.pack('>I', s)) if type(s) is IbmWord else s for s in samples]


def sample_sequence(rng, fmt, samples, kind=None):
    """One of many types of sequence holding the given samples exactly."""
    items = real_samples(fmt, samples)
    kinds = ['list', 'tuple', 'sequence']
    has_words = any(type(s) is IbmWord for s in samples)
    if not has_words:
        kinds += ['array', 'ndarray', 'memoryview', 'numpy-scalars', 'strided', 'foreign-order', 'column', 'deque']
        if items and fmt in model.INT_RANGE and len(set(b - a for a, b in zip(items, items[1:]))) == 1 and items[1] != items[0]:
            kinds += ['range'] * 3
        if fmt in model.INT_RANGE or fmt == model.FLOAT32 and all(x != x or struct.unpack('f', struct.pack('f', x))[0] == x for x in items):
            kinds += ['smallest-array', 'smallest-array', 'smallest-foreign', 'smallest-column']
        if all(type(x) is int or x.is_integer() and abs(x) < 2**53 and (x or math.copysign(1, x) > 0) for x in items):
            # Whole numbers, which may be held as integers of any kind even when they are to be written as floats
            kinds += ['integers'] * 3
    kind = kind if kind in kinds else rng.choice(kinds)
    code = {1: 'd', 2: 'i', 3: 'h', 5: 'd', 8: 'b'}[fmt]
    if kind == 'list':
        return items
    if kind == 'tuple':
        return tuple(items)
    if kind == 'sequence':
        return Samples(items)
    if kind == 'array':
        return array('d' if code == 'd' else rng.choice(['q', 'i' if fmt == 2 else code]), items)
    if kind == 'smallest-array':
        return array('f' if fmt == model.FLOAT32 else code, items)
    if kind == 'ndarray':
        a = numpy.array(items, dtype='f8' if code == 'd' else rng.choice(['i8', code]))
        return a
    if kind == 'strided':
        a = numpy.array(items, dtype='f8' if code == 'd' else 'i8')
        return numpy.repeat(a, 2)[::2]
    if kind == 'deque':
        return collections.deque(items)
    if kind in ('foreign-order', 'smallest-foreign'):
        # As from a file of the other byte order
        small = 'f4' if fmt == model.FLOAT32 else {2: 'i4', 3: 'i2', 8: 'i1'}.get(fmt)
        return numpy.array(items, dtype=rng.choice('><') + (small if kind == 'smallest-foreign' else 'f8' if code == 'd' else 'i8'))
    if kind in ('column', 'smallest-column'):
        # One of several traces side by side, or samples backwards
        dtype = {model.FLOAT32: 'f4', 2: 'i4', 3: 'i2', 8: 'i1'}[fmt] if kind == 'smallest-column' else 'f8' if code == 'd' else 'i8'
        a = numpy.zeros((len(items), 3), dtype=dtype, order=rng.choice('CF'))
        a[:, 1] = items
        if rng.random() < 0.3:
            return numpy.array(items[::-1], dtype=dtype)[::-1]
        a.flags.writeable = rng.random() < 0.5
        return a[:, 1]
    if kind == 'memoryview':
        return memoryview(array(code, items))
    if kind == 'numpy-scalars':
        return list(numpy.array(items, dtype='f8' if code == 'd' else 'i8'))
    if kind == 'range':
        return range(items[0], items[-1] + (1 if items[1] > items[0] else -1), items[1] - items[0])
    if kind == 'integers':
        return integer_sequence(rng, [int(x) for x in items])
    raise AssertionError(kind)


def integer_sequence(rng, items):
    lo, hi = min(items, default=0), max(items, default=0)
    codes = [c for c, a, b in (('b', -2**7, 2**7), ('B', 0, 2**8), ('h', -2**15, 2**15), ('H', 0, 2**16), ('i', -2**31, 2**31), ('I', 0, 2**32),
                               ('q', -2**63, 2**63), ('Q', 0, 2**64)) if a <= lo and hi < b]
    choices = ['list'] + ['array', 'ndarray'] * bool(codes) + ['bytes', 'bytearray'] * (0 <= lo and hi < 256)
    strides = {b - a for a, b in zip(items, items[1:])}
    choices += ['range'] * (len(strides) == 1 and strides != {0})
    choice = rng.choice(choices)
    if choice == 'array':
        return array(rng.choice(codes), items)
    if choice == 'ndarray':
        return numpy.array(items, dtype=rng.choice('<>') + {'b': 'i1', 'B': 'u1', 'h': 'i2', 'H': 'u2', 'i': 'i4', 'I': 'u4', 'q': 'i8', 'Q': 'u8'}[rng.choice(codes)])
    if choice == 'bytes':
        return bytes(items)
    if choice == 'bytearray':
        return bytearray(items)
    if choice == 'range':
        return range(items[0], items[-1] + (1 if items[1] > items[0] else -1), items[1] - items[0])
    return items


class MemDataset(Dataset):
    """A dataset holding the content of a model."""

    def __init__(self, m, rng, trace_format=None, binary_format=BinaryReelHeader, lazy_pages=False, kept=False, permuted=False):
        self._m = m
        # The indexes of the traces, in the order in which the dataset presents them, which is that of the model
        self._order = list(range(len(m.traces)))
        if permuted:
            rng.shuffle(self._order)
        self._place = {index: place for place, index in enumerate(self._order)}
        self._rng = rng
        self._format = trace_format or TRACE_FORMATS[m.revision]
        self._binary = binary_format(**m.binary)
        self._headers = [self._format(**h) for h, _ in m.traces]
        self._kind = rng.choice([None, None, 'list', 'tuple', 'array', 'ndarray', 'integers'])
        self._lazy_pages = lazy_pages
        # The very sequences which are handed out
        self.kept = [sample_sequence(rng, m.format, s, self._kind) for _, s in m.traces] if kept else None
        if rng.random() < 0.5:
            self.encoding = m.encoding

    @property
    def textual_reel_header(self):
        return tuple(self._m.text)

    @property
    def binary_reel_header(self):
        return self._binary

    @property
    def extended_textual_header(self):
        if self._lazy_pages:
            return (iter(p) for p in self._m.pages)
        return [tuple(p) for p in self._m.pages]

    def num_traces(self):
        return len(self._m.traces)

    def trace_indexes(self):
        return iter(self._order)

    @property
    def dimensionality(self):
        return 0

    def trace_header(self, trace_index):
        return self._headers[self._place[trace_index]]

    def trace_samples(self, trace_index, start=None, stop=None):
        place = self._place[trace_index]
        s = self._m.traces[place][1]
        if self.kept and start is None and stop is None:
            return self.kept[place]
        return sample_sequence(self._rng, self._m.format, s[slice(start, stop)], self._kind)


# -- file handles

class TracingFile(io.RawIOBase):
    """A binary handle over bytes which records every operation on it.

    log holds tuples: ('read', position, requested, obtained), ('seek', target), ('tell',), ('write', position, n), ...
    """

    def __init__(self, data=b'', name=None, writable=False, before=None):
        self._buf = bytearray(data)
        self._pos = 0
        self.log = []
        self._writable = writable
        self._before = before
        self.closed_calls = 0
        if name is not None:
            self.name = name
        self.mode = 'rb+' if writable else 'rb'

    def _record(self, *entry):
        if self._before is not None:
            self._before(entry)
        self.log.append(entry)

    def readable(self):
        return True

    def seekable(self):
        return True

    def writable(self):
        return self._writable

    def read(self, n=-1):
        if n is None or n < 0:
            n = max(0, len(self._buf) - self._pos)
        data = bytes(self._buf[self._pos:self._pos + n])
        self._record('read', self._pos, n, len(data))
        self._pos += len(data)
        return data

    def readall(self):
        return self.read(-1)

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, data):
        data = bytes(data)
        self._record('write', self._pos, len(data))
        if not self._writable:
            raise io.UnsupportedOperation('not writable')
        if self._pos > len(self._buf):
            self._buf.extend(bytes(self._pos - len(self._buf)))
        self._buf[self._pos:self._pos + len(data)] = data
        self._pos += len(data)
        return len(data)

    def truncate(self, size=None):
        self._record('truncate', size)
        if not self._writable:
            raise io.UnsupportedOperation('not writable')
        size = self._pos if size is None else size
        del self._buf[size:]
        return size

    def seek(self, offset, whence=0):
        target = offset if whence == 0 else self._pos + offset if whence == 1 else len(self._buf) + offset
        if target < 0:
            raise OSError(22, 'Invalid argument')
        self._record('seek', target)
        self._pos = target
        return target

    def tell(self):
        return self._pos

    def close(self):
        self.closed_calls += 1
        super().close()

    def getvalue(self):
        return bytes(self._buf)

    def take(self):
        log, self.log = self.log, []
        return log


class VirtualFile(io.RawIOBase):
    """A read-only file of any size, computed when read, whose traces hold four-byte integers.

    Trace i has inline 1 + i // width, crossline 1 + i % width, CDP i, and samples given by sample(); the
    lengths of the traces are those of a repeated pattern.
    """

    def __init__(self, head, num_traces, num_samples, width, bump=0, endian='>', lines=None):
        self.head = head
        self.num_traces = num_traces
        self.pattern = [num_samples] if isinstance(num_samples, int) else list(num_samples)
        self.num_samples = max(self.pattern)
        self.width = width
        self.starts = [0]
        for n in self.pattern:
            self.starts.append(self.starts[-1] + 240 + 4 * n)
        self.trace_bytes = 240 + 4 * self.num_samples
        self.size = self.offset(num_traces)
        self.pos = 0
        self.bytes_read = 0
        self.num_reads = 0
        self.bump = bump
        self.endian = endian
        self.lines = lines or (lambda i: (1 + i // width, 1 + i % width, i))

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        self.pos = offset + (0, self.pos, self.size)[whence]
        return self.pos

    def tell(self):
        return self.pos

    def offset(self, i):
        """Where the header of trace i starts."""
        cycle, k = divmod(i, len(self.pattern))
        return len(self.head) + cycle * self.starts[-1] + self.starts[k]

    def length(self, i):
        return self.pattern[i % len(self.pattern)]

    def sample(self, i, j):
        return (i * 7919 + j * 104729 + self.bump) % 2**32 - 2**31

    def header(self, i):
        return model.encode_trace_header(self.values(i), self.endian)

    def values(self, i):
        inline, xline, cdp = self.lines(i)
        return dict(num_samples=self.length(i), inline_number=inline, crossline_number=xline, ensemble_num=cdp,
                    file_sequence_num=i, group_y=-i)

    def read(self, n=-1):
        if n is None or n < 0:
            n = self.size - self.pos
        if n > 1 << 22:
            raise MemoryError('{} bytes at once'.format(n))
        n = max(0, min(n, self.size - self.pos))
        out = bytearray()
        pos = self.pos
        while len(out) < n:
            if pos < len(self.head):
                piece = self.head[pos:pos + n - len(out)]
            else:
                cycle, rest = divmod(pos - len(self.head), self.starts[-1])
                k = bisect.bisect_right(self.starts, rest) - 1
                i, o = cycle * len(self.pattern) + k, rest - self.starts[k]
                if o < 240:
                    piece = self.header(i)[o:]
                else:
                    j, skip = divmod(o - 240, 4)
                    stop = min(self.length(i), j + (n - len(out)) // 4 + 2)
                    piece = struct.pack('{}{}i'.format(self.endian, stop - j), *(self.sample(i, x) for x in range(j, stop)))[skip:]
            piece = piece[:n - len(out)]
            out += piece
            pos += len(piece)
        self.pos = pos
        self.bytes_read += n
        self.num_reads += 1
        return bytes(out)


def write_file(path, data):
    with open(path, 'wb') as f:
        f.write(data)
    return path


def handles(ctx, data, rng=None, name='file.sgy'):
    """Open the data in one of several ways."""
    rng = rng or ctx.rng
    kind = rng.choice(['bytesio', 'file', 'file', 'unbuffered', 'tracing', 'update', 'temporary', 'spooled'])
    ctx.count('handles_' + kind)
    if kind == 'bytesio':
        return io.BytesIO(data)
    if kind in ('temporary', 'spooled'):
        f = ctx.keep(tempfile.NamedTemporaryFile(dir=ctx.tmp) if kind == 'temporary' else tempfile.SpooledTemporaryFile(rng.choice([0, 5000]), dir=ctx.tmp))
        f.write(data)
        f.seek(0)
        return f
    if kind == 'tracing':
        return TracingFile(data)
    path = write_file(ctx.path(name), data)
    return ctx.keep(open(path, 'rb+' if kind == 'update' else 'rb', **({'buffering': 0} if kind == 'unbuffered' else {})))
