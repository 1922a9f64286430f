import io
import pickle
import random

from segpy.dataset import DelegatingDataset
from segpy.reader import create_reader
from segpy.toolkit import format_extended_textual_header
from segpy.writer import write_segy

from harness import gen, model
from harness.core import Scenario
from harness.model import IbmWord
from harness.observe import MemDataset, TRACE_FORMATS, check_bytes, check_reader, handles, write_file

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = ('A case is a file made by an encoder which is not segpy (junk in unassigned bytes, non-canonical IBM floats, an incomplete trace at the '
        'end) and a chain of rewrites of it by create_reader() and write_segy(), each reader being the source of the next. Every file '
        'of the chain is compared with the bytes of the model. Distinct by file and chain.')
ASSUMPTIONS = ['sample format conversion is done by a DelegatingDataset which overrides binary_reel_header and trace_samples, as examples/convert_sample_type.py does']


def arguments(m, **updates):
    return dict(dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision]), **updates)


def open_reader(ctx, data, m, number, explicit=None):
    """Read in any of the ways there are."""
    rng = ctx.rng
    a = arguments(m)
    a['dimensionality'] = rng.choice([None, None, 1])
    kind = rng.choice(['plain', 'plain', 'cached', 'pickled'])
    if kind == 'plain':
        return create_reader(handles(ctx, data, name='hop{}.sgy'.format(number)), cache_directory=None, **a)
    path = write_file(ctx.path('hop{}.sgy'.format(number)), data)
    if kind == 'cached':
        for _ in range(2):
            reader = create_reader(ctx.keep(open(path, 'rb')), cache_directory=ctx.path('cache'), **a)
        ctx.count('cached_sources')
        return reader
    with open(path, 'rb') as f:
        stored = pickle.dumps(create_reader(f, cache_directory=None, **a))
    ctx.count('pickled_sources')
    return pickle.loads(stored)


def rewrite(ctx, ds, m, how):
    """Write ds in the representation of m."""
    rng = ctx.rng
    kwargs = arguments(m)
    if rng.random() < 0.3 and getattr(ds, 'encoding', None) == m.encoding:
        kwargs.pop('encoding')
    if m.endian == '>' and rng.random() < 0.5:
        kwargs.pop('endian')
    if m.revision == 'rev1' and rng.random() < 0.5:
        kwargs.pop('trace_header_format')
    if rng.random() < 0.3:
        kwargs['progress'] = lambda p: None
    if how == 'memory':
        fh = io.BytesIO()
        write_segy(fh, ds, **kwargs)
        return fh.getvalue()
    path = ctx.path('written.sgy')
    with open(path, 'wb', **({'buffering': 0} if how == 'unbuffered' else {})) as f:
        write_segy(f, ds, **kwargs)
    with open(path, 'rb') as f:
        return f.read()


def same_format(ctx):
    """Reading and writing with the same parameters."""
    rng = ctx.rng
    m = gen.file_model(rng, text=rng.choice(['conventional', 'any']), max_samples=rng.choice([5, 40]), words=rng.random() < 0.5, nans=True)
    junk = random.Random(rng.random()) if rng.random() < 0.6 else None
    noncanonical = any(type(x) is IbmWord for _, s in m.traces for x in s)
    data = m.encode(junk)
    if rng.random() < 0.3:
        tail = rng.randbytes(rng.randint(1, 239))
        data += tail
        ctx.count('ragged_files')
    ctx.note(repr(m.summary()))
    source = open_reader(ctx, data, m, 0)
    first = rewrite(ctx, source, m, rng.choice(['memory', 'file', 'unbuffered']))
    expected = m.encode()
    if not noncanonical:
        check_bytes(ctx, first, expected, m, 'rewritten')
        ctx.count('exact_rewrites')
    else:
        ctx.eq(len(first), len(expected), 'length of rewritten file')
        ctx.count('noncanonical_files')
    if junk is not None:
        ctx.count('files_with_junk')
    again = open_reader(ctx, first, m, 1)
    check_reader(ctx, again, m, again_dimensionality(again), 'rewritten')
    second = rewrite(ctx, again, m, 'memory')
    check_bytes(ctx, second, first, m, 'second rewrite')
    ctx.eq(len(data) >= len(first), True, 'no longer than the original')
    ctx.state('same', m.segy_type, m.endian, m.encoding, m.revision, len(m.pages))
    ctx.evaluated(data)
    ctx.sample(**m.summary())


def again_dimensionality(reader):
    # Judged elsewhere
    return reader.dimensionality if reader.dimensionality in (2, 3) else 1


def representations(ctx):
    """Chains of other byte orders and encodings, and back."""
    rng = ctx.rng
    m = gen.file_model(rng, text='conventional', max_samples=rng.choice([5, 30]), words=False, nans=True)
    if rng.random() < 0.3:
        m.text = gen.any_text(rng, 'ascii')
    original = m.encode(random.Random(rng.random()) if rng.random() < 0.5 else None)
    data, current = original, m
    hops = []
    for number in range(rng.randint(1, 4)):
        target = current.copy(endian=rng.choice('<>'), encoding=rng.choice(gen.ENCODINGS))
        hops.append((target.endian, target.encoding))
        data = rewrite(ctx, open_reader(ctx, data, current, number), target, rng.choice(['memory', 'file']))
        what = 'rewritten as {}'.format(hops)
        check_bytes(ctx, data, target.encode(), target, what)
        ctx.state('hop', m.segy_type, current.endian, target.endian, current.encoding, target.encoding, m.revision)
        current = target
        ctx.count('hops')
    check_reader(ctx, create_reader(io.BytesIO(data), cache_directory=None, **arguments(current)), current, None, 'at the end of {}'.format(hops))
    back = rewrite(ctx, open_reader(ctx, data, current, 9), m, 'memory')
    check_bytes(ctx, back, m.encode(), m, 'there and back by {}'.format(hops))
    ctx.count('returns')
    ctx.evaluated(original, tuple(hops))


class Converted(DelegatingDataset):

    def __init__(self, source, code, convert):
        super().__init__(source)
        self._header = source.binary_reel_header.copy(data_sample_format=code)
        self._convert = convert

    @property
    def binary_reel_header(self):
        return self._header

    def trace_samples(self, trace_index, start=None, stop=None):
        return [self._convert(s) for s in self.source.trace_samples(trace_index, start, stop)]


def common_value(rng, formats):
    """A value which all of the formats represent exactly."""
    ints = [f for f in formats if f in model.INT_RANGE]
    floats = [f for f in formats if f not in model.INT_RANGE]
    lo, hi = -2**31, 2**31 - 1
    for f in ints:
        lo, hi = max(lo, model.INT_RANGE[f][0]), min(hi, model.INT_RANGE[f][1])
    if ints and floats:
        lo, hi = max(lo, -2**21), min(hi, 2**21)
    if ints:
        return gen.integer(rng, lo, hi)
    # 21 significant bits, within the exponents of both
    x = float(rng.randint(-2**21, 2**21)) * 2.0 ** rng.randint(-100, 100)
    return x if x else 0.0


def sample_formats(ctx):
    """Chains of sample formats, and back."""
    rng = ctx.rng
    formats = [rng.choice(model.FORMATS) for _ in range(rng.randint(2, 4))]
    m = gen.file_model(rng, fmt=formats[0], words=False, max_samples=20)
    whole = any(f in model.INT_RANGE for f in formats)
    m.traces = [(h, [common_value(rng, formats) for _ in s]) for h, s in m.traces]
    if not whole or formats[0] not in model.INT_RANGE:
        m.traces = [(h, [float(x) for x in s]) for h, s in m.traces]
    original = m.encode()
    data, current = original, m
    for number, fmt in enumerate(formats[1:] + formats[:1]):
        target = current.copy(binary=dict(current.binary, data_sample_format=fmt), endian=rng.choice(['<', '>', current.endian]))
        if number == len(formats) - 1:
            target = m
        convert = int if fmt in model.INT_RANGE else float
        target.traces = [(h, [convert(x) for x in s]) for h, s in target.traces]
        reader = open_reader(ctx, data, current, number)
        ds = Converted(reader, fmt, convert)
        ctx.eq(ds.data_sample_format, model.SEGY_TYPE[fmt], 'data_sample_format of the converted dataset')
        data = rewrite(ctx, ds, target, 'memory')
        check_bytes(ctx, data, target.encode(), target, 'converted from {} to {}'.format(current.segy_type, target.segy_type))
        ctx.state('format', current.segy_type, target.segy_type, current.endian, target.endian)
        current = target
        ctx.count('conversions')
    check_bytes(ctx, data, original, m, 'there and back by {}'.format([model.SEGY_TYPE[f] for f in formats]))
    ctx.evaluated(original, tuple(formats))


def lossy(ctx):
    """Conversion between floating point formats rounds each sample on its own, once."""
    rng = ctx.rng
    m = gen.file_model(rng, fmt=rng.choice([model.FLOAT32, model.IBM]), words=False, max_samples=20)
    if m.format == model.FLOAT32:
        m.traces = [(h, [x if 1e-37 < abs(x) < 1e38 else rng.uniform(-9, 9) for x in s]) for h, s in m.traces]
        other = model.IBM
    else:
        m.traces = [(h, [x if 1e-37 < abs(x) < 1e38 else 0.25 for x in s]) for h, s in m.traces]
        other = model.FLOAT32
    reader = open_reader(ctx, m.encode(), m, 0)
    target = m.copy(binary=dict(m.binary, data_sample_format=other), traces=[(h, m.stored_samples(i)) for i, (h, _) in enumerate(m.traces)])
    out = rewrite(ctx, Converted(reader, other, float), target, 'memory')
    check_bytes(ctx, out, target.encode(), target, 'converted from {} to {}'.format(m.segy_type, target.segy_type))
    again = open_reader(ctx, out, target, 1)
    # No further loss
    check_bytes(ctx, rewrite(ctx, again, target, 'memory'), out, target, 'second rewrite')
    ctx.count('lossy_conversions')
    ctx.evaluated(m.encode())


def trace_header_formats(ctx):
    """A file read with one trace header format, written with another."""
    rng = ctx.rng
    m = gen.file_model(rng, revision='rev1', max_side=4, max_samples=6)
    data = m.encode(random.Random(rng.random()))
    reader = create_reader(io.BytesIO(data), cache_directory=None, **arguments(m))
    names0 = {row[0] for row in model.TRACE_REV0}
    m0 = m.copy(revision='rev0', traces=[({k: v for k, v in h.items() if k in names0}, s) for h, s in m.traces])
    fh = io.BytesIO()
    write_segy(fh, reader, **arguments(m0))
    check_bytes(ctx, fh.getvalue(), m0.encode(), m0, 'revision 1 written as revision 0')
    # and the fields of revision 1 read back as zero
    m1 = m0.copy(revision='rev1')
    zeros = {row[0]: 0 for row in model.TRACE_REV1 if row[0] not in names0}
    m1.traces = [(dict(h, **zeros), s) for h, s in m1.traces]
    reader = create_reader(io.BytesIO(fh.getvalue()), cache_directory=None, dimensionality=1, **arguments(m1))
    check_reader(ctx, reader, m1, 1, 'revision 0 read as revision 1')
    again = io.BytesIO()
    write_segy(again, reader, **arguments(m1))
    check_bytes(ctx, again.getvalue(), fh.getvalue(), m1, 'and rewritten')
    ctx.count('header_format_conversions')
    ctx.evaluated(data)


def text_only(ctx):
    """Replacing the text leaves everything else as it was; unencodable text is refused."""
    rng = ctx.rng
    m = gen.file_model(rng, encoding='cp037', text='any', max_side=3, max_samples=8)
    m.text[rng.randrange(40)] = ''.join(rng.choices('\xe9\xff\xa2\x80 A', k=79)) + '\xff'
    reader = open_reader(ctx, m.encode(), m, 0)
    ctx.raises(UnicodeError, lambda: write_segy(io.BytesIO(), reader, encoding='ascii', trace_header_format=TRACE_FORMATS[m.revision]), 'as ASCII')
    check_bytes(ctx, rewrite(ctx, reader, m, 'memory'), m.encode(), m, 'rewritten after a refusal')
    text = gen.conventional_text(rng)
    pages = format_extended_textual_header(''.join(l + '\n' for l in gen.conventional_text(rng)), 'ascii', include_text_stop=rng.random() < 0.5)

    class Replaced(DelegatingDataset):
        @property
        def textual_reel_header(self):
            return text

        @property
        def extended_textual_header(self):
            return pages

        @property
        def binary_reel_header(self):
            return reader.binary_reel_header.copy(num_extended_textual_headers=len(pages))

    target = m.copy(text=text, pages=[list(p) for p in pages], binary=dict(m.binary, num_extended_textual_headers=len(pages)), encoding='ascii')
    out = rewrite(ctx, Replaced(reader), target, 'memory')
    check_bytes(ctx, out, target.encode(), target, 'with other text')
    check_reader(ctx, create_reader(io.BytesIO(out), cache_directory=None, **arguments(target)), target)
    ctx.count('texts_replaced')
    ctx.evaluated(out)


QUICK_SCALE = 2  # The cases are short: so many times those given below are run in the quick tier
SCENARIOS = [
    Scenario('same-format', same_format, 400, 8000, ['exact_rewrites', 'noncanonical_files', 'files_with_junk', 'ragged_files', 'cached_sources', 'pickled_sources']),
    Scenario('representations', representations, 250, 5000, ['hops', 'returns']),
    Scenario('sample-formats', sample_formats, 250, 5000, ['conversions']),
    Scenario('lossy', lossy, 120, 2000, ['lossy_conversions']),
    Scenario('trace-header-formats', trace_header_formats, 100, 1500, ['header_format_conversions']),
    Scenario('text-only', text_only, 80, 1200, ['texts_replaced']),
]
