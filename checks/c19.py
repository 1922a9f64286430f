import io
import struct

from segpy.binary_reel_header import BinaryReelHeader
from segpy.dataset import Dataset, DelegatingDataset
from segpy.reader import create_reader
from segpy.writer import write_segy

from harness import gen, model
from harness.core import Scenario
from harness.observe import MemDataset, TRACE_FORMATS, check_bytes, header_dict, sample_key, sample_sequence

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('A case is a dataset (a reader, a dataset in memory, or a dataset which records every access to it), below a chain of up to five '
        'DelegatingDatasets each of which overrides a random set of members. Everything it presents, and the file written of it, '
        'are compared with the same transformations of the model. Distinct by content, chain and overrides.')
ASSUMPTIONS = []


class Sentinel:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<{}>'.format(self.name)


class FromSource(Exception):
    pass


class Recording(Dataset):
    """Returns the objects it is given, and records what was asked for."""

    PROPERTIES = ('textual_reel_header', 'binary_reel_header', 'extended_textual_header', 'dimensionality')

    def __init__(self):
        self.log = []
        self.answers = {}
        self.error = None

    def _answer(self, *key):
        self.log.append(key)
        if self.error is not None:
            raise self.error
        return self.answers.setdefault(key, Sentinel(key))

    @property
    def textual_reel_header(self):
        return self._answer('textual_reel_header')

    @property
    def binary_reel_header(self):
        return self._answer('binary_reel_header')

    @property
    def extended_textual_header(self):
        return self._answer('extended_textual_header')

    @property
    def dimensionality(self):
        return self._answer('dimensionality')

    @property
    def encoding(self):
        return self._answer('encoding')

    @property
    def endian(self):
        return self._answer('endian')

    def num_traces(self):
        return self._answer('num_traces')

    def trace_indexes(self):
        return self._answer('trace_indexes')

    def trace_header(self, trace_index):
        return self._answer('trace_header', trace_index)

    def trace_samples(self, trace_index, start=None, stop=None):
        return self._answer('trace_samples', trace_index, start, stop)


ATTRIBUTES = ('textual_reel_header', 'binary_reel_header', 'extended_textual_header', 'dimensionality', 'encoding', 'endian')


def forwarding(ctx):
    """Every access is forwarded, with the same arguments, and its answer is returned as it is."""
    rng = ctx.rng
    source = Recording()
    ds = source
    depth = rng.randint(1, 6)
    for _ in range(depth):
        below = ds
        ds = rng.choice([DelegatingDataset, type('Sub', (DelegatingDataset,), {})])(below)
        ctx.check(ds.source is below, 'source is not what was given')
    ctx.eq(source.log, [], 'accesses while constructing')
    for _ in range(rng.randint(10, 40)):
        kind = rng.choice(ATTRIBUTES + ('num_traces', 'trace_indexes', 'trace_header', 'trace_samples', 'trace_samples'))
        source.error = rng.choice([None, None, None, FromSource('x'), ValueError('y'), KeyError(3), EOFError(), StopIteration(4)])
        index = rng.choice([0, 1, -1, 10**20, rng.randint(0, 100), Sentinel('index'), 'a'])
        if kind in ATTRIBUTES:
            key, access = (kind,), lambda: getattr(ds, kind)
        elif kind in ('num_traces', 'trace_indexes'):
            key, access = (kind,), lambda: getattr(ds, kind)()
        elif kind == 'trace_header':
            key, access = (kind, index), rng.choice([lambda: ds.trace_header(index), lambda: ds.trace_header(trace_index=index)])
        else:
            start, stop = (rng.choice([None, 0, 1, -1, 5, 10**9, Sentinel('start')]) for _ in range(2))
            how = rng.randrange(6)
            if how == 0:
                start = stop = None
                access = lambda: ds.trace_samples(index)
            elif how == 1:
                stop = None
                access = lambda: ds.trace_samples(index, start)
            elif how == 2:
                start = None
                access = lambda: ds.trace_samples(index, stop=stop)
            elif how == 3:
                stop = None
                access = lambda: ds.trace_samples(index, start=start)
            elif how == 4:
                access = lambda: ds.trace_samples(index, start, stop)
            else:
                access = lambda: ds.trace_samples(stop=stop, trace_index=index, start=start)
            key = (kind, index, start, stop)
        del source.log[:]
        what = '{} through {} levels'.format(key, depth)
        try:
            answer = access()
        except BaseException as e:
            if source.error is None or e is not source.error:
                raise
            ctx.count('exceptions_forwarded')
        else:
            ctx.check(source.error is None, what + ': the exception of the source was lost')
            ctx.check(answer is source.answers.get(key), '{}: returned {!r} rather than {!r}', what, answer, source.answers.get(key))
        ctx.check(source.log, what + ': the source was not asked')
        ctx.eq(set(source.log), {key}, what + ': asked of the source')
        ctx.count('accesses_forwarded')
        ctx.evaluated(repr(key), depth)


def interface(ctx):
    """Nothing of the Dataset interface is left out: every public member of Dataset is answered by the source, or derives from what is."""
    m = gen.file_model(ctx.rng, max_side=3, max_samples=5)
    reader = create_reader(io.BytesIO(m.encode()), encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision], cache_directory=None)
    for ds in (DelegatingDataset(reader), DelegatingDataset(DelegatingDataset(reader))):
        for name in dir(Dataset):
            if name.startswith('_'):
                continue
            if callable(getattr(Dataset, name)):
                if name not in ('num_traces', 'trace_indexes', 'trace_header', 'trace_samples'):
                    # Not known to this check
                    continue
                for i in range(reader.num_traces()) if name.startswith('trace_') and name != 'trace_indexes' else [None]:
                    args = () if i is None else (i,)
                    a, b = getattr(ds, name)(*args), getattr(reader, name)(*args)
                    if name == 'trace_header':
                        a, b = header_dict(a, m.layout), header_dict(b, m.layout)
                    elif name == 'trace_samples':
                        a, b = sample_key(a), sample_key(b)
                    elif name == 'trace_indexes':
                        a, b = list(a), list(b)
                    ctx.eq(a, b, name)
            else:
                ctx.eq(getattr(ds, name), getattr(reader, name), name)
            ctx.count('members_compared')
        for name in ('encoding', 'endian'):
            ctx.eq(getattr(ds, name), getattr(reader, name), name)
    ctx.evaluated(m.encode())


class Least(Dataset):
    """A user's dataset, which defines no more than it must."""

    def __init__(self, m, trace_format):
        self._m = m
        self._headers = [trace_format(**h) for h, _ in m.traces]
        self._binary = BinaryReelHeader(**m.binary)

    @property
    def textual_reel_header(self):
        return self._m.text

    @property
    def binary_reel_header(self):
        return self._binary

    @property
    def extended_textual_header(self):
        return self._m.pages

    def num_traces(self):
        return len(self._m.traces)

    def trace_header(self, trace_index):
        return self._headers[trace_index]

    def trace_samples(self, trace_index, start=None, stop=None):
        return sample_sequence(None, self._m.format, self._m.traces[trace_index][1][slice(start, stop)], 'list')


class LeastDelegating(DelegatingDataset):
    """Omits the first and last traces, of which only the number and positions need be defined."""

    def num_traces(self):
        return max(0, self.source.num_traces() - 2)

    def trace_indexes(self):
        return Dataset.trace_indexes(self)

    def trace_header(self, trace_index):
        return self.source.trace_header(trace_index + 1)

    def trace_samples(self, trace_index, start=None, stop=None):
        return self.source.trace_samples(trace_index + 1, start, stop)


def least(ctx):
    """What Dataset itself provides to those who implement it."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=3, max_samples=6)
    n = len(m.traces)
    fmt = TRACE_FORMATS[m.revision]
    ds = Least(m, fmt)
    kwargs = dict(encoding=m.encoding, endian=m.endian, trace_header_format=fmt)
    for what, d, expected, count in (('a dataset', ds, m, n), ('a chain', DelegatingDataset(DelegatingDataset(ds)), m, n),
                                     ('a part', LeastDelegating(ds), m.copy(traces=m.traces[1:-1]), max(0, n - 2))):
        ctx.eq(list(d.trace_indexes()), list(range(count)), 'trace_indexes() of {} which does not define them'.format(what))
        out = io.BytesIO()
        write_segy(out, d, **kwargs)
        check_bytes(ctx, out.getvalue(), expected.encode(), expected, what)
        ctx.raises(NotImplementedError, lambda: d.dimensionality, 'dimensionality of {} which does not define it'.format(what))
        ctx.count('least_datasets')
    for name in Least.__dict__:
        if name.startswith('_'):
            continue
        members = {k: v for k, v in Least.__dict__.items() if k != name and k not in ('__dict__', '__weakref__')}
        ctx.raises(TypeError, lambda: type('Incomplete', (Dataset,), members)(m, fmt), 'a dataset which does not define ' + name)
        ctx.count('incomplete_datasets')
    ctx.evaluated(m.encode())


# -- overriding

def override_text(rng, m):
    text = gen.conventional_text(rng)
    m.text = text
    return {'textual_reel_header': property(lambda self: tuple(text))}


def override_pages(rng, m):
    pages = [gen.page(rng) for _ in range(rng.randint(0, 3))]
    m.pages = pages
    return {'extended_textual_header': property(lambda self: [tuple(p) for p in pages])}


def override_binary(rng, m):
    updates = gen.header_values(rng, [r for r in model.BINARY if r[0] not in ('data_sample_format',)], 'sparse')
    m.binary = dict(m.binary, **updates)

    def binary_reel_header(self):
        return self.source.binary_reel_header.copy(**updates)
    return {'binary_reel_header': property(binary_reel_header)}


def override_format(rng, m):
    """Another sample format, with the samples to suit."""
    if m.format in (model.IBM, model.FLOAT32) or not m.traces:
        return {}
    fmt = rng.choice([model.INT32, model.INT16, model.FLOAT32])
    scale = rng.choice([1, 1, -1])
    convert = lambda x: float(max(-32767, min(32767, int(x))) * scale) if fmt == model.FLOAT32 else max(-32767, min(32767, int(x))) * scale
    m.binary = dict(m.binary, data_sample_format=fmt)
    m.traces = [(h, [convert(x) for x in s]) for h, s in m.traces]

    def trace_samples(self, trace_index, start=None, stop=None):
        return [convert(x) for x in self.source.trace_samples(trace_index, start, stop)]
    return {'binary_reel_header': property(lambda self: self.source.binary_reel_header.copy(data_sample_format=fmt)),
            'trace_samples': trace_samples}


def plain(x):
    """NumPy integers may be unsigned, so cannot be negated."""
    return x.item() if hasattr(x, 'item') else x


def override_samples(rng, m):
    k = rng.randrange(3)

    def transform(s):
        return [list(reversed(s)), [-x if x != -128 and x > -30000 else x for x in map(plain, s)], s[::2]][k]
    m.traces = [(h, transform(list(s))) for h, s in m.traces]

    def trace_samples(self, trace_index, start=None, stop=None):
        return transform(list(self.source.trace_samples(trace_index)))[slice(start, stop)]
    return {'trace_samples': trace_samples}


def override_header(rng, m):
    name, _, _, _, domain = rng.choice([r for r in m.layout if r[0] != 'num_samples'])
    value = gen.from_domain(rng, domain)
    m.traces = [(dict(h, **{name: value}), s) for h, s in m.traces]

    def trace_header(self, trace_index):
        return self.source.trace_header(trace_index).copy(**{name: value})
    return {'trace_header': trace_header}


def override_selection(rng, m):
    n = len(m.traces)
    order = list(range(n))
    rng.shuffle(order)
    if rng.random() < 0.6:
        order = sorted(order)
    order = order[:rng.randint(0, n)] if rng.random() < 0.8 else order
    m.traces = [m.traces[i] for i in order]

    def trace_indexes(self):
        below = list(self.source.trace_indexes())
        return iter([below[i] for i in order])
    return {'trace_indexes': trace_indexes, 'num_traces': lambda self: len(order)}


def override_encoding(rng, m):
    encoding = rng.choice(gen.ENCODINGS)
    m.encoding = encoding
    return {'encoding': encoding} if rng.random() < 0.5 else {'encoding': property(lambda self: encoding)}


def override_dimensionality(rng, m):
    d = rng.choice([0, 1, 2, 3])
    m.expected_dimensionality = d
    return {'dimensionality': property(lambda self: d)}


DESCRIPTION = {'ibm': 'IBM 32 bit float', 'int32': '32 bit signed integer', 'int16': '16 bit signed integer',
               'float32': 'IEEE float32', 'int8': '8 bit signed integer (byte)'}

OVERRIDES = [override_text, override_pages, override_binary, override_format, override_samples, override_header, override_selection,
             override_encoding, override_dimensionality]


def overriding(ctx):
    rng = ctx.rng
    m = gen.file_model(rng, text='conventional', max_side=4, max_samples=10, words=False, header_style=rng.choice(['full', 'sparse']))
    if m.format == model.FLOAT32:
        m.traces = [(h, [x if x == x and abs(x) < 1e38 else 0.5 for x in s]) for h, s in m.traces]
    m.traces = [(h, m.stored_samples(i)) for i, (h, _) in enumerate(m.traces)]
    base = m.encode()
    endian = m.endian
    if rng.random() < 0.6:
        ds = create_reader(io.BytesIO(base), encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision],
                           dimensionality=1, cache_directory=None)
        m.expected_dimensionality = ds.dimensionality
        has_encoding = True
        ctx.count('readers_as_sources')
    else:
        ds = MemDataset(m.copy(), rng, TRACE_FORMATS[m.revision])
        has_encoding = hasattr(ds, 'encoding')
        m.expected_dimensionality = 0
    names = []
    for _ in range(rng.randint(1, 5)):
        members = {}
        for fn in rng.sample(OVERRIDES, rng.choice([0, 1, 1, 2])):
            new = fn(rng, m)
            if 'encoding' in new:
                has_encoding = True
            if not set(new) & set(members):
                members.update(new)
                layer = [fn.__name__]
            else:
                # As another level
                ds = type('Layer', (DelegatingDataset,), members)(ds)
                members, layer = dict(new), [fn.__name__]
            names += layer
        ds = type('Layer', (DelegatingDataset,), members)(ds)
        names.append('/')
    what = 'overriding ' + ' '.join(names)
    ctx.note(what)
    # What it presents
    ctx.eq(tuple(ds.textual_reel_header), tuple(m.text), what + ': textual_reel_header')
    ctx.eq([list(p) for p in ds.extended_textual_header], m.pages, what + ': extended_textual_header')
    b = ds.binary_reel_header
    ctx.eq(header_dict(b, model.BINARY), {k: int(v) for k, v in m.binary_values().items()}, what + ': binary_reel_header')
    ctx.eq(ds.data_sample_format, m.segy_type, what + ': data_sample_format')
    ctx.eq(ds.data_sample_format_description, DESCRIPTION[m.segy_type], what + ': description')
    ctx.eq(ds.num_traces(), len(m.traces), what + ': num_traces()')
    ctx.eq(ds.dimensionality, m.expected_dimensionality, what + ': dimensionality')
    indexes = list(ds.trace_indexes())
    ctx.eq(len(indexes), len(m.traces), what + ': trace_indexes()')
    for i, t in enumerate(indexes):
        ctx.eq(header_dict(ds.trace_header(t), m.layout), {k: int(v) for k, v in m.trace_values(i).items()}, '{}: trace_header({})'.format(what, t))
        expected = m.stored_samples(i)
        ctx.eq([float(x) for x in ds.trace_samples(t)], [float(x) for x in expected], '{}: trace_samples({})'.format(what, t))
        if expected:
            a, z = sorted((rng.randint(0, len(expected)), rng.randint(0, len(expected))))
            ctx.eq([float(x) for x in ds.trace_samples(t, a, z)], [float(x) for x in expected[a:z]], '{}: trace_samples({}, {}, {})'.format(what, t, a, z))
    if has_encoding:
        ctx.eq(ds.encoding, m.encoding, what + ': encoding')
    else:
        ctx.eq(hasattr(ds, 'encoding'), False, what + ': has an encoding')
        m.encoding = 'ascii'
        ctx.count('without_encoding')
    # and what is written
    m.endian = rng.choice('<>')
    fh = io.BytesIO()
    write_segy(fh, ds, trace_header_format=TRACE_FORMATS[m.revision], endian=m.endian)
    check_bytes(ctx, fh.getvalue(), m.encode(), m, what + ': written')
    ctx.count('chains')
    for name in names:
        ctx.count(name if name != '/' else 'layers')
    ctx.state(tuple(sorted(names)))
    ctx.evaluated(base, tuple(names))
    ctx.sample(overrides=names, **m.summary())


def sample_format(ctx):
    """A dataset which has its own data_sample_format, from which the description and what is written follow."""
    rng = ctx.rng
    m = gen.file_model(rng, fmt=model.INT8, max_side=3, max_samples=10, words=False, geometry_kind=rng.choice(['grid', 'line', 'one']))
    fmt = rng.choice([f for f in model.FORMATS if f != model.INT8])
    target = m.copy(binary=dict(m.binary, data_sample_format=fmt))
    source = create_reader(io.BytesIO(m.encode()), encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision],
                           cache_directory=None) if rng.random() < 0.5 else MemDataset(m, rng)
    ds = type('Layer', (DelegatingDataset,), {'data_sample_format': property(lambda self: target.segy_type)})(source)
    for _ in range(rng.randint(0, 2)):
        # Further levels derive it from the header again, unless they inherit it
        ds = type('Above', (type(ds),), {})(ds)
    ctx.eq(ds.data_sample_format, target.segy_type, 'overridden data_sample_format')
    ctx.eq(ds.data_sample_format_description, DESCRIPTION[target.segy_type], 'description of an overridden data_sample_format')
    ctx.eq(ds.binary_reel_header.data_sample_format, model.INT8, 'the header, which is not overridden')
    fh = io.BytesIO()
    write_segy(fh, ds, encoding=m.encoding, trace_header_format=TRACE_FORMATS[m.revision], endian=m.endian)
    expected = bytearray(target.encode())
    expected[3224:3226] = struct.pack(m.endian + 'h', model.INT8)
    ctx.check(fh.getvalue() == bytes(expected), 'samples with an overridden data_sample_format {} are not written so', target.segy_type)
    ctx.count('sample_formats')
    ctx.evaluated(m.encode(), fmt)


def plain_chain(ctx):
    """Without overrides, the same file as of the source."""
    rng = ctx.rng
    m = gen.file_model(rng, text=rng.choice(['conventional', 'any']))
    if rng.random() < 0.5:
        source = create_reader(io.BytesIO(m.encode()), encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision], cache_directory=None)
    else:
        source = MemDataset(m, rng, TRACE_FORMATS[m.revision], lazy_pages=rng.random() < 0.5)
    ds = source
    for _ in range(rng.randint(1, 8)):
        ds = DelegatingDataset(ds)
    kwargs = dict(trace_header_format=TRACE_FORMATS[m.revision], endian=m.endian)
    try:
        known = source.encoding
    except AttributeError:
        known = None
    if known is None or rng.random() < 0.5:
        kwargs['encoding'] = m.encoding
    files = []
    for d in (source, ds):
        fh = io.BytesIO()
        write_segy(fh, d, **kwargs)
        files.append(fh.getvalue())
    check_bytes(ctx, files[1], files[0], m, 'written of the delegating dataset and of its source')
    check_bytes(ctx, files[1], m.encode(), m, 'written of the delegating dataset') if not has_words(m) else None
    ctx.count('files_equal')
    ctx.evaluated(m.encode())


def has_words(m):
    return any(type(x) is model.IbmWord for _, s in m.traces for x in s)


QUICK_SCALE = 5  # The cases are short: so many times those given below are run in the quick tier
SCENARIOS = [
    Scenario('sample-format', sample_format, 150, 3000, ['sample_formats']),
    Scenario('forwarding', forwarding, 200, 4000, ['accesses_forwarded', 'exceptions_forwarded']),
    Scenario('least', least, 100, 2000, ['least_datasets', 'incomplete_datasets']),
    Scenario('interface', interface, 50, 800, ['members_compared']),
    Scenario('overriding', overriding, 500, 10000, ['chains', 'readers_as_sources', 'without_encoding', 'layers'] + [f.__name__ for f in OVERRIDES]),
    Scenario('plain-chain', plain_chain, 200, 4000, ['files_equal']),
]
