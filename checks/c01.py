import io
import itertools

from segpy.field_types import Int16, Int32, NNInt16, NNInt32
from segpy.binary_reel_header import BinaryReelHeader
from segpy.header import field
from segpy.reader import create_reader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
from segpy.writer import write_segy

from harness import gen, model
from harness.core import Scenario
from harness.observe import MemDataset, TRACE_FORMATS, check_reader, write_file

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('A case is a random dataset (headers over their whole domains, geometry, trace lengths, sample format, text, '
        'extended headers, sequence types) written by write_segy and read back by create_reader. Non-trivial: it has at least one '
        'trace with samples; distinct by content.')
ASSUMPTIONS = ['num_samples in each trace header, num_extended_textual_headers and data_sample_format of the binary header describe the dataset, as the standard requires of a valid dataset',
               'the text of pages has exactly 40 lines of 80 characters']


def write(ctx, ds, m, trace_format, target=None, **kw):
    if not (hasattr(ds, 'encoding') and ctx.rng.random() < 0.5):
        # The dataset may know its encoding; else, pass it
        kw.setdefault('encoding', m.encoding)
    fh = target or io.BytesIO()
    if ctx.rng.random() < 0.2:
        write_segy(fh, ds, kw.get('encoding'), trace_format, m.endian)
        ctx.count('calls_with_positional_arguments')
    else:
        write_segy(fh, ds, trace_header_format=trace_format, endian=m.endian, **kw)
    return fh


def read(ctx, fh, dimensionality, encoding, binary_reel_header_format, trace_header_format, endian, cache_directory):
    if ctx.rng.random() < 0.2:
        ctx.count('calls_with_positional_arguments')
        return create_reader(fh, encoding, binary_reel_header_format, trace_header_format, endian, None, cache_directory, dimensionality)
    return create_reader(fh, dimensionality=dimensionality, encoding=encoding, binary_reel_header_format=binary_reel_header_format,
                         trace_header_format=trace_header_format, endian=endian, cache_directory=cache_directory)


def roundtrip(ctx, m, trace_format=None, binary_format=BinaryReelHeader, layout=None, binary_layout=None):
    rng = ctx.rng
    trace_format = trace_format or TRACE_FORMATS[m.revision]
    permuted = rng.random() < 0.3
    ds = MemDataset(m, rng, trace_format, binary_format, lazy_pages=rng.random() < 0.3, permuted=permuted)
    if permuted and len(m.traces) > 1:
        ctx.count('datasets_with_permuted_indexes')
    if any(x != x for _, s in m.traces for x in s):
        ctx.count('datasets_with_nans')
    ctx.note(repr(m.summary()))
    where = rng.choice(['memory', 'memory', 'file', 'same-handle'])
    ctx.state(m.segy_type, m.endian, m.encoding, m.revision, where, len(m.pages), m.binary.get('num_extended_textual_headers', 0) < 0, min(len(m.traces), 3))
    kwargs = dict(trace_header_format=trace_format, binary_reel_header_format=binary_format, endian=m.endian,
                  encoding=m.encoding)
    if where == 'memory':
        data = write(ctx, ds, m, trace_format).getvalue()
        fh = io.BytesIO(data)
        kwargs['cache_directory'] = None
    elif where == 'same-handle':
        fh = ctx.keep(open(ctx.path('rw.sgy'), 'wb+'))
        write(ctx, ds, m, trace_format, fh)
        fh.seek(0)
        kwargs['cache_directory'] = None
    else:
        path = ctx.path('out.sgy')
        with open(path, 'wb') as out:
            write(ctx, ds, m, trace_format, out)
        fh = ctx.keep(open(path, 'rb'))
        kwargs['cache_directory'] = rng.choice([None, '.segpy', ctx.path('cache')])
    dim = rng.choice([None, None, None, 1])
    reader = read(ctx, fh, dim, **kwargs)
    order = list(range(len(m.traces)))
    if rng.random() < 0.5:
        rng.shuffle(order)
    check_reader(ctx, reader, m, dim, order=order, layout=layout, binary_layout=binary_layout)
    if kwargs['cache_directory'] is not None:
        fh2 = ctx.keep(open(path, 'rb'))
        check_reader(ctx, read(ctx, fh2, dim, **kwargs), m, dim, 'cached reader', layout=layout, binary_layout=binary_layout)
    n = sum(len(s) for _, s in m.traces)
    ctx.evaluated(*([m.encode()] if n and layout is None and binary_layout is None else [repr((m.traces, m.binary))] if n else []))
    ctx.sample(**m.summary())
    for _, s in m.traces:
        if not s:
            ctx.count('zero_length_traces')
    if len({len(s) for _, s in m.traces}) > 1:
        ctx.count('datasets_with_varying_lengths')


def random_datasets(ctx):
    roundtrip(ctx, gen.file_model(ctx.rng, text=ctx.rng.choice(['conventional', 'any']), nans=True))


GRID = list(itertools.product(model.FORMATS, gen.ENDIANS, gen.ENCODINGS, ('rev0', 'rev1'), (0, 1, 2), (False, True)))


def every_configuration(ctx):
    fmt, endian, encoding, revision, pages, variable = GRID[ctx.case % len(GRID)]
    if variable and not pages:
        pages = 3
    roundtrip(ctx, gen.file_model(ctx.rng, fmt, endian, encoding, revision, pages=pages, variable_pages=variable,
                                  geometry_kind=ctx.rng.choice(['grid', 'line', 'sparse', 'irregular']), max_samples=12,
                                  header_style='full', text='any', nans=True))


def long_traces(ctx):
    roundtrip(ctx, gen.file_model(ctx.rng, long_traces=True, nans=True))


def many_traces(ctx):
    rng = ctx.rng
    m = gen.file_model(rng, geometry_kind=rng.choice(['grid', 'sparse', 'line', 'almost', 'shuffled']), max_side=rng.choice([16, 24]),
                       max_samples=8, header_style='sparse')
    roundtrip(ctx, m)


def thousands_of_traces(ctx):
    rng = ctx.rng
    n = [2000, 5000, 12000, 3000][ctx.case % 4] if not ctx.thorough else [5000, 33000, 12000, 70000][ctx.case % 4]
    m = gen.file_model(rng, geometry_kind='none', pages=0, header_style='sparse', revision='rev1')
    width = rng.choice([40, 97])
    base = rng.choice([{}, {'group_x': 7}])
    longest = rng.choice([n - 1, rng.randrange(n // 2, n)])
    for i in range(n):
        lines = {'inline_number': i // width, 'crossline_number': i % width} if ctx.case % 2 else {}
        k = rng.choice([0, 1, 1, 2]) if i != longest else 5
        m.traces.append((dict(base, ensemble_num=n - i, file_sequence_num=i, num_samples=k, **lines), gen.samples(rng, m.format, k, words=False)))
    roundtrip(ctx, m)
    ctx.count('large_datasets')


def single_field_each(ctx):
    """One field of one header at a time, at extreme values, in an otherwise default dataset."""
    layouts = [('binary', row) for row in model.BINARY] + [('trace', row) for row in model.TRACE_REV1]
    kind, (name, offset, code, default, domain) = layouts[ctx.case % len(layouts)]
    if name in ('num_samples', 'data_sample_format', 'num_extended_textual_headers') and not (kind == 'binary' and name == 'num_samples'):
        values = [default if name != 'num_samples' else 0]
    else:
        values = list(domain) if isinstance(domain, list) else [domain[0], domain[1], 1 if domain[1] >= 1 else domain[1], gen.from_domain(ctx.rng, domain)]
    rng = ctx.rng
    for v in values:
        binary = {name: v} if kind == 'binary' else {}
        header = {name: v} if kind == 'trace' else {}
        m = model.FileModel(gen.conventional_text(rng), binary, [], [(dict(header, **{}), []), ({}, [])] if kind == 'trace' else [({}, [])],
                            rng.choice(gen.ENCODINGS), rng.choice(gen.ENDIANS), 'rev1')
        roundtrip(ctx, m)
        ctx.count('fields_at_extremes')


class CustomTraceHeader(TraceHeaderRev1):
    unassigned_1 = field(Int16, offset=233, default=7, documentation="Unassigned 1")
    unassigned_2 = field(Int32, offset=235, default=0, documentation="Unassigned 2")
    unassigned_3 = field(NNInt16, offset=239, default=0, documentation="Unassigned 3")


class CustomRev0(TraceHeaderRev0):
    # Declared out of offset order
    late = field(Int32, offset=237, default=-1, documentation="Late")
    early = field(NNInt32, offset=181, default=5, documentation="Early")
    inline_number = field(Int32, offset=185, default=0, documentation="Inline")
    crossline_number = field(Int32, offset=201, default=0, documentation="Crossline")


class CustomBinary(BinaryReelHeader):
    extra_b = field(Int32, offset=3597, default=0, documentation="At the end")
    extra_a = field(Int16, offset=3261, default=-3, documentation="Just after the assigned part")


CUSTOM_ROWS = [('unassigned_1', 233, 'h', 7, (-2**15, 2**15 - 1)), ('unassigned_2', 235, 'i', 0, (-2**31, 2**31 - 1)),
               ('unassigned_3', 239, 'h', 0, (0, 2**15 - 1))]
REV0_ROWS = [('late', 237, 'i', -1, (-2**31, 2**31 - 1)), ('early', 181, 'i', 5, (0, 2**31 - 1)),
             ('inline_number', 185, 'i', 0, (-2**31, 2**31 - 1)), ('crossline_number', 201, 'i', 0, (-2**31, 2**31 - 1))]
BINARY_ROWS = [('extra_b', 3597, 'i', 0, (-2**31, 2**31 - 1)), ('extra_a', 3261, 'h', -3, (-2**15, 2**15 - 1))]


class CustomModel(model.FileModel):
    rows = ()
    binary_rows = ()

    def trace_values(self, i):
        v = super().trace_values(i)
        v.update({name: self.traces[i][0].get(name, default) for name, _, _, default, _ in self.rows})
        return v

    def binary_values(self):
        v = super().binary_values()
        v.update({name: self.binary.get(name, default) for name, _, _, default, _ in self.binary_rows})
        return v

    @property
    def has_lines(self):
        return True


def custom_formats(ctx):
    rng = ctx.rng
    which = rng.choice(['rev1', 'rev0'])
    m = gen.file_model(rng, revision=which, max_side=4, max_samples=10)
    rows = CUSTOM_ROWS if which == 'rev1' else REV0_ROWS
    m.__class__ = CustomModel
    m.rows = rows
    m.binary_rows = BINARY_ROWS
    extra = gen.header_values(rng, BINARY_ROWS)
    m.binary.update(extra)
    for (h, _), (i, x, c) in zip(m.traces, [(n, n * 3, 0) for n in range(len(m.traces))]):
        h.update(gen.header_values(rng, rows, exclude=('inline_number', 'crossline_number')))
        if which == 'rev0':
            h['inline_number'], h['crossline_number'] = i, x
    if which == 'rev0':
        m.revision = 'rev0'
        layout = model.TRACE_REV0 + rows
        check = dict(trace_format=CustomRev0)
    else:
        layout = model.TRACE_REV1 + rows
        check = dict(trace_format=CustomTraceHeader)
    ds = MemDataset(m, rng, check['trace_format'], CustomBinary)
    fh = io.BytesIO()
    write_segy(fh, ds, encoding=m.encoding, trace_header_format=check['trace_format'], endian=m.endian)
    fh.seek(0)
    reader = create_reader(fh, encoding=m.encoding, trace_header_format=check['trace_format'], binary_reel_header_format=CustomBinary,
                           endian=m.endian, cache_directory=None, dimensionality=1)
    check_reader(ctx, reader, m, 1, layout=layout, binary_layout=model.BINARY + BINARY_ROWS)
    fh.seek(0)
    if which == 'rev0':
        reader = create_reader(fh, encoding=m.encoding, trace_header_format=CustomRev0, binary_reel_header_format=CustomBinary,
                               endian=m.endian, cache_directory=None)
        ctx.eq(reader.dimensionality, 3, 'dimensionality by line numbers of a custom format')
        for i in range(len(m.traces)):
            ctx.eq(reader.trace_index((i, i * 3)), i, 'index by line numbers of a custom format')
    ctx.count('custom_format_files')
    ctx.evaluated(repr((m.binary, m.traces)))


SCENARIOS = [
    Scenario('random-datasets', random_datasets, 600, 12000, ['samples_compared', 'zero_length_traces', 'datasets_with_varying_lengths', 'line_lookups', 'cdp_lookups', 'datasets_with_nans', 'datasets_with_permuted_indexes']),
    Scenario('every-configuration', every_configuration, len(GRID), len(GRID) * 20, ['samples_compared']),
    Scenario('long-traces', long_traces, 160, 2000, ['samples_compared']),
    Scenario('many-traces', many_traces, 16, 200, ['traces_compared']),
    Scenario('thousands-of-traces', thousands_of_traces, 4, 24, ['large_datasets'], cpu_limit=240),
    Scenario('single-fields', single_field_each, len(model.BINARY) + len(model.TRACE_REV1), (len(model.BINARY) + len(model.TRACE_REV1)) * 4, ['fields_at_extremes']),
    Scenario('custom-formats', custom_formats, 60, 1200, ['custom_format_files']),
]
