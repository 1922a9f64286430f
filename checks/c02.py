import io
import itertools
import random

from segpy.reader import create_reader
from segpy.writer import write_segy

from harness import gen, model
from harness.core import Scenario
from harness.observe import MemDataset, TRACE_FORMATS, TracingFile, check_bytes, check_reader, handles

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = ('A case is a random file content. It is written by write_segy and the bytes compared with those of an independent encoder, or '
        'encoded independently with random bytes in unassigned header positions and read with create_reader. Non-trivial: it has at '
        'least one trace; distinct by encoded bytes.')
ASSUMPTIONS = ['the tables of harness/layout.py transcribe the SEG-Y revision 1 standard; IBM samples are big-endian whatever the byte order']


def written(ctx, m):
    rng = ctx.rng
    fh = rng.choice([io.BytesIO, lambda: TracingFile(writable=True)])()
    write_segy(fh, MemDataset(m, rng, lazy_pages=rng.random() < 0.3, permuted=rng.random() < 0.3), encoding=m.encoding,
               trace_header_format=TRACE_FORMATS[m.revision], endian=m.endian)
    check_bytes(ctx, fh.getvalue(), m.encode(), m, 'bytes written')
    ctx.count('files_written')


def read(ctx, m, junk=True, explicit=None):
    rng = ctx.rng
    data = m.encode(rng if junk else None)
    fh = handles(ctx, data)
    explicit = rng.random() < 0.5 if explicit is None else explicit
    reader = create_reader(fh, encoding=m.encoding if explicit else None, trace_header_format=TRACE_FORMATS[m.revision],
                           endian=m.endian, cache_directory=rng.choice([None, '.segpy']))
    order = list(range(len(m.traces)))
    rng.shuffle(order)
    check_reader(ctx, reader, m, order=order)
    ctx.count('files_read')
    return data


def note(ctx, m, data):
    ctx.note(repr(m.summary()))
    ctx.state(m.segy_type, m.endian, m.encoding, m.revision, len(m.pages))
    ctx.evaluated(*([data] if m.traces else []))


def write_random(ctx):
    m = gen.file_model(ctx.rng, text='any', nans=True)
    note(ctx, m, m.encode())
    ctx.sample(**m.summary())
    written(ctx, m)


def read_random(ctx):
    rng = ctx.rng
    text = rng.choice(['conventional', 'any'])
    m = gen.file_model(rng, text=text, nans=True)
    note(ctx, m, m.encode())
    ctx.sample(**m.summary())
    read(ctx, m, explicit=True if text == 'any' else None)


GRID = list(itertools.product(model.FORMATS, gen.ENDIANS, gen.ENCODINGS, ('rev0', 'rev1'), (0, 2)))


def every_configuration(ctx):
    fmt, endian, encoding, revision, pages = GRID[ctx.case % len(GRID)]
    m = gen.file_model(ctx.rng, fmt, endian, encoding, revision, pages=pages, header_style='full', max_samples=12,
                       geometry_kind=ctx.rng.choice(['grid', 'sparse', 'line', 'shuffled']))
    note(ctx, m, m.encode())
    written(ctx, m)
    read(ctx, m, explicit=True)


FIELDS = [('binary', row) for row in model.BINARY] + [('trace', row) for row in model.TRACE_REV1]


def each_field(ctx):
    """Every field alone, at extreme and at byte-order-revealing values, in both directions and byte orders."""
    kind, (name, offset, code, default, domain) = FIELDS[ctx.case % len(FIELDS)]
    rng = ctx.rng
    fixed = name in ('num_samples', 'data_sample_format', 'num_extended_textual_headers') and not (kind == 'binary' and name == 'num_samples')
    if fixed:
        values = {'num_samples': [0, 1, 258], 'data_sample_format': list(model.FORMATS), 'num_extended_textual_headers': [0, 1, 3, -1]}[name]
    elif isinstance(domain, list):
        values = domain
    else:
        values = [v for v in (domain[0], domain[1], 0x0102, -0x0102, 0x01020304, -2, 1, 0, gen.from_domain(rng, domain)) if domain[0] <= v <= domain[1]]
    for v, endian in itertools.product(values, gen.ENDIANS):
        binary, header, samples, pages = {}, {}, [], []
        (binary if kind == 'binary' else header)[name] = v
        if kind == 'binary' and name == 'num_extended_textual_headers':
            pages = [gen.page(rng) for _ in range(max(v, 1) if v else 0)]
            if v < 0:
                pages[-1] = gen.page(rng, end=True)
        if kind == 'trace' and name == 'num_samples':
            samples = [float(i) for i in range(v)]
        m = model.FileModel(gen.conventional_text(rng), binary, pages, [(header, samples)], rng.choice(gen.ENCODINGS), endian, 'rev1')
        written(ctx, m)
        read(ctx, m)
        ctx.evaluated(name, v, endian)
        ctx.count('field_values')


def sample_patterns(ctx):
    """Every sample format with distinctive and random values, in long traces."""
    rng = ctx.rng
    fmt = model.FORMATS[ctx.case % 5]
    if fmt == model.INT8:
        s = list(range(-128, 128))
    elif fmt == model.INT16:
        s = [gen.integer(rng, -2**15, 2**15 - 1) for _ in range(500)] + [0x0102, -0x0102, 1, 256, -32768, 32767]
    else:
        s = gen.samples(rng, fmt, 500)
    if rng.random() < 0.2:
        s = s * 40
    m = model.FileModel(gen.conventional_text(rng), dict(data_sample_format=fmt), [],
                        [(dict(num_samples=len(s)), s), (dict(num_samples=3), s[-3:])], rng.choice(gen.ENCODINGS), rng.choice(gen.ENDIANS), 'rev1')
    note(ctx, m, m.encode())
    written(ctx, m)
    read(ctx, m)
    ctx.count('sample_patterns', len(s))


def large_files(ctx):
    m = gen.file_model(ctx.rng, geometry_kind=ctx.rng.choice(['grid', 'line', 'sparse']), max_side=20, max_samples=30, header_style='sparse')
    note(ctx, m, m.encode())
    written(ctx, m)
    read(ctx, m, explicit=True)


SCENARIOS = [
    Scenario('written-bytes', write_random, 800, 12000, ['bytes_compared', 'files_written']),
    Scenario('read-independent', read_random, 800, 12000, ['samples_compared', 'header_fields_compared', 'files_read']),
    Scenario('every-configuration', every_configuration, len(GRID) * 2, len(GRID) * 30, ['files_written', 'files_read']),
    Scenario('each-field', each_field, len(FIELDS), len(FIELDS) * 6, ['field_values']),
    Scenario('sample-patterns', sample_patterns, 50, 1000, ['sample_patterns']),
    Scenario('large-files', large_files, 16, 250, ['files_read']),
]
