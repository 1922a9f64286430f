import io
import itertools
import pickle
from collections.abc import Container, Iterable, Sized

import numpy

from segpy.binary_reel_header import BinaryReelHeader
from segpy.field_types import Int32
from segpy.header import field
from segpy.reader import create_reader, SegYReader, SegYReader2D, SegYReader3D
from segpy.toolkit import catalog_traces
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

from harness import gen, model
from harness.core import Scenario, brief
from harness.observe import TRACE_FORMATS, check_header, check_index, check_reader, check_type, VirtualFile, handles, model_triples, write_file

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = ('A case is a file with generated survey geometry (regular, sparse, shuffled, almost regular, repeated or constant line and CDP '
        'numbers, with random traces between) or one of all small geometries enumerated; the reader type, its number collections and '
        'its lookups, present and absent, are compared with the numbers encoded in the trace headers. Non-trivial: at least '
        'two traces; distinct by geometry.')
ASSUMPTIONS = ['for a file without traces any type of reader is right']


def survey(rng, triples, revision='rev1', endian='>', n_samples=None):
    traces = []
    for i, x, c in triples:
        h = {'ensemble_num': c, 'num_samples': 0, 'file_sequence_num': gen.integer(rng, 0, 2**31 - 1),
             'line_sequence_num': gen.integer(rng, 0, 2**31 - 1), 'shotpoint_number': 7}
        if revision == 'rev1':
            h.update(inline_number=i, crossline_number=x)
        n = rng.randint(0, 3) if n_samples is None else n_samples
        h['num_samples'] = n
        traces.append((h, [1] * n))
    return model.FileModel([' ' * 80] * 40, {'data_sample_format': 3}, [], traces, 'ascii', endian, revision)


def absent_pairs(rng, pairs):
    out = {(0, 0), (-1, -1), (1, 0), (2**31, 0), (-2**31, 2**31 - 1)}
    some = rng.sample(pairs, min(len(pairs), 12))
    for i, x in some:
        out.update([(i + 1, x), (i - 1, x), (i, x + 1), (i, x - 1), (x, i), (-i, x), (i, -x), (i + 1, x - 1), (i * 2, x)])
    inlines, xlines = sorted({i for i, _ in pairs}), sorted({x for _, x in pairs})
    for i in inlines[:3] + inlines[-3:]:
        for x in xlines[:3] + xlines[-3:]:
            out.add((i, x))
    if pairs:
        out.update([(inlines[-1] + 1, xlines[0]), (inlines[0], xlines[-1] + 1), (inlines[0] - 1, xlines[-1]), (inlines[-1] + 1, xlines[-1] + 1)])
        if len(inlines) > 1:
            d = inlines[1] - inlines[0]
            out.update([(inlines[-1] + d, xlines[0]), (inlines[0] - d, xlines[0])])
        if len(xlines) > 1:
            d = xlines[1] - xlines[0]
            out.update([(inlines[0], xlines[-1] + d), (inlines[0], xlines[0] - d)])
    return out - set(pairs)


class Number(int):
    """An integer of another type."""


def absent_numbers(rng, present):
    out = {0, 1, -1, 2**31, -2**31, 10**12}
    for n in rng.sample(present, min(len(present), 12)):
        out.update([n + 1, n - 1, -n, 2 * n])
    if present:
        s = sorted(present)
        d = s[1] - s[0] if len(s) > 1 else 1
        out.update([s[-1] + 1, s[0] - 1, s[-1] + d, s[0] - d, s[0] + len(s)])
    return out - set(present)


def examine_collection(ctx, collection, expected, absent, what):
    """Sized, iterable, container and sequence; sorted, distinct."""
    ctx.eq(list(collection), expected, what)
    ctx.eq(len(collection), len(expected), what + ': len()')
    for v in expected[:30] + expected[-3:]:
        ctx.check(v in collection, '{}: {} is not contained', what, v)
    for v in absent:
        ctx.check(v not in collection, '{}: {} is contained', what, v)
    if expected:
        ctx.eq((collection[0], collection[-1], collection[len(expected) // 2]), (expected[0], expected[-1], expected[len(expected) // 2]), what + ': indexing')
    ctx.check(all(isinstance(collection, t) for t in (Sized, Iterable, Container)), what + ': protocols')


def equal_numbers(ctx, reader, numbers, absent, rng, what):
    """Line and CDP numbers of other types, such as come from headers or arrays."""
    small = [k for k in absent if all(abs(v) < 2**31 for v in (k if isinstance(k, tuple) else (k,)))]
    for kind in (Number, numpy.int64, Int32):
        def equal(k):
            return tuple(kind(v) for v in k) if isinstance(k, tuple) else kind(k)

        t = rng.randrange(len(numbers))
        ctx.eq((bool(reader.has_trace_index(equal(numbers[t]))), reader.trace_index(equal(numbers[t]))), (True, t),
               '{}: has_trace_index() and trace_index() of {!r}'.format(what, equal(numbers[t])))
        if small:
            k = equal(rng.choice(sorted(small)))
            ctx.eq(bool(reader.has_trace_index(k)), False, '{}: has_trace_index({!r})'.format(what, k))
            ctx.raises(KeyError, lambda: reader.trace_index(k), '{}: trace_index({!r})'.format(what, k))
        ctx.count('numbers_of_other_types')


def examine(ctx, reader, triples, requested, lines, rng, what):
    """The whole index interface of a reader."""
    n = len(triples)
    ctx.eq(reader.num_traces(), n, what + ': num_traces()')
    ctx.eq(list(reader.trace_indexes()), list(range(n)), what + ': trace_indexes()')
    expected = gen.expected_dimensionality(triples, lines) if requested is None else requested
    if n or requested is not None:
        check_type(ctx, reader, expected, n, what)
    if n == 0:
        return
    ctx.count('readers_{}d'.format(reader.dimensionality))
    order = rng.random() < 0.5
    if isinstance(reader, SegYReader3D):
        pairs = [(i, x) for i, x, _ in triples]
        if len(set(pairs)) != n or not lines:
            ctx.eq(list(reader.inline_xline_numbers()), [], what + ': inline_xline_numbers() without an index')
            ctx.eq((reader.num_inlines(), reader.num_xlines()), (0, 0), what + ': number of lines without an index')
            for p in pairs[:5]:
                ctx.check(not reader.has_trace_index(p), '{}: has_trace_index({}) without an index', what, p)
                ctx.raises(KeyError, lambda: reader.trace_index(p), '{}: trace_index({}) without an index'.format(what, p))
            ctx.count('unindexed_by_request')
            return
        absent = absent_pairs(rng, pairs)
        if order:
            check_index(ctx, reader, triples, what)
        for p in absent:
            ctx.eq(bool(reader.has_trace_index(p)), False, '{}: has_trace_index({}) of an absent pair'.format(what, p))
            ctx.raises(KeyError, lambda: reader.trace_index(p), '{}: trace_index({}) of an absent pair'.format(what, p))
        ctx.count('absent_pairs', len(absent))
        equal_numbers(ctx, reader, pairs, absent, rng, what)
        if not order:
            check_index(ctx, reader, triples, what)
        inlines, xlines = sorted({i for i, _ in pairs}), sorted({x for _, x in pairs})
        examine_collection(ctx, reader.inline_numbers(), inlines, absent_numbers(rng, inlines), what + ': inline_numbers()')
        examine_collection(ctx, reader.xline_numbers(), xlines, absent_numbers(rng, xlines), what + ': xline_numbers()')
        ctx.eq(sorted(reader.inline_xline_numbers()), sorted(pairs), what + ': inline_xline_numbers() again')
    elif isinstance(reader, SegYReader2D):
        cdps = [c for _, _, c in triples]
        if len(set(cdps)) != n:
            ctx.eq(list(reader.cdp_numbers()), [], what + ': cdp_numbers() without an index')
            ctx.eq(reader.num_cdps(), 0, what + ': num_cdps() without an index')
            for c in cdps[:5]:
                ctx.check(not reader.has_trace_index(c), '{}: has_trace_index({}) without an index', what, c)
                ctx.raises(KeyError, lambda: reader.trace_index(c), '{}: trace_index({}) without an index'.format(what, c))
            ctx.count('unindexed_by_request')
            return
        absent = absent_numbers(rng, cdps)
        if order:
            check_index(ctx, reader, triples, what)
        for c in absent:
            ctx.eq(bool(reader.has_trace_index(c)), False, '{}: has_trace_index({}) of an absent CDP'.format(what, c))
            ctx.raises(KeyError, lambda: reader.trace_index(c), '{}: trace_index({}) of an absent CDP'.format(what, c))
        ctx.count('absent_cdps', len(absent))
        equal_numbers(ctx, reader, cdps, absent, rng, what)
        if not order:
            check_index(ctx, reader, triples, what)
        examine_collection(ctx, reader.cdp_numbers(), sorted(cdps), absent, what + ': cdp_numbers()')
    else:
        for name in ('trace_index', 'has_trace_index', 'inline_numbers', 'cdp_numbers'):
            ctx.check(not hasattr(reader, name), '{}: an unindexed reader has {}', what, name)


def judge(ctx, m, triples, rng, dims=(None, 1, 2, 3), lines=True, cache=True, trace_format=None):
    fh = handles(ctx, m.encode())
    base = dict(encoding='ascii', endian=m.endian, trace_header_format=trace_format or TRACE_FORMATS[m.revision])
    ctx.note('(inline, crossline, cdp): ' + brief(triples, 1500))
    for requested in dims:
        fh.seek(0)
        reader = create_reader(fh, cache_directory=None, dimensionality=requested, **base)
        examine(ctx, reader, triples, requested, lines, rng, 'reader with dimensionality={}'.format(requested))
        if rng.random() < 0.5 and triples:
            i = rng.randrange(len(triples))
            check_header(ctx, reader.trace_header(i), m.trace_values(i), m.layout, 'trace_header({})'.format(i))
    if cache and rng.random() < 0.4:
        path = write_file(ctx.path('c.sgy'), m.encode())
        requested = rng.choice(dims)
        for turn in ('scanned', 'cached'):
            with open(path, 'rb') as f:
                reader = create_reader(f, dimensionality=requested, **base)
                examine(ctx, reader, triples, requested, lines, rng, turn + ' reader')
                if turn == 'cached':
                    again = pickle.loads(pickle.dumps(reader))
                    examine(ctx, again, triples, requested, lines, rng, 'restored reader')
                    again._fh.close() if hasattr(again, '_fh') else None
        ctx.count('cached_indexes')
    ctx.state(gen.expected_dimensionality(triples, lines), len({t[:2] for t in triples}) == len(triples), len({t[2] for t in triples}) == len(triples), min(len(triples), 3))
    ctx.evaluated(*([repr(triples), m.revision, m.endian] if len(triples) > 1 else []))


def random_surveys(ctx):
    rng = ctx.rng
    triples = gen.geometry(rng, max_side=rng.choice([3, 6, 9]))
    revision = rng.choice(['rev1', 'rev1', 'rev1', 'rev1', 'rev0'])
    m = survey(rng, triples, revision, rng.choice('><'))
    judge(ctx, m, triples, rng, lines=revision == 'rev1', dims=(None,) + tuple(rng.sample([1, 2, 3], 1)))
    ctx.sample(triples=triples[:8], n=len(triples))


SMALL = [g for n in (1, 2, 3) for g in itertools.product(itertools.product((0, 1), (0, 1, 2), (0, 5)), repeat=n)]


def small_surveys(ctx):
    """All geometries of few traces with small numbers."""
    rng = ctx.rng
    step = 16
    for k in range(step):
        triples = list(SMALL[(ctx.case * step + k) % len(SMALL)])
        judge(ctx, survey(rng, triples, n_samples=0), triples, rng, cache=False, dims=(None, rng.choice([1, 2, 3])))
    ctx.count('small_surveys', step)


def near_grids(ctx):
    """Grids in every order, with one or two deviations; both directions of both axes."""
    rng = ctx.rng
    ni, nx = rng.randint(1, 6), rng.randint(1, 6)
    i0, x0 = gen.integer(rng, -1000, 1000), gen.integer(rng, -1000, 1000)
    di, dx = rng.choice([1, 1, 2, -1, -3, 10]), rng.choice([1, 1, 2, -1, -3, 10])
    inlines, xlines = [i0 + k * di for k in range(ni)], [x0 + k * dx for k in range(nx)]
    pairs = [(i, x) for i in inlines for x in xlines] if rng.random() < 0.5 else [(i, x) for x in xlines for i in inlines]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        k = rng.randrange(len(pairs))
        r = rng.random()
        if r < 0.25 and len(pairs) > 1:
            del pairs[k]
        elif r < 0.5:
            j = rng.randrange(len(pairs))
            pairs[j], pairs[k] = pairs[k], pairs[j]
        elif r < 0.75:
            pairs[k] = (pairs[k][0] + rng.choice([-1, 0, 1]), pairs[k][1] + rng.choice([-1, 0, 1]))
        else:
            pairs.insert(rng.randint(0, len(pairs)), rng.choice([pairs[k], (i0 + ni * di, x0), (i0 - di, x0 - dx)]))
    base = rng.choice([0, 1, 1000])
    cdps = rng.choice([list(range(base, base + len(pairs))), [base] * len(pairs), [base + k // 2 for k in range(len(pairs))],
                       list(range(base + len(pairs), base, -1)), [base + 3 * k for k in range(len(pairs))]])
    triples = [(i, x, c) for (i, x), c in zip(pairs, cdps)]
    judge(ctx, survey(rng, triples, endian=rng.choice('><')), triples, rng, dims=(None,))


def large_surveys(ctx):
    rng = ctx.rng
    kind = rng.choice(['grid', 'sparse', 'line', 'almost', 'shuffled', 'duplicates'])
    triples = gen.geometry(rng, kind, rng.choice([25, 40]))
    if kind == 'line':
        triples = [(1, 1, 5 + 2 * k) for k in range(rng.choice([900, 1500]))]
        if rng.random() < 0.5:
            k = rng.randrange(len(triples))
            triples[k] = (1, 1, triples[k][2] + 1)
    judge(ctx, survey(rng, triples, n_samples=rng.choice([0, None])), triples, rng, dims=(None,))
    ctx.count('large_surveys')


def huge_surveys(ctx):
    """Tens of thousands of traces."""
    rng = ctx.rng
    kind = ['grid', 'hole', 'line', 'bent-line', 'repeated-late', 'transposed', 'exchanged', 'exchanged-line'][ctx.case % 8]
    n = rng.choice([5000, 12000, 33000]) if not ctx.thorough else rng.choice([33000, 66000, 120000, 270000])
    if ctx.case < 8:
        n = [33000, 105000, 66000, 70000, 12000, 5000, 12000, 12000][ctx.case]
    if kind == 'repeated-late':
        n = max(n, 12000)
    width = rng.choice([50, 181, 256])
    hole = rng.randrange(n)
    k = [(i + (kind == 'hole' and i >= hole)) for i in range(n)]
    if kind in ('grid', 'hole', 'transposed', 'exchanged'):
        triples = [(1000 + 2 * (i // width), i % width - 5, 0) for i in k]
        if kind == 'transposed':
            n -= n % width
            triples = [(i % width - 5, 1000 + 2 * (i // width), 0) for i in range(n)]
    else:
        triples = [(3, 4, 100 + 2 * i + (kind == 'bent-line' and i > hole)) for i in range(n)]
        if kind == 'repeated-late':
            triples[-1] = (3, 4, rng.choice([100, triples[-2][2], triples[-2][2], triples[-9][2], triples[-n // 2][2]]))
    if kind.startswith('exchanged'):
        # Far from the first
        n -= n % width
        triples = triples[:n]
        a, b = rng.choice([(-1, -2), (-1, -2), (-1, -1 - width), tuple(rng.sample(range(5000, n), 2))]) if n > 5100 else (-1, -2)
        triples[a], triples[b] = triples[b], triples[a]
    head = model.FileModel([' ' * 80] * 40, {'data_sample_format': 2}, [], []).encode()
    fh = VirtualFile(head, n, [0], 1, lines=triples.__getitem__)
    reader = create_reader(fh, encoding='ascii', cache_directory=None)
    ctx.eq(reader.num_traces(), n, 'num_traces()')
    check_type(ctx, reader, gen.expected_dimensionality(triples), n)
    check_index(ctx, reader, triples)
    if kind == 'hole':
        key = (1000 + 2 * (hole // width), hole % width - 5)
        ctx.check(not reader.has_trace_index(key), 'the hole {} in the survey is found', key)
        ctx.raises(KeyError, lambda: reader.trace_index(key), 'trace_index() of the hole {}'.format(key))
    if reader.dimensionality == 3:
        for p in absent_pairs(rng, [t[:2] for t in triples]):
            ctx.eq(bool(reader.has_trace_index(p)), False, 'has_trace_index({}) of an absent pair'.format(p))
    elif reader.dimensionality == 2:
        for c in absent_numbers(rng, [t[2] for t in triples]):
            ctx.eq(bool(reader.has_trace_index(c)), False, 'has_trace_index({}) of an absent number'.format(c))
    ctx.count('huge_surveys')
    ctx.evaluated(kind, n, width, hole)


class Rev0WithLines(TraceHeaderRev0):
    crossline_number = field(Int32, offset=237, default=0, documentation="Crossline")
    inline_number = field(Int32, offset=181, default=0, documentation="Inline")


class MovedLines(TraceHeaderRev1):
    """Line numbers are found through the names of the fields."""
    inline_number = field(Int32, offset=233, default=0, documentation="Inline")
    crossline_number = field(Int32, offset=237, default=0, documentation="Crossline")


def custom_fields(ctx):
    """Line numbers come from the fields of those names of the trace header format, wherever these are."""
    rng = ctx.rng
    triples = gen.geometry(rng, rng.choice(['grid', 'sparse', 'irregular', 'almost', 'line', 'duplicates']), 4)
    decoy = gen.geometry(rng, 'line', 4)
    cls, base, io, xo = rng.choice([(Rev0WithLines, 'rev0', 181, 237), (MovedLines, 'rev1', 233, 237)])
    m = survey(rng, triples, base)
    data = bytearray(m.encode())
    for (i, x, c), o, d in zip(triples, m.trace_offsets(), itertools.cycle(decoy)):
        if base == 'rev1':
            # What the standard fields hold is irrelevant
            data[o + 188:o + 196] = b''.join(v.to_bytes(4, 'big', signed=True) for v in d[:2])
        data[o + io - 1:o + io + 3] = i.to_bytes(4, 'big', signed=True)
        data[o + xo - 1:o + xo + 3] = x.to_bytes(4, 'big', signed=True)
    fh = handles(ctx, bytes(data))
    reader = create_reader(fh, encoding='ascii', cache_directory=None, trace_header_format=cls)
    examine(ctx, reader, triples, None, True, rng, 'reader with {}'.format(cls.__name__))
    if len(triples) > 1:
        t = rng.randrange(len(triples))
        h = reader.trace_header(t)
        ctx.eq((h.inline_number, h.crossline_number, h.ensemble_num), triples[t], 'numbers in trace_header({})'.format(t))
    ctx.count('custom_formats')
    ctx.evaluated(repr(triples), cls.__name__)


def constructed(ctx):
    """Readers made of their parts, rather than by create_reader()."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=3, max_samples=8)
    fmt = TRACE_FORMATS[m.revision]
    fh = handles(ctx, m.encode())
    fh.seek(m.data_start())
    offsets, lengths, cdps, lines = catalog_traces(fh, model.SAMPLE_SIZE[m.format], fmt, m.endian)
    plain = rng.random() < 0.3
    if plain:
        # Any mapping will do
        offsets, lengths = dict(offsets), dict(lengths)
    parts = [fh, tuple(m.text), BinaryReelHeader(**m.binary), [tuple(p) for p in m.pages], offsets, lengths]
    rest = [fmt, m.encoding] + ([m.endian] if m.endian != '>' or rng.random() < 0.5 else [])
    triples = model_triples(m)
    for cls, index, dimensionality in ((SegYReader, [], 0), (SegYReader2D, [cdps], 2), (SegYReader3D, [lines], 3)):
        arguments = parts + index + rest
        if None in index:
            ctx.raises(TypeError, lambda: cls(*arguments), '{} of traces without an index'.format(cls.__name__))
            ctx.count('absent_catalogs')
            continue
        if rng.random() < 0.5:
            names = ['fh', 'textual_reel_header', 'binary_reel_header', 'extended_textual_headers', 'trace_offset_catalog', 'trace_length_catalog']
            names += [[], [], ['cdp_catalog'], ['line_catalog']][dimensionality] + ['trace_header_format', 'encoding', 'endian']
            reader = cls(**dict(zip(names, arguments)))
        else:
            reader = cls(*arguments)
        what = 'a constructed ' + cls.__name__
        check_reader(ctx, reader, m, dimensionality, what)
        if triples:
            examine(ctx, reader, triples, dimensionality, m.revision == 'rev1', rng, what)
        for k in range(4, 6 + len(index)):
            wanting = list(arguments)
            wanting[k] = None
            ctx.raises(TypeError, lambda: cls(*wanting), '{} without one of its catalogs'.format(cls.__name__))
            ctx.count('wanting_catalogs')
        ctx.count('constructed_readers')
    ctx.evaluated(m.encode(), plain)


SCENARIOS = [
    Scenario('random-surveys', random_surveys, 800, 16000, ['readers_0d', 'readers_1d', 'readers_2d', 'readers_3d', 'absent_pairs', 'absent_cdps',
                                                            'line_lookups', 'cdp_lookups', 'numbers_of_other_types', 'unindexed_by_request', 'cached_indexes']),
    Scenario('small-surveys', small_surveys, 60, -(-len(SMALL) // 16), ['small_surveys']),
    Scenario('near-grids', near_grids, 700, 12000, ['readers_3d', 'line_lookups', 'absent_pairs']),
    Scenario('large-surveys', large_surveys, 12, 200, ['large_surveys']),
    Scenario('huge-surveys', huge_surveys, 12, 48, ['huge_surveys'], cpu_limit=240),
    Scenario('constructed', constructed, 200, 4000, ['constructed_readers', 'absent_catalogs', 'wanting_catalogs']),
    Scenario('custom-fields', custom_fields, 100, 1500, ['custom_formats']),
]
