import collections
import io
import pickle

import numpy

from segpy.reader import create_reader
from segpy.sorted_frozen_set import SortedFrozenSet
from segpy_numpy.dtypes import make_dtype
from segpy_numpy.extract import (extract_inline_3d, extract_timeslice_3d, extract_trace, extract_trace_header_field_3d,
                                 extract_trace_headers, extract_xline_3d)
from segpy_numpy.util import ensure_superset, is_range_superset_of_range, is_superset

from harness import gen, model
from harness.core import Scenario
from harness.observe import TRACE_FORMATS, TracingFile, handles, write_file

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = ('A case is a random file read by segpy, and a random extraction from it: of a trace, inline, crossline, timeslice or header fields, '
        'with lines and samples selected by any sort of collection or slice, masked or with a null value. Every element of every array '
        'and of its mask is compared with the model of the file. Distinct by content and extraction.')
ASSUMPTIONS = ['null values are exactly representable in the data type of the array',
               'IBM samples become the nearest 32-bit IEEE values, the documented data type of the arrays']

DTYPES = {model.IBM: 'float32', model.INT32: 'int32', model.INT16: 'int16', model.FLOAT32: 'float32', model.INT8: 'int8'}
FIELD_DTYPE = {'h': ('int16', 'uint16'), 'i': ('int32', 'uint32')}
GEOMETRIES = ['grid', 'grid', 'sparse', 'sparse', 'shuffled', 'irregular', 'almost', 'single-inline', 'single-xline', 'one']


def open_reader(ctx, m, dimensionality=None):
    rng = ctx.rng
    a = dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision], dimensionality=dimensionality)
    data = m.encode()
    k = rng.random()
    if k < 0.8:
        return create_reader(handles(ctx, data), cache_directory=None, **a)
    path = write_file(ctx.path('stored.sgy'), data)
    with open(path, 'rb') as f:
        reader = create_reader(f, cache_directory=ctx.path('cache'), **a)
        if k < 0.9:
            return pickle.loads(pickle.dumps(reader))
    return create_reader(ctx.keep(open(path, 'rb')), cache_directory=ctx.path('cache'), **a)


def survey(ctx, **kw):
    rng = ctx.rng
    return gen.file_model(rng, revision='rev1', geometry_kind=rng.choice(GEOMETRIES), max_side=rng.choice([3, 5, 7]),
                       max_samples=rng.choice([3, 12, 30, 30, 30, 700]), **kw)


def cast(m, x):
    with numpy.errstate(all='ignore'):
        return numpy.dtype(DTYPES[m.format]).type(x)


def select(rng, items, positive=False):
    """A way of selecting from a sorted list of numbers.

    Returns (the argument, lists of numbers any of which may be selected).
    """
    k = rng.random()
    n = len(items)
    if k < 0.25:
        return None, [items]
    if k < 0.5:
        bound = lambda: rng.choice([None, None, 0, 1, -1, 2, -2, n, n + 3, -n - 2, rng.randint(-n - 1, n + 1)])
        step = rng.choice([None, None, 1, 2, 3, n + 1] + ([] if positive else [-1, -2]))
        s = slice(bound(), bound(), step)
        # With a negative step, as sliced or in increasing order
        return s, [items[s]] if (step or 1) > 0 else [items[s], sorted(items[s])]
    chosen = [x for x in items if rng.random() < rng.choice([0.3, 0.7, 1.0])]
    if rng.random() < 0.05:
        chosen = []
    if rng.random() < 0.3:
        # A range, if these numbers contain one
        for _ in range(10):
            a, b = rng.choice(items) if items else 0, rng.choice(items) if items else 0
            step = rng.choice([1, 1, 2, 3, 10, -1, -1, -2]) if rng.random() < 0.7 else (b - a) or 1
            r = range(a, b + (1 if step > 0 else -1), step)
            if len(r) < 1000 and set(r) <= set(items):
                return r, [sorted(r)]
    form = rng.choice(['list', 'tuple', 'set', 'frozenset', 'unsorted', 'repeated', 'sorted-frozen-set', 'dict-keys', 'array', 'deque'])
    selected = list(chosen)
    if form == 'list':
        arg = selected
    elif form == 'tuple':
        arg = tuple(selected)
    elif form == 'set':
        arg = set(selected)
    elif form == 'frozenset':
        arg = frozenset(selected)
    elif form == 'unsorted':
        rng.shuffle(selected)
        arg = selected
    elif form == 'repeated':
        arg = selected + selected[:2] + selected[-1:]
        rng.shuffle(arg)
    elif form == 'sorted-frozen-set':
        arg = SortedFrozenSet(selected)
    elif form == 'dict-keys':
        arg = dict.fromkeys(selected).keys()
    elif form == 'array':
        arg = numpy.array(selected, dtype='i8')
    else:
        arg = collections.deque(reversed(selected))
    return arg, [chosen]


def not_contained(rng, items):
    """A selection which includes something else."""
    other = rng.choice([max(items, default=0) + 1, min(items, default=0) - 1, rng.randint(-10**6, 10**6), 10**12])
    for _ in range(20):
        if other not in items:
            break
        other += 1
    else:
        other = 10**13
    form = rng.randrange(4)
    holes = [n + 1 for n in items[:-1] if n + 1 not in items]
    if holes and rng.random() < 0.5:
        # Between those which exist, the least and the greatest possibly included
        other, form = rng.choice(holes), rng.choice([0, 1, 1, 4, 4])
        if form == 4:
            return rng.choice([list, tuple, set, frozenset])({other, items[0], items[-1]} | {n for n in items if rng.random() < 0.5})
    if form == 0:
        return [other]
    if form == 1:
        return list(items) + [other]
    if form == 2:
        return {other} | set(items[:2])
    return range(other, other + 1)


def null_value(rng, fmt):
    if rng.random() < 0.4:
        return None
    if fmt in model.INT_RANGE:
        return rng.choice([0, 1, -1, 42, model.INT_RANGE[fmt][0], model.INT_RANGE[fmt][1]])
    return rng.choice([0, 0.0, -1, 42, -999.25, 0.5, float('nan'), float('inf'), -0.0])


def compare(ctx, array, rows, columns, expected, null, dtype, what):
    """expected: a function of (row, column) which gives a value, or None."""
    ctx.eq(array.shape, (len(rows), len(columns)), what + ': shape')
    ctx.eq(array.dtype, numpy.dtype(dtype), what + ': dtype')
    if null is None:
        ctx.check(isinstance(array, numpy.ma.MaskedArray), '{}: a {} rather than a masked array', what, type(array).__name__)
        mask = numpy.ma.getmaskarray(array)
        values = array.data
    else:
        ctx.check(not isinstance(array, numpy.ma.MaskedArray), '{}: a masked array despite null={!r}', what, null)
        mask = None
        values = array
    filler = None if null is None else numpy.dtype(dtype).type(null)
    for i, r in enumerate(rows):
        for j, c in enumerate(columns):
            e = expected(r, c)
            if mask is not None:
                if bool(mask[i, j]) != (e is None):
                    ctx.fail('{}: mask at [{}, {}] (numbers {}, {}) is {}'.format(what, i, j, r, c, mask[i, j]))
                if e is None:
                    ctx.count('masked_elements')
                    continue
            elif e is None:
                e = filler
                ctx.count('null_elements')
            v = values[i, j]
            if not (v == e or (v != v and e != e)):
                ctx.fail('{}: [{}, {}] (numbers {}, {}) is {!r}, expected {!r}'.format(what, i, j, r, c, v, e))
            ctx.count('elements')


def compare_any(ctx, array, row_choices, column_choices, *args):
    """Equal for one of the orders."""
    error = None
    for rows in row_choices:
        for columns in column_choices:
            try:
                return compare(ctx, array, rows, columns, *args)
            except AssertionError as e:
                error = error or e
    raise error


class Truth:
    """Positions of the model."""

    def __init__(self, m):
        self.m = m
        self.index = {}
        for t in range(len(m.traces)):
            v = m.trace_values(t)
            self.index[v['inline_number'], v['crossline_number']] = t
        self.inlines = sorted({i for i, _ in self.index})
        self.xlines = sorted({x for _, x in self.index})
        self.longest = max((len(s) for _, s in m.traces), default=0)
        self.samples = [m.stored_samples(t) for t in range(len(m.traces))]

    def sample(self, inline, xline, number):
        t = self.index.get((inline, xline))
        if t is None or number >= len(self.samples[t]):
            return None
        return cast(self.m, self.samples[t][number])


def sections(ctx):
    rng = ctx.rng
    m = survey(ctx)
    reader = open_reader(ctx, m)
    truth = Truth(m)
    ctx.eq(reader.dimensionality, 3, 'dimensionality')
    dtype = DTYPES[m.format]
    for _ in range(6):
        null = null_value(rng, m.format)
        kwargs = {} if null is None and rng.random() < 0.5 else dict(null=null)
        sample_arg, sample_choices = select(rng, list(range(truth.longest)))
        if rng.random() < 0.5:
            line = rng.choice(truth.inlines)
            arg, choices = select(rng, truth.xlines)
            what = 'extract_inline_3d({}, {!r}, {!r}, null={!r})'.format(line, arg, sample_arg, null)
            ctx.note(what)
            with numpy.errstate(all='ignore'):
                array = extract_inline_3d(reader, line, arg, sample_arg, **kwargs)
            expected = lambda x, s: truth.sample(line, x, s)
            ctx.count('inlines')
        else:
            line = rng.choice(truth.xlines)
            arg, choices = select(rng, truth.inlines)
            what = 'extract_xline_3d({}, {!r}, {!r}, null={!r})'.format(line, arg, sample_arg, null)
            ctx.note(what)
            with numpy.errstate(all='ignore'):
                array = extract_xline_3d(reader, line, inline_numbers=arg, sample_numbers=sample_arg, **kwargs)
            expected = lambda i, s: truth.sample(i, line, s)
            ctx.count('crosslines')
        compare_any(ctx, array, choices, sample_choices, expected, null, dtype, what)
        ctx.count('selected_by_' + type(arg).__name__)
        ctx.evaluated(m.encode(), what)
        ctx.state(m.segy_type, type(arg).__name__, type(sample_arg).__name__, null is None)
    ctx.sample(what=what, **m.summary())


def timeslices(ctx):
    rng = ctx.rng
    m = survey(ctx)
    reader = open_reader(ctx, m)
    truth = Truth(m)
    if not truth.longest:
        ctx.raises(ValueError, lambda: extract_timeslice_3d(reader, 0), 'timeslice without samples')
    for _ in range(4 if truth.longest else 0):
        null = null_value(rng, m.format)
        number = rng.choice([0, truth.longest - 1, rng.randrange(truth.longest)])
        inlines, inline_choices = select(rng, truth.inlines)
        xlines, xline_choices = select(rng, truth.xlines)
        what = 'extract_timeslice_3d({}, {!r}, {!r}, {!r})'.format(number, inlines, xlines, null)
        ctx.note(what)
        with numpy.errstate(all='ignore'):
            array = extract_timeslice_3d(reader, number, inlines, xlines, null)
        compare_any(ctx, array, inline_choices, xline_choices, lambda i, x: truth.sample(i, x, number), null, DTYPES[m.format], what)
        ctx.count('timeslices')
        ctx.evaluated(m.encode(), what)


def field_argument(rng, name, format_class):
    """The name of a field, or something which has it."""
    k = rng.random()
    if k < 0.5:
        return name
    if k < 0.8:
        return getattr(format_class, name)
    return collections.namedtuple('Named', 'name')(name)


def header_fields(ctx):
    rng = ctx.rng
    m = survey(ctx, header_style=rng.choice(['full', 'extreme', 'sparse']))
    reader = open_reader(ctx, m)
    truth = Truth(m)
    rows = {row[0]: row for row in m.layout}
    for _ in range(3):
        names = rng.sample(sorted(rows), rng.choice([1, 1, 2, 3, 6]))
        if rng.random() < 0.3:
            names = list(dict.fromkeys(names + ['inline_number', 'crossline_number']))
        null = rng.choice([None, 0, 1, 42])
        inlines, inline_choices = select(rng, truth.inlines)
        xlines, xline_choices = select(rng, truth.xlines)
        fields = [field_argument(rng, n, TRACE_FORMATS[m.revision]) for n in names]
        what = 'extract_trace_header_field_3d({}, {!r}, {!r}, {!r})'.format(names, inlines, xlines, null)
        ctx.note(what)
        result = extract_trace_header_field_3d(reader, rng.choice([list, tuple, iter])(fields), inlines, xlines, null)
        ctx.eq(list(result._fields), names, what + ': names')
        for position, name in enumerate(names):
            array = getattr(result, name)
            ctx.check(result[position] is array, what + ': order of the arrays')
            check_field_dtype(ctx, array, rows[name], what)

            def expected(i, x):
                t = truth.index.get((i, x))
                return None if t is None else m.trace_values(t)[name]
            compare_any(ctx, array, inline_choices, xline_choices, expected, null, array.dtype, what + ': ' + name)
            ctx.count('fields_extracted')
        ctx.evaluated(m.encode(), what)
    for _ in range(2):
        names = rng.sample(sorted(rows), rng.choice([1, 2, 5]))
        indexes = rng.choice([None, None, [], [rng.randrange(len(m.traces)) for _ in range(5)], range(len(m.traces) - 1, -1, -1)])
        what = 'extract_trace_headers({}, {!r})'.format(names, indexes)
        ctx.note(what)
        fields = [field_argument(rng, n, TRACE_FORMATS[m.revision]) for n in names]
        result = extract_trace_headers(reader, fields) if indexes is None and rng.random() < 0.5 else extract_trace_headers(
            reader, iter(fields), indexes if indexes is None else rng.choice([iter, list])(indexes))
        ctx.eq(list(result._fields), names, what + ': names')
        for name in names:
            array = getattr(result, name)
            check_field_dtype(ctx, array, rows[name], what)
            ctx.eq(array.tolist(), [m.trace_values(t)[name] for t in (range(len(m.traces)) if indexes is None else indexes)], what + ': ' + name)
            ctx.count('header_columns')
        ctx.evaluated(m.encode(), what)


def check_field_dtype(ctx, array, row, what):
    ctx.check(array.dtype.name in FIELD_DTYPE[row[2].lower()], '{}: {} has dtype {}', what, row[0], array.dtype)


def traces(ctx):
    """Of readers of any dimensionality."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=3, max_samples=20)
    reader = open_reader(ctx, m, rng.choice([None, 1]))
    for t in range(len(m.traces)):
        stored = m.stored_samples(t)
        arg, choices = select(rng, list(range(len(stored))))
        what = 'extract_trace({}, {!r})'.format(t, arg)
        ctx.note(what)
        with numpy.errstate(all='ignore'):
            array = extract_trace(reader, t, arg)
        ctx.eq(array.dtype, numpy.dtype(DTYPES[m.format]), what + ': dtype')
        ctx.eq(array.ndim, 1, what + ': dimensions')
        ctx.check(any(same(array, [cast(m, stored[s]) for s in c]) for c in choices), '{}: {!r}, expected {!r}', what, array, [stored[s] for s in choices[0]])
        ctx.count('traces_extracted')
        ctx.count('samples_of_traces', len(array))
        if rng.random() < 0.3:
            ctx.raises(ValueError, lambda: extract_trace(reader, t, not_contained(rng, list(range(len(stored))))), 'samples which do not exist')
    for t in (-1, len(m.traces), len(m.traces) + 5, -len(m.traces) - 1, 10**10):
        ctx.raises(ValueError, lambda: extract_trace(reader, t, None), 'extract_trace({}) of {} traces'.format(t, len(m.traces)))
        ctx.count('indexes_refused')
    if reader.dimensionality != 3:
        for name, fn in [('inline', lambda: extract_inline_3d(reader, 1)), ('xline', lambda: extract_xline_3d(reader, 1)),
                         ('timeslice', lambda: extract_timeslice_3d(reader, 0)),
                         ('header', lambda: extract_trace_header_field_3d(reader, ['cdp_x']))]:
            ctx.raises(Exception, fn, name + ' of a reader without lines')
        ctx.count('unsuitable_readers')
    ctx.evaluated(m.encode())


def economy(ctx):
    """What is extracted is all that is read."""
    rng = ctx.rng
    m = survey(ctx)
    a = dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    data = m.encode()
    fh = TracingFile(data)
    reader = create_reader(fh, cache_directory=None, **a)
    truth = Truth(m)
    size = model.SAMPLE_SIZE[m.format]
    offsets = m.trace_offsets()
    fh.take()

    def judge(what, allowed):
        """Bytes read against the regions which may be, each of them once."""
        permitted = bytearray(len(data))
        for start, stop in allowed:
            permitted[start:stop] = b'\1' * (stop - start)
        total = 0
        for e in fh.take():
            ctx.check(e[0] not in ('write', 'truncate', 'close'), '{}: {!r} on the handle', what, e)
            if e[0] == 'read' and e[3]:
                start, stop = e[1], e[1] + e[3]
                ctx.check(all(permitted[start:stop]), '{}: read bytes {} to {}, beyond what is extracted', what, start, stop)
                total += stop - start
        most = sum(stop - start for start, stop in allowed)
        ctx.check(total <= most, '{}: read {} bytes to extract from {}', what, total, most)
        ctx.count('extractions_traced')
        ctx.evaluated(data, what)

    def samples(t, start=0, stop=None):
        first = offsets[t] + 240
        return first + start * size, first + (len(truth.samples[t]) if stop is None else stop) * size

    def some(items):
        return rng.choice([items, items, [x for x in items if rng.random() < 0.5]])

    for _ in range(4):
        inlines, xlines = some(truth.inlines), some(truth.xlines)
        selected = [truth.index[p] for p in ((i, x) for i in inlines for x in xlines) if p in truth.index]
        null = rng.choice([None, 0])
        with numpy.errstate(all='ignore'):
            if truth.longest:
                number = rng.choice([0, truth.longest - 1, rng.randrange(truth.longest)])
                extract_timeslice_3d(reader, number, inlines, xlines, null)
                judge('extract_timeslice_3d({}, {}, {})'.format(number, inlines, xlines),
                      [samples(t, number, number + 1) for t in selected if number < len(truth.samples[t])])
                ctx.count('timeslices_traced')
            line = rng.choice(truth.inlines)
            extract_inline_3d(reader, line, xlines, None, null)
            judge('extract_inline_3d({}, {})'.format(line, xlines), [samples(truth.index[line, x]) for x in xlines if (line, x) in truth.index])
            line = rng.choice(truth.xlines)
            extract_xline_3d(reader, line, inlines, None, null)
            judge('extract_xline_3d({}, {})'.format(line, inlines), [samples(truth.index[i, line]) for i in inlines if (i, line) in truth.index])
            t = rng.randrange(len(m.traces))
            extract_trace(reader, t, None)
            judge('extract_trace({})'.format(t), [samples(t)])
        names = rng.sample([row[0] for row in m.layout], rng.randint(1, 4))
        extract_trace_header_field_3d(reader, names, inlines, xlines, 0)
        judge('extract_trace_header_field_3d({}, {}, {})'.format(names, inlines, xlines), [(offsets[t], offsets[t] + 240) for t in selected])
    ctx.check(fh.getvalue() == data, 'the file was modified')


def same(array, expected):
    return len(array) == len(expected) and all(a == e or (a != a and e != e) for a, e in zip(array, expected))


def refusals(ctx):
    rng = ctx.rng
    m = survey(ctx)
    reader = open_reader(ctx, m)
    truth = Truth(m)

    def bad_line(lines):
        for _ in range(50):
            n = rng.choice([min(lines) - 1, max(lines) + 1, rng.randint(min(lines) - 3, max(lines) + 3), rng.choice(lines) + 1, 2**40, -2**40])
            if n not in lines:
                return n
        return 2**50
    for _ in range(4):
        i, x = bad_line(truth.inlines), bad_line(truth.xlines)
        good_i, good_x = rng.choice(truth.inlines), rng.choice(truth.xlines)
        bad_is, bad_xs, bad_ss = (not_contained(rng, n) for n in (truth.inlines, truth.xlines, list(range(truth.longest))))
        for what, fn in [
                ('extract_inline_3d({})'.format(i), lambda: extract_inline_3d(reader, i)),
                ('extract_xline_3d({})'.format(x), lambda: extract_xline_3d(reader, x)),
                ('extract_inline_3d({}, {!r})'.format(good_i, bad_xs), lambda: extract_inline_3d(reader, good_i, bad_xs)),
                ('extract_inline_3d({}, samples {!r})'.format(good_i, bad_ss), lambda: extract_inline_3d(reader, good_i, None, bad_ss, 0)),
                ('extract_xline_3d({}, {!r})'.format(good_x, bad_is), lambda: extract_xline_3d(reader, good_x, bad_is)),
                ('extract_xline_3d({}, samples {!r})'.format(good_x, bad_ss), lambda: extract_xline_3d(reader, good_x, sample_numbers=bad_ss)),
                ('extract_timeslice_3d({})'.format(truth.longest), lambda: extract_timeslice_3d(reader, truth.longest)),
                ('extract_timeslice_3d(-1)', lambda: extract_timeslice_3d(reader, -1)),
                ('extract_timeslice_3d(0, {!r})'.format(bad_is), lambda: extract_timeslice_3d(reader, 0, bad_is)),
                ('extract_timeslice_3d(0, None, {!r})'.format(bad_xs), lambda: extract_timeslice_3d(reader, 0, None, bad_xs, 3)),
                ('header field at {!r}'.format(bad_is), lambda: extract_trace_header_field_3d(reader, ['cdp_x'], bad_is)),
                ('header field at crosslines {!r}'.format(bad_xs), lambda: extract_trace_header_field_3d(reader, ['cdp_x'], None, bad_xs, 0)),
        ]:
            ctx.raises(ValueError, fn, what)
            ctx.count('refused')
    for fields in (['nothing'], ['cdp_x', 'no_such_field'], ['LENGTH_IN_BYTES_']):
        ctx.raises(AttributeError, lambda: extract_trace_header_field_3d(reader, fields), 'fields {!r}'.format(fields))
        ctx.raises(AttributeError, lambda: extract_trace_headers(reader, fields), 'fields {!r}'.format(fields))
        ctx.count('refused')
    for fields in ([3], [None], [b'cdp_x']):
        ctx.raises(TypeError, lambda: extract_trace_header_field_3d(reader, fields), 'fields {!r}'.format(fields))
    # and afterwards
    array = extract_trace_header_field_3d(reader, ['inline_number', 'crossline_number'], null=0)
    compare(ctx, array.inline_number, truth.inlines, truth.xlines, lambda i, x: i if (i, x) in truth.index else None, 0, array.inline_number.dtype, 'inline_number')
    compare(ctx, array.crossline_number, truth.inlines, truth.xlines, lambda i, x: x if (i, x) in truth.index else None, 0, array.crossline_number.dtype, 'crossline_number')
    ctx.evaluated(m.encode())


def supersets(ctx):
    """The tests for subsets agree with sets."""
    rng = ctx.rng

    def random_range():
        a = rng.randint(-20, 20)
        return range(a, a + rng.randint(-25, 25), rng.choice([1, 1, 2, 3, 4, 6, -1, -2, -3, 7]))
    for _ in range(60):
        a, b = random_range(), random_range()
        if rng.random() < 0.5 and len(a):
            b = a[rng.randrange(len(a))::rng.choice([1, 2, 3, -1, -2])][:rng.randint(0, 9)]
        if rng.random() < 0.5 and len(a):
            # Irregular, some of them from in between, the ends mostly included
            others = [n for n in range(min(a), max(a)) if n not in a] if rng.random() < 0.5 else []
            b = sorted({n for n in a if rng.random() < 0.5} | ({a[0], a[-1]} if rng.random() < 0.8 else set()) | set(rng.sample(others, min(len(others), rng.choice([1, 1, 2])))))
        truth = set(a) >= set(b)
        if isinstance(b, range):
            ctx.eq(bool(is_range_superset_of_range(a, b)), truth, 'is_range_superset_of_range({}, {})'.format(a, b))
        kinds = [list, tuple, set, frozenset, SortedFrozenSet, lambda r: r]
        p, q = rng.choice(kinds + [lambda r: r] * 3)(a), rng.choice(kinds)(b)
        ctx.eq(bool(is_superset(p, q)), truth, 'is_superset({!r}, {!r})'.format(p, q))
        ctx.count('supersets' if truth else 'others')
        p = rng.choice([sorted, SortedFrozenSet, lambda r: range(min(r), max(r) + 1, abs(r.step)) if len(r) else r])(a)
        if truth:
            ctx.eq(list(ensure_superset(p, q)), sorted(set(b)), 'ensure_superset({!r}, {!r})'.format(p, q))
        else:
            ctx.raises(ValueError, lambda: ensure_superset(p, q), 'ensure_superset({!r}, {!r})'.format(p, q))
        ctx.evaluated(repr((p, q)))
    for fmt, name in [('ibm', 'float32'), ('int32', 'int32'), ('nnint32', 'uint32'), ('int16', 'int16'), ('nnint16', 'uint16'),
                      ('float32', 'float32'), ('int8', 'int8'), ('nnint8', 'uint8')]:
        ctx.eq(make_dtype(fmt).name, name, 'make_dtype({!r})'.format(fmt))
    for bad in ('', 'int64', 'IBM', 'f4'):
        ctx.raises(ValueError, lambda: make_dtype(bad), 'make_dtype({!r})'.format(bad))


QUICK_SCALE = 4  # The cases are short: so many times those given below are run in the quick tier
SCENARIOS = [
    Scenario('sections', sections, 250, 5000, ['inlines', 'crosslines', 'elements', 'masked_elements', 'null_elements', 'selected_by_slice', 'selected_by_range', 'selected_by_list']),
    Scenario('timeslices', timeslices, 200, 4000, ['timeslices', 'elements', 'masked_elements']),
    Scenario('header-fields', header_fields, 150, 3000, ['fields_extracted', 'header_columns', 'elements']),
    Scenario('traces', traces, 150, 3000, ['traces_extracted', 'samples_of_traces', 'indexes_refused', 'unsuitable_readers']),
    Scenario('economy', economy, 100, 2000, ['extractions_traced', 'timeslices_traced']),
    Scenario('refusals', refusals, 80, 1200, ['refused']),
    Scenario('supersets', supersets, 50, 1000, ['supersets', 'others']),
]
