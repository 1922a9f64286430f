"""C25: the documented usage and the example programs do what they say, end to end."""

import ast
import contextlib
import importlib.util
import io
import math
import os
import re
import struct
import sys

import numpy

from segpy.reader import create_reader
from segpy.writer import write_segy

from harness import core, gen, model, observe
from harness.core import Scenario
from harness.gen import expected_dimensionality
from harness.model import FLOAT32, IBM, IbmWord

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = ('A case is a random big-endian SEG-Y file of recognisable text given to one of the example programs, usually twice, so the second run uses '
        'the cache; its exit status, output and output file are judged against the model of the file. Distinct by program, arguments and content.')
ASSUMPTIONS = ['text is mostly letters, digits and spaces, so its encoding is recognised', 'out of memory, permissions and file systems are as usual']

EXAMPLES = os.path.join(core.REPO, 'examples')
NUMPY_EXAMPLES = os.path.join(core.REPO, 'segpy-ext', 'segpy_numpy', 'examples')

_programs = {}


def program(name):
    if name not in _programs:
        for d in (EXAMPLES, NUMPY_EXAMPLES):
            path = os.path.join(d, name + '.py')
            if os.path.exists(path):
                spec = importlib.util.spec_from_file_location('example_' + name, path)
                module = importlib.util.module_from_spec(spec)
                spec.loader.exec_module(module)
                _programs[name] = module
                break
    return _programs[name]


def run(ctx, name, *argv):
    """Run an example as its last line does: sys.exit(main()). Returns status, stdout and stderr."""
    out, err = io.StringIO(), io.StringIO()
    before = sys.argv
    sys.argv = [name + '.py'] + [str(a) for a in argv]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                status = program(name).main() if ctx.rng.random() < 0.5 else program(name).main([str(a) for a in argv])
            except SystemExit as e:
                status = e.code
    finally:
        sys.argv = before
    ctx.count('runs')
    ctx.state(name, status)
    return status, out.getvalue(), err.getvalue()


def expect(ctx, status, wanted, name, argv, err):
    if status != wanted:
        ctx.fail('{} {}: exit status {}, expected {}: {}'.format(name, argv, status, wanted, err[-600:]))


def survey(rng, fmt=None, kind=None, finite=True, **kw):
    m = gen.file_model(rng, fmt=fmt, endian='>', revision='rev1', text='conventional', geometry_kind=kind, max_side=rng.choice([2, 4]),
                       max_samples=rng.choice([3, 20]), **kw)
    if finite and m.format == FLOAT32:
        m.traces = [(h, [s if math.isfinite(s) else 1.5 for s in samples]) for h, samples in m.traces]
    return m


def prepare(ctx, m):
    path = observe.write_file(ctx.path('in.sgy'), m.encode())
    return path


def output(ctx, path):
    with open(path, 'rb') as f:
        return f.read()


def finish(ctx, m, path, name, *key):
    ctx.eq(output(ctx, path), m.encode(), 'the input of ' + name)
    ctx.count('files_compared')
    ctx.evaluated(name, m.encode(), *key)


def percentages(ctx, out, label, name):
    values = [int(v) for v in re.findall(r'^{} : (-?\d+)%$'.format(label), out, re.M)]
    ctx.check(values and values[-1] == 100 and values == sorted(values) and values[0] >= 0, '{}: progress {} {}', name, label, values)


def load_save(ctx):
    rng = ctx.rng
    m = survey(rng, finite=False)
    path = prepare(ctx, m)
    for i in range(2):
        target = ctx.path('out{}.sgy'.format(i))
        status, out, err = run(ctx, 'loadsave', path, target)
        expect(ctx, status, os.EX_OK, 'loadsave', m.summary(), err)
        observe.check_bytes(ctx, output(ctx, target), m.encode(), m, 'file saved by loadsave')
        percentages(ctx, out, 'Copying', 'loadsave')
        if i == 0:
            percentages(ctx, out, 'Cataloging', 'loadsave')
    # What was saved can be loaded
    again = ctx.path('again.sgy')
    status, out, err = run(ctx, 'loadsave', target, again)
    expect(ctx, status, os.EX_OK, 'loadsave', m.summary(), err)
    observe.check_bytes(ctx, output(ctx, again), m.encode(), m, 'file saved again')
    finish(ctx, m, path, 'loadsave')


def converted(m, fmt):
    def convert(x):
        x = model.stored_sample(IBM, x)
        if fmt in model.INT_RANGE:
            lo, hi = model.INT_RANGE[fmt]
            return max(lo, min(hi, math.trunc(x)))
        return x
    out = m.copy(traces=[(h, [convert(s) for s in samples]) for h, samples in m.traces])
    out.binary = dict(m.binary, data_sample_format=fmt)
    return out


def restrained(rng, m):
    """Samples whose conversion to IEEE floats is exact or rounding, but never out of range, nor vanishing when they are returned."""
    def keep(x):
        v = abs(model.stored_sample(IBM, x))
        return v == 0 and not isinstance(x, IbmWord) or 1e-30 < v < 1e37
    return m.copy(traces=[(h, [s if keep(s) else float(rng.randint(-40000, 40000)) for s in samples]) for h, samples in m.traces])


def convert_sample_type(ctx):
    rng = ctx.rng
    m = survey(rng, fmt=IBM)
    m = restrained(rng, m)
    path = prepare(ctx, m)
    for fmt in rng.sample(model.FORMATS, 3):
        target = ctx.path('out{}.sgy'.format(fmt))
        status, out, err = run(ctx, 'convert_sample_type', model.SEGY_TYPE[fmt], path, target)
        expect(ctx, status, os.EX_OK, 'convert_sample_type', (model.SEGY_TYPE[fmt], m.summary()), err)
        expected = converted(m, fmt)
        observe.check_bytes(ctx, output(ctx, target), expected.encode(), expected, 'file converted to ' + model.SEGY_TYPE[fmt])
        with open(target, 'rb') as f:
            observe.check_reader(ctx, create_reader(f, encoding=m.encoding, cache_directory=None), expected)
        if fmt != IBM:
            status, out, err = run(ctx, 'convert_sample_type', 'ibm', target, ctx.path('back.sgy'))
            expect(ctx, status, os.EX_SOFTWARE, 'convert_sample_type', 'of a file which is not of IBM floats', err)
    status, out, err = run(ctx, 'convert_sample_type', rng.choice(['float64', 'INT8', '', '5']), path, ctx.path('none.sgy'))
    expect(ctx, status, os.EX_USAGE, 'convert_sample_type', 'to an unknown format', err)
    ctx.check(not os.path.exists(ctx.path('none.sgy')), 'a file was made by converting to an unknown format')
    status, out, err = run(ctx, 'convert_sample_type', 'int32', path, path)
    expect(ctx, status, os.EX_USAGE, 'convert_sample_type', 'to the same file', err)
    finish(ctx, m, path, 'convert_sample_type')


def scale_samples(ctx):
    rng = ctx.rng
    m = survey(rng)
    factor = rng.choice([1.0, 2.0, 0.5, -1.0, 0.0, 16.0, 100.0, rng.uniform(-3, 3)])
    if m.format == IBM:
        m = restrained(rng, m)
    path = prepare(ctx, m)
    largest = 3.402823e38

    def scale(x):
        y = model.stored_sample(m.format, x) * factor
        if m.format in model.INT_RANGE:
            lo, hi = model.INT_RANGE[m.format]
            return max(lo, min(hi, math.trunc(y)))
        if m.format == FLOAT32:
            return max(-largest, min(largest, y))
        return y

    expected = m.copy(traces=[(h, [scale(s) for s in samples]) for h, samples in m.traces])
    target = ctx.path('out.sgy')
    for _ in range(2):
        status, out, err = run(ctx, 'scale_samples', factor, path, target)
        expect(ctx, status, os.EX_OK, 'scale_samples', (factor, m.summary()), err)
        observe.check_bytes(ctx, output(ctx, target), expected.encode(), expected, 'file scaled by {}'.format(factor))
    finish(ctx, m, path, 'scale_samples', factor)


def scale_coordinates(ctx):
    rng = ctx.rng
    m = survey(rng, finite=False)
    factor = rng.choice([1.0, 2.0, 0.5, -1.0, 0.0, 10.0, rng.uniform(-3, 3)])
    if rng.random() < 0.7:
        for h, _ in m.traces:
            h['source_x'], h['source_y'] = rng.randint(-10**8, 10**8), rng.randint(-10**8, 10**8)
    path = prepare(ctx, m)
    expected = m.copy()
    fits = True
    for h, _ in expected.traces:
        for name in ('source_x', 'source_y'):
            h[name] = math.trunc(h.get(name, 0) * factor)
            fits = fits and -2**31 <= h[name] < 2**31
    target = ctx.path('out.sgy')
    status, out, err = run(ctx, 'scale_source_coords', factor, path, target)
    expect(ctx, status, os.EX_OK if fits else os.EX_SOFTWARE, 'scale_source_coords', (factor, m.summary()), err)
    if fits:
        observe.check_bytes(ctx, output(ctx, target), expected.encode(), expected, 'file with coordinates scaled by {}'.format(factor))
        percentages(ctx, out, 'Transforming', 'scale_source_coords')
    finish(ctx, m, path, 'scale_source_coords', factor)


def lines_of(m):
    triples = observe.model_triples(m)
    if expected_dimensionality(triples) != 3:
        return None
    pairs = {(i, x): t for t, (i, x, _) in enumerate(triples)}
    return sorted({i for i, _ in pairs}), sorted({x for _, x in pairs}), pairs


def dtype_of(m):
    return {IBM: 'f4', FLOAT32: 'f4', 2: 'i4', 3: 'i2', 8: 'i1'}[m.format]


def slices(ctx):
    """timeslice, extract_inline and extract_trace_header_field."""
    rng = ctx.rng
    m = survey(rng, kind=rng.choice(['grid', 'grid', 'sparse', 'shuffled', 'line', 'one', 'irregular']))
    if m.format == IBM:
        m = restrained(rng, m)
    path = prepare(ctx, m)
    lines = lines_of(m)
    longest = max((len(s) for _, s in m.traces), default=0)
    null = rng.choice([0, 7, -3])
    # timeslice
    index = rng.choice([0, longest - 1, rng.randint(0, max(0, longest - 1)), longest, -1])
    target = ctx.path('slice.npy')
    argv = [path, target] + (['--null={}'.format(null)] if null or rng.random() < 0.5 else []) + (['--dtype=f8'] if rng.random() < 0.3 else [])
    argv += ['--', index]
    status, out, err = run(ctx, 'timeslice', *argv)
    if lines is None or not 0 <= index < longest:
        expect(ctx, status, os.EX_SOFTWARE, 'timeslice', (argv, m.summary()), err)
        ctx.check(not os.path.exists(target), 'timeslice left a file')
    else:
        expect(ctx, status, os.EX_OK, 'timeslice', (argv, m.summary()), err)
        inlines, xlines, pairs = lines
        expected = numpy.full((len(inlines), len(xlines)), null, 'f8' if '--dtype=f8' in argv else dtype_of(m))
        for (i, x), t in pairs.items():
            s = m.stored_samples(t)
            if index < len(s):
                expected[inlines.index(i), xlines.index(x)] = s[index]
        actual = numpy.load(target)
        same_array(ctx, actual, expected, 'time slice {}'.format(index))
        ctx.count('slices')
    # An inline
    if lines is not None and lines[0]:
        inlines, xlines, pairs = lines
        inline = rng.choice(inlines + [inlines[-1] + 1])
        target = ctx.path('inline.dat')
        argv = [path, target] + (['--null={}'.format(null)] if null or rng.random() < 0.5 else []) + ['--', inline]
        status, out, err = run(ctx, 'extract_inline', *argv)
        if inline not in inlines:
            expect(ctx, status, os.EX_SOFTWARE, 'extract_inline', (argv, m.summary()), err)
            ctx.check(not os.path.exists(target), 'extract_inline left a file')
        elif len(argv) == 4 and status == os.EX_SOFTWARE and 'NotImplementedError' in err and 'tofile' in err:
            ctx.known('extract-inline-without-null', 'extract_inline.py {} failed: {}'.format(argv, err[-300:]))
        else:
            expect(ctx, status, os.EX_OK, 'extract_inline', (argv, m.summary()), err)
            expected = numpy.full((len(xlines), longest), null, dtype_of(m))
            for k, x in enumerate(xlines):
                if (inline, x) in pairs:
                    s = m.stored_samples(pairs[inline, x])
                    expected[k, :len(s)] = s
            actual = numpy.fromfile(target, dtype_of(m))
            ctx.eq(actual.size, expected.size, 'size of the inline')
            same_array(ctx, actual.reshape(expected.shape), expected, 'inline {}'.format(inline))
            ctx.count('inlines')
        # A header field
        name, _, code, default, _ = rng.choice(model.TRACE_REV1)
        target = ctx.path('field.dat')
        given = rng.choice([None, max(0, null)])
        argv = [path, target] + (['--null={}'.format(given)] if given is not None else []) + ['--', name]
        status, out, err = run(ctx, 'extract_trace_header_field', *argv)
        ctx.count('fields')
        if given is not None and not os.path.exists(target) and status == os.EX_SOFTWARE and 'TypeError' in err:
            ctx.known('extract-trace-header-field-null-as-inlines', 'extract_trace_header_field.py {} gave exit status {} and wrote no file'.format(argv, status))
        elif given is None and status == os.EX_OK and not os.path.exists(target):
            ctx.known('extract-trace-header-field-not-saved', 'extract_trace_header_field.py {} succeeded but wrote no file'.format(argv))
        else:
            expect(ctx, status, os.EX_OK, 'extract_trace_header_field', (argv, m.summary()), err)
            expected = numpy.full((len(inlines), len(xlines)), given or 0, 'i4' if code == 'i' else 'i2')
            for (i, x), t in pairs.items():
                expected[inlines.index(i), xlines.index(x)] = m.trace_values(t)[name]
            actual = numpy.fromfile(target, expected.dtype)
            ctx.eq(actual.tolist(), expected.ravel().tolist(), 'field {}'.format(name))
    finish(ctx, m, path, 'slices', index)


def same_array(ctx, actual, expected, what):
    ctx.eq(actual.dtype, expected.dtype, 'type of ' + what)
    ctx.eq(actual.shape, expected.shape, 'shape of ' + what)
    if not numpy.array_equal(actual, expected, equal_nan=expected.dtype.kind == 'f'):
        ctx.fail('{}: observed {}, expected {}'.format(what, actual.tolist(), expected.tolist()))


def reports(ctx):
    rng = ctx.rng
    m = survey(rng, finite=False)
    m.pages = [[line.replace("'", ' ').replace('\\', ' ') for line in p] for p in m.pages]
    wide = rng.random() < 0.3
    path = prepare(ctx, m)
    data = m.encode()
    name = rng.choice(['report', 'custom_header'])
    if name == 'custom_header' and wide:
        # More samples than are allowed in the standard header
        data = bytearray(data)
        struct.pack_into('>H', data, 3220, rng.randint(32768, 65535))
        data = bytes(data)
        observe.write_file(path, data)
        ctx.count('wide_headers')
    triples = observe.model_triples(m)
    d = expected_dimensionality(triples)
    for _ in range(2):
        status, out, err = run(ctx, name, path)
        expect(ctx, status, os.EX_OK, name, m.summary(), err)

        def value(label):
            found = re.findall(r'^{}: +(.*)$'.format(label), out, re.M)
            return found[0] if len(found) == 1 else found

        ctx.eq(value('Filename'), path, 'Filename')
        ctx.eq(value('Number of traces'), str(len(m.traces)), 'Number of traces')
        ctx.eq(value('Dimensionality'), str(d), 'Dimensionality')
        ctx.eq(value('Number of CDPs'), str(len({c for _, _, c in triples})) if d == 2 else [], 'Number of CDPs')
        ctx.eq(value('Number of inlines'), str(len({i for i, _, _ in triples})) if d == 3 else [], 'Number of inlines')
        ctx.eq(value('Number of crosslines'), str(len({x for _, x, _ in triples})) if d == 3 else [], 'Number of crosslines')
        body = out.split('=== BEGIN TEXTUAL REEL HEADER ===\n')[1].split('=== END TEXTUAL REEL HEADER ===')[0]
        ctx.eq(body, ''.join(line[3:] + '\n' for line in m.text), 'the textual header')
        body = out.split('=== BEGIN EXTENDED TEXTUAL HEADER ===\n')[1].split('\n=== END EXTENDED TEXTUAL_HEADER ===')[0]
        ctx.eq([list(p) for p in ast.literal_eval(body)], m.pages, 'the extended header')
    ctx.count('reports')
    ctx.eq(output(ctx, path), data, 'the input of ' + name)
    # The positions of every trace, unless the header is not standard
    if data == m.encode():
        status, out, err = run(ctx, 'trace_positions', path)
        expect(ctx, status, os.EX_OK, 'trace_positions', m.summary(), err)
        expected = [(t, m.trace_values(t)['cdp_x'], m.trace_values(t)['cdp_y']) for t in range(len(m.traces))]
        actual = [tuple(int(v) for v in re.findall(r'-?\d+', line)) for line in out.splitlines()]
        ctx.eq(actual, expected, 'positions')
        ctx.count('positions', len(expected))
        status, out, err = run(ctx, 'timed_reader', path)
        expect(ctx, status, os.EX_OK, 'timed_reader', m.summary(), err)
        ctx.eq(len(re.findall(r'seconds$', out, re.M)), 3, 'times')
    ctx.eq(output(ctx, path), data, 'the input of ' + name)
    ctx.evaluated(name, data)


def readme(ctx):
    """The conversion of the README: non-standard little-endian to standard big-endian."""
    rng = ctx.rng
    m = gen.file_model(rng, endian='<', revision='rev1', text='conventional', max_side=3)
    path = prepare(ctx, m)
    expected = m.copy(endian='>')
    for _ in range(2):
        target = ctx.path('seismic_big.sgy')
        with open(path, 'rb') as segy_in_file:
            seg_y_dataset = create_reader(segy_in_file, endian='<')
            ctx.eq(seg_y_dataset.num_traces(), len(m.traces), 'num_traces()')
            with open(target, 'wb') as segy_out_file:
                write_segy(segy_out_file, seg_y_dataset, endian='>')
        observe.check_bytes(ctx, output(ctx, target), expected.encode(), expected, 'big-endian file')
    # Everything can be done to the result
    status, out, err = run(ctx, 'loadsave', target, ctx.path('copy.sgy'))
    expect(ctx, status, os.EX_OK, 'loadsave', m.summary(), err)
    observe.check_bytes(ctx, output(ctx, ctx.path('copy.sgy')), expected.encode(), expected, 'copy of the big-endian file')
    ctx.count('conversions')
    finish(ctx, m, path, 'readme')


PROGRAMS = {
    'loadsave': lambda path, out: [path, out],
    'convert_sample_type': lambda path, out: ['int16', path, out],
    'scale_samples': lambda path, out: ['2.0', path, out],
    'scale_source_coords': lambda path, out: ['2.0', path, out],
    'timeslice': lambda path, out: [path, out, '0'],
    'extract_inline': lambda path, out: [path, out, '1'],
    'extract_trace_header_field': lambda path, out: [path, out, 'trace_num'],
    'report': lambda path, out: [path],
    'custom_header': lambda path, out: [path],
    'timed_reader': lambda path, out: [path],
    'trace_positions': lambda path, out: [path],
}


def refusals(ctx):
    """Exit statuses for missing, unreadable and malformed files, and for missing arguments."""
    rng = ctx.rng
    m = survey(rng)
    data = m.encode()
    malformed = bytearray(data)
    struct.pack_into('>h', malformed, 3224, rng.choice([0, 4, 6, 7, 9, -1]))
    files = {
        'missing': (None, os.EX_NOINPUT),
        'directory': (None, os.EX_NOINPUT),
        'empty': (b'', os.EX_SOFTWARE),
        'short': (data[:rng.randrange(3600)], os.EX_SOFTWARE),
        'malformed': (bytes(malformed), os.EX_SOFTWARE),
    }
    for kind, (content, wanted) in files.items():
        path = ctx.path(kind + '.sgy')
        if kind == 'directory':
            os.mkdir(path)
        elif content is not None:
            observe.write_file(path, content)
        for name, arguments in PROGRAMS.items():
            argv = arguments(path, ctx.path('out'))
            status, out, err = run(ctx, name, *argv)
            expect(ctx, status, wanted, name, (kind, argv), err)
            ctx.check(err.strip(), '{} of a {} file gave no message', name, kind)
            ctx.check('Number of traces' not in out, '{} of a {} file reported {}', name, kind, out)
            ctx.count('files_refused')
        if content is not None:
            ctx.eq(output(ctx, path), content, 'the {} file'.format(kind))
    for name in PROGRAMS:
        status, out, err = run(ctx, name)
        ctx.check(status in (2, os.EX_USAGE) and 'sage' in err, '{} without arguments: status {}, {!r}', name, status, err)
        ctx.count('usages')
    ctx.evaluated(data)


QUICK_SCALE = 3  # The cases are short: so many times those given below are run in the quick tier
SCENARIOS = [
    Scenario('load-save', load_save, 80, 1600, ['runs', 'files_compared']),
    Scenario('convert-sample-type', convert_sample_type, 60, 1200, ['runs', 'files_compared']),
    Scenario('scale-samples', scale_samples, 60, 1200, ['runs', 'files_compared']),
    Scenario('scale-coordinates', scale_coordinates, 60, 1200, ['runs', 'files_compared']),
    Scenario('slices', slices, 160, 3200, ['slices', 'inlines', 'fields']),
    Scenario('reports', reports, 80, 1600, ['reports', 'positions', 'wide_headers']),
    Scenario('readme', readme, 60, 1200, ['conversions']),
    Scenario('refusals', refusals, 10, 100, ['files_refused', 'usages']),
]
