"""C29: an installed implementation of the conversion of IBM floats does all of it, or none of it."""

import io
import os
import pickle
import random
import textwrap

from harness import child, gen, jobs, model
from harness.core import Scenario, brief
from harness.observe import TRACE_FORMATS, MemDataset

PROPERTY = 'C29'
LEVEL = 'exploration'
RULE = ('A case is a process in which some distributions register implementations (a right one under the name looked for, a differently behaving one, one '
        'under another name or for another purpose, one which cannot be loaded, one which fails), and a history of reading, writing and converting in it '
        'with the use of implementations switched off and on. The registered implementation negates, so that whatever it converts can be told from '
        'what anything else converts. Non-trivial: IBM samples were converted; distinct by distributions and content.')
ASSUMPTIONS = ['a registered implementation keeps the documented interface']

# Written from the definition of IBM floats; values are negated both ways if so constructed.
PLUGIN = '''
import struct
from array import array
from fractions import Fraction
{imports}
LOG = []
SIGN = {sign}


def decode(word):
    value = Fraction(word & 0xffffff, 1 << 24) * Fraction(16) ** ((word >> 24 & 0x7f) - 64)
    return float(-value if word >> 31 else value)


def encode(x):
    f = Fraction(x)
    if f == 0:
        return 0
    sign, f, e = (f < 0) << 31, abs(f), 64
    while f >= 1:
        f, e = f / 16, e + 1
    while f < Fraction(1, 16):
        f, e = f * 16, e - 1
    mantissa = int(f * (1 << 24))
    if e < 0:
        mantissa, e = mantissa >> -4 * e, 0
    return sign | e << 24 | mantissa


class Packer{base}:
    def __init__(self):
        LOG.append('made')
        {construction}

    def pack(self, values):
        {packing}
        return {bytes_type}(b''.join(struct.pack('>I', encode(SIGN * float(v))) for v in values))

    def unpack(self, data, num_items):
        {unpacking}
        return {sequence}([SIGN * decode(w) for (w,) in struct.iter_unpack('>I', bytes(data))])
'''


def distribution(directory, name, module, groups, **parts):
    """A distribution as it is found when installed."""
    values = dict(imports='', sign=-1, base='', construction='', packing='', unpacking='', bytes_type='bytes', sequence='list')
    values.update(parts)
    with open(os.path.join(directory, module + '.py'), 'w') as f:
        f.write(PLUGIN.format(**values))
    info = os.path.join(directory, '{}-1.0.dist-info'.format(name))
    os.mkdir(info)
    with open(os.path.join(info, 'METADATA'), 'w') as f:
        f.write(textwrap.dedent('''\
            Metadata-Version: 2.1
            Name: {}
            Version: 1.0
            ''').format(name))
    with open(os.path.join(info, 'entry_points.txt'), 'w') as f:
        for group, entries in groups.items():
            f.write('[{}]\n'.format(group))
            for entry in entries:
                f.write('{} = {}:Packer\n'.format(entry, module))
            f.write('\n')


GROUP = 'segpy.ibm_float_packer'


def carry_out(data):
    """Runs in the other process."""
    import segpy.ibm_float_packer as packer
    from segpy.reader import create_reader
    from segpy.toolkit import read_binary_values, write_binary_values
    from segpy.writer import write_segy

    def attempt(fn):
        try:
            return ('ok', fn())
        except Exception as e:
            return ('error', type(e).__name__, str(e))

    out = []
    kept = {}
    for forced, operation, args in pickle.loads(data):
        packer.force_python_ibm_floats = forced
        if operation == 'write':
            m, seed = args

            def go():
                fh = io.BytesIO()
                write_segy(fh, MemDataset(m, random.Random(seed), TRACE_FORMATS[m.revision]), encoding=m.encoding, endian=m.endian,
                           trace_header_format=TRACE_FORMATS[m.revision])
                return fh.getvalue()
        elif operation == 'read':
            contents, a, key = args

            def go():
                reader = kept[key] = kept.get(key) or create_reader(io.BytesIO(contents), cache_directory=None, **jobs.arguments(a))
                return [[float(s) for s in reader.trace_samples(i)] for i in reader.trace_indexes()]
        elif operation == 'part':
            key, i, start, stop = args

            def go():
                return [float(s) for s in kept[key].trace_samples(i, start, stop)]
        elif operation == 'rewrite':
            contents, a = args

            def go():
                fh = io.BytesIO()
                reader = create_reader(io.BytesIO(contents), cache_directory=None, **jobs.arguments(a))
                write_segy(fh, reader, encoding=reader.encoding, endian=reader.endian, trace_header_format=reader.trace_header_format_class)
                return fh.getvalue()
        elif operation == 'values':
            raw, samples, fmt, endian = args

            def go():
                fh = io.BytesIO()
                write_binary_values(fh, samples, fmt, endian)
                return fh.getvalue(), [float(v) for v in read_binary_values(io.BytesIO(raw), 0, fmt, len(raw) // (4 if fmt != 'int16' else 2), endian)]
        else:
            raw, samples = args

            def go():
                return bytes(packer.pack_ibm_floats(samples)), [float(v) for v in packer.unpack_ibm_floats(raw, len(raw) // 4)]
        out.append(attempt(go))
    return out


CONFIGURATIONS = ['none', 'negating', 'negating', 'right', 'other-name', 'other-group', 'unimportable', 'unconstructible', 'failing', 'beside-others', 'derived', 'sequences']


def ibm_model(rng, fmt=model.IBM, **kw):
    m = gen.file_model(rng, max_side=3, max_samples=8, fmt=fmt, **kw)
    # Exactly representable; no bit patterns
    return m.copy(traces=[(h, m.stored_samples(i)) for i, (h, samples) in enumerate(m.traces)])


def negated(m):
    return m.copy(traces=[(h, [-s for s in samples]) for h, samples in m.traces])


def histories(ctx):
    rng = ctx.rng
    kind = CONFIGURATIONS[ctx.case % len(CONFIGURATIONS)]
    where = ctx.path('site')
    os.mkdir(where)
    active, sign, failing = True, -1, None
    if kind == 'none':
        active = False
    elif kind == 'negating':
        distribution(where, 'fast', 'fast_ibm', {GROUP: ['cpp']})
    elif kind == 'right':
        distribution(where, 'fast', 'fast_ibm', {GROUP: ['cpp']}, sign=1)
        sign = 1
    elif kind == 'other-name':
        distribution(where, 'fast', 'fast_ibm', {GROUP: rng.sample(['c', 'fast', 'python', 'CPP', 'cpp2'], 2)})
        active = False
    elif kind == 'other-group':
        distribution(where, 'fast', 'fast_ibm', {rng.choice(['segpy', 'segpy.packer', 'segpy.ibm_float_packers', 'other.ibm_float_packer']): ['cpp']})
        active = False
    elif kind == 'unimportable':
        distribution(where, 'fast', 'fast_ibm', {GROUP: ['cpp']}, imports=rng.choice(['import nonexistent_library', 'raise OSError("wrong architecture")', 'from math import nonexistent']))
        active = False
    elif kind == 'unconstructible':
        distribution(where, 'fast', 'fast_ibm', {GROUP: ['cpp']}, construction='raise RuntimeError("no such processor")')
        active = False
    elif kind == 'failing':
        distribution(where, 'fast', 'fast_ibm', {GROUP: ['cpp']}, packing='raise ZeroDivisionError("from pack")', unpacking='raise ZeroDivisionError("from unpack")')
        failing = 'ZeroDivisionError'
    elif kind == 'beside-others':
        distribution(where, 'slow', 'slow_ibm', {GROUP: ['slow', 'ccc'], 'other': ['cpp']}, packing='raise AssertionError("used")', unpacking='raise AssertionError("used")')
        distribution(where, 'broken', 'broken_ibm', {GROUP: ['another']}, imports='import nonexistent_library')
        distribution(where, 'fast', 'fast_ibm', {GROUP: ['cpp', 'also']})
    elif kind == 'derived':
        distribution(where, 'fast', 'fast_ibm', {GROUP: ['cpp']}, imports='from segpy.ibm_float_packer import PackerExtension', base='(PackerExtension)')
    else:
        distribution(where, 'fast', 'fast_ibm', {GROUP: ['cpp']}, sequence=rng.choice(['tuple', "lambda x: array('d', x)"]).join('()'), bytes_type='bytearray')
    ctx.note('distributions: ' + kind)
    if rng.random() < 0.4:
        switching = [rng.random() < 0.5]
    else:
        switching = [False, True]
    steps, expectations = [], []
    models = [ibm_model(rng), ibm_model(rng), gen.file_model(rng, max_side=2, max_samples=6, fmt=rng.choice([f for f in model.FORMATS if f != model.IBM]))]
    read = {}
    for _ in range(14):
        forced = rng.choice(switching)
        k = rng.randrange(len(models))
        m = models[k]
        a = dict(encoding=m.encoding, endian=m.endian, trace=m.revision)
        is_ibm = m.format == model.IBM
        converted = is_ibm and active and not forced
        turned = converted and sign == -1
        convertible = sum(1 for _, s in m.traces if s)
        operation = rng.choice(['write', 'read', 'part', 'rewrite', 'values', 'functions'])
        if operation == 'part' and not (k in read and m.traces):
            operation = 'read'
        if operation == 'write':
            args = (m, rng.getrandbits(40))
            expected = (negated(m) if turned else m).encode()
            calls = len(m.traces)
        elif operation == 'read':
            args = (m.encode(), a, k)
            expected = [[-s if turned else s for s in m.stored_samples(i)] for i in range(len(m.traces))]
            read[k] = True
            calls = len(m.traces)
        elif operation == 'part':
            i = rng.randrange(len(m.traces))
            n = len(m.traces[i][1])
            start = rng.randint(0, n)
            stop = rng.randint(start, n)
            args = (k, i, start, stop)
            expected = [-s if turned else s for s in m.stored_samples(i)[start:stop]]
            calls = 1
        elif operation == 'rewrite':
            args = (m.encode(), a)
            # Negated twice
            expected = m.encode()
            calls = len(m.traces)
        else:
            samples = [s for _, t in m.traces for s in t]
            raw = model.encode_samples(m.format, samples, m.endian)
            if operation == 'values' and m.format != model.INT8:
                args = (raw, samples, m.segy_type, m.endian)
            else:
                operation = 'functions'
                samples = [model.stored_sample(model.IBM, gen.ibm_representable(rng)) for _ in range(rng.randint(0, 5))]
                raw = model.encode_samples(model.IBM, samples, '>')
                args = (raw, samples)
                converted, is_ibm = active and not forced, True
                turned = converted and sign == -1
            fmt, endian = (model.IBM, '>') if is_ibm else (m.format, m.endian)
            expected = (model.encode_samples(fmt, [-s for s in samples] if turned else samples, endian),
                        [-s if turned else s for s in model.decode_samples(fmt, raw, endian)])
            calls = 1
            convertible = 1
        steps.append((forced, operation, args))
        expectations.append((forced, operation, expected, failing is not None and converted and calls > 0, converted and convertible, is_ibm))
    answer = child.run(ctx, 'carry_out', pickle.dumps(steps), module='checks.c29',
                       variables={'PYTHONPATH': where, 'XDG_CACHE_HOME': ctx.path('cache')})
    if answer[0] != 'ok':
        ctx.fail('with distributions {}: {}: {}'.format(kind, *answer[1:]))
    for step, (got, (forced, operation, expected, fails, converted, is_ibm)) in enumerate(zip(answer[1], expectations)):
        what = 'step {} ({}), {}, {}: {}'.format(step, operation, kind, 'switched off' if forced else 'switched on', 'IBM samples' if is_ibm else 'other samples')
        if fails:
            ctx.check(got[0] == 'error' and got[1] == failing, '{}: {} rather than the error of the implementation', what, brief(got))
            ctx.count('errors_of_implementation')
            continue
        if failing is not None and operation == 'part' and got[0] == 'error' and got[1] == 'KeyError':
            # Reading failed before
            continue
        if got[0] != 'ok':
            ctx.fail('{}: {}: {}'.format(what, *got[1:]))
        got = got[1]
        if isinstance(expected, bytes):
            if got != expected:
                ctx.fail('{}: wrote {}, expected {}'.format(what, brief(got), brief(expected)))
        elif isinstance(expected, tuple):
            ctx.check(got[0] == expected[0], '{}: packed {}, expected {}', what, brief(got[0]), brief(expected[0]))
            same_values(ctx, got[1], expected[1], what)
        elif operation == 'part':
            same_values(ctx, got, expected, what)
        else:
            ctx.eq(len(got), len(expected), what + ': number of traces')
            for i, (g, e) in enumerate(zip(got, expected)):
                same_values(ctx, g, e, '{}: trace {}'.format(what, i))
        if is_ibm:
            ctx.count('converted_by_implementation' if converted else 'converted_otherwise')
            if forced and active:
                ctx.count('switched_off')
        else:
            ctx.count('other_samples')
    ctx.count('configuration_' + kind.replace('-', '_'))
    ctx.state(kind, tuple(switching))
    ctx.evaluated(kind, *[m.encode() for m in models])
    ctx.sample(kind=kind, steps=[s[:2] for s in steps[:6]])


def same_values(ctx, actual, expected, what):
    ctx.eq(len(actual), len(expected), what + ': number of samples')
    for i, (a, e) in enumerate(zip(actual, expected)):
        if not (a == e or (a != a and e != e)):
            ctx.fail('{}: sample {} is {!r}, expected {!r}'.format(what, i, a, e))
    ctx.count('samples_compared', len(expected))


SCENARIOS = [
    Scenario('histories', histories, 96, 1200, ['converted_by_implementation', 'converted_otherwise', 'switched_off', 'other_samples', 'errors_of_implementation', 'samples_compared']
             + ['configuration_' + k.replace('-', '_') for k in CONFIGURATIONS]),
]
