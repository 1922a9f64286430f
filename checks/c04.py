import math
import struct
from array import array
from fractions import Fraction

import numpy

from segpy.ibm_float import IBMFloat, ibm2ieee, ieee2ibm
from segpy.ibm_float_packer import pack_ibm_floats, unpack_ibm_floats

from harness import gen, model
from harness.core import Scenario

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = ('A case is a batch of IBM words to decode (every first byte with boundary and random mantissas, random words), of doubles to encode '
        '(every binary exponent in and around the range with boundary and random mantissas, both signs, values adjacent to representable ones), '
        'or of sequences to pack or unpack. Non-trivial: a non-zero word or value; distinct by bits.')
ASSUMPTIONS = ['the number denoted by an IBM word is (-1)^s * 0.mantissa * 16^(exponent - 64); a word with zero mantissa denotes zero']

MAX = float(model.MAX_IBM)
MANTISSAS = sorted({0, 1, 2, 15, 16, 17, 255, 256, 0x0fffff, 0x100000, 0x100001, 0x1fffff, 0x200000, 0x7fffff, 0x800000, 0xfffffe, 0xffffff,
                    0x123456, 0xabcdef} | {1 << i for i in range(24)} | {0xffffff >> i for i in range(24)} | {0xf << (4 * i) for i in range(6)})


def decode(ctx, word):
    b = struct.pack('>I', word)
    expected = model.ibm_float(word)
    assert Fraction(expected) == model.ibm_fraction(word)
    k = word % 3
    actual = ibm2ieee(b)
    if not (actual == expected and type(actual) is float):
        ctx.fail('ibm2ieee({}) is {!r}, expected {!r}'.format(b.hex(), actual, expected))
    f = IBMFloat.from_bytes(b) if k else IBMFloat(bytearray(b))
    if not (float(f) == expected and bytes(f) == b):
        ctx.fail('IBMFloat of {} is {!r}, expected {!r}'.format(b.hex(), f, expected))
    ctx.count('words_decoded')
    if word & 0xffffff:
        ctx.evaluated('d', word)
    else:
        ctx.evaluated()


def encode(ctx, x):
    expected = model.ibm_encode(x)
    if expected == 'zero':
        ctx.raises(FloatingPointError, lambda: ieee2ibm(x), 'ieee2ibm({!r})'.format(x))
        ctx.raises(FloatingPointError, lambda: IBMFloat.from_float(x), 'IBMFloat.from_float({!r})'.format(x))
        ctx.raises(FloatingPointError, lambda: pack_ibm_floats([x]), 'pack_ibm_floats([{!r}])'.format(x))
        ctx.eq(bytes(IBMFloat.from_float_without_underflow(x)), bytes(4), 'IBMFloat.from_float_without_underflow({!r})'.format(x))
        ctx.count('underflows')
    elif expected == 'range':
        ctx.raises(OverflowError, lambda: ieee2ibm(x), 'ieee2ibm({!r})'.format(x))
        ctx.raises(OverflowError, lambda: IBMFloat.from_real(x), 'IBMFloat.from_real({!r})'.format(x))
        ctx.raises(OverflowError, lambda: IBMFloat.from_float_without_underflow(x), 'IBMFloat.from_float_without_underflow({!r})'.format(x))
        ctx.raises(OverflowError, lambda: pack_ibm_floats([x]), 'pack_ibm_floats([{!r}])'.format(x))
        ctx.count('overflows')
    else:
        b = struct.pack('>I', expected)
        actual = ieee2ibm(x)
        if actual != b:
            ctx.fail('ieee2ibm({!r} = {}) is {}, expected {}'.format(x, x.hex() if isinstance(x, float) else x, actual.hex(), b.hex()))
        for made in (IBMFloat.from_float(x), IBMFloat.from_real(x), IBMFloat.from_float_without_underflow(x)):
            if bytes(made) != b:
                ctx.fail('IBMFloat constructed from {!r} is {}, expected {}'.format(x, bytes(made).hex(), b.hex()))
        # What is stored does not exceed the value, by less than one unit in the last place of a normalised mantissa
        back = Fraction(ibm2ieee(actual))
        f = Fraction(x)
        ctx.check(abs(back) <= abs(f) and (back == 0 or (back > 0) == (f > 0)), 'ieee2ibm({!r}) exceeds the value', x)
        if abs(f) >= Fraction(16) ** -65:
            ctx.check((abs(f) - abs(back)) * 2**20 < abs(f), 'ieee2ibm({!r}) loses more than 21 bits of precision', x)
        # Truncation is idempotent
        ctx.eq(ieee2ibm(ibm2ieee(actual)), b, 'ieee2ibm of a representable value')
        ctx.count('values_encoded')
    ctx.evaluated('e', repr(x))


def decode_systematic(ctx):
    """All first bytes, boundary mantissas."""
    first = ctx.case % 256
    for m in MANTISSAS:
        decode(ctx, (first << 24) | m)
    for _ in range(60):
        decode(ctx, (first << 24) | ctx.rng.getrandbits(24))
    ctx.sample(first_byte=hex(first), mantissas=len(MANTISSAS) + 60)
    ctx.state(first)


def decode_random(ctx):
    for _ in range(500):
        decode(ctx, ctx.rng.getrandbits(32))


FRACTIONS = sorted({0, 1, 2, 3, 2**52 - 1, 2**51, 2**52 - 2**28, 2**28, 2**28 - 1, 2**28 + 1, 2**29 - 1, 2**29, 2**30, 2**31, 2**32, 2**52 - 2**29,
                    2**52 - 2**30, 2**52 - 2**31, 2**52 - 2**32, 0xf << 48, 0x123456789abcd}
                   | {1 << i for i in range(0, 52, 3)} | {(1 << 52) - (1 << i) for i in range(0, 52, 3)})


def encode_systematic(ctx):
    """One binary exponent, boundary fractions, both signs."""
    e = -300 + ctx.case % 572
    ctx.state(e)
    for fraction in FRACTIONS + [ctx.rng.getrandbits(52) for _ in range(20)]:
        x = math.ldexp(1 + fraction / 2.0**52, e)
        encode(ctx, x)
        encode(ctx, -x)
    ctx.sample(exponent=e, values=2 * (len(FRACTIONS) + 20))


def encode_random(ctx):
    rng = ctx.rng
    for _ in range(60):
        # Neighbours of representable values
        x = model.ibm_float(rng.getrandbits(32))
        for y in (x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf), x * (1 + 2.0**-24), x * (1 - 2.0**-25)):
            encode(ctx, y) if y else None
        encode(ctx, gen.ibm_representable(rng))
        x = struct.unpack('>d', struct.pack('>Q', rng.getrandbits(64)))[0]
        if math.isfinite(x):
            encode(ctx, x)
        # Integers and numpy scalars
        encode(ctx, rng.getrandbits(rng.randint(1, 53)) * rng.choice([1, -1]))
        encode(ctx, numpy.float64(gen.ibm_representable(rng)))
    for special in (math.nan, math.inf, -math.inf, -math.nan, numpy.float64('nan'), numpy.float64('inf')):
        ctx.raises(ValueError, lambda: ieee2ibm(special), 'ieee2ibm({!r})'.format(special))
        ctx.raises(ValueError, lambda: IBMFloat.from_float(special), 'IBMFloat.from_float({!r})'.format(special))
        ctx.raises(ValueError, lambda: IBMFloat.from_float_without_underflow(special), 'IBMFloat.from_float_without_underflow({!r})'.format(special))
        ctx.raises(ValueError, lambda: pack_ibm_floats([1.0, special]), 'packing {!r}'.format(special))
        ctx.count('non_finite_values')
    for edge in (MAX, -MAX, math.nextafter(MAX, math.inf), -math.nextafter(MAX, math.inf), math.nextafter(MAX, 0), 16.0**63, 16.0**-65, 16.0**-64, 16.0**-70,
                 math.nextafter(16.0**-70, 0), -math.nextafter(16.0**-70, 0), -16.0**-70, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308):
        encode(ctx, edge)
    for zero in (0.0, -0.0, 0, numpy.float64(-0.0)):
        ctx.eq(ieee2ibm(zero), bytes(4), 'ieee2ibm({!r})'.format(zero))


def order(ctx):
    """Encoding preserves order: observed on sorted values."""
    rng = ctx.rng
    xs = sorted(gen.ibm_representable(rng) for _ in range(200))
    base = gen.ibm_representable(rng)
    near = base
    for _ in range(50):
        near = math.nextafter(near, math.inf)
        if abs(near) < MAX:
            xs.append(near)
    xs.sort()
    ys = [ibm2ieee(ieee2ibm(x)) for x in xs if x == 0 or abs(x) > 16.0**-70]
    ctx.check(all(a <= b for a, b in zip(ys, ys[1:])), 'encoding does not preserve order')
    ctx.count('ordered_pairs', len(ys) - 1)
    ctx.evaluated('o', xs[:3])


def sequences(ctx):
    rng = ctx.rng
    n = rng.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 63, 64, 65, 100, 255, 256, 257, 1000, 1024, 1025, rng.randint(0, 600)])
    if ctx.case % 40 == 0:
        n = gen.long_length(rng)
        ctx.count('long_sequences')
    words = [rng.choice([rng.getrandbits(32), rng.getrandbits(32), 0, 0x80000000, 0x7fffffff, 0x41100000]) for _ in range(n)]
    data = b''.join(struct.pack('>I', w) for w in words)
    extra = rng.randbytes(rng.choice([0, 0, 4, 5, 400]))
    buf = rng.choice([bytes, bytearray, memoryview])(data + extra)
    values = unpack_ibm_floats(buf, n)
    ctx.eq(len(values), n, 'number of values unpacked')
    for i, w in enumerate(words):
        if float(values[i]) != model.ibm_float(w):
            ctx.fail('value {} of {} unpacked from {:08x} is {!r}, expected {!r}'.format(i, n, w, values[i], model.ibm_float(w)))
    ctx.count('values_unpacked', n)
    xs = [gen.ibm_representable(rng) for _ in range(n)]
    if rng.random() < 0.1:
        xs = [0.0] * n
    expected = b''.join(model.ibm_bytes(x) for x in xs)
    kind = rng.choice(['list', 'tuple', 'array', 'iterator', 'generator', 'ndarray', 'memoryview', 'dict', 'ibm', 'mixed', 'scalars', 'f4'])
    if kind == 'f4':
        xs = [model.float32(x) for x in xs if 1e-37 < abs(x) < 1e38]
        expected = b''.join(model.ibm_bytes(x) for x in xs)
    seq = {'list': lambda: xs, 'tuple': lambda: tuple(xs), 'array': lambda: array('d', xs), 'iterator': lambda: iter(xs),
           'generator': lambda: (x for x in xs), 'ndarray': lambda: numpy.array(xs, 'f8'), 'memoryview': lambda: memoryview(array('d', xs)),
           'dict': lambda: dict(enumerate(xs)).values(), 'ibm': lambda: [IBMFloat.from_float(x) for x in xs],
           'mixed': lambda: [IBMFloat.from_float(x) if rng.random() < 0.5 else x for x in xs], 'scalars': lambda: list(numpy.array(xs, 'f8')),
           'f4': lambda: numpy.array(xs, 'f4')}[kind]()
    ctx.state(kind, n)
    actual = bytes(pack_ibm_floats(seq))
    if actual != expected:
        i = next((i for i in range(0, max(len(actual), len(expected)), 4) if actual[i:i+4] != expected[i:i+4]), None)
        ctx.fail('packing {} {} values: item {}: {} instead of {}'.format(len(xs), kind, i // 4, actual[i:i+4].hex(), expected[i:i+4].hex()))
    # IBMFloats keep their representation
    ctx.eq(bytes(pack_ibm_floats([IBMFloat.from_bytes(data[i:i+4]) for i in range(0, len(data), 4)])), data, 'packed IBMFloats')
    ints = [rng.randint(-2**20, 2**20) for _ in range(min(n, 50))]
    ctx.eq(bytes(pack_ibm_floats(ints)), b''.join(model.ibm_bytes(x) for x in ints), 'packed integers')
    ctx.count('values_packed', len(xs))
    ctx.evaluated('s', kind, data[:40], n)
    ctx.sample(kind=kind, n=n)


QUICK_SCALE = 2  # The cases are short: so many times those given below are run in the quick tier
SCENARIOS = [
    Scenario('decode-systematic', decode_systematic, 256, 256 * 8, ['words_decoded']),
    Scenario('decode-random', decode_random, 100, 3000, ['words_decoded']),
    Scenario('encode-systematic', encode_systematic, 572, 572 * 6, ['values_encoded', 'underflows', 'overflows']),
    Scenario('encode-random', encode_random, 100, 2500, ['values_encoded', 'non_finite_values', 'underflows', 'overflows']),
    Scenario('order', order, 60, 1000, ['ordered_pairs']),
    Scenario('sequences', sequences, 600, 10000, ['values_packed', 'values_unpacked', 'long_sequences']),
]
