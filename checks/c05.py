import math
import operator
import struct
from fractions import Fraction

from segpy.ibm_float import IBMFloat

from harness import gen, model
from harness.core import Scenario

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('A case is a batch of IBM words (every first byte with boundary mantissas; random, integral, non-canonical, unnormalised and zero words), '
        'or of pairs of IBM values and other numbers. Every conversion, predicate and operation is compared with exact arithmetic. '
        'Non-trivial: a non-zero word; distinct by bits.')
ASSUMPTIONS = ['arithmetic is that of IEEE doubles, truncated to an IBM float where an IBMFloat is returned, with underflow to zero']


def make(word):
    return IBMFloat.from_bytes(struct.pack('>I', word))


def any_word(rng):
    k = rng.random()
    if k < 0.25:
        return rng.getrandbits(32)
    if k < 0.5:
        # integers and near-integers
        return (rng.getrandbits(1) << 31) | (rng.randint(64, 72) << 24) | rng.choice([rng.getrandbits(24), rng.getrandbits(24) & 0xfff000, rng.getrandbits(12), 1 << rng.randrange(24)])
    if k < 0.6:
        return rng.choice([0, 0x80000000, 0x7f000000, 0xff000000, 0x41100000, 0xc1100000, 0x42010000, 0x43001000, 0x46000001, 0xc6000001, 0x00000001, 0x80000001,
                           0x000fffff, 0x00100000, 0x7fffffff, 0xffffffff, 0x40ffffff, 0x4110000f, 0x41180000, 0xc1180000, 0x40800000, 0xc0800000])
    if k < 0.8:
        w = model.ibm_encode(gen.ibm_representable(rng))
        return w
    # Unnormalised form of a value
    w = rng.getrandbits(24)
    shift = rng.randint(0, 5)
    e = rng.randint(60, 100)
    return (rng.getrandbits(1) << 31) | (e << 24) | (w >> (4 * shift))


def variants(word):
    """Other words which denote the same number."""
    sign, e, m = word & 0x80000000, (word >> 24) & 0x7f, word & 0xffffff
    out = []
    a, b = e, m
    while b and b % 16 == 0 and a < 127:
        a, b = a + 1, b // 16
        out.append(sign | (a << 24) | b)
    a, b = e, m
    while b and b < (1 << 20) and a > 0:
        a, b = a - 1, b * 16
        out.append(sign | (a << 24) | b)
    if not m:
        out.extend([0, 0x80000000, 0x41000000])
    return out


def unary(ctx, word):
    x = make(word)
    exact = model.ibm_fraction(word)
    f = float(exact)
    name = '{:08x} = {!r}'.format(word, f)

    def eq(actual, expected, what):
        if not (actual == expected):
            ctx.fail('{} of {} is {!r}, expected {!r}'.format(what, name, actual, expected))

    eq(float(x), f, 'float()')
    eq(bytes(x), struct.pack('>I', word), 'bytes()')
    eq(Fraction(*x.as_integer_ratio()), exact, 'as_integer_ratio()')
    eq(x.as_integer_ratio(), (exact.numerator, exact.denominator), 'as_integer_ratio()')
    eq(int(x), math.trunc(exact), 'int()')
    eq(math.trunc(x), math.trunc(exact), 'math.trunc()')
    eq(bool(x), exact != 0, 'bool()')
    eq(x.is_zero(), exact == 0, 'is_zero()')
    eq(x.signbit, bool(word >> 31), 'signbit')
    eq(str(x), str(f), 'str()')
    ctx.check(repr(f) in repr(x) and type(x).__name__ in repr(x), 'repr() of {} is {!r}'.format(name, repr(x)))
    eq(complex(x), complex(f), 'complex()')
    m, e = x.frexp()
    eq(Fraction(m) * Fraction(2) ** e, exact, 'frexp()')
    ctx.check(-1.0 <= m <= 1.0 and isinstance(e, int), 'frexp() of {} is {!r}'.format(name, (m, e)))
    if -256 <= e < 256 and (exact == 0 or model.ibm_encode(f) != 'zero'):
        eq(Fraction(float(IBMFloat.ldexp(m, e))), exact, 'ldexp() of frexp()')
    for what, actual, expected in (('negation', -x, -exact), ('abs()', abs(x), abs(exact)), ('+', +x, exact)):
        ctx.check(isinstance(actual, IBMFloat), '{} of {} is a {}'.format(what, name, type(actual)))
        eq(Fraction(float(actual)), expected, what)
    # Predicates of representation: leading hexadecimal digit of the mantissa is zero; of the zeros only one is normal
    subnormal = (word != 0) if exact == 0 else not (word & 0x00f00000)
    eq(x.is_subnormal(), subnormal, 'is_subnormal()')
    eq(bytes(x.zero_subnormal()), bytes(4) if subnormal else bytes(x), 'zero_subnormal()')
    normal = x.try_normalize()
    eq(Fraction(float(normal)), exact, 'try_normalize()')
    canonical = model.ibm_encode(f) if exact else 0
    if exact == 0 or canonical & 0x00f00000:
        eq(bytes(normal), struct.pack('>I', canonical), 'try_normalize()')
        eq(bytes(x.normalize()), struct.pack('>I', canonical), 'normalize()')
        ctx.check(not normal.is_subnormal(), 'normalised {} is subnormal'.format(name))
    else:
        ctx.raises(FloatingPointError, x.normalize, 'normalize() of {}'.format(name))
        eq(bytes(normal), bytes(x), 'try_normalize() which fails')
        ctx.count('not_normalizable')
    # Rounding
    ceil, floor = math.ceil(x), math.floor(x)
    if ceil != math.ceil(exact):
        if exact.denominator == 1 and not word >> 31 and ceil == exact + 1:
            ctx.known('ceil-of-integral-with-clear-sign-bit', 'math.ceil() of {} is {!r}'.format(name, ceil))
        else:
            eq(ceil, math.ceil(exact), 'math.ceil()')
    if floor != math.floor(exact):
        if exact.denominator == 1 and word >> 31 and floor == exact - 1:
            ctx.known('floor-of-integral-with-set-sign-bit', 'math.floor() of {} is {!r}'.format(name, floor))
        else:
            eq(floor, math.floor(exact), 'math.floor()')
    for digits in (None, 0, 1, 3, -1, -2):
        expected = round(f) if digits is None else round(f, digits)
        back = model.ibm_encode(expected) if expected else 0
        if back == 'range':
            continue
        eq(float(round(x) if digits is None else round(x, digits)), 0.0 if back == 'zero' else model.ibm_float(back), 'round(, {})'.format(digits))
    for other in variants(word):
        y = make(other)
        ctx.check(x == y and y == x and not (x != y), '{} and {:08x} denote the same number but compare unequal', name, other)
        ctx.check(x <= y and x >= y and not x < y and not x > y, 'ordering of {} and {:08x}, which denote the same number', name, other)
        ctx.count('equal_representations')
    ctx.count('words_examined')
    ctx.evaluated(*(['u', word] if exact else []))


def systematic(ctx):
    first = ctx.case % 256
    for m in {0, 1, 0x000010, 0x00ffff, 0x010000, 0x0fffff, 0x100000, 0x100001, 0x200000, 0x800000, 0xf00000, 0xffffff, 0xfffffe, 0x123456} | {1 << i for i in range(24)}:
        unary(ctx, (first << 24) | m)
    ctx.state(first)
    ctx.sample(first_byte=hex(first))


def random_words(ctx):
    for _ in range(40):
        unary(ctx, any_word(ctx.rng))


COMPARISONS = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]


def partner(ctx, word):
    """Another number, with the exact value it has."""
    rng = ctx.rng
    kind = rng.choice(['ibm', 'ibm', 'same', 'near', 'float', 'int', 'nearfloat', 'equal-float', 'fraction', 'bigint', 'bool', 'near-int'])
    exact = model.ibm_fraction(word)
    if kind == 'ibm':
        w = any_word(rng)
        return make(w), model.ibm_fraction(w)
    if kind == 'same':
        w = rng.choice(variants(word) + [word])
        return make(w), model.ibm_fraction(w)
    if kind == 'near':
        w = (word & 0xff000000) | ((word + rng.choice([-1, 1])) & 0xffffff)
        return make(w), model.ibm_fraction(w)
    if kind == 'float':
        y = rng.choice([gen.ibm_representable(rng), 0.0, -0.0, 1e300, -1e300, 1e-300])
        return y, Fraction(y)
    if kind == 'nearfloat':
        y = math.nextafter(float(exact), rng.choice([-math.inf, math.inf]))
        return y, Fraction(y)
    if kind == 'equal-float':
        return float(exact), exact
    if kind == 'int':
        y = rng.randint(-1000, 1000)
        return y, Fraction(y)
    if kind == 'near-int':
        y = math.trunc(exact) + rng.choice([-1, 0, 1])
        return y, Fraction(y)
    if kind == 'fraction':
        q = rng.choice([rng.randint(2, 999), 2**rng.randint(1, 60), rng.randint(2**10, 2**50)])
        y = rng.choice([exact, exact + Fraction(rng.choice([-1, 1]), exact.denominator * q), exact + Fraction(rng.choice([-1, 1]), q),
                        exact + Fraction(1, 3), exact * (1 + Fraction(rng.choice([-1, 1]), 10**30)), exact + Fraction(rng.choice([-1, 1]), 10**90), Fraction(1, 3), Fraction(rng.randint(-99, 99), rng.randint(1, 99))])
        return y, y
    if kind == 'bigint':
        y = rng.choice([2**60 + 1, -(10**30), 16**40, 16**63, 10**400, -10**400, math.trunc(exact) * rng.choice([1, -1]) + rng.choice([-1, 0, 1])])
        return y, Fraction(y)
    y = rng.choice([True, False])
    return y, Fraction(int(y))


def comparisons(ctx):
    rng = ctx.rng
    for _ in range(60):
        word = any_word(rng)
        x, exact = make(word), model.ibm_fraction(word)
        y, other = partner(ctx, word)
        for op in COMPARISONS:
            if op(x, y) is not op(exact, other):
                ctx.fail('{}({!r}, {!r}) is {!r}'.format(op.__name__, x, y, op(x, y)))
            if op(y, x) is not op(other, exact):
                ctx.fail('{}({!r}, {!r}) is {!r}'.format(op.__name__, y, x, op(y, x)))
        ctx.count('comparisons')
        ctx.evaluated(*(['c', word, repr(y)] if exact else []))
    for y in (math.nan, math.inf, -math.inf, None, 'x', b'\0\0\0\0'):
        ctx.check(not (x == y) and x != y, '{!r} equals {!r}', x, y)
    ctx.check(x < math.inf and x > -math.inf and not x > math.inf and not (x < math.nan) and not (x >= math.nan), 'comparison of {!r} with infinities and NaN', x)
    # Sorting
    words = [any_word(rng) for _ in range(30)]
    ordered = sorted(map(make, words))
    ctx.eq([Fraction(float(v)) for v in ordered], sorted(map(model.ibm_fraction, words)), 'sorted IBMFloats')


ARITHMETIC = [operator.add, operator.sub, operator.mul, operator.truediv, operator.floordiv, operator.mod, pow, divmod]


def moderate(rng):
    """A word of moderate magnitude, so results of arithmetic are mostly representable."""
    k = rng.random()
    if k < 0.1:
        return any_word(rng)
    if k < 0.4:
        return model.ibm_encode(float(rng.randint(-300, 300))) or 0
    return (rng.getrandbits(1) << 31) | (rng.randint(56, 72) << 24) | rng.getrandbits(24)


def arithmetic(ctx):
    rng = ctx.rng
    for _ in range(60):
        a = moderate(rng)
        x, f = make(a), model.ibm_float(a)
        kind = rng.choice(['ibm', 'ibm', 'float', 'int'])
        if kind == 'ibm':
            b = moderate(rng)
            y, g = make(b), model.ibm_float(b)
        elif kind == 'float':
            y = g = rng.choice([rng.uniform(-100, 100), float(rng.randint(-20, 20)), gen.ibm_representable(rng)])
        else:
            y = rng.randint(-30, 30)
            g = float(y)
        for op in ARITHMETIC:
            for left, right, l, r in ((x, y, f, g), (y, x, g, f)):
                if op is pow and (abs(l) > 1e6 or abs(r) > 40) and rng.random() < 0.7:
                    continue
                what = '{}({!r}, {!r})'.format(op.__name__, left, right)
                try:
                    expected = op(l, r)
                except (ZeroDivisionError, OverflowError, ValueError) as e:
                    ctx.raises((type(e), ValueError, OverflowError), lambda: op(left, right), what)
                    ctx.count('arithmetic_exceptions')
                    continue
                compare_result(ctx, op, left, right, expected, what)
                ctx.count('operations')
        ctx.evaluated(*(['a', a, repr(y)] if f else []))


def compare_result(ctx, op, left, right, expected, what):
    parts = expected if isinstance(expected, tuple) else (expected,)
    overflow = any(isinstance(p, float) and (not math.isfinite(p) or abs(p) > float(model.MAX_IBM)) for p in parts)
    try:
        actual = op(left, right)
    except (OverflowError, ValueError):
        if overflow:
            ctx.count('overflowing_results')
            return
        raise
    for a, e in zip(actual if isinstance(actual, tuple) else (actual,), parts):
        if isinstance(a, IBMFloat):
            w = model.ibm_encode(e) if e else 0
            e = 0.0 if w == 'zero' else model.ibm_float(w)
            a = float(a)
        if not (a == e or (a != a and e != e)):
            ctx.fail('{} is {!r}, expected {!r}'.format(what, a, e))


def ldexp(ctx):
    rng = ctx.rng
    for _ in range(40):
        m = rng.choice([rng.uniform(-1, 1), 1.0, -1.0, 0.5, 0.0, rng.randint(-16, 16) / 16])
        e = rng.choice([rng.randint(-256, 255), rng.randint(-30, 30), -256, 255, 0])
        value = Fraction(m) * Fraction(2) ** e
        w = model.ibm_encode(value) if value else 0
        if isinstance(w, int):
            ctx.eq(bytes(IBMFloat.ldexp(m, e)), struct.pack('>I', w), 'ldexp({!r}, {!r})'.format(m, e))
        else:
            ctx.raises((FloatingPointError, OverflowError), lambda: IBMFloat.ldexp(m, e), 'ldexp({!r}, {!r})'.format(m, e))
        ctx.evaluated('l', m, e)
        ctx.count('ldexps')
    for m, e in ((1.0000001, 0), (-1.5, 3), (0.5, 256), (0.5, -257), (0.5, 10**6)):
        ctx.raises(ValueError, lambda: IBMFloat.ldexp(m, e), 'ldexp({!r}, {!r})'.format(m, e))
    for wrong in (b'', b'\0', b'\0\0\0', b'\0\0\0\0\0', bytes(8)):
        ctx.raises(ValueError, lambda: IBMFloat.from_bytes(wrong), 'IBMFloat of {} bytes'.format(len(wrong)))


QUICK_SCALE = 2  # The cases are short: so many times those given below are run in the quick tier
SCENARIOS = [
    Scenario('systematic-words', systematic, 256, 256 * 4, ['words_examined', 'equal_representations', 'not_normalizable']),
    Scenario('random-words', random_words, 400, 10000, ['words_examined', 'equal_representations']),
    Scenario('comparisons', comparisons, 300, 6000, ['comparisons']),
    Scenario('arithmetic', arithmetic, 300, 6000, ['operations', 'arithmetic_exceptions', 'overflowing_results']),
    Scenario('ldexp', ldexp, 100, 2000, ['ldexps']),
]
