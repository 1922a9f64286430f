import io
import itertools
import operator
import os
import pickle
import time
from collections import deque
from collections.abc import Sequence
from fractions import Fraction

from segpy import util
from segpy.reversed_sequence_view import ReversedSequenceView
from segpy.sorted_frozen_set import SortedFrozenSet
from segpy.util import SortSense, make_sorted_distinct_sequence

from harness import gen
from harness.core import Scenario, brief
from harness.observe import TracingFile, write_file

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = ('A case is a random or enumerated collection of items all of whose observable behaviour is compared with a sorted list of them, '
        'or random arguments of the supporting functions, given as sequences and as one-shot iterators, compared with a direct '
        'transcription of their definitions. Distinct by items and arguments.')
ASSUMPTIONS = ['items are totally ordered and mutually comparable']


class FromFront(Sequence):
    """A sequence which is not indexed from its end."""

    def __init__(self, items):
        self._items = items

    def __len__(self):
        return len(self._items)

    def __getitem__(self, index):
        if not 0 <= index < len(self._items):
            raise IndexError(index)
        return self._items[index]


def forms(rng, items):
    """The items as one of many types of iterable, and a description."""
    kind = rng.choice(['list', 'tuple', 'generator', 'iterator', 'deque', 'map', 'set'])
    make = dict(list=list, tuple=tuple, generator=lambda x: (i for i in x), iterator=lambda x: iter(list(x)), deque=deque,
                map=lambda x: map(util.identity, list(x)), set=list)
    return make[kind](items)


def random_items(rng, distinct=False):
    kind = rng.choice(['int', 'int', 'int', 'regular', 'regular', 'near', 'tuple', 'text', 'float', 'fraction', 'huge'])
    n = rng.choice([0, 1, 2, 3, rng.randint(0, 12), rng.randint(0, 60)])
    if kind == 'int':
        w = rng.choice([3, 20, 1000])
        items = [rng.randint(-w, w) for _ in range(n)]
    elif kind in ('regular', 'near'):
        a, s = rng.randint(-50, 50), rng.choice([1, 1, 2, 3, 7, -1, -4])
        items = [a + i * s for i in range(n)]
        if kind == 'near' and n > 2:
            k = rng.randrange(n)
            if rng.random() < 0.5:
                del items[k]
            else:
                items[k] += rng.choice([-1, 1])
    elif kind == 'tuple':
        items = [(rng.randint(-3, 3), rng.randint(-3, 3)) for _ in range(n)]
    elif kind == 'text':
        items = [gen.text_line(rng, rng.randint(0, 2), 'abcXY ') for _ in range(n)]
    elif kind == 'float':
        items = [rng.choice([0.5, 1.5, 2.5, rng.uniform(-2, 2), 3.0]) for _ in range(n)]
    elif kind == 'fraction':
        items = [Fraction(rng.randint(-9, 9), rng.randint(1, 3)) for _ in range(n)]
    else:
        items = [rng.choice([-1, 1]) * (2**62 + rng.randint(0, 9) * 2**60) for _ in range(n)]
    order = rng.random()
    if order < 0.3:
        rng.shuffle(items)
    elif order < 0.5:
        items.sort()
    elif order < 0.7:
        items.sort(reverse=True)
    if distinct:
        items = list(dict.fromkeys(items))
    return items


def absentees(expected):
    """Things which are not in a list."""
    out = ['absent', None, (), 1.25, (99, 99), 'b', b'', -(10**30), 10**30, object()]
    if expected and isinstance(expected[0], int):
        out += [expected[0] - 1, expected[-1] + 1, min(expected) - 1, max(expected) + 1] + [e + 1 for e in expected[:20]] + [e + 0.5 for e in expected[:5]]
    return [x for x in out if not any(type(x) is type(e) and x == e or x == e for e in expected)]


def check_sequence(ctx, seq, expected, what):
    """All observable behaviour of a sequence of distinct items."""
    n = len(expected)
    ctx.eq(len(seq), n, what + ': len()')
    ctx.eq(list(seq), expected, what + ': items')
    ctx.eq(list(iter(seq)), expected, what + ': items again')
    ctx.eq(list(reversed(seq)), expected[::-1], what + ': reversed()')
    r = reversed(seq)
    ctx.eq([next(r, None) for _ in range(n)], expected[::-1], what + ': stepping through reversed()')
    for i in range(-n, n):
        ctx.eq(seq[i], expected[i], '{}: item {}'.format(what, i))
    for i in (n, n + 1, -n - 1, n + 100):
        ctx.raises(IndexError, lambda: seq[i], '{}: item {} of {}'.format(what, i, n))
    for i, x in enumerate(expected):
        ctx.eq(x in seq, True, '{}: {!r} in'.format(what, x))
        ctx.eq(seq.index(x), i, '{}: index({!r})'.format(what, x))
        ctx.eq(seq.count(x), 1, '{}: count({!r})'.format(what, x))
    for x in absentees(expected):
        ctx.eq(x in seq, False, '{}: {!r} in'.format(what, x))
        ctx.eq(seq.count(x), 0, '{}: count({!r})'.format(what, x))
        ctx.raises(ValueError, lambda: seq.index(x), '{}: index({!r})'.format(what, x))
        ctx.count('absent_items')
    ctx.eq(bool(seq), bool(expected), what + ': truth')
    repr(seq)
    restored = pickle.loads(pickle.dumps(seq, 2 + n % 4))
    ctx.eq(type(restored), type(seq), what + ': type when pickled')
    ctx.eq(list(restored), expected, what + ': items when pickled')
    if not isinstance(seq, ReversedSequenceView):
        ctx.eq(restored == seq, True, what + ': equality with a copy')
        ctx.eq(restored != seq, False, what + ': inequality with a copy')
    for x in expected[:1]:
        with_assignment(ctx, seq, x, what)
    ctx.count('sequences_' + type(seq).__name__)


def with_assignment(ctx, seq, x, what):
    def assign():
        seq[0] = x
    ctx.raises(TypeError, assign, what + ': assignment of an item')


def check_set(ctx, s, expected, what):
    """Behaviour of SortedFrozenSets beyond that of sequences."""
    n = len(expected)
    for a in list(range(-n - 2, n + 3))[:30] + [None]:
        for b in (None, 0, 1, n - 1, n, n + 5, -1, -n):
            for c in (None, 1, 2, 3, -1, -2):
                sliced = s[a:b:c]
                # Still a sorted set of the selected items, in whichever order they were selected
                selected = sorted(expected[a:b:c])
                ctx.eq(list(sliced), selected, '{}: slice {}:{}:{}'.format(what, a, b, c))
                ctx.check(isinstance(sliced, SortedFrozenSet), what + ': type of a slice')
                ctx.check(all(x in sliced for x in selected), '{}: slice {}:{}:{} lacks its items', what, a, b, c)
    ctx.count('slices')


def collections_(ctx):
    rng = ctx.rng
    items = random_items(rng)
    before = list(items)
    source = forms(rng, items)
    expected = sorted(set(items))
    what = 'SortedFrozenSet({})'.format(brief(items, 120))
    s = SortedFrozenSet(source)
    if isinstance(source, (list, deque)):
        # A copy
        source.append(source[0] if source else 5)
        source.append(object())
    check_sequence(ctx, s, expected, what)
    check_set(ctx, s, expected, what)
    ctx.check(SortedFrozenSet(s) == s, what + ': SortedFrozenSet of itself')
    view = ReversedSequenceView(s)
    check_sequence(ctx, view, expected[::-1], 'reversed view of ' + what)
    check_sequence(ctx, ReversedSequenceView(tuple(expected)), expected[::-1], 'reversed view of a tuple')
    check_sequence(ctx, ReversedSequenceView(view), expected, 'reversed view of a reversed view')
    # Sequences with repeated items
    seq = rng.choice([list, tuple, deque])(items)
    view = ReversedSequenceView(seq)
    mirrored = before[::-1]
    ctx.eq(list(view), mirrored, 'reversed view')
    ctx.eq(list(reversed(view)), before, 'reversed() of a reversed view')
    ctx.eq([view[i] for i in range(-len(items), len(items))], mirrored * 2, 'items of a reversed view')
    for x in set(items):
        ctx.eq(view.index(x), mirrored.index(x), 'index({!r}) in a reversed view of {}'.format(x, brief(before)))
        ctx.eq(view.count(x), mirrored.count(x), 'count({!r}) in a reversed view'.format(x))
    if isinstance(seq, list):
        # A view, not a copy
        seq.append(seq[0] if seq else 7)
        ctx.eq(list(view), seq[::-1], 'reversed view of a modified list')
    ctx.evaluated(repr(before))
    ctx.sample(items=brief(before, 200))


def algebra(ctx):
    """Set operations against those of frozensets."""
    rng = ctx.rng
    pool = random_items(rng, distinct=True)
    a = [x for x in pool if rng.random() < 0.6]
    b = rng.choice([[x for x in pool if rng.random() < 0.6], a, a[:-1], a + [x for x in pool if x not in a][:1], []])
    a, b = rng.sample(a, len(a)), rng.sample(b, len(b))
    s, t = SortedFrozenSet(a), SortedFrozenSet(b)
    fs, ft = frozenset(a), frozenset(b)
    what = 'of {} and {}'.format(brief(sorted(fs), 100), brief(sorted(ft), 100))
    for op in (operator.and_, operator.or_, operator.xor, operator.sub):
        for other in (t, set(b)):
            r = op(s, other)
            ctx.eq(list(r), sorted(op(fs, ft)), '{} {}'.format(op.__name__, what))
            ctx.check(isinstance(r, SortedFrozenSet), op.__name__ + ': type')
    for op in (operator.le, operator.lt, operator.ge, operator.gt):
        ctx.eq(op(s, t), op(fs, ft), '{} {}'.format(op.__name__, what))
    ctx.eq(s == t, fs == ft, '== ' + what)
    ctx.eq(s != t, fs != ft, '!= ' + what)
    ctx.eq(s == SortedFrozenSet(rng.sample(a, len(a)) * 2), True, 'equality with the same items in another order, repeated')
    for x in (list(sorted(a)), frozenset(a), tuple(sorted(a)), None):
        ctx.eq(s == x, False, '== {!r}'.format(type(x)))
    ctx.eq(s.isdisjoint(t), fs.isdisjoint(ft), 'isdisjoint ' + what)
    for name in ('issubset', 'issuperset', 'intersection', 'union', 'symmetric_difference', 'difference'):
        r = getattr(s, name)(forms(rng, b))
        e = getattr(fs, name)(ft)
        if isinstance(e, bool):
            ctx.eq(r, e, '{} {}'.format(name, what))
        else:
            ctx.eq(list(r), sorted(e), '{} {}'.format(name, what))
    ctx.eq(list(s + t), sorted(fs | ft), '+ ' + what)
    ctx.eq([list(s * k) for k in (-1, 0, 1, 5)] + [list(k * s) for k in (0, 3)], [[], [], sorted(fs), sorted(fs), [], sorted(fs)], '* ' + what)
    ctx.eq(list(s), sorted(fs), 'the operand afterwards')
    if s == t:
        try:
            ctx.eq(hash(s), hash(t), 'hashes of equal sets')
        except TypeError:
            pass
    ctx.count('operations', 20)
    ctx.evaluated(repr(a), repr(b))


def strictly(items, op):
    return all(op(a, b) for a, b in zip(items, items[1:]))


def expected_sequence(items, sense):
    ascending = sorted(set(items))
    if sense is SortSense.descending:
        return ascending[::-1]
    if sense is None and strictly(list(items), operator.gt):
        return ascending[::-1]
    return ascending


SENSES = [SortSense.ascending, SortSense.descending, None]


def distinct_sequences(ctx):
    rng = ctx.rng
    items = random_items(rng)
    for sense in SENSES:
        if sense is None and len(set(items)) < len(items) and items == sorted(items, reverse=True):
            # Descending, but not strictly: unspecified
            continue
        expected = expected_sequence(items, sense)
        source = forms(rng, items)
        r = make_sorted_distinct_sequence(source, sense)
        check_sequence(ctx, r, expected, 'make_sorted_distinct_sequence({}, {})'.format(brief(items, 100), sense))
        if len(expected) > 1 and all(type(x) is int for x in expected) and len(set(b - a for a, b in zip(expected, expected[1:]))) == 1:
            ctx.count('regular_sequences', isinstance(r, range))
        again = make_sorted_distinct_sequence(r, sense)
        ctx.eq(list(again), expected, 'make_sorted_distinct_sequence() of its own result')
    ctx.eq(list(make_sorted_distinct_sequence(forms(rng, items))), sorted(set(items)), 'make_sorted_distinct_sequence() by default')
    for bad in ('ascending', 0, 1, True):
        ctx.raises(TypeError, lambda: make_sorted_distinct_sequence(forms(rng, items), bad), 'sense {!r}'.format(bad))
        ctx.raises(TypeError, lambda: make_sorted_distinct_sequence(range(3), bad), 'sense {!r} for a range'.format(bad))
    seq = make_sorted_distinct_sequence(items)
    ctx.eq(list(util.compress_sorted_sequence_to_range(sorted(set(items)))), sorted(set(items)), 'compress_sorted_sequence_to_range()')
    ctx.eq(list(util.compress_sorted_sequence_to_range(sorted(set(items), reverse=True))), sorted(set(items), reverse=True), 'compress_sorted_sequence_to_range() of a descending sequence')
    ctx.count('made')
    ctx.evaluated(repr(items))


def enumerated(ctx):
    """Every set of up to nine neighbouring integers, and every small range."""
    k = ctx.case
    for bits in range(k * 16, k * 16 + 16):
        items = [i for i in range(9) if bits >> i & 1]
        scale, offset = [(1, 0), (3, -7), (-2, 5)][k % 3]
        items = [i * scale + offset for i in items]
        for order in (items, items[::-1], items[1:] + items[:1]):
            for sense in SENSES:
                expected = expected_sequence(order, sense)
                r = make_sorted_distinct_sequence(iter(order), sense)
                ctx.eq(list(r), expected, 'make_sorted_distinct_sequence({}, {})'.format(order, sense))
                ctx.eq(len(r), len(expected), 'length of {}'.format(r))
                ctx.eq([x in r for x in range(-30, 30)], [x in expected for x in range(-30, 30)], 'membership in {}'.format(r))
                for x in expected:
                    ctx.eq(r.index(x), expected.index(x), 'index({}) in {}'.format(x, r))
                ctx.count('subsets')
    ctx.evaluated('subsets', k)
    if k == 0:
        for start, stop, step in itertools.product(range(-7, 8), range(-7, 8), [s for s in range(-5, 6) if s]):
            r = range(start, stop, step)
            ctx.eq(list(util.reversed_range(r)), list(r)[::-1], 'reversed_range({})'.format(r))
            ctx.check(isinstance(util.reversed_range(r), range), 'reversed_range() is not a range')
            for sense in SENSES:
                q = make_sorted_distinct_sequence(r, sense)
                ctx.eq(list(q), list(r) if sense is None else sorted(r, reverse=sense is SortSense.descending), 'make_sorted_distinct_sequence({}, {})'.format(r, sense))
            for reverse, distinct in itertools.product((False, True), repeat=2):
                ctx.eq(util.is_sorted(r, reverse=reverse, distinct=distinct), reference_sorted(list(r), None, reverse, distinct), 'is_sorted({}, reverse={}, distinct={})'.format(r, reverse, distinct))
            ctx.count('ranges')
        ctx.evaluated('ranges')


def reference_sorted(items, key, reverse, distinct):
    keys = [key(i) for i in items] if key else items
    for a, b in zip(keys, keys[1:]):
        if a == b:
            if distinct:
                return False
        elif (a < b) == bool(reverse):
            return False
    return True


def iteration_utilities(ctx):
    rng = ctx.rng
    items = random_items(rng)
    n = len(items)
    f = lambda: forms(rng, items)
    ctx.eq(list(util.pairwise(f())), [(items[i], items[i + 1]) for i in range(n - 1)], 'pairwise({})'.format(brief(items)))
    size = rng.choice([1, 2, 3, n, n + 1, rng.randint(1, 70)]) or 1
    batches = [items[i:i + size] for i in range(0, n, size)]
    ctx.eq([list(b) for b in util.batched(f(), size)], batches, 'batched({} items, {})'.format(n, size))
    for padding in (None, 0, 'x', ()):
        padded = [b + [padding] * (size - len(b)) for b in batches]
        ctx.eq([list(b) for b in util.batched(f(), size, padding)], padded, 'batched({} items, {}, {!r})'.format(n, size, padding))
    for bad in (0, -1, -100):
        ctx.raises(ValueError, lambda: util.batched(f(), bad), 'batched(..., {})'.format(bad))
        ctx.raises(ValueError, lambda: util.batched(f(), bad, 0), 'batched(..., {}, 0)'.format(bad))
    collected = list(util.batched(f(), size))
    for b in collected[:-1]:
        b.append('x')
    ctx.eq(collected[-1:], batches[-1:], 'a batch after modification of the others')
    # pad
    size = rng.choice([0, 1, n, max(0, n - 1), n + 1, n + 10])
    padding = rng.choice([None, 0, 'p'])
    ctx.eq(list(util.pad(f(), padding, size)), (items + [padding] * 100)[:size], 'pad({} items, {!r}, {})'.format(n, padding, size))
    ctx.eq(list(itertools.islice(util.pad(f(), padding), n + 7)), items + [padding] * 7, 'pad() without a size')
    ctx.eq(list(itertools.islice(util.pad(f()), n + 2)), items + [None] * 2, 'pad() by default')
    # Lazily: an infinite iterable
    ctx.eq([list(b) for b in itertools.islice(util.batched(itertools.count(), 3), 2)], [[0, 1, 2], [3, 4, 5]], 'batched() of an infinite iterable')
    ctx.eq(list(itertools.islice(util.pairwise(itertools.count()), 3)), [(0, 1), (1, 2), (2, 3)], 'pairwise() of an infinite iterable')
    ctx.eq(list(util.pad(itertools.count(), 9, 4)), [0, 1, 2, 3], 'pad() of an infinite iterable')
    # roundrobin
    several = [random_items(rng)[:rng.randint(0, 5)] for _ in range(rng.randint(0, 5))]
    expected = [s[i] for i in range(6) for s in several if i < len(s)]
    ctx.eq(list(util.roundrobin(*(forms(rng, s) for s in several))), expected, 'roundrobin({})'.format(several))
    # all_equal, first, last, minmax
    ctx.eq(bool(util.all_equal(f())), len(set(items)) <= 1, 'all_equal({})'.format(brief(items)))
    ctx.eq(bool(util.all_equal(forms(rng, [3] * n))), True, 'all_equal() of equal items')
    ctx.eq(bool(util.all_equal(forms(rng, [0] * n + [0.0]))), True, 'all_equal() of equal items')
    if items:
        ctx.eq(util.first(f()), items[0], 'first({})'.format(brief(items)))
        ctx.eq(util.last(f()), items[-1], 'last({})'.format(brief(items)))
        ctx.eq(util.minmax(f()), (min(items), max(items)), 'minmax({})'.format(brief(items)))
    else:
        for fn in (util.first, util.last, util.minmax):
            ctx.raises(ValueError, lambda: fn(f()), fn.__name__ + '() of nothing')
    ctx.eq(util.last(SortedFrozenSet([3, 1, 2])), 3, 'last() of a SortedFrozenSet')
    ctx.eq(util.last(FromFront([3, 1, 2])), 2, 'last() of a sequence without negative indexes')
    ctx.eq(util.first(FromFront([3, 1, 2])), 3, 'first() of a sequence without negative indexes')
    ctx.eq(util.last({5}), 5, 'last() of a set')
    # Sortedness
    key = rng.choice([None, None, lambda x: repr(x), lambda x: 0, id])
    for sequence in (items, sorted(items), sorted(items, reverse=True), sorted(set(items)), sorted(set(items), reverse=True)):
        for reverse, distinct in itertools.product((False, True), repeat=2):
            expected = reference_sorted(sequence, key, reverse, distinct)
            ctx.eq(util.is_sorted(forms(rng, sequence), key=key, reverse=reverse, distinct=distinct), expected, 'is_sorted({}, {}, reverse={}, distinct={})'.format(brief(sequence), key, reverse, distinct))
            ctx.count('sortedness')
        # Of sorted sequences
        s = sorted(sequence, reverse=rng.random() < 0.5)
        ctx.eq(util.contains_duplicates(forms(rng, s)), len(set(s)) < len(s), 'contains_duplicates({})'.format(brief(s)))
    for reverse, distinct in itertools.product((False, True), repeat=2):
        s = SortedFrozenSet(items)
        ctx.eq(util.is_sorted(s, key=key, reverse=reverse, distinct=distinct), reference_sorted(list(s), key, reverse, distinct), 'is_sorted() of a SortedFrozenSet')
        v = ReversedSequenceView(s)
        ctx.eq(util.is_sorted(v, key=key, reverse=reverse, distinct=distinct), reference_sorted(list(v), key, reverse, distinct), 'is_sorted() of a reversed view')
        r = range(rng.randint(-5, 5), rng.randint(-5, 5), rng.choice([-2, -1, 1, 2]))
        ctx.eq(util.is_sorted(r, key=key, reverse=reverse, distinct=distinct), reference_sorted(list(r), key, reverse, distinct), 'is_sorted({})'.format(r))
    for sequence in (items, sorted(items), sorted(items, reverse=True), sorted(set(items))):
        ctx.eq(util.is_sorted(forms(rng, sequence)), reference_sorted(sequence, None, False, False), 'is_sorted({})'.format(brief(sequence)))
        ctx.eq(util.is_sorted(forms(rng, sequence), key), reference_sorted(sequence, key, False, False), 'is_sorted({}, {})'.format(brief(sequence), key))
        ctx.eq(util.is_sorted(forms(rng, sequence), distinct=True), reference_sorted(sequence, None, False, True), 'is_sorted({}, distinct=True)'.format(brief(sequence)))
        ctx.eq(util.is_sorted(forms(rng, sequence), reverse=True), reference_sorted(sequence, None, True, False), 'is_sorted({}, reverse=True)'.format(brief(sequence)))
    # Stride
    numbers = [x for x in items if isinstance(x, (int, Fraction))]
    strides = {b - a for a, b in zip(numbers, numbers[1:])}
    ctx.eq(util.measure_stride(forms(rng, numbers)), strides.pop() if len(strides) == 1 else None, 'measure_stride({})'.format(brief(numbers)))
    r = range(rng.randint(-9, 9), rng.randint(10, 90), rng.randint(1, 5))
    ctx.eq(util.measure_stride(r), r.step, 'measure_stride({})'.format(r))
    ctx.count('iteration_utilities')
    ctx.evaluated(repr(items), repr(several))


def covered(i):
    return set(range(i.start, i.stop))


def intervals(ctx):
    rng = ctx.rng
    kind = rng.choice([range, slice])
    pos = rng.randint(-10, 10) if kind is range else rng.randint(0, 10)
    begin = pos - rng.randint(0, 5)
    out = []
    contiguous = rng.random() < 0.5
    for _ in range(rng.randint(1, 7)):
        stop = pos + rng.choice([1, 1, 2, 5, 0])
        out.append(kind(pos, stop))
        pos = stop + (0 if contiguous and rng.random() < 0.95 else rng.choice([0, 1, 3]))
    end = out[-1].stop + rng.randint(0, 5)
    for start, stop in ((None, None), (begin, end), (begin, None), (None, end)):
        gaps = list(util.complementary_intervals(out, start, stop))
        what = 'complementary_intervals({}, {}, {})'.format(out, start, stop)
        ctx.eq(len(gaps), len(out) + 1, what + ': number')
        ctx.check(all(type(g) is kind for g in gaps), what + ': types')
        first = out[0].start if start is None else start
        final = out[-1].stop if stop is None else stop
        chain = [i for pair in itertools.zip_longest(gaps, out) for i in pair if i is not None]
        ctx.eq((chain[0].start, chain[-1].stop), (first, final), what + ': extent')
        ctx.check(all(a.stop == b.start for a, b in zip(chain, chain[1:])), what + ' gives {}, which do not alternate with them', gaps)
        ctx.count('complements')
    ctx.raises(ValueError, lambda: util.complementary_intervals([]), 'complementary_intervals([])')
    expected = all(a.stop == b.start for a, b in zip(out, out[1:]))
    ctx.eq(util.intervals_are_contiguous(forms(rng, out)), expected, 'intervals_are_contiguous({})'.format(out))
    ctx.eq(util.intervals_are_contiguous(iter(out[:1])), True, 'intervals_are_contiguous() of one')
    ctx.eq(util.intervals_are_contiguous([]), True, 'intervals_are_contiguous() of none')
    shuffled = rng.sample(out, len(out))
    ctx.eq(util.intervals_are_contiguous(shuffled), all(a.stop == b.start for a, b in zip(shuffled, shuffled[1:])), 'intervals_are_contiguous({})'.format(shuffled))
    for _ in range(20):
        a, b = rng.randint(-5, 5), rng.randint(-5, 5)
        x, y = kind(a, a + rng.randint(1, 5)), kind(b, b + rng.randint(1, 5))
        if rng.random() < 0.2:
            y = kind(x.start, x.stop)
        ctx.eq(util.intervals_partially_overlap(x, y), bool(covered(x) & covered(y)) and covered(x) != covered(y), 'intervals_partially_overlap({}, {})'.format(x, y))
        ctx.count('overlaps')
    ctx.evaluated(repr(out), repr(begin), repr(end))


def numbers(ctx):
    rng = ctx.rng
    for _ in range(30):
        x, m = gen.integer(rng, -10**9, 10**9), rng.choice([1, 2, 3, 80, 3200, rng.randint(1, 10**6)])
        r = util.round_up(x, m)
        ctx.check(r % m == 0 and x <= r < x + m, 'round_up({}, {}) is {}', x, m, r)
        ctx.raises(ValueError, lambda: util.round_up(x, -rng.choice([0, 1, m])), 'round_up() to a non-positive multiple')
        a, b = rng.choice([x, m, 0, -x, 0.5, -0.0, 1e300, x + 0.25]), rng.choice([x, m, 0, 0.5, 0.0, float('inf')])
        ctx.eq((util.cmp(a, b) > 0, util.cmp(a, b) < 0, util.cmp(a, b) == 0), (a > b, a < b, a == b), 'cmp({}, {})'.format(a, b))
        ctx.eq(util.sgn(a), 1 if a > 0 else -1 if a < 0 else 0, 'sgn({})'.format(a))
        e = rng.choice([2.0**-52, 0.001, 0.0])
        p, q = rng.uniform(-3, 3), rng.choice([0, 0.0005, 0.0009, 0.0011, 0.5]) * rng.choice([1, -1])
        if e != 0.001 or abs(abs(q) - 0.001 * max(1, abs(p), abs(p + q))) > 1e-6:
            ctx.eq(util.almost_equal(p, p + q, e), abs(p - (p + q)) <= e * max(1.0, abs(p), abs(p + q)), 'almost_equal({}, {}, {})'.format(p, p + q, e))
            ctx.eq(util.almost_equal(p + q, p, e), util.almost_equal(p, p + q, e), 'symmetry of almost_equal()')
        ctx.count('numbers')
    i = gen.integer(rng, -10**9, 10**9)
    ctx.eq(list(util.single_item_range(i)), [i], 'single_item_range({})'.format(i))
    b = rng.randbytes(rng.randint(4, 9))
    ctx.eq(tuple(util.four_bytes(b)), tuple(b[:4]), 'four_bytes()')
    words = [gen.text_line(rng, rng.randint(1, 6), 'abcxyz') for _ in range(rng.randint(1, 5))]
    ctx.eq(util.underscores_to_camelcase('_'.join(words)), ''.join(w[0].upper() + w[1:] for w in words), 'underscores_to_camelcase()')
    s = gen.text_line(rng, rng.randint(0, 30), 'abcXYZ. ')
    ctx.eq(util.first_sentence(s), s[:s.index('.') + 1] if '.' in s else s, 'first_sentence({!r})'.format(s))
    ctx.eq(util.lower_first(s), s[:1].lower() + s[1:], 'lower_first({!r})'.format(s))
    class Base:
        pass

    class Derived(Base, rng.choice([int, list, dict])):
        pass

    ctx.eq((util.super_class(Derived), util.super_class(Base), util.super_class(object)), (Base, object, object), 'super_class()')
    before, now, after = time.time(), util.now_millis(), time.time()
    ctx.check(isinstance(now, int) and before * 1000 - 1 <= now <= after * 1000 + 1, 'now_millis() is {} at {}', now, before)
    for name, magic in (('__init__', True), ('__x__', True), ('____', False), ('init__', False), ('__init', False), ('_x_', False), ('', False), ('_____', True)):
        ctx.eq(util.is_magic_name(name), magic, 'is_magic_name({!r})'.format(name))
    ctx.evaluated(i, s)


def file_utilities(ctx):
    rng = ctx.rng
    data = rng.randbytes(rng.choice([0, 1, 65535, 65536, 65537, 200000, rng.randint(0, 1000)]))
    path = write_file(ctx.path('f'), data)
    for fh in (io.BytesIO(data), ctx.keep(open(path, 'rb')), ctx.keep(open(path, 'rb', buffering=0)), TracingFile(data)):
        pos = rng.choice([0, len(data), rng.randint(0, len(data)), len(data) + 5])
        fh.seek(pos)
        ctx.eq(util.file_length(fh), len(data), 'file_length()')
        ctx.eq(fh.tell(), pos, 'position after file_length()')
        ctx.count('lengths')
        target = rng.randint(0, len(data))
        with util.restored_position_seek(fh, target):
            ctx.eq(fh.tell(), target, 'position within restored_position_seek()')
            fh.read(10)
        ctx.eq(fh.tell(), pos, 'position after restored_position_seek()')
        try:
            with util.restored_position_seek(fh, target):
                raise KeyError('within')
        except KeyError:
            pass
        else:
            ctx.fail('restored_position_seek() suppressed an exception')
        ctx.eq(fh.tell(), pos, 'position after an exception within restored_position_seek()')
    args = [rng.choice([None, 'ascii', '>', 3, (1, 2)]) for _ in range(3)]
    reference = util.hash_for_file(io.BytesIO(data), *args)
    fh = ctx.keep(open(path, 'rb'))
    fh.seek(rng.randint(0, len(data)))
    ctx.eq(util.hash_for_file(fh, *args), reference, 'hash of the same content from another handle and position')
    others = [(data + b'\0', args), (data[:-1] + bytes([data[-1] ^ 1]) if data else b'x', args), (data, args + [None]), (data, args[::-1] if args != args[::-1] else args + [1])]
    if len(data) > 70000:
        k = rng.randint(65536, len(data) - 1)
        others.append((data[:k] + bytes([data[k] ^ 128]) + data[k + 1:], args))
    # What belongs to the file, and what to the arguments
    x, y = rng.choice(['ascii', 3, None]), rng.choice(['>', 17])
    others += [(data + repr(x).encode(), [y]), (data, [x, y]), (data + repr(x).encode() + repr(y).encode(), [])]
    others = [(d, a) for i, (d, a) in enumerate(others) if (d, a) != (data, args) and (d, a) not in others[:i]]
    seen = {reference}
    for d, a in others:
        h = util.hash_for_file(io.BytesIO(d), *a)
        ctx.check(h not in seen, 'two files or arguments have the hash {}', h)
        seen.add(h)
        ctx.check(all(c in '0123456789abcdef' for c in h) and len(h) >= 32, 'the hash {!r} is not a hexadecimal digest', h)
        ctx.count('hashes')
    # Names
    ctx.eq(util.filename_from_handle(fh), path, 'filename_from_handle()')
    ctx.eq(util.filename_from_handle(io.BytesIO()), '<unknown>', 'filename_from_handle() without a name')
    with open(os.open(path, os.O_RDONLY), 'rb') as f:
        ctx.eq(util.filename_from_handle(f), '<unknown>', 'filename_from_handle() of a descriptor')
    with open(os.fsencode(path), 'rb') as f:
        ctx.eq(util.filename_from_handle(f), path, 'filename_from_handle() of a bytes path')
    ctx.count('names')
    ctx.evaluated(data)


QUICK_SCALE = 8  # The cases are short: so many times those given below are run in the quick tier
SCENARIOS = [
    Scenario('collections', collections_, 300, 6000, ['absent_items', 'slices', 'sequences_SortedFrozenSet', 'sequences_ReversedSequenceView']),
    Scenario('algebra', algebra, 400, 8000, ['operations']),
    Scenario('distinct-sequences', distinct_sequences, 500, 10000, ['made', 'sequences_range', 'regular_sequences']),
    Scenario('enumerated', enumerated, 32, 32, ['subsets', 'ranges']),
    Scenario('iteration-utilities', iteration_utilities, 400, 8000, ['iteration_utilities', 'sortedness']),
    Scenario('intervals', intervals, 400, 8000, ['complements', 'overlaps']),
    Scenario('numbers', numbers, 200, 4000, ['numbers']),
    Scenario('file-utilities', file_utilities, 150, 2500, ['lengths', 'hashes', 'names']),
]
