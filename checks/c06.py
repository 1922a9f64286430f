import collections
import copy
import io
import pickle

import numpy

from segpy import field_types
from segpy.catalog import (CatalogBuilder, FirstIndexVariesQuickestCatalog2D, LastIndexVariesQuickestCatalog2D, DictionaryCatalog2D,
                           RegularConstantCatalog, ConstantCatalog, RegularCatalog, LinearRegularCatalog, DictionaryCatalog)
from segpy.toolkit import catalog_traces

from harness import gen, model
from harness.core import Scenario, brief

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('A case is a history of add() and create() calls on a CatalogBuilder with keys and values of a random shape (regular, strided, '
        'nearly regular, irregular, constant, descending, duplicated; one or two dimensions), or a catalog class constructed directly. '
        'Every mapping operation is compared with a dictionary for all present and many absent keys. Non-trivial: at least two '
        'items; distinct by items.')
ASSUMPTIONS = ['keys of one catalog are either all integers or all pairs of integers']


Pair = collections.namedtuple('Pair', 'first second')


class Number(int):
    """An integer of another type."""


def examine(ctx, catalog, d, rng, two, what):
    """The mapping interface of a catalog against a dictionary."""
    ctx.state(type(catalog).__name__, min(len(d), 4))
    ctx.count('catalogs_' + type(catalog).__name__)
    ctx.eq(len(catalog), len(d), what + ': len()')
    keys = list(catalog)
    ctx.eq(len(keys), len(d), what + ': number of keys iterated')
    ctx.eq(sorted(keys), sorted(d), what + ': keys')
    ctx.eq(list(catalog.keys()), keys, what + ': keys() against iteration')
    ctx.eq(list(catalog.values()), [d[k] for k in keys], what + ': values()')
    ctx.eq(list(catalog.items()), [(k, d[k]) for k in keys], what + ': items()')
    ctx.eq(list(catalog), keys, what + ': second iteration')
    for k, v in d.items():
        actual = catalog[k]
        if actual != v:
            ctx.fail('{}: [{}] is {!r}, expected {!r} (of {} items)'.format(what, k, actual, v, len(d)))
        ctx.check(k in catalog, '{}: {} is not contained', what, k)
        ctx.eq(catalog.get(k, 'missing'), v, '{}: get({})'.format(what, k))
    ctx.count('present_keys', len(d))
    limited = all(abs(n) < 2**31 for k, v in d.items() for n in (*(k if two else (k,)), v))
    for k in rng.sample(list(d), min(len(d), 4)) if limited else []:
        # Equal keys of other types, such as come from headers or arrays
        for kind in (Number, numpy.int64, field_types.Int32):
            if two:
                equal = rng.choice([tuple, Pair._make])(kind(v) for v in k)
            else:
                equal = kind(k)
            ctx.check(equal in catalog, '{}: {!r} is not contained', what, equal)
            ctx.eq((catalog[equal], catalog.get(equal)), (d[k], d[k]), '{}: [{!r}]'.format(what, equal))
            ctx.count('equal_keys')
    for k in absent(rng, d, two):
        ctx.check(k not in catalog, '{}: {} is contained although never added', what, k)
        ctx.raises(KeyError, lambda: catalog[k], '{}: [{}]'.format(what, k))
        marker = object()
        ctx.check(catalog.get(k, marker) is marker, '{}: get({}) does not return the default', what, k)
        ctx.count('absent_keys')
    ctx.check(catalog == dict(d) and dict(d) == catalog and not (catalog != dict(d)), what + ': not equal to the dictionary')
    if d:
        k = next(iter(d))
        other = dict(d)
        other[k] += 1
        ctx.check(catalog != other, what + ': equal to a dictionary with another value')
        del other[k]
        ctx.check(catalog != other, what + ': equal to a dictionary with fewer keys')
    ctx.eq(bool(catalog), bool(d), what + ': truth')
    if two and hasattr(catalog, 'i_range'):
        ctx.eq(list(catalog.i_range), sorted({i for i, _ in d}), what + ': i_range')
        ctx.eq(list(catalog.j_range), sorted({j for _, j in d}), what + ': j_range')
        if d:
            i, j = zip(*d)
            ctx.eq((catalog.i_min, catalog.i_max, catalog.j_min, catalog.j_max), (min(i), max(i), min(j), max(j)), what + ': limits')
            ctx.eq((catalog.key_min(), catalog.key_max()), ((min(i), min(j)), (max(i), max(j))), what + ': key_min() and key_max()')
            if catalog.key_min() in d and catalog.key_max() in d:
                ctx.eq((catalog.value_first(), catalog.value_last()), (d[catalog.key_min()], d[catalog.key_max()]), what + ': value_first() and value_last()')
    if two and hasattr(catalog, 'key') and len(set(d.values())) == len(d):
        for k, v in d.items():
            ctx.eq(catalog.key(v), k, '{}: key({})'.format(what, v))
        for v in {max(d.values(), default=0) + 1, min(d.values(), default=0) - 1, 10**12} - set(d.values()):
            ctx.raises(ValueError, lambda: catalog.key(v), '{}: key({})'.format(what, v))
    ctx.eq(dict(pickle.loads(pickle.dumps(catalog))), d, what + ': pickled')
    ctx.eq(dict(copy.copy(catalog)), d, what + ': copied')


def absent(rng, d, two):
    """Keys which are not in d, close to those which are."""
    out = set()
    if two:
        sides = [sorted({k[n] for k in d}) or [0] for n in (0, 1)]
        for i in rng.sample(sides[0], min(4, len(sides[0]))) + [sides[0][0] - 1, sides[0][-1] + 1, 0, -1]:
            for j in rng.sample(sides[1], min(4, len(sides[1]))) + [sides[1][0] - 1, sides[1][-1] + 1, 0]:
                out.add((i, j))
                out.add((j, i))
        for i, j in list(d)[:20]:
            out.update([(i + 1, j), (i, j + 1), (i - 1, j), (i, j - 1), (j, i), (-i, -j)])
        stride = [b - a for a, b in zip(sides[0], sides[0][1:])][:1] or [1]
        out.add((sides[0][-1] + stride[0], sides[1][0]))
    else:
        ks = sorted(d) or [0]
        stride = ks[1] - ks[0] if len(ks) > 1 else 1
        out.update([ks[0] - 1, ks[-1] + 1, ks[0] - stride, ks[-1] + stride, 0, -1, 10**20, -10**20])
        for k in rng.sample(ks, min(12, len(ks))):
            out.update([k + 1, k - 1, -k, k + stride, k * 2])
    return [k for k in out if k not in d]


def shape_values(rng, n):
    k = rng.random()
    if k < 0.2:
        return [rng.choice([0, 5, -7, 2**40, 2**70 + 1])] * n
    if k < 0.55:
        start, step = rng.choice([0, 0, 1, -5, 1000, 10**12, 2**53 + 1, 10**20 + 7]), rng.choice([1, 1, 1, 2, 3, -1, -1, -2, 240, 4240, 10**9, 2**53 + 1, 3**40])
        return [start + i * step for i in range(n)]
    if k < 0.7:
        v = [3 + i * rng.choice([2, 2, 2]) for i in range(n)]
        if n > 2:
            i = rng.randrange(n)
            v[i] += rng.choice([1, -1, 2])
        return v
    if k < 0.8:
        # increasing, irregular
        v, x = [], rng.randint(-100, 100)
        for _ in range(n):
            x += rng.randint(1, 9)
            v.append(x)
        return v
    v = [gen.integer(rng, -2**40, 2**40) for _ in range(n)]
    if rng.random() < 0.5 and n > 1:
        v[rng.randrange(n)] = v[rng.randrange(n)]
    return v


def size(rng):
    return rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 7, 8, 9, 16, rng.randint(2, 40), rng.randint(2, 40), rng.randint(40, 300)])


def shape_keys(rng, n):
    ks = gen.numbers(rng, n, -2**62, 2**62)
    k = rng.random()
    if k < 0.15 and n > 2:
        # Nearly regular: one key moved or missing in the middle
        i = rng.randrange(1, n)
        candidate = ks[i] + rng.choice([1, -1, 10**9])
        if candidate not in ks:
            ks[i] = candidate
    if rng.random() < 0.05:
        ks = [k * (3**40) for k in ks]
    if rng.random() < 0.1:
        offset = rng.choice([2**63, -2**63, 10**25])
        ks = [k + offset for k in ks]
    return ks


def build(ctx, pairs, rng):
    """Feed pairs to a builder in one of the possible ways."""
    way = rng.choice(['add', 'add', 'add', 'iterable', 'generator', 'mixed'] + (['mapping'] if len({k for k, _ in pairs}) == len(pairs) else []))
    if way == 'mapping':
        return CatalogBuilder(dict(pairs))
    if way == 'iterable':
        return CatalogBuilder(rng.choice([list, tuple])(pairs))
    if way == 'generator':
        return CatalogBuilder(p for p in pairs)
    split = rng.randint(0, len(pairs)) if way == 'mixed' else 0
    b = CatalogBuilder(pairs[:split]) if split else CatalogBuilder()
    for k, v in pairs[split:]:
        b.add(k, v)
    return b


def one(ctx, pairs, rng, two):
    ctx.note('items: ' + brief(pairs, 1500))
    b = build(ctx, pairs, rng)
    d = dict(pairs)
    catalog = b.create()
    if len(d) != len(pairs):
        ctx.eq(catalog, None, 'create() with duplicate keys')
        ctx.count('duplicates_detected')
    else:
        ctx.check(catalog is not None, 'create() returned None although all {} keys are distinct', len(pairs))
        examine(ctx, catalog, d, rng, two, 'catalog')
        if rng.random() < 0.3:
            # The builder may be used further; the first catalog is unaffected
            again = b.create()
            examine(ctx, again, d, rng, two, 'catalog created again')
            k = max(d, default=(0, 0) if two else 0)
            k = (k[0] + 1, k[1] - 1) if two else k + 1
            b.add(k, 99)
            extended = b.create()
            examine(ctx, extended, {**d, k: 99}, rng, two, 'catalog created after a further addition')
            examine(ctx, catalog, d, rng, two, 'catalog after a further addition to its builder')
            b.add(k, 100)
            ctx.eq(b.create(), None, 'create() after a duplicate was added')
            ctx.count('builder_reused')
    ctx.evaluated(*([repr(pairs)] if len(pairs) > 1 else []))


def scalar_keys(ctx):
    rng = ctx.rng
    for _ in range(4):
        n = size(rng)
        pairs = list(zip(shape_keys(rng, n), shape_values(rng, n)))
        if rng.random() < 0.3:
            rng.shuffle(pairs)
        if rng.random() < 0.08 and pairs:
            k, v = rng.choice(pairs)
            pairs.insert(rng.randint(0, len(pairs)), (k, rng.choice([v, v + 1])))
        one(ctx, pairs, rng, False)
        ctx.sample(items=pairs[:6], n=n)


def pair_keys(ctx):
    rng = ctx.rng
    for _ in range(3):
        kind = rng.choice(['grid', 'grid', 'grid', 'grid', 'sparse', 'irregular', 'almost', 'single-inline', 'single-xline', 'one', 'none', 'shuffled'])
        pairs = [(i, x) for i, x, _ in gen.geometry(rng, kind, rng.choice([3, 7, 7, 14]))]
        rng2 = rng.random()
        if rng2 < 0.35:
            order = sorted(pairs)
        elif rng2 < 0.7:
            order = sorted(pairs, key=lambda p: (p[1], p[0]))
        else:
            order = pairs
        if rng.random() < 0.2:
            order = order[::-1]
        items = list(zip(order, shape_values(rng, len(order))))
        if rng.random() < 0.3:
            rng.shuffle(items)
        if rng.random() < 0.08 and items:
            k, v = rng.choice(items)
            items.append((k, rng.choice([v, v + 1])))
        one(ctx, items, rng, True)
        ctx.sample(items=items[:6], n=len(items))


def any_range(rng):
    n = rng.choice([1, 1, 2, 3, 4, 7, rng.randint(1, 12)])
    start, step = gen.integer(rng, -1000, 1000), rng.choice([1, 1, 2, 3, 10])
    return range(start, start + n * step, step)


def direct(ctx):
    """Catalog classes constructed directly."""
    rng = ctx.rng
    for _ in range(4):
        i_range, j_range = any_range(rng), any_range(rng)
        if rng.random() < 0.3:
            i_range = rng.choice([list, tuple])(i_range)
        if rng.random() < 0.3:
            j_range = rng.choice([list, tuple])(j_range)
        n = len(i_range) * len(j_range)
        start, step = gen.integer(rng, -1000, 1000), rng.choice([1, 1, 2, -1, -3, 240])
        v_range = range(start, start + n * step, step)
        last = {k: v for k, v in zip(((i, j) for i in i_range for j in j_range), v_range)}
        fst = {k: v for k, v in zip(((i, j) for j in j_range for i in i_range), v_range)}
        examine(ctx, LastIndexVariesQuickestCatalog2D(i_range, j_range, v_range), last, rng, True, 'LastIndexVariesQuickestCatalog2D')
        examine(ctx, FirstIndexVariesQuickestCatalog2D(i_range, j_range, v_range), fst, rng, True, 'FirstIndexVariesQuickestCatalog2D')
        kept = {k: v for k, v in last.items() if rng.random() < 0.7}
        cat = DictionaryCatalog2D(sorted({i for i, _ in kept}), sorted({j for _, j in kept}), rng.choice([dict, lambda x: list(x.items())])(kept))
        examine(ctx, cat, kept, rng, True, 'DictionaryCatalog2D')
        for cls in (LastIndexVariesQuickestCatalog2D, FirstIndexVariesQuickestCatalog2D):
            ctx.raises(ValueError, lambda: cls(i_range, j_range, range(n + 1)), cls.__name__ + ' with too many values')
            if len(i_range) > 1:
                ctx.raises(ValueError, lambda: cls(list(i_range)[::-1], j_range, v_range), cls.__name__ + ' with descending keys')
        ks = any_range(rng)
        values = shape_values(rng, len(ks))
        stride = ks.step
        examine(ctx, RegularCatalog(ks[0], ks[-1], stride, rng.choice([list, iter])(values)), dict(zip(ks, values)), rng, False, 'RegularCatalog')
        examine(ctx, RegularConstantCatalog(ks[0], ks[-1], stride, 42), dict.fromkeys(ks, 42), rng, False, 'RegularConstantCatalog')
        some = gen.numbers(rng, len(ks))
        examine(ctx, ConstantCatalog(rng.choice([list, iter])(some), -3), dict.fromkeys(some, -3), rng, False, 'ConstantCatalog')
        examine(ctx, DictionaryCatalog(list(zip(some, values))), dict(zip(some, values)), rng, False, 'DictionaryCatalog')
        if len(ks) > 1:
            vs = range(start, start + len(ks) * step, step)
            examine(ctx, LinearRegularCatalog(ks[0], ks[-1], stride, vs[0], vs[-1], step), dict(zip(ks, vs)), rng, False, 'LinearRegularCatalog')
            ctx.raises(ValueError, lambda: LinearRegularCatalog(ks[0], ks[-1], stride, vs[0], vs[-1] + step, step), 'LinearRegularCatalog with inconsistent values')
            ctx.raises(ValueError, lambda: RegularCatalog(ks[0], ks[-1], stride, values[:-1]), 'RegularCatalog with too few values')
            ctx.raises(ValueError, lambda: RegularCatalog(ks[-1], ks[0], stride, values), 'RegularCatalog with exchanged limits')
        ctx.evaluated(repr((list(i_range), list(j_range), v_range)))


def refused(ctx):
    """Arguments documented as refused, each one change away from arguments which are accepted."""
    rng = ctx.rng
    n = rng.randint(2, 9)
    start, stride = gen.integer(rng, -1000, 1000), rng.choice([2, 2, 3, 7, 10])
    ks = range(start, start + n * stride, stride)
    v0, vstride = gen.integer(rng, -1000, 1000), rng.choice([2, 3, -2, -5, 240])
    vs = [v0 + i * vstride for i in range(n)]
    lo, hi = ks[0], ks[-1]

    def no(fn, what, *args):
        ctx.raises(ValueError, fn, what.format(*args))
        ctx.count('refusals')

    off = rng.randint(1, stride - 1)
    examine(ctx, RegularConstantCatalog(lo, hi, stride, 5), dict.fromkeys(ks, 5), rng, False, 'RegularConstantCatalog')
    no(lambda: RegularConstantCatalog(hi, lo, stride, 5), 'RegularConstantCatalog({}, {}, {}, 5)', hi, lo, stride)
    no(lambda: RegularConstantCatalog(lo, hi + off, stride, 5), 'RegularConstantCatalog({}, {}, {}, 5)', lo, hi + off, stride)
    examine(ctx, RegularCatalog(lo, hi, stride, vs), dict(zip(ks, vs)), rng, False, 'RegularCatalog')
    no(lambda: RegularCatalog(hi, lo, stride, vs), 'RegularCatalog({}, {}, {}, {} values)', hi, lo, stride, n)
    no(lambda: RegularCatalog(lo, hi + off, stride, vs), 'RegularCatalog({}, {}, {}, {} values)', lo, hi + off, stride, n)
    for values in (vs[:-1], vs[1:], vs + [0], []):
        no(lambda: RegularCatalog(lo, hi, stride, rng.choice([list, iter, tuple])(values)),
           'RegularCatalog({}, {}, {}, {} values)', lo, hi, stride, len(values))
    ok = [lo, hi, stride, vs[0], vs[-1], vstride]
    examine(ctx, LinearRegularCatalog(*ok), dict(zip(ks, vs)), rng, False, 'LinearRegularCatalog')
    voff = rng.randint(1, abs(vstride) - 1)
    for position, value in ((0, hi), (0, hi + stride), (1, lo), (0, lo - stride), (1, hi + stride), (1, hi + off), (2, 0), (2, -stride),
                            (3, vs[0] - vstride), (3, vs[0] + voff), (4, vs[-1] + vstride), (4, vs[-1] + voff), (5, 0), (5, -vstride)):
        bad = list(ok)
        bad[position] = value
        no(lambda: LinearRegularCatalog(*bad), 'LinearRegularCatalog{}', tuple(bad))
    # Two dimensions: unsorted or repeated indexes, keys off the ranges, the wrong number of values
    i_range, j_range = list(any_range(rng)), list(any_range(rng))
    if len(i_range) < 2:
        i_range.append(i_range[-1] + 1)
    if len(j_range) < 2:
        j_range.append(j_range[-1] + 1)
    grid = [(i, j) for i in i_range for j in j_range]

    def disordered(r):
        at = rng.randrange(len(r) - 1)
        return rng.choice([r[:at] + [r[at + 1], r[at]] + r[at + 2:], r[:at] + [r[at + 1]] + r[at + 1:], r[::-1], r[:-1] + [r[0] - 1]])

    for cls in (LastIndexVariesQuickestCatalog2D, FirstIndexVariesQuickestCatalog2D, DictionaryCatalog2D):
        values = {k: v for v, k in enumerate(grid)} if cls is DictionaryCatalog2D else range(len(grid))
        for a, b in ((disordered(i_range), j_range), (i_range, disordered(j_range))):
            no(lambda: cls(a, b, {} if cls is DictionaryCatalog2D else values), '{}({}, {}, ...)', cls.__name__, a, b)
        if cls is not DictionaryCatalog2D:
            for k in (-1, 1, -len(grid)):
                no(lambda: cls(i_range, j_range, range(len(grid) + k)), '{}({}, {}, {} values)', cls.__name__, i_range, j_range, len(grid) + k)
    for alien in ((i_range[-1] + 1, j_range[0]), (i_range[0], j_range[0] - 1), (i_range[0] - 1, j_range[0] - 1)):
        items = [(k, 1) for k in grid]
        items.insert(rng.randint(0, len(items)), (alien, 1))
        no(lambda: DictionaryCatalog2D(i_range, j_range, rng.choice([list, dict, iter])(items)), 'DictionaryCatalog2D with the key {}', alien)
    ctx.raises(TypeError, lambda: DictionaryCatalog2D(i_range, j_range, rng.choice([5, None, 1.5])), 'DictionaryCatalog2D without items')
    for not_items in (5, 1.5, object()):
        ctx.raises(TypeError, lambda: CatalogBuilder(not_items), 'CatalogBuilder({!r})'.format(not_items))
    ctx.raises(ValueError, lambda: CatalogBuilder([(1, 2), rng.choice([(1, 2, 3), (1,), ()])]), 'CatalogBuilder of something other than pairs')
    ctx.evaluated(lo, hi, stride, vs[0], vs[-1], repr(grid))


def exchange(rng, values):
    """Exchange two values, mostly far from the first."""
    n = len(values)
    a, b = rng.choice([(n - 1, n - 2), (n - 1, n - 2), (n - 1, n // 2), tuple(rng.sample(range(n), 2))])
    values[a], values[b] = values[b], values[a]


def large(ctx):
    rng = ctx.rng
    n = rng.choice([1000, 5000, 20000])
    step, vstep = rng.choice([1, 1, 2, -1, 7]), rng.choice([240, 4240, 1])
    keys = [17 + i * step for i in range(n)]
    values = [3600 + i * vstep for i in range(n)]
    if rng.random() < 0.5:
        i = rng.randrange(n)
        values[i] += 4
    elif rng.random() < 0.3:
        exchange(rng, values)
    one(ctx, list(zip(keys, values)), rng, False)
    side = rng.choice([30, 70])
    grid = [(100 + i, 7 * j) for i in range(side) for j in range(side + 3)]
    if rng.random() < 0.5:
        grid.sort(key=lambda p: (p[1], p[0]))
    if rng.random() < 0.4:
        del grid[rng.randrange(len(grid))]
    values = list(range(len(grid)))
    if rng.random() < 0.4:
        exchange(rng, values)
    one(ctx, list(zip(grid, values)), rng, True)
    ctx.count('large_catalogs', 2)


SPACE = 1500  # Pickled, whatever the number of items; about 200 are needed


def compact(ctx):
    """Regular mappings take space which does not depend on their size."""
    rng = ctx.rng
    n = rng.choice([1000, 3000])

    def judge(pairs, what):
        ctx.note(what + ': ' + brief(pairs, 300))
        if rng.random() < 0.3:
            rng.shuffle(pairs)
        catalog = build(ctx, list(pairs), rng).create()
        ctx.eq(dict(catalog), dict(pairs), what)
        taken = len(pickle.dumps(catalog))
        ctx.check(taken <= SPACE, '{}: a catalog of {} items takes {} bytes', what, len(pairs), taken)
        ctx.state(type(catalog).__name__, what)
        ctx.count('compact_catalogs')
        ctx.evaluated(what, pairs[0], pairs[-1])

    start, step = gen.integer(rng, -2**40, 2**40), rng.choice([1, 1, 2, 3, 10, -1, 10**9])
    v0, vstep = rng.choice([0, 3600, -17, 10**20]), rng.choice([1, -1, 2, 240, 4240, -240, 3**40])
    keys = [start + i * step for i in range(n)]
    judge([(k, v0) for k in keys], 'regular keys, one value')
    judge([(k, v0 + i * vstep) for i, k in enumerate(keys)], 'regular keys and values')
    rows, columns = rng.choice([(1, n), (n, 1), (2, n // 2), (30, 70), (70, 30)])
    istep, jstep = rng.choice([1, 2, 5]), rng.choice([1, 3, 10])
    i0, j0 = gen.integer(rng, -1000, 1000), gen.integer(rng, -1000, 1000)
    judge([((i0 + i * istep, j0 + j * jstep), v0 + (i * columns + j) * vstep) for i in range(rows) for j in range(columns)], 'grid by rows')
    judge([((i0 + i * istep, j0 + j * jstep), v0 + (j * rows + i) * vstep) for i in range(rows) for j in range(columns)], 'grid by columns')
    # Those of a file in which all is regular
    samples = rng.randint(0, 3)
    traces = [({'num_samples': samples, 'ensemble_num': 5 + 3 * t, 'inline_number': i0 + t // columns * istep, 'crossline_number': j0 + t % columns * jstep}, [0] * samples)
              for t in range(rows * columns)]
    m = model.FileModel([' ' * 80] * 40, {'data_sample_format': 8}, [], traces)
    f = io.BytesIO(m.encode()[m.data_start():])
    for name, catalog in zip(('offsets', 'lengths', 'CDP', 'lines'), catalog_traces(f, 1)):
        ctx.eq(len(catalog), len(traces), 'catalog of ' + name)
        taken = len(pickle.dumps(catalog))
        ctx.check(taken <= SPACE, 'catalog_traces(): the catalog of {} of {} traces takes {} bytes', name, len(traces), taken)
        ctx.count('compact_catalogs_of_files')


SCENARIOS = [
    Scenario('compact', compact, 32, 320, ['compact_catalogs', 'compact_catalogs_of_files']),
    Scenario('scalar-keys', scalar_keys, 1200, 20000,
             ['present_keys', 'absent_keys', 'equal_keys', 'duplicates_detected', 'builder_reused']),
    Scenario('pair-keys', pair_keys, 1000, 16000,
             ['present_keys', 'absent_keys', 'equal_keys', 'duplicates_detected', 'builder_reused']),
    Scenario('direct', direct, 300, 5000, ['present_keys', 'absent_keys']),
    Scenario('refused', refused, 150, 2500, ['refusals']),
    Scenario('large', large, 16, 160, ['large_catalogs']),
]
