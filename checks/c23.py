import copy
import enum
import gc
import io
import pickle
import re
import sys
import threading
import weakref

import numpy

from segpy.binary_reel_header import BinaryReelHeader
from segpy.field_types import Int16, Int32, NNInt16, NNInt32
from segpy.header import Header, are_equal, field
from segpy.packer import make_header_packer
from segpy.reader import create_reader
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

from harness import formats, gen, model
from harness.core import Scenario, brief
from harness.observe import TRACE_FORMATS

PROPERTY = 'C23'
LEVEL = 'exploration'
RULE = ('A case is a random history of operations on a population of header objects of standard and user-defined formats: construction, '
        'assignment, refused assignment, copying, pickling, deletion, discarding; after each, any object may be compared with a model '
        'which holds a plain dictionary for each object. Distinct by format and history.')
ASSUMPTIONS = ['objects are released by reference counting, as CPython does']

STANDARD = [(BinaryReelHeader, model.BINARY, 3201, 400), (TraceHeaderRev1, model.TRACE_REV1, 1, 240), (TraceHeaderRev0, model.TRACE_REV0, 1, 240)]


class Extended(TraceHeaderRev1):
    extra_a = field(Int16, offset=233, default=-7, documentation="Extra A.")
    extra_b = field(NNInt32, offset=235, default=70000, documentation="Extra B.")


EXTENDED = model.TRACE_REV1 + [('extra_a', 233, 'h', -7, (-2**15, 2**15 - 1)), ('extra_b', 235, 'i', 70000, (0, 2**31 - 1))]


class Replaced(BinaryReelHeader):
    """Another type and default for a field of the base."""
    job_id_num = field(Int16, offset=3201, default=33, documentation="Job.")


class Same(BinaryReelHeader):
    """A subclass which adds nothing."""


class Small(Header):
    LENGTH_IN_BYTES = 8
    late = field(Int32, offset=4, default=-1, documentation="Late.")
    early = field(NNInt16, offset=0, default=9, documentation="Early.")


SMALL = [('late', 4, 'i', -1, (-2**31, 2**31 - 1)), ('early', 0, 'h', 9, (0, 2**15 - 1))]

PICKLABLE = {BinaryReelHeader, TraceHeaderRev1, TraceHeaderRev0, Extended, Small}


def random_class(rng):
    """A class and its layout."""
    k = rng.random()
    if k < 0.45:
        return rng.choice(STANDARD)[:2]
    if k < 0.55:
        return Extended, EXTENDED
    if k < 0.65:
        return Small, SMALL
    if k < 0.85:
        f = formats.random_format(rng)
        return f.cls, f.layout
    cls, layout, start, length = rng.choice(STANDARD)
    f = formats.sub_format(rng, cls, layout, start, length)
    return f.cls, f.layout


def value_type(cls, name):
    t = getattr(cls, name).value_type
    return getattr(t, 'ENUM', t)


def valid(rng, domain):
    """A value, and what is given to assign it."""
    v = gen.from_domain(rng, domain)
    k = rng.random()
    if k < 0.7:
        given = v
    elif k < 0.8:
        given = numpy.int64(v)
    elif k < 0.85:
        given = float(v)
    elif k < 0.9:
        given = str(v)
    elif v in (0, 1):
        given = bool(v)
    else:
        given = enum.IntEnum('E', {'A': v}).A
    return v, given


def invalid(rng, domain, code):
    """A value which must be refused, and the exceptions with which it may be."""
    outside = gen.outside_domain(rng, domain, code)
    if outside is not None and rng.random() < 0.7:
        return outside, ValueError
    return rng.choice([('x', ValueError), ('', ValueError), ('1.5', ValueError), (float('nan'), ValueError), (float('inf'), (ValueError, OverflowError)),
                       (None, (TypeError, ValueError)), ([], (TypeError, ValueError)), (object(), (TypeError, ValueError)),
                       (2**70, (ValueError, OverflowError)), (-2**70, (ValueError, OverflowError)), (1j, (TypeError, ValueError))])


class Population:
    """Objects, each with a plain dictionary of the values it should have."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.members = []   # (object, dictionary, class, layout)
        self.history = []
        self.pending = False

    def add(self, obj, values, cls, layout):
        self.ctx.check(type(obj) is cls, 'a {} rather than a {}', type(obj), cls)
        self.members.append((obj, values, cls, layout))
        if len(self.members) > 12:
            # Not the new one, to which the caller refers, nor the one it was made from
            self.pending = True

    def drop(self, position):
        obj, values, cls, layout = self.members.pop(position)
        ref = weakref.ref(obj)
        self.ctx.check(ref() is obj, 'weak reference')
        del obj
        # It may be referenced by the case itself, but then it is not collected here
        self.ctx.count('discarded')
        self.ctx.check(ref() is None, 'a discarded {} is still alive', cls.__name__)
        self.ctx.count('released')

    def verify(self, member, what):
        obj, values, cls, layout = member
        ctx = self.ctx
        for name, _, _, _, _ in layout:
            v = getattr(obj, name)
            if not (v == values[name]):
                ctx.fail('{}: {} of {} is {!r}, expected {!r}'.format(what, name, cls.__name__, v, values[name]))
            if not isinstance(v, value_type(cls, name)):
                ctx.fail('{}: {} of {} is a {}'.format(what, name, cls.__name__, type(v)))
        ctx.count('fields_verified', len(layout))


def defaults(layout):
    return {row[0]: row[3] for row in layout}


def histories(ctx):
    rng = ctx.rng
    classes = [random_class(rng) for _ in range(rng.randint(1, 4))]
    p = Population(ctx)
    n = rng.randint(20, 80)
    for step in range(n):
        kind = rng.choice(['new', 'new', 'set', 'set', 'set', 'set', 'set', 'refuse', 'refuse', 'copy', 'update', 'copies', 'pickle', 'delete', 'discard',
                           'discard', 'unknown', 'equal', 'repr', 'through-packer', 'bad-update'])
        if kind == 'new' or not p.members:
            cls, layout = rng.choice(classes)
            new_object(ctx, p, cls, layout)
        else:
            position = rng.randrange(len(p.members))
            globals()['do_' + kind.replace('-', '_')](ctx, p, position)
        if p.pending:
            p.pending = False
            p.drop(rng.randrange(len(p.members)))
        p.history.append(kind)
        ctx.count('steps_' + kind)
        if rng.random() < 0.3:
            p.verify(rng.choice(p.members), 'after ' + kind) if p.members else None
    for member in p.members:
        p.verify(member, 'at the end')
    member = None
    while p.members:
        p.drop(rng.randrange(len(p.members)))
    ctx.state(tuple(sorted(c.__name__ for c, _ in classes)))
    ctx.evaluated(tuple(p.history), repr([l for _, l in classes]))
    ctx.sample(history=p.history[:12], classes=[c.__name__ for c, _ in classes])


def new_object(ctx, p, cls, layout):
    rng = ctx.rng
    values = defaults(layout)
    args, kwargs = [], {}
    # A field which is redefined is listed twice; judged by C03
    if rng.random() < 0.5:
        for name, _, _, _, domain in layout[:rng.randint(0, len(layout))]:
            values[name], given = valid(rng, domain)
            args.append(given)
    if rng.random() < 0.6:
        for name, _, _, _, domain in rng.sample(layout, rng.randint(0, len(layout))):
            values[name], given = valid(rng, domain)
            kwargs[name] = given
    obj = cls(*args, **kwargs)
    member = (obj, values, cls, layout)
    p.verify(member, 'constructed with {} positional and {} keyword arguments'.format(len(args), len(kwargs)))
    p.add(*member)
    ctx.note('{}({}, {})'.format(cls.__name__, args, kwargs))


def do_set(ctx, p, position):
    obj, values, cls, layout = p.members[position]
    name, _, _, _, domain = ctx.rng.choice(layout)
    v, given = valid(ctx.rng, domain)
    setattr(obj, name, given)
    values[name] = v
    ctx.note('{}.{} = {!r}'.format(cls.__name__, name, given))
    p.verify(p.members[position], 'after {} = {!r}'.format(name, given))


def do_refuse(ctx, p, position):
    obj, values, cls, layout = p.members[position]
    name, _, code, _, domain = ctx.rng.choice(layout)
    given, errors = invalid(ctx.rng, domain, code)
    ctx.note('{}.{} = {!r}'.format(cls.__name__, name, given))
    ctx.raises(errors, lambda: setattr(obj, name, given), '{} = {!r} (domain {})'.format(name, given, domain))
    p.verify(p.members[position], 'after refused {} = {!r}'.format(name, given))
    ctx.raises(errors, lambda: cls(**{name: given}), '{}({}={!r})'.format(cls.__name__, name, given))
    names = cls.ordered_field_names()
    args = [getattr(cls, n).default for n in names[:names.index(name)]] + [given]
    ctx.raises(errors, lambda: cls(*args), '{} with positional argument {}, {}, of {!r}'.format(cls.__name__, len(args), name, given))


def do_copy(ctx, p, position):
    obj, values, cls, layout = p.members[position]
    other = ctx.rng.choice([lambda: obj.copy(), lambda: copy.copy(obj)])()
    ctx.check(other is not obj, 'a copy is the same object')
    p.add(other, dict(values), cls, layout)


def do_update(ctx, p, position):
    obj, values, cls, layout = p.members[position]
    updates, new = {}, dict(values)
    for name, _, _, _, domain in ctx.rng.sample(layout, ctx.rng.randint(1, len(layout))):
        new[name], updates[name] = valid(ctx.rng, domain)
    other = obj.copy(**updates)
    p.verify((obj, values, cls, layout), 'after copying with updates')
    p.verify((other, new, cls, layout), 'copied with updates {!r}'.format(updates))
    p.add(other, new, cls, layout)


def do_bad_update(ctx, p, position):
    obj, values, cls, layout = p.members[position]
    name, _, code, _, domain = ctx.rng.choice(layout)
    given, errors = invalid(ctx.rng, domain, code)
    ctx.raises(errors, lambda: obj.copy(**{name: given}), 'copy({}={!r})'.format(name, given))
    ctx.raises(TypeError, lambda: obj.copy(not_a_field=1), 'copy(not_a_field=1)')
    p.verify((obj, values, cls, layout), 'after a refused copy')


def do_copies(ctx, p, position):
    obj, values, cls, layout = p.members[position]
    others = copy.deepcopy([obj, obj])
    ctx.check(others[0] is not obj, 'a deep copy is the same object')
    p.add(others[0], dict(values), cls, layout)


def do_pickle(ctx, p, position):
    obj, values, cls, layout = p.members[position]
    if cls in PICKLABLE:
        protocol = ctx.rng.randint(2, pickle.HIGHEST_PROTOCOL)
        other = pickle.loads(pickle.dumps(obj, protocol))
        p.verify((obj, values, cls, layout), 'after pickling')
        p.verify((other, values, cls, layout), 'pickled by protocol {}'.format(protocol))
        p.add(other, dict(values), cls, layout)
        ctx.count('pickled')


def do_delete(ctx, p, position):
    obj, values, cls, layout = p.members[position]
    name = ctx.rng.choice(layout)[0]
    ctx.raises(AttributeError, lambda: delattr(obj, name), 'deleting ' + name)
    p.verify(p.members[position], 'after a refused deletion')


def do_discard(ctx, p, position):
    p.drop(position)
    # A new object may be given the same address
    cls, layout = ctx.rng.choice([s[:2] for s in STANDARD])
    obj = cls()
    p.verify((obj, defaults(layout), cls, layout), 'a new object after another was discarded')


def do_unknown(ctx, p, position):
    obj, values, cls, layout = p.members[position]
    for name in ('nothing', layout[0][0] + '_', '_ordered_field', 'Copy'):
        ctx.raises(AttributeError, lambda: getattr(obj, name), 'attribute ' + name)
    for name in ('nothing', layout[0][0] + '_', 'copy', 'ordered_field_names', '__class__', '_ordered_field_names', 'START_OFFSET_IN_BYTES', ''):
        ctx.raises(TypeError, lambda: cls(**{name: 1}), '{}({}=1)'.format(cls.__name__, name))
        ctx.raises(TypeError, lambda: obj.copy(**{name: 1}), 'copy({}=1)'.format(name))
    p.verify(p.members[position], 'after unknown names were refused')


def do_equal(ctx, p, position):
    a, va, ca, la = p.members[position]
    ctx.check(are_equal(a, a), 'are_equal() with itself')
    for b, vb, cb, lb in p.members:
        expected = ca is cb and va == vb
        ctx.eq(bool(are_equal(a, b)), expected, 'are_equal() of {} and {}'.format(ca.__name__, cb.__name__))
        ctx.eq(bool(are_equal(b, a)), expected, 'are_equal() of {} and {}'.format(cb.__name__, ca.__name__))
        ctx.count('comparisons')
    other = a.copy()
    ctx.check(are_equal(a, other), 'are_equal() of a copy')
    # One field only, the hardest to see
    name, _, _, _, domain = ctx.rng.choice(la)
    for _ in range(20):
        v = gen.from_domain(ctx.rng, domain)
        if v != va[name]:
            setattr(other, name, v)
            ctx.eq(bool(are_equal(a, other)), False, 'are_equal() with {} of {!r} and {!r}'.format(name, va[name], v))
            ctx.count('single_differences')
            break
    p.verify(p.members[position], 'after comparing')


def do_repr(ctx, p, position):
    obj, values, cls, layout = p.members[position]
    text = repr(obj)
    ctx.check(text.startswith(cls.__name__ + '('), 'repr() {} of a {}', brief(text), cls.__name__)
    at = 0
    for name in cls.ordered_field_names():
        found = re.compile(r'\b{}=(?:<[^>]*?: )?([^,)>]*)'.format(re.escape(name))).search(text, at)
        ctx.check(found, 'repr() {} without {}', brief(text, 3000), name)
        at = found.end()
        v = found.group(1)
        ctx.check(v == str(int(values[name])) or v.endswith(getattr(getattr(obj, name), 'name', '\0')), 'repr() has {} = {}, expected {!r}', name, v, values[name])
    ctx.count('reprs')


def do_through_packer(ctx, p, position):
    obj, values, cls, layout = p.members[position]
    offsets = [row[1] for row in layout]
    if len(set(offsets)) != len(offsets):
        return
    packer = make_header_packer(cls, ctx.rng.choice('<>'))
    other = packer.unpack(packer.pack(obj))
    p.verify((obj, values, cls, layout), 'after packing')
    p.verify((other, values, cls, layout), 'unpacked')
    p.add(other, dict(values), cls, layout)


# -- declarations

STRUCT_RANGE = {'h': 16, 'i': 32}
DECLARATIONS = [(c, row, len(l)) for c, l in [(s[0], s[1]) for s in STANDARD] + [(Extended, EXTENDED), (Small, SMALL)] for row in l]


def declarations(ctx):
    """Each field of the standard formats as the standard has it."""
    rng = ctx.rng
    cls, (name, offset, code, default, domain), _ = DECLARATIONS[ctx.case % len(DECLARATIONS)]
    layout = dict((s[0], s[1]) for s in STANDARD + [(Extended, EXTENDED), (Small, SMALL)])[cls]
    f = getattr(cls, name)
    ctx.eq(f.name, name, 'name of the field')
    ctx.eq(f.offset, offset, name + ': offset')
    ctx.eq(f.default, default, name + ': default')
    ctx.eq(getattr(cls(), name), default, name + ' of a new header')
    ctx.check(isinstance(f.documentation, str) and f.documentation.strip(), name + ': documentation')
    ctx.eq([n for n in cls.ordered_field_names()].count(name), 1, name + ' among ordered_field_names()')
    ctx.eq(sorted(cls.ordered_field_names()), sorted(row[0] for row in layout), 'ordered_field_names()')
    ctx.check(name in dir(cls()) or hasattr(cls(), name), name + ' is not an attribute')
    ctx.check(name in repr(f), 'repr() of the field {!r}', f)
    lo, hi = (min(domain), max(domain)) if isinstance(domain, list) else domain
    for v in sorted({lo, hi, default, gen.from_domain(rng, domain)}):
        h = cls(**{name: v})
        ctx.eq(getattr(h, name), v, '{} = {}'.format(name, v))
        for row in layout:
            if row[0] != name:
                ctx.eq(getattr(h, row[0]), row[3], '{} with {} = {}'.format(row[0], name, v))
    for v in {lo - 1, hi + 1, -2**31 - 1, 2**31, 2**63, -2**63} | ({v for v in range(lo - 2, min(hi, 2000) + 2)} - set(domain) if isinstance(domain, list) else set()):
        if (v in domain) if isinstance(domain, list) else lo <= v <= hi:
            continue
        if name == 'format_revision_num':
            # Judged by C21, with its variants
            continue
        ctx.raises(ValueError, lambda: cls(**{name: v}), '{}({}={})'.format(cls.__name__, name, v))
        ctx.count('values_refused')
    ctx.count('fields_declared')
    ctx.evaluated(cls.__name__, name)


# -- lifetimes and isolation

def many(ctx):
    """Discarding many objects releases everything they held; new objects never show old values."""
    rng = ctx.rng
    cls, layout = rng.choice(STANDARD)[:2]
    names = [row for row in layout]
    n = 400

    def generation():
        objs = []
        for _ in range(n):
            row = rng.choice(names)
            objs.append((cls(**{row[0]: gen.from_domain(rng, row[4])}), row))
        return objs

    def turnover(times):
        for _ in range(times):
            objs = generation()
            rng.shuffle(objs)
            refs = [weakref.ref(o) for o, _ in objs]
            del objs
            alive = sum(r() is not None for r in refs)
            ctx.eq(alive, 0, 'objects alive after the last reference was dropped')
            fresh = [cls() for _ in range(n // 4)]
            for h in fresh:
                for row in rng.sample(names, 5):
                    ctx.eq(getattr(h, row[0]), row[3], '{} of a new header'.format(row[0]))
            ctx.count('released', n)
            ctx.count('fresh_objects', len(fresh))
    gc.disable()
    try:
        turnover(2)
        gc.collect()
        before = sys.getallocatedblocks()
        turnover(4)
        fresh = refs = None
        gc.collect()
        growth = sys.getallocatedblocks() - before
        # 1600 objects were discarded
        ctx.check(growth < 1200, 'memory is retained: {} blocks after discarding {} headers', growth, 4 * n)
    finally:
        gc.enable()
    ctx.evaluated(cls.__name__, ctx.case)


def threads(ctx):
    """Objects of one format, each used by one thread."""
    rng = ctx.rng
    cls, layout = rng.choice([s[:2] for s in STANDARD] + [(Extended, EXTENDED)])
    errors, seeds = [], [rng.random() for _ in range(4)]
    interval = sys.getswitchinterval()

    def work(seed):
        import random
        r = random.Random(seed)
        try:
            mine = []
            for step in range(60):
                values = defaults(layout)
                for row in r.sample(layout, 4):
                    values[row[0]] = gen.from_domain(r, row[4])
                h = cls(**values)
                mine.append((h, values))
                h, values = r.choice(mine)
                row = r.choice(layout)
                v = gen.from_domain(r, row[4])
                setattr(h, row[0], v)
                values[row[0]] = v
                if len(mine) > 5:
                    mine.pop(0)
                for h, values in mine:
                    for row in r.sample(layout, 8):
                        if getattr(h, row[0]) != values[row[0]]:
                            errors.append('{} is {!r}, expected {!r}'.format(row[0], getattr(h, row[0]), values[row[0]]))
        except Exception as e:
            errors.append(repr(e))
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(s,)) for s in seeds]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    ctx.eq(errors, [], 'observed by threads')
    ctx.count('threads', len(ts))
    ctx.evaluated(cls.__name__, tuple(seeds))


def from_reader(ctx):
    """Headers returned by a reader are the caller's own."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=3, max_samples=4, geometry_kind=rng.choice(['grid', 'line', 'one']))
    a = dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision], cache_directory=None)
    reader, other = (create_reader(io.BytesIO(m.encode()), **a) for _ in range(2))
    held = []
    for _ in range(10):
        t = rng.randrange(len(m.traces))
        h = reader.trace_header(t)
        values = dict(m.trace_values(t))
        for row in rng.sample(m.layout, 5):
            v = gen.from_domain(rng, row[4])
            setattr(h, row[0], v)
            values[row[0]] = v
        held.append((h, values))
        again = rng.choice([reader, other]).trace_header(t)
        ctx.check(again is not h, 'trace_header() returned an object which was returned before')
        for row in m.layout:
            ctx.eq(getattr(again, row[0]), m.trace_values(t)[row[0]], '{} of trace {} after another header of it was modified'.format(row[0], t))
    for h, values in held:
        for row in m.layout:
            ctx.eq(getattr(h, row[0]), values[row[0]], row[0] + ' of a header which was kept')
    b = reader.binary_reel_header.copy()
    for row in rng.sample(model.BINARY, 8):
        setattr(b, row[0], gen.from_domain(rng, row[4]))
    for r in (reader, other):
        for row in model.BINARY:
            ctx.eq(getattr(r.binary_reel_header, row[0]), m.binary_values()[row[0]], row[0] + ' after a copy was modified')
    ctx.count('headers_from_readers', len(held))
    ctx.evaluated(m.encode())


def redefined(ctx):
    """A subclass which redefines a field, and its base."""
    rng = ctx.rng
    base, derived = BinaryReelHeader(), Replaced()
    ctx.eq(derived.job_id_num, 33, 'redefined default')
    ctx.eq(base.job_id_num, dict((r[0], r[3]) for r in model.BINARY)['job_id_num'], 'default of the base')
    ctx.eq(Replaced.job_id_num.default, 33, 'redefined default')
    ctx.raises(ValueError, lambda: setattr(derived, 'job_id_num', 40000), 'redefined domain')
    base.job_id_num = 40000
    ctx.eq(derived.job_id_num, 33, 'after assigning to the base')
    v = rng.randint(-100, 100)
    derived.job_id_num = v
    ctx.eq((base.job_id_num, derived.job_id_num), (40000, v), 'values')
    ctx.eq(derived.copy().job_id_num, v, 'copied')
    ctx.eq(copy.deepcopy(derived).job_id_num, v, 'deep copied')
    ctx.eq(pickle.loads(pickle.dumps(derived)).job_id_num, v, 'pickled')
    ctx.eq(bool(are_equal(base, derived)), False, 'base equal to derived')
    same, values = Same(), gen.header_values(rng, model.BINARY)
    base = BinaryReelHeader(**values)
    for name, v in values.items():
        setattr(same, name, v)
    ctx.eq((bool(are_equal(base, same)), bool(are_equal(same, base))), (False, False), 'headers of a class and a subclass with equal values are equal')
    ctx.eq((bool(are_equal(same, same.copy())), bool(are_equal(Same(**values), same))), (True, True), 'headers with equal values are equal')
    ctx.count('redefinitions')
    ctx.evaluated(v)


QUICK_SCALE = 4  # The cases are short: so many times those given below are run in the quick tier
SCENARIOS = [
    Scenario('histories', histories, 400, 8000, ['released', 'fields_verified', 'pickled', 'single_differences', 'reprs', 'comparisons', 'steps_refuse', 'steps_unknown', 'steps_through-packer']),
    Scenario('declarations', declarations, len(DECLARATIONS), len(DECLARATIONS) * 4, ['fields_declared', 'values_refused']),
    Scenario('many', many, 8, 60, ['released', 'fresh_objects']),
    Scenario('threads', threads, 12, 120, ['threads']),
    Scenario('from-reader', from_reader, 60, 1000, ['headers_from_readers']),
    Scenario('redefined', redefined, 10, 100, ['redefinitions']),
]
