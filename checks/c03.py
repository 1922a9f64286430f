import struct
import types
from enum import IntEnum

from segpy.binary_reel_header import BinaryReelHeader
from segpy.field_types import IntEnumFieldMeta, IntFieldMeta
from segpy.header import Header
from segpy.packer import make_header_packer
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

from harness import formats, gen, model
from harness.core import Scenario

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('A case is a header format (standard, sub-format, or user-defined with random fields, types, offsets, declaration order, gaps, '
        'inheritance and coincident fields) with random field values or buffers. Non-trivial: it has at least two fields; distinct by '
        'layout, byte order and values.')
ASSUMPTIONS = ['a field is placed at its offset minus START_OFFSET_IN_BYTES of its format, in LENGTH_IN_BYTES bytes, or up to the end of its last field when not given']

STANDARD = [(BinaryReelHeader, model.BINARY, 3201, 400), (TraceHeaderRev1, model.TRACE_REV1, 1, 240), (TraceHeaderRev0, model.TRACE_REV0, 1, 240)]


def make(cls, endian, rng):
    if endian == '>' and rng.random() < 0.3:
        return make_header_packer(cls)
    return make_header_packer(cls, endian)


def compare(ctx, header, values, layout, what):
    for row in layout:
        ctx.eq(getattr(header, row[0]), values[row[0]], '{}: field {}'.format(what, row[0]))
    ctx.count('fields_compared', len(layout))


def encode(layout, start, length, values, endian, fill=None):
    buf = bytearray(fill if fill is not None else bytes(length))
    for name, offset, code, default, domain in layout:
        struct.pack_into(endian + code, buf, offset - start, values[name])
    return bytes(buf)


def exercise(ctx, f, repeats=3):
    """Pack and unpack values of a format through one packer, repeatedly."""
    rng = ctx.rng
    for endian in rng.sample(gen.ENDIANS, 2):
        packer = make(f.cls, endian, rng)
        ctx.check(packer.header_format_class is f.cls, 'header_format_class of a packer')
        for _ in range(repeats):
            values = f.values(rng)
            header = f.cls(**values)
            expected = encode(f.layout, f.start, f.length, values, endian)
            packed = packer.pack(header)
            ctx.eq(bytes(packed), expected, 'packed {} {}'.format(f.layout, endian))
            compare(ctx, header, values, f.layout, 'header after packing')
            compare(ctx, packer.unpack(packed), values, f.layout, 'unpacked from packed')
            noisy = encode(f.layout, f.start, f.length, values, endian, rng.randbytes(f.length))
            result = packer.unpack(rng.choice([bytes, bytearray, memoryview])(noisy))
            ctx.check(type(result) is f.cls, 'unpack() returned a {}'.format(type(result)))
            compare(ctx, result, values, f.layout, 'unpacked from a buffer with other bytes')
            ctx.eq(bytes(packer.pack(result)), expected, 'repacked')
            ctx.evaluated(*([repr(f.layout), endian, expected] if len(f.layout) > 1 else []))
        for wrong in {0, 1, f.length - 1, f.length + 1, f.length * 2, rng.randint(0, f.length * 2)} - {f.length}:
            ctx.raises((ValueError, TypeError), lambda: packer.unpack(bytes(wrong)), 'unpacking {} bytes instead of {}'.format(wrong, f.length))
        # Defaults
        ctx.eq(bytes(packer.pack(f.cls())) if all(len(n) == 1 for n in f.groups().values()) else None,
               encode(f.layout, f.start, f.length, {r[0]: r[3] for r in f.layout}, endian) if all(len(n) == 1 for n in f.groups().values()) else None,
               'packed defaults')
    ctx.state(len(f.layout), f.start, [r[1] for r in f.layout] == sorted(r[1] for r in f.layout), any(len(n) > 1 for n in f.groups().values()))


def user_defined(ctx):
    f = formats.random_format(ctx.rng)
    ctx.sample(layout=f.layout, start=f.start, length=f.length)
    ctx.eq(list(f.cls.ordered_field_names()), [r[0] for r in f.layout], 'ordered_field_names()')
    exercise(ctx, f)


def standard(ctx):
    cls, layout, start, length = STANDARD[ctx.case % 3]
    exercise(ctx, formats.Format(cls, layout, start, length, {}))
    ctx.count('standard_headers')


def sub_formats(ctx):
    rng = ctx.rng
    if rng.random() < 0.5:
        cls, layout, start, length = rng.choice(STANDARD)
    else:
        parent = formats.random_format(rng)
        cls, layout, start, length = parent.cls, parent.layout, parent.start, parent.length
        if not hasattr(cls, 'LENGTH_IN_BYTES'):
            length = None
    f = formats.sub_format(rng, cls, layout, start, length)
    if f.length is None:
        f.length = max(r[1] + formats.SIZE[r[2]] for r in f.layout) - start
    ctx.count('sub_formats')
    exercise(ctx, f)
    # A sub-format unpacks what its parent packed
    values = {r[0]: gen.from_domain(rng, r[4]) for r in layout}
    for names in formats.Format(cls, layout, start, length, {}).groups().values():
        for n in names[1:]:
            values[n] = values[names[0]]
    endian = rng.choice(gen.ENDIANS)
    packed = bytes(make_header_packer(cls, endian).pack(cls(**values)))
    if len(packed) == f.length:
        compare(ctx, make_header_packer(f.cls, endian).unpack(packed), values, f.layout, 'sub-format unpacked from parent')


def out_of_range(ctx):
    """Each field in turn with raw values inside and outside its domain."""
    rng = ctx.rng
    if rng.random() < 0.6:
        cls, layout, start, length = rng.choice(STANDARD)
        f = formats.Format(cls, layout, start, length, {})
    else:
        f = formats.random_format(rng, coincident=False)
    endian = rng.choice(gen.ENDIANS)
    packer = make(f.cls, endian, rng)
    values = f.values(rng)
    buf = bytes(packer.pack(f.cls(**values)))
    for name, offset, code, default, domain in f.layout:
        v = gen.outside_domain(rng, domain, code)
        while v is not None and name == 'format_revision_num' and v in (1, 100):
            # Erroneous variants which are accepted
            v = gen.outside_domain(rng, domain, code)
        if v is None:
            continue
        # Assignment is refused, and leaves the value
        header = f.cls(**values)
        ctx.raises(ValueError, lambda: setattr(header, name, v), 'assigning {!r} to {}'.format(v, name))
        ctx.raises(ValueError, lambda: f.cls(**{name: v}), 'constructing with {}={!r}'.format(name, v))
        compare(ctx, header, values, f.layout, 'header after refused assignment')
        size = formats.SIZE[code]
        if -(1 << (8 * size - 1)) <= v < (1 << (8 * size)):
            raw = bytearray(buf)
            raw[offset - f.start:offset - f.start + size] = (v & ((1 << 8 * size) - 1)).to_bytes(size, 'big' if endian == '>' else 'little')
            stored = struct.unpack_from(endian + code, raw, offset - f.start)[0]
            inside = domain[0] <= stored <= domain[1] if isinstance(domain, tuple) else stored in domain
            if not inside and not (name == 'format_revision_num' and stored in (1, 100)):
                ctx.raises(ValueError, lambda: packer.unpack(bytes(raw)), 'unpacking {}={!r}'.format(name, stored))
                ctx.count('out_of_range_buffers')
        ctx.evaluated(repr(f.layout) if f.start not in (1, 3201) else f.cls.__name__, name, v)
        ctx.count('out_of_range_assignments')


def limits(ctx):
    """The least and greatest value of every field are accepted, and their neighbours are not."""
    rng = ctx.rng
    if ctx.case % 4 < 3:
        cls, layout, start, length = STANDARD[ctx.case % 4]
        f = formats.Format(cls, layout, start, length, {})
    else:
        f = formats.random_format(rng, coincident=False)
    endian = rng.choice(gen.ENDIANS)
    packer = make(f.cls, endian, rng)
    values = f.values(rng)
    buf = bytes(packer.pack(f.cls(**values)))
    for name, offset, code, default, domain in f.layout:
        size = formats.SIZE[code]
        if isinstance(domain, tuple):
            inside, outside = {domain[0], domain[1], default}, {domain[0] - 1, domain[1] + 1}
        else:
            inside = set(domain)
            outside = {v + d for v in domain for d in (-1, 1)} - inside
            if name == 'format_revision_num':
                outside -= {1, 100}
        for v in inside:
            header = f.cls(**values)
            setattr(header, name, v)
            ctx.eq(getattr(header, name), v, 'assigned {}={}'.format(name, v))
            expected = dict(values, **{name: v})
            compare(ctx, f.cls(**expected), expected, f.layout, 'constructed with {}={}'.format(name, v))
            packed = bytes(packer.pack(header))
            ctx.eq(packed, encode(f.layout, f.start, f.length, expected, endian), 'packed with {}={}'.format(name, v))
            compare(ctx, packer.unpack(packed), expected, f.layout, 'unpacked with {}={}'.format(name, v))
            ctx.count('limits_accepted')
        for v in outside:
            header = f.cls(**values)
            ctx.raises(ValueError, lambda: setattr(header, name, v), 'assigning {} to {}, which is just outside its range'.format(v, name))
            ctx.raises(ValueError, lambda: f.cls(**{name: v}), 'constructing with {}={}, which is just outside its range'.format(name, v))
            compare(ctx, header, values, f.layout, 'header after refused assignment')
            if -(1 << (8 * size - 1)) <= v < 1 << (8 * size - 1):
                raw = bytearray(buf)
                struct.pack_into(endian + code, raw, offset - f.start, v)
                ctx.raises(ValueError, lambda: packer.unpack(bytes(raw)), 'unpacking {}={}, which is just outside its range'.format(name, v))
            ctx.count('limits_refused')
    ctx.evaluated(repr(f.layout) if ctx.case % 4 == 3 else f.cls.__name__, endian)


INTEGER_LIMITS = {'int8': (-128, 127), 'nnint8': (0, 127), 'int16': (-32768, 32767), 'nnint16': (0, 32767),
                  'int32': (-2**31, 2**31 - 1), 'nnint32': (0, 2**31 - 1)}


def field_classes(ctx):
    """Field types defined by the user: for each type, their limits, and enumerations which fit or do not."""
    rng = ctx.rng
    seg_y_type = rng.choice(sorted(INTEGER_LIMITS))
    lo, hi = INTEGER_LIMITS[seg_y_type]

    def enumeration(values):
        return IntEnum('Values', {'V{}'.format(i): v for i, v in enumerate(values)})

    def enum_field(values):
        return types.new_class('EnumField', (int,), dict(metaclass=IntEnumFieldMeta, enum=enumeration(values), seg_y_type=seg_y_type))

    some = sorted({lo, hi, rng.randint(lo, hi), rng.randint(lo, hi)} if rng.random() < 0.7 else {rng.randint(lo, hi)})
    for beyond in (lo - 1, hi + 1, lo - rng.randint(2, 1000), hi + rng.randint(2, 1000)):
        values = some + [beyond]
        rng.shuffle(values)
        ctx.raises(ValueError, lambda: enum_field(values), 'a field of type {} for an enumeration with values {}'.format(seg_y_type, values))
        ctx.count('enumerations_refused')
    cls = enum_field(some)
    for v in some:
        ctx.eq((int(cls(v)), cls(v).value), (v, v), 'value of an enumerated field')
    for v in {v + d for v in some for d in (-1, 1)} - set(some):
        ctx.raises(ValueError, lambda: cls(v), '{} for an enumerated field of {}'.format(v, some))
    a, b = sorted((rng.randint(lo, hi), rng.randint(lo, hi)))
    kw, low, high = {}, lo, hi
    if rng.random() < 0.6:
        kw['min_value'] = low = a
    if rng.random() < 0.6:
        kw['max_value'] = high = b
    cls = types.new_class('Limited', (int,), dict(metaclass=IntFieldMeta, seg_y_type=seg_y_type, **kw))
    for v in (low, high, rng.randint(low, high)):
        ctx.eq(cls(v), v, 'value of a field with limits')
    for v in (low - 1, high + 1, low - rng.randint(1, 10**6), high + rng.randint(1, 10**6)):
        ctx.raises(ValueError, lambda: cls(v), '{} for a field with limits {} and {}'.format(v, low, high))
    ctx.count('limited_fields')
    ctx.evaluated(seg_y_type, tuple(some), a, b, tuple(kw))


def refused_objects(ctx):
    rng = ctx.rng
    f, g = formats.random_format(rng), formats.random_format(rng)
    packer = make_header_packer(f.cls, rng.choice(gen.ENDIANS))
    others = [g.cls(**g.values(rng)), TraceHeaderRev1(), BinaryReelHeader(), None, 5, b'', {}]
    for other in others:
        ctx.raises(TypeError, lambda: packer.pack(other), 'packing a {} with a packer for another format'.format(type(other)))
        ctx.count('foreign_objects')
    ctx.raises(TypeError, lambda: make_header_packer(TraceHeaderRev1).pack(TraceHeaderRev0()), 'packing a base header with the packer of a derived format')
    # but a derived header may be packed as its base
    h = gen.header_values(rng, model.TRACE_REV1, 'full')
    full = TraceHeaderRev1(**h)
    ctx.eq(bytes(make_header_packer(TraceHeaderRev0).pack(full)), model.encode_trace_header(h, '>', 'rev0'), 'derived header packed as base')
    # Coincident fields
    c = formats.random_format(rng, coincident=True)
    multiple = [names for names in c.groups().values() if len(names) > 1]
    packer = make_header_packer(c.cls)
    domains = {r[0]: r[4] for r in c.layout}
    for names in multiple:
        values = c.values(rng)
        victim = rng.choice(names)
        for _ in range(10):
            v = gen.from_domain(rng, domains[victim])
            if v != values[victim]:
                break
        else:
            continue
        values[victim] = v
        ctx.raises(ValueError, lambda: packer.pack(c.cls(**values)), 'packing unequal values of coincident fields')
        ctx.count('unequal_coincident')
        ctx.evaluated(repr(c.layout), repr(values))


def invalid_formats(ctx):
    rng = ctx.rng
    T = formats.TYPES

    def build(rows, types_by_name, **attrs):
        return formats.make_class('Invalid', (Header,), rows, types_by_name, **attrs)

    def row(name, offset, t):
        return (name, offset, T[t][0], gen.from_domain(rng, T[t][1]), T[t][1])

    base = rng.randint(0, 50)
    kinds = {}
    kinds['no fields'] = build([], {}, LENGTH_IN_BYTES=10)
    a, b = rng.sample([formats.Int32, formats.NNInt32, formats.Below, formats.WideColourField], 2)
    kinds['partial overlap'] = build([row('p', base, a), row('q', base + rng.choice([1, 2, 3]), b)], dict(p=a, q=b))
    kinds['partial overlap, any order'] = build([row('q', base + rng.choice([1, 2, 3]), b), row('z', base + 20, b), row('p', base, a)], dict(p=a, q=b, z=b))
    kinds['coincident, different types'] = build([row('p', base, a), row('q', base, b)], dict(p=a, q=b))
    kinds['different sizes'] = build([row('p', base, a), row('q', base, formats.Int16)], dict(p=a, q=formats.Int16))
    kinds['contained'] = build([row('p', base, a), row('q', base + 2, formats.Int16)], dict(p=a, q=formats.Int16))
    kinds['too long'] = build([row('p', base, a)], dict(p=a), LENGTH_IN_BYTES=base + rng.choice([1, 2, 3]))
    kinds['negative start'] = build([row('p', base, a)], dict(p=a), START_OFFSET_IN_BYTES=-1)
    kinds['zero length'] = build([row('p', 0, a)], dict(p=a), LENGTH_IN_BYTES=0)
    for kind, cls in kinds.items():
        ctx.raises((TypeError, ValueError), lambda: make_header_packer(cls, rng.choice(gen.ENDIANS)), 'a packer for a format with ' + kind)
        ctx.count('invalid_formats')
    ctx.evaluated(base, a.__name__, b.__name__)


QUICK_SCALE = 3  # The cases are short: so many times those given below are run in the quick tier
SCENARIOS = [
    Scenario('user-defined', user_defined, 2000, 40000, ['fields_compared']),
    Scenario('standard', standard, 300, 6000, ['standard_headers']),
    Scenario('sub-formats', sub_formats, 600, 10000, ['sub_formats']),
    Scenario('out-of-range', out_of_range, 300, 6000, ['out_of_range_buffers', 'out_of_range_assignments']),
    Scenario('limits', limits, 60, 1200, ['limits_accepted', 'limits_refused']),
    Scenario('field-classes', field_classes, 300, 6000, ['enumerations_refused', 'limited_fields']),
    Scenario('refused-objects', refused_objects, 400, 8000, ['foreign_objects', 'unequal_coincident']),
    Scenario('invalid-formats', invalid_formats, 200, 4000, ['invalid_formats']),
]
