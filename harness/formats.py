"""Random user-defined header formats, with their layout as a plain table."""

import types
from enum import IntEnum

from segpy.field_types import Int16, Int32, NNInt16, NNInt32, IntFieldMeta, IntEnumFieldMeta
from segpy.header import Header, SubFormatMeta, field

from harness import gen


def int_type(name, seg_y_type, **kw):
    return types.new_class(name, (int,), dict(metaclass=IntFieldMeta, seg_y_type=seg_y_type, **kw))


class Colour(IntEnum):
    NONE = -1
    RED = 1
    GREEN = 2
    BLUE = 300


Int8 = int_type('Int8', 'int8')
NNInt8 = int_type('NNInt8', 'nnint8')
Percent = int_type('Percent', 'int16', min_value=0, max_value=100)
Below = int_type('Below', 'int32', min_value=-1000000, max_value=-5)
ColourField = types.new_class('ColourField', (int,), dict(metaclass=IntEnumFieldMeta, enum=Colour))
WideColourField = types.new_class('WideColourField', (int,), dict(metaclass=IntEnumFieldMeta, enum=Colour, seg_y_type='int32'))

# type -> (struct code, domain)
TYPES = {
    Int16: ('h', (-2**15, 2**15 - 1)),
    NNInt16: ('h', (0, 2**15 - 1)),
    Int32: ('i', (-2**31, 2**31 - 1)),
    NNInt32: ('i', (0, 2**31 - 1)),
    Int8: ('b', (-128, 127)),
    NNInt8: ('b', (0, 127)),
    Percent: ('h', (0, 100)),
    Below: ('i', (-1000000, -5)),
    ColourField: ('h', [-1, 1, 2, 300]),
    WideColourField: ('i', [-1, 1, 2, 300]),
}
SIZE = {'b': 1, 'h': 2, 'i': 4}

NAMES = ['alpha', 'beta', 'gamma', 'delta', 'epsilon', 'zeta', 'eta', 'theta', 'iota', 'kappa', 'lambda_', 'mu', 'nu', 'xi',
         'omicron', 'pi', 'rho', 'sigma', 'tau', 'upsilon', 'phi', 'chi', 'psi', 'omega', 'a_b_c', 'x1', 'x2', 'x10', 'zz', 'aa']


class Format:
    """A header format class with its layout.

    Attributes: cls; layout rows (name, offset, code, default, domain) in declaration order; start; length.
    """

    def __init__(self, cls, layout, start, length, types_by_name):
        self.cls = cls
        self.layout = layout
        self.start = start
        self.length = length
        self.types = types_by_name

    def groups(self):
        """Names by offset."""
        out = {}
        for name, offset, *_ in self.layout:
            out.setdefault(offset, []).append(name)
        return out

    def values(self, rng, equal=True):
        values = {row[0]: gen.from_domain(rng, row[4]) for row in self.layout}
        if equal:
            for names in self.groups().values():
                for n in names[1:]:
                    values[n] = values[names[0]]
        return values


def make_class(name, bases, rows, types_by_name, **attrs):
    def body(ns):
        ns.update(attrs)
        for n, offset, code, default, domain in rows:
            ns[n] = field(types_by_name[n], offset=offset, default=default, documentation='The {} field.'.format(n))
    return types.new_class(name, bases, {}, body)


def random_format(rng, coincident=None, n=None, base=None):
    """A format with fields declared in a random order, gaps, perhaps coincident fields, perhaps inherited fields."""
    n = n or rng.randint(1, 12)
    names = rng.sample(NAMES, len(NAMES))
    start = rng.choice([0, 1, 1, 3201, 17])
    pos = start + rng.choice([0, 0, 0, 1, 5])
    rows, types_by_name = [], {}
    coincident = rng.random() < 0.3 if coincident is None else coincident
    for _ in range(n):
        t = rng.choice(list(TYPES))
        code, domain = TYPES[t]
        if not names:
            break
        group = [names.pop()]
        if coincident and rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2, 3])):
                if names:
                    group.append(names.pop())
        for name in group:
            default = gen.from_domain(rng, domain)
            rows.append((name, pos, code, default, domain))
            types_by_name[name] = t
        pos += SIZE[code] + rng.choice([0, 0, 0, 0, 1, 2, 3, 9])
    end = max(offset + SIZE[code] for _, offset, code, _, _ in rows)
    length = rng.choice([None, end - start, end - start + rng.choice([1, 2, 5, 40])])
    order = rng.choice(['offset', 'reverse', 'random', 'random', 'name'])
    if order == 'reverse':
        rows.reverse()
    elif order == 'random':
        rng.shuffle(rows)
    elif order == 'name':
        rows.sort()
    attrs = {}
    if start:
        attrs['START_OFFSET_IN_BYTES'] = start
    if length is not None:
        attrs['LENGTH_IN_BYTES'] = length
    split = rng.choice([0, 0, rng.randint(0, len(rows))])
    if split:
        cls = make_class('Base', (Header,), rows[:split], types_by_name, **attrs)
        if split < len(rows):
            cls = make_class('Derived', (cls,), rows[split:], types_by_name)
    else:
        cls = make_class('Plain', (Header,), rows, types_by_name, **attrs)
    return Format(cls, rows, start, length if length is not None else end - start, types_by_name)


def sub_format(rng, parent_cls, layout, start, length, names=None):
    """A sub-format of some fields of a format, listed in any order."""
    names = names or rng.sample([r[0] for r in layout], rng.randint(1, len(layout)))
    cls = types.new_class('Sub', (), dict(metaclass=SubFormatMeta, parent_format=parent_cls, parent_field_names=names))
    rows = {r[0]: r for r in layout}
    return Format(cls, [rows[n] for n in names], start, length, {})
