"""Random content of SEG-Y files. Everything is a function of the given random generator."""

import math
import struct

from harness import model
from harness.layout import BINARY
from harness.model import IBM, INT32, INT16, FLOAT32, INT8, FORMATS, INT_RANGE, FileModel, IbmWord

ENCODINGS = ('ascii', 'cp037')
ENDIANS = ('>', '<')

LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
COMMON = LETTERS + '0123456789:_- '
# All printable ASCII, all of which EBCDIC code page 37 has as well
PRINTABLE = ''.join(map(chr, range(32, 127)))
# Everything which ASCII can encode; code page 37 has these as well
ANY_ASCII = ''.join(map(chr, range(128)))
ANY_EBCDIC = bytes(range(256)).decode('cp037')


# -- integers

def integer(rng, lo, hi):
    """Any integer in a closed range, with boundaries and distinctive byte patterns favoured."""
    k = rng.random()
    if k < 0.15:
        return rng.choice([lo, hi, lo + 1 if lo < hi else lo, hi - 1 if lo < hi else hi])
    if k < 0.3:
        v = rng.choice([0, 1, -1, 0x0102, 0x01020304, 0x7f80, 0x7f80ff01, 0x00ff00ff, 127, 128, 255, 256, -128, -129, -256, 32767, -32768, 65535])
        if lo <= v <= hi:
            return v
    if k < 0.5 and lo <= -100 and hi >= 100:
        return rng.randint(-100, 100)
    if k < 0.6:
        # log-uniform
        v = rng.getrandbits(rng.randint(1, max(1, int(hi).bit_length()))) * rng.choice([1, -1])
        if lo <= v <= hi:
            return v
    return rng.randint(lo, hi)


def from_domain(rng, domain):
    if isinstance(domain, tuple):
        return integer(rng, *domain)
    return rng.choice(domain)


def outside_domain(rng, domain, code):
    """A value which is not in the domain of a field of the given struct code, or None."""
    bits = 8 * struct.calcsize('>' + code)
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    for _ in range(30):
        v = rng.choice([integer(rng, lo, hi), lo - 1, hi + 1, lo - rng.getrandbits(40) - 1, hi + rng.getrandbits(40) + 1,
                        integer(rng, -20, 20)])
        if isinstance(domain, tuple):
            if not domain[0] <= v <= domain[1]:
                return v
        elif v not in domain and not (domain == [0, 256] and v in (1, 100)):
            # 1 and 100 are accepted variants of format revision 256
            return v
    return None


def header_values(rng, layout, style=None, exclude=()):
    """Values for fields of a layout: some, all or none of them; fields not in the result have defaults."""
    style = style or rng.choice(['full', 'full', 'sparse', 'default', 'extreme'])
    values = {}
    for name, offset, code, default, domain in layout:
        if name in exclude or style == 'default':
            continue
        if style == 'sparse' and rng.random() < 0.7:
            continue
        if style == 'extreme':
            values[name] = rng.choice([domain[0], domain[-1]])
        else:
            values[name] = from_domain(rng, domain)
    return values


# -- samples

def ibm_representable(rng):
    """A float in the range of IBM floats, whose mantissa does not vanish, or zero."""
    k = rng.random()
    if k < 0.08:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 0.5, 16.0, 1/16, 1/3, -2/3, 100.0, 0.1, 255.9999999, 65536.0, 16777215.0, 16777216.0, 16777217.0])
    if k < 0.3:
        return float(rng.randint(-1000000, 1000000))
    if k < 0.5:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-10, 10)
    if k < 0.6:
        # close to a power of sixteen or two
        x = 2.0 ** rng.randint(-255, 250)
        x = rng.choice([x, math.nextafter(x, 0), math.nextafter(x, math.inf), x * (1 - 2.0**-24), x * (1 - 2.0**-25), x * (1 + 2.0**-24)])
        return x * rng.choice([1, -1])
    if k < 0.75:
        # exactly representable
        return float(model.ibm_float(rng.getrandbits(32) | 0x00100000))
    x = math.ldexp(rng.uniform(0.5, 1), rng.randint(-255, 252))
    return x * rng.choice([1, -1])


def sample(rng, fmt, words=True):
    if fmt == IBM:
        if words and rng.random() < 0.05:
            return IbmWord(rng.getrandbits(32))
        return ibm_representable(rng)
    if fmt == FLOAT32:
        k = rng.random()
        if k < 0.1:
            return rng.choice([0.0, -0.0, math.inf, -math.inf, 1.0, -1.0, 3.4028234663852886e38, 1.401298464324817e-45, 1.17549435e-38])
        if k < 0.4:
            w = rng.getrandbits(32)
            x = struct.unpack('>f', struct.pack('>I', w))[0]
            if x == x:
                return x
        if k < 0.7:
            return rng.uniform(-1, 1) * 10.0 ** rng.randint(-12, 12)
        return float(rng.randint(-100000, 100000))
    return integer(rng, *INT_RANGE[fmt])


def samples(rng, fmt, n, words=True):
    k = rng.random()
    if k < 0.1:
        return [sample(rng, fmt, words)] * n
    if k < 0.3 and fmt != INT8:
        base = rng.randint(-20000, 20000)
        return [max(-32768, min(32767, base + i)) if fmt in (INT16, INT32) else float(base + i) for i in range(n)]
    return [sample(rng, fmt, words) for _ in range(n)]


# -- text

def text_line(rng, length=80, chars=PRINTABLE):
    return ''.join(rng.choices(chars, k=length))


def conventional_line(rng, i):
    words = []
    while sum(map(len, words)) + len(words) < 70:
        words.append(text_line(rng, rng.randint(1, 9), LETTERS + '0123456789'))
    return ('C{:2d} '.format(i + 1) + ' '.join(words))[:80].ljust(80)


def conventional_text(rng):
    """Card images as commonly found; most characters are common ones."""
    lines = [conventional_line(rng, i) if rng.random() < 0.8 else 'C{:2d}'.format(i + 1).ljust(80) for i in range(40)]
    if rng.random() < 0.3:
        # Some unusual punctuation
        lines = [line[:40] + text_line(rng, 6, PRINTABLE) + line[46:] for line in lines]
    return lines


def any_text(rng, encoding):
    chars = rng.choice([PRINTABLE, ANY_ASCII, ANY_EBCDIC if encoding == 'cp037' else ANY_ASCII])
    return [text_line(rng, 80, chars) for _ in range(40)]


def page(rng, encoding='ascii', chars=None, end=False):
    if rng.random() < 0.5:
        lines = [text_line(rng, 78, PRINTABLE).replace('(', ' ') + '\r\n' for _ in range(40)]
    else:
        lines = [text_line(rng, 80, PRINTABLE).replace('(', ' ') for _ in range(40)]
    if end:
        pos = rng.choice([0, 0, 0, rng.randint(0, 60)])
        lines[0] = (' ' * pos + model.END_TEXT).ljust(78) + '\r\n'
    return lines


# -- survey geometry: (inline, crossline, cdp) of every trace

def numbers(rng, n, lo=-2**31, hi=2**31 - 1):
    """n distinct numbers as used for lines."""
    if n == 0:
        return []
    k = rng.random()
    step = rng.choice([1, 1, 1, 2, 3, 5, 10, 100, -1, -1, -2, -7])
    if k < 0.7:
        start = rng.choice([0, 1, 1, 100, 1000, -5, -100, rng.randint(-10000, 10000), rng.randint(-10**8, 10**8)])
        return [start + i * step for i in range(n)]
    if k < 0.75:
        # touching the limits
        return [hi - i for i in range(n)] if rng.random() < 0.5 else [lo + i for i in range(n)]
    out = set()
    width = rng.choice([2 * n + 2, 10 * n, 2**20])
    while len(out) < n:
        out.add(rng.randint(-width, width))
    out = list(out)
    rng.shuffle(out)
    if rng.random() < 0.5:
        out.sort(reverse=rng.random() < 0.3)
    return out


def geometry(rng, kind=None, max_side=7):
    """A list of (inline, crossline, cdp)."""
    kind = kind or rng.choice(['grid', 'grid', 'grid', 'sparse', 'shuffled', 'single-inline', 'single-xline', 'line', 'line',
                               'duplicates', 'one', 'none', 'irregular', 'almost'])
    if kind == 'none':
        return []
    ni, nx = rng.randint(1, max_side), rng.randint(1, max_side)
    if kind == 'single-inline':
        ni = 1
    if kind == 'single-xline':
        nx = 1
    if kind == 'one':
        ni = nx = 1
    if kind in ('line', 'duplicates'):
        n = rng.randint(2, max_side * 3)
        cdps = numbers(rng, n)
        if kind == 'duplicates':
            cdps[rng.randrange(n)] = cdps[rng.randrange(n)] if n < 3 else cdps[0]
            cdps[-1] = cdps[0]
        # line numbers repeat
        a, b = integer(rng, -50, 50), integer(rng, -50, 50)
        return [(a, b, c) for c in cdps]
    if kind == 'irregular':
        n = rng.randint(2, max_side * 3)
        w = rng.choice([3, 6, 50, 10**6])
        pairs = set()
        for _ in range(10 * n):
            pairs.add((rng.randint(-w, w), rng.randint(-w, w)))
            if len(pairs) == n:
                break
        pairs = list(pairs)
        rng.shuffle(pairs)
    else:
        inlines, xlines = numbers(rng, ni), numbers(rng, nx)
        if rng.random() < 0.5:
            pairs = [(i, x) for i in inlines for x in xlines]
        else:
            pairs = [(i, x) for x in xlines for i in inlines]
        if kind == 'sparse':
            pairs = [p for p in pairs if rng.random() < 0.7] or pairs[:1]
        elif kind == 'shuffled':
            rng.shuffle(pairs)
        elif kind == 'almost' and len(pairs) > 1:
            # A regular grid but for one trace
            i = rng.randrange(len(pairs))
            k = rng.random()
            if k < 0.4:
                del pairs[i]
            elif k < 0.7:
                j = rng.randrange(len(pairs))
                pairs[i], pairs[j] = pairs[j], pairs[i]
            else:
                a, b = pairs[i]
                c = (a + rng.choice([-1, 1, 0]), b + rng.choice([-1, 1, 0]))
                if c not in pairs and all(-2**31 <= v < 2**31 for v in c):
                    pairs[i] = c
    k = rng.random()
    n = len(pairs)
    if k < 0.4:
        cdps = list(range(1, n + 1))
    elif k < 0.6:
        cdps = numbers(rng, n)
    elif k < 0.8:
        cdps = [0] * n
    else:
        cdps = [rng.randint(0, max(1, n // 2)) for _ in range(n)]
    return [(i, x, c) for (i, x), c in zip(pairs, cdps)]


def expected_dimensionality(triples, lines=True, cdps=True):
    """As documented, from the numbers in the trace headers."""
    n = len(triples)
    pairs = [(i, x) for i, x, _ in triples]
    cs = [c for _, _, c in triples]
    if lines and len(set(pairs)) == n:
        return 3
    if len(set(cs)) == n:
        return 2
    return 1 if n == 1 else 0


# -- whole files

def lengths(rng, n, max_samples=40):
    k = rng.random()
    if k < 0.45:
        return [rng.randint(1, max_samples)] * n
    if k < 0.85:
        return [rng.choice([0, 1, rng.randint(0, max_samples), rng.randint(0, max_samples)]) for _ in range(n)]
    if k < 0.9:
        return [0] * n
    return [rng.randint(1, max_samples) + (3 if i % 2 else 0) for i in range(n)]


def long_length(rng, greatest=32767):
    """A length which may be about a multiple of some block size."""
    k = rng.random()
    if k < 0.15:
        return greatest
    if k < 0.3:
        return rng.randint(0, greatest)
    unit = rng.choice([2**b for b in range(5, 16)] + [100, 1000, 10000])
    return max(0, min(greatest, unit * rng.choice([1, 1, 2, 3, rng.randint(1, max(1, greatest // unit))]) + rng.choice([-1, 0, 0, 1, 1])))


def file_model(rng, fmt=None, endian=None, encoding=None, revision=None, geometry_kind=None, max_samples=40, max_side=6,
               text='conventional', pages=None, header_style=None, words=True, long_traces=False, variable_pages=None, nans=False):
    fmt = fmt if fmt is not None else rng.choice(FORMATS)
    endian = endian or rng.choice(ENDIANS)
    encoding = encoding or rng.choice(ENCODINGS)
    revision = revision or rng.choice(['rev1', 'rev1', 'rev1', 'rev0'])
    layout = model.TRACE_LAYOUTS[revision]
    triples = geometry(rng, geometry_kind, max_side)
    if long_traces:
        max_samples = 3000
        triples = triples[:5]
    lens = lengths(rng, len(triples), max_samples)
    if long_traces and lens:
        for k in rng.sample(range(len(lens)), rng.choice([0, 1, min(2, len(lens))])):
            lens[k] = long_length(rng)
    traces = []
    for (i, x, c), n in zip(triples, lens):
        h = header_values(rng, layout, header_style)
        h['num_samples'] = n
        h['ensemble_num'] = c
        if revision == 'rev1':
            h['inline_number'] = i
            h['crossline_number'] = x
        s = samples(rng, fmt, n, words)
        if nans and fmt == FLOAT32 and rng.random() < 0.5:
            s = [rng.choice([math.nan, -math.nan]) if rng.random() < 0.2 else x for x in s]
        traces.append((h, s))
    n_pages = pages if pages is not None else rng.choice([0, 0, 0, 1, 2, 3])
    variable = variable_pages if variable_pages is not None else (n_pages > 0 and rng.random() < 0.4)
    ext = [page(rng, encoding) for _ in range(n_pages)]
    if ext and (variable or rng.random() < 0.3):
        ext[-1] = page(rng, encoding, end=True)
    binary = header_values(rng, BINARY, header_style)
    binary['data_sample_format'] = fmt
    binary['num_extended_textual_headers'] = -1 if variable else n_pages
    # Not used by readers, as the trace headers hold the lengths of the traces
    binary['num_samples'] = max(lens, default=0) if rng.random() < 0.7 else rng.choice([0, 1, min(32767, max(lens, default=0) + 1), rng.randint(0, 32767)])
    lines = conventional_text(rng) if text == 'conventional' else any_text(rng, encoding)
    return FileModel(lines, binary, ext, traces, encoding, endian, revision)
