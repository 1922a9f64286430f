import io
import os
import pickle

from segpy.encoding import UnsupportedEncodingError
from segpy.reader import create_reader
from segpy.revisions import SegYRevision
from segpy.toolkit import (format_standard_textual_header, guess_textual_header_encoding, parse_standard_textual_header,
                           read_textual_reel_header, write_textual_reel_header)
from segpy.writer import write_segy

from harness import gen, model, template
from harness.core import Scenario
from harness.observe import TRACE_FORMATS, MemDataset, TracingFile, check_reader, handles

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('A case is a set of random lines of any number and length written in an encoding and read back, lines which cannot be '
        'encoded, a set of arguments of the standard header, or a header to be parsed. Non-trivial: text other than blanks; distinct by text.')
ASSUMPTIONS = []

BAD_ENCODINGS = ['utf-8', 'latin-1', 'utf-16', 'ASCII', 'us-ascii', 'EBCDIC', 'ebcdic', 'cp500', 'cp1140', 'cp-037', '', None, 'CP037', 'nonsense', 37, b'ascii']


def alphabet(rng, encoding):
    return rng.choice([gen.PRINTABLE, gen.COMMON, gen.ANY_ASCII if encoding == 'ascii' else gen.ANY_EBCDIC])


def random_lines(rng, encoding):
    chars = alphabet(rng, encoding)
    n = rng.choice([40, 40, 40, 0, 1, 39, 41, 80, rng.randint(0, 60)])
    k = rng.random()
    if k < 0.3:
        lengths = [80] * n
    elif k < 0.4:
        lengths = [rng.choice([79, 80, 81])] * n
    else:
        lengths = [rng.choice([0, 1, 79, 80, 81, 160, rng.randint(0, 80), rng.randint(0, 200)]) for _ in range(n)]
    return [gen.text_line(rng, length, chars) for length in lengths]


def iterables(rng, lines):
    return rng.choice([lambda: lines, lambda: tuple(lines), lambda: iter(lines), lambda: (x for x in lines), lambda: dict.fromkeys(enumerate(lines)) and lines])()


def expected_bytes(lines, encoding):
    return ''.join(model.pad_lines(lines)).encode(encoding)


def round_trip(ctx):
    rng = ctx.rng
    encoding = rng.choice(gen.ENCODINGS)
    lines = random_lines(rng, encoding)
    before = list(lines)
    start = rng.choice([0, 0, 0, 7, 3200])
    fh = TracingFile(b'\xee' * (start + rng.choice([0, 5000])), writable=True)
    fh.seek(start)
    fh.take()
    prior = fh.getvalue()
    write_textual_reel_header(fh, iterables(rng, lines), encoding)
    expected = expected_bytes(lines, encoding)
    ctx.eq(lines, before, 'the lines after writing')
    ctx.eq(fh.tell(), start + 3200, 'position after writing')
    result = fh.getvalue()
    for i in range(3200):
        if result[start + i] != expected[i]:
            ctx.fail('byte {} of line {} (of {} lines, {}) is {:#x}, expected {:#x}'.format(i % 80, i // 80, len(lines), encoding, result[start + i], expected[i]))
    ctx.check(result[:start] == prior[:start] and result[start + 3200:] == prior[start + 3200:], 'bytes around the header changed')
    ctx.count('headers_written')
    fh.seek(start)
    fh.take()
    read = read_textual_reel_header(fh, encoding)
    ctx.eq(fh.tell(), start + 3200, 'position after reading')
    ctx.check(sum(e[3] for e in fh.log if e[0] == 'read') == 3200, 'read_textual_reel_header() read other than 3200 bytes')
    ctx.eq(tuple(read), tuple(model.pad_lines(lines)), 'lines read')
    ctx.eq([len(x) for x in read], [80] * 40, 'lengths of lines')
    ctx.check(all(type(x) is str for x in read), 'not all lines are strings')
    hash(read)
    ctx.count('headers_read')
    # Raw bytes, read in either encoding
    raw = rng.randbytes(3200) if rng.random() < 0.5 else bytes(rng.choices(range(128), k=3200))
    fh = handles(ctx, b'\0' * start + raw)
    fh.seek(start)
    ctx.eq(''.join(read_textual_reel_header(fh, 'cp037')).encode('cp037'), raw, 'raw bytes as EBCDIC')
    fh.seek(start)
    if max(raw) < 128:
        ctx.eq(''.join(read_textual_reel_header(fh, 'ascii')).encode('ascii'), raw, 'raw bytes as ASCII')
    else:
        ctx.raises(UnicodeError, lambda: read_textual_reel_header(fh, 'ascii'), 'reading bytes which are not ASCII')
        ctx.count('undecodable')
    # Too short
    short = rng.randint(0, 3199)
    fh = handles(ctx, raw[:short], name='short')
    ctx.raises(EOFError, lambda: read_textual_reel_header(fh, 'cp037'), 'reading a header of {} bytes'.format(short))
    ctx.evaluated(expected)
    ctx.sample(encoding=encoding, lengths=[len(x) for x in lines][:12], n=len(lines))


def refusals(ctx):
    rng = ctx.rng
    encoding = rng.choice(gen.ENCODINGS)
    lines = [x[:80] for x in random_lines(rng, encoding)][:40]
    for bad in BAD_ENCODINGS:
        fh = TracingFile(writable=True)
        e = ctx.raises(UnsupportedEncodingError, lambda: write_textual_reel_header(fh, lines, bad), 'encoding {!r}'.format(bad))
        ctx.check(not fh.getvalue(), 'written before refusing encoding {!r}', bad)
        ctx.eq(e.encoding, bad, 'encoding of the exception')
        str(e), repr(e)
        ctx.count('encodings_refused')
    # Something within the forty lines of eighty characters cannot be encoded
    while len(lines) < 40:
        lines.append('')
    i, j = rng.randrange(40), rng.randrange(80)
    line = lines[i].ljust(80)
    c = rng.choice(['\u20ac', '\u0416', '\U0001f600', '\ud800'] + (['\xe9', '\x80', '\xff'] if encoding == 'ascii' else ['\u0100']))
    lines[i] = line[:j] + c + line[j + 1:]
    if rng.random() < 0.4:
        # ... of a line which is too long
        lines[i] += gen.text_line(rng, rng.choice([1, 40, 80]), gen.COMMON)
        ctx.count('characters_refused_in_long_lines')
    fh = TracingFile(writable=True)
    ctx.raises(UnicodeError, lambda: write_textual_reel_header(fh, lines, encoding), 'character {!r} in {}'.format(c, encoding))
    ctx.check(not fh.getvalue(), 'written before refusing {!r}', c)
    ctx.count('characters_refused')
    ctx.evaluated(repr(lines))


def full_files(ctx):
    """Headers of whole files."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=2, max_samples=4, text='any')
    raw = random_lines(rng, m.encoding)
    m.text = model.pad_lines(raw)
    ds = MemDataset(m, rng, TRACE_FORMATS[m.revision])
    given = iterables(rng, raw)

    class Ragged(type(ds)):
        textual_reel_header = property(lambda self: given)

    ds.__class__ = Ragged
    out = io.BytesIO()
    write_segy(out, ds, encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    ctx.check(out.getvalue() == m.encode(), 'a file with a header of {} lines differs from what was expected', len(raw))
    fh = handles(ctx, out.getvalue())
    reader = create_reader(fh, encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision], cache_directory=None)
    check_reader(ctx, reader, m)
    again = io.BytesIO()
    write_segy(again, reader, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    ctx.check(again.getvalue()[:3200] == out.getvalue()[:3200], 'the header changed when rewritten')
    ctx.count('files')
    ctx.evaluated(out.getvalue()[:3200])


MARKERS = {0: 'END EBCDIC', 256: 'END TEXTUAL HEADER'}


def value(rng, width):
    k = rng.random()
    if k < 0.15:
        return rng.choice([0, 1, -1, 12345678901, 2.5, True, None, -0.0])
    n = rng.choice([0, 1, width - 1, width, width + 1, 2 * width, rng.randint(0, width), rng.randint(1, 100)])
    return gen.text_line(rng, max(0, n), rng.choice([gen.PRINTABLE, gen.LETTERS, '{}', ' x', gen.PRINTABLE.replace(' ', '')]))


def template_fill(ctx):
    rng = ctx.rng
    revision = rng.choice([SegYRevision.REVISION_0, SegYRevision.REVISION_1, 0, 256])
    placeholders = template.placeholders()
    widths = {name: b - a for name, a, b in placeholders}
    k = rng.random()
    names = [n for n in template.NAMES if n != 'end_marker' or rng.random() < 0.2]
    if k < 0.3:
        names = rng.sample(names, rng.randint(0, 8))
    elif k < 0.5:
        names = [rng.choice(names)]
    values = {n: value(rng, widths[n]) for n in names}
    given = dict(values)
    actual = format_standard_textual_header(revision, **values)
    ctx.eq(values, given, 'the arguments after formatting')
    expected = template.fill(dict({'end_marker': MARKERS[int(revision)]}, **values))
    ctx.eq(len(actual), 40, 'number of lines')
    for i, (a, e) in enumerate(zip(actual, expected)):
        if a != e:
            ctx.fail('line {} is {!r}, expected {!r}; arguments {!r}'.format(i + 1, a, e, values))
    ctx.count('placeholders_filled', len(values))
    # Every argument which fits is recovered
    fields = parse_standard_textual_header(actual)
    ctx.eq(sorted(fields), sorted(template.NAMES), 'names of fields')
    ctx.eq(list(fields), template.NAMES, 'order of fields')
    for name in template.NAMES:
        v = str(values.get(name, MARKERS[int(revision)] if name == 'end_marker' else ''))
        ctx.eq(fields[name], v[:widths[name]].strip(), 'field {} of {!r}'.format(name, values.get(name)))
        ctx.count('fields_parsed')
    # Through a file
    encoding = rng.choice(gen.ENCODINGS)
    fh = io.BytesIO()
    write_textual_reel_header(fh, actual, encoding)
    fh.seek(0)
    # Text consisting mainly of braces is not conventional
    if sum(len(str(v)) for v in values.values()) < 200:
        ctx.eq(guess_textual_header_encoding(fh), encoding, 'encoding detected of a standard header')
        fh.seek(0)
    ctx.eq(list(read_textual_reel_header(fh, encoding)), expected, 'lines of the standard header read back')
    # Formatting what was parsed gives the same header, unless blanks were trimmed
    if all(str(v)[:widths[n]].strip() == str(v)[:widths[n]].rstrip() for n, v in values.items()):
        ctx.eq(format_standard_textual_header(revision, **fields), actual, 'format(parse(header))')
        ctx.count('reformatted')
    ctx.evaluated(repr(values), int(revision))
    ctx.sample(revision=int(revision), values={k: values[k] for k in list(values)[:5]})


def one_by_one(ctx):
    """Every argument alone occupies exactly its own placeholder, whatever its length."""
    revision = [SegYRevision.REVISION_0, SegYRevision.REVISION_1][ctx.case % 2]
    blank = template.fill({'end_marker': MARKERS[int(revision)]})
    for name, a, b in template.placeholders():
        for n in (1, b - a - 1, b - a, b - a + 1, 100):
            v = ''.join(chr(33 + (i + ctx.case) % 90) for i in range(n))
            actual = ''.join(format_standard_textual_header(revision, **{name: v}))
            expected = list(''.join(blank))
            expected[a:b] = list(v[:b - a].ljust(b - a))
            ctx.eq(actual, ''.join(expected), 'header with {}={!r}'.format(name, v))
            ctx.count('arguments_tried')
    ctx.evaluated(ctx.case)


def bad_arguments(ctx):
    rng = ctx.rng
    for name in ('clients', 'crew', 'yr', '', 'end', 'Client', 'agc', 'x', rng.choice(template.NAMES) + '_', rng.choice(template.NAMES).upper()):
        ctx.raises(TypeError, lambda: format_standard_textual_header(SegYRevision.REVISION_1, **{name: 'x', 'client': 'y'}), 'argument {!r}'.format(name))
        ctx.count('names_refused')
    lines = format_standard_textual_header(SegYRevision.REVISION_1, client='x')
    for bad in (lines[:39], lines + [lines[0]], [], lines[:-1] + [lines[-1][:79]], [lines[0] + ' '] + lines[1:], lines[:7] + [''] + lines[8:]):
        ctx.raises(ValueError, lambda: parse_standard_textual_header(bad), 'parsing {} lines of {}'.format(len(bad), sorted({len(x) for x in bad})))
        ctx.count('shapes_refused')
    # Any header of the right shape can be parsed: fields are by position
    text = gen.any_text(rng, 'ascii')
    fields = parse_standard_textual_header(rng.choice([list, tuple])(text))
    for name, a, b in template.placeholders():
        ctx.eq(fields[name], ''.join(text)[a:b].strip(), 'field {} of arbitrary text'.format(name))
    ctx.count('arbitrary_text_parsed')
    ctx.evaluated(repr(text))


QUICK_SCALE = 8  # The cases are short: so many times those given below are run in the quick tier
SCENARIOS = [
    Scenario('round-trip', round_trip, 400, 8000, ['headers_written', 'headers_read', 'undecodable']),
    Scenario('refusals', refusals, 100, 1500, ['encodings_refused', 'characters_refused', 'characters_refused_in_long_lines']),
    Scenario('full-files', full_files, 120, 2400, ['files']),
    Scenario('template', template_fill, 500, 10000, ['placeholders_filled', 'fields_parsed', 'reformatted']),
    Scenario('one-by-one', one_by_one, 8, 90, ['arguments_tried']),
    Scenario('bad-arguments', bad_arguments, 40, 800, ['names_refused', 'shapes_refused', 'arbitrary_text_parsed']),
]
