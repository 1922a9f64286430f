import io

from segpy.binary_reel_header import BinaryReelHeader
from segpy.encoding import UnsupportedEncodingError
from segpy.reader import create_reader
from segpy.toolkit import (format_extended_textual_header, read_extended_headers_counted, read_extended_headers_until_end,
                           read_extended_textual_headers, write_extended_textual_headers)
from segpy.writer import write_segy

from harness import gen, model
from harness.core import Scenario
from harness.observe import TRACE_FORMATS, MemDataset, TracingFile, check_reader, handles

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = ('A case is a random text which is formatted, a random set of pages which is written and read back alone or within a file, pages of '
        'wrong shapes, or a file with an early, late or missing end. Non-trivial: at least one page; distinct by text or pages.')
ASSUMPTIONS = ['lines of texts to be formatted are separated by the line ends of Python\'s universal newlines']

END = model.END_TEXT
BAD_ENCODINGS = ['utf-8', 'latin-1', 'ASCII', 'EBCDIC', '', None, 'cp500']


def random_text(rng, encoding):
    """A text, and its lines."""
    chars = rng.choice([gen.PRINTABLE, gen.LETTERS, ' ', gen.PRINTABLE + '\t\0', ''.join(c for c in gen.ANY_EBCDIC if c.isprintable()) if encoding == 'cp037' else gen.PRINTABLE])
    n = rng.choice([0, 1, 2, 39, 40, 41, 79, 80, 81, rng.randint(0, 130), rng.randint(0, 20)])
    if rng.random() < 0.006:
        n = 40 * rng.choice([64, 128, 256]) + rng.choice([-1, 0, 1, 41])
    blank = rng.choice([0, 0.2, 0.9])
    wide = rng.choice([77, 78, 79, 156, 157, 300])
    lines = []
    for _ in range(n):
        k = rng.random()
        if k < blank:
            lines.append('')
        elif k < 0.5:
            lines.append(gen.text_line(rng, rng.choice([1, 77, 78, 79, wide, rng.randint(0, 78)]), chars))
        else:
            lines.append(gen.text_line(rng, rng.randint(0, wide), chars))
    if lines and rng.random() < 0.1:
        # A text which itself has the end, perhaps at the top of a page
        lines[rng.choice([0, len(lines) - 1, len(lines) // 40 * 40 - (len(lines) % 40 == 0) * 40])] = rng.choice([END, ' ' + END, END + ' or not'])
    ends = rng.choice([['\n'], ['\r\n'], ['\r'], ['\n', '\r\n']])
    out = []
    for i, line in enumerate(lines):
        out.append(line)
        if i < len(lines) - 1:
            out.append(rng.choice(ends))
    if lines and (lines[-1] == '' or rng.random() < 0.5):
        # A text which ends with a line end does not have another, empty line
        out.append(rng.choice(ends))
    return ''.join(out), lines


def paginate(lines, stop):
    cards = []
    for line in lines:
        pieces = [line[i:i + 78] for i in range(0, len(line), 78)] or ['']
        cards.extend(p + ' ' * (78 - len(p)) + '\r\n' for p in pieces)
    pages = [cards[i:i + 40] for i in range(0, len(cards), 40)]
    blank = ' ' * 78 + '\r\n'
    if pages:
        pages[-1] = pages[-1] + [blank] * (40 - len(pages[-1]))
    if stop:
        pages.append([END.ljust(78) + '\r\n'] + [blank] * 39)
    return pages


def formatting(ctx):
    rng = ctx.rng
    encoding = rng.choice(gen.ENCODINGS)
    text, lines = random_text(rng, encoding)
    stop = rng.random() < 0.5
    pages = format_extended_textual_header(text, encoding, stop) if rng.random() < 0.5 else format_extended_textual_header(text, encoding, include_text_stop=stop)
    expected = paginate(lines, stop)
    ctx.eq(len(pages), len(expected), 'number of pages for {} lines'.format(len(lines)))
    for i, (a, e) in enumerate(zip(pages, expected)):
        ctx.eq(len(a), 40, 'number of lines of page {}'.format(i))
        for j, (x, y) in enumerate(zip(a, e)):
            ctx.eq(x, y, 'line {} of page {}'.format(j, i))
        ctx.count('pages_formatted')
    if not stop:
        ctx.eq([list(p) for p in format_extended_textual_header(text, encoding)], expected, 'without include_text_stop')
    ctx.evaluated(*([text, stop] if expected else []))
    if any(END in p[0] for p in pages[:-1]):
        # Lines of the text which happen to look like the end are kept, but cannot be read back
        ctx.count('texts_with_stanza')
        return
    # Written and read back
    fh = TracingFile(b'\xff' * 3600, writable=True)
    if rng.random() < 0.5:
        fh.seek(rng.randint(0, 3600))
    fh.take()
    write_extended_textual_headers(fh, pages, encoding)
    ctx.eq(fh.tell(), 3600 + 3200 * len(pages), 'position after writing')
    ctx.check(fh.getvalue() == b'\xff' * 3600 + ''.join(''.join(p) for p in expected).encode(encoding), 'bytes written for {} pages', len(pages))
    ctx.sample(lines=len(lines), pages=len(pages), stop=stop)
    # A variable number can be read only if there is an end
    n = -1 if stop and not any(END in p[0] for p in pages[:-1]) and rng.random() < 0.6 else len(pages)
    fh.seek(rng.choice([0, 3600, 3601]))
    read = read_extended_textual_headers(fh, BinaryReelHeader(num_extended_textual_headers=n), encoding)
    ctx.eq([list(p) for p in read], expected, 'pages read (declared {})'.format(n))
    ctx.eq(fh.tell(), 3600 + 3200 * len(pages), 'position after reading')
    ctx.count('pages_read', len(expected))
    for bad in BAD_ENCODINGS:
        ctx.raises(UnsupportedEncodingError, lambda: format_extended_textual_header(text, bad, stop), 'format_extended_textual_header() with encoding {!r}'.format(bad))
        before = fh.getvalue()
        ctx.raises(UnsupportedEncodingError, lambda: write_extended_textual_headers(fh, pages, bad), 'write_extended_textual_headers() with encoding {!r}'.format(bad))
        ctx.check(fh.getvalue() == before, 'written before refusing encoding {!r}', bad)
        ctx.count('encodings_refused')


def any_page(rng, encoding, end=False):
    """A page of any characters, with an end-text stanza in the first line if so desired, and nowhere else but perhaps on later lines."""
    chars = rng.choice([gen.PRINTABLE, gen.ANY_ASCII if encoding == 'ascii' else gen.ANY_EBCDIC])
    lines = [gen.text_line(rng, 80, chars) for _ in range(40)]
    while END in lines[0]:
        lines[0] = gen.text_line(rng, 80, chars)
    if rng.random() < 0.2:
        # Not in the first line, or not quite
        lines[rng.randint(1, 39)] = END.ljust(80)
    if rng.random() < 0.2:
        lines[0] = rng.choice(['((SEG: EndText)', '((SEG:EndText))', '(SEG: EndText))', '((SEG: Endtext))', '((SEG: ENDTEXT))', '((OGP: P1/90))']).ljust(80)
    if end:
        i = rng.randint(0, 80 - len(END))
        lines[0] = lines[0][:i] + END + lines[0][i + len(END):]
    return lines


def files(ctx):
    """Pages within whole files, followed by traces."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=2, max_samples=5, text=rng.choice(['conventional', 'any']))
    n = rng.choice([0, 1, 2, 3, 5, 20] + ([200] if ctx.thorough else [40]))
    variable = n > 0 and rng.random() < 0.5
    m.pages = [any_page(rng, m.encoding, end=(i == n - 1) and (variable or rng.random() < 0.3)) for i in range(n)]
    m.binary['num_extended_textual_headers'] = -1 if variable else n
    ds = MemDataset(m, rng, TRACE_FORMATS[m.revision], lazy_pages=rng.random() < 0.5)
    out = io.BytesIO()
    write_segy(out, ds, encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    ctx.check(out.getvalue() == m.encode(), 'a file with {} pages differs from what was expected', n)
    fh = handles(ctx, out.getvalue())
    a = dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision], cache_directory=None)
    reader = create_reader(fh, **a)
    check_reader(ctx, reader, m, None, '{} pages, declared {}'.format(n, m.binary['num_extended_textual_headers']))
    again = io.BytesIO()
    write_segy(again, reader, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    ctx.check(again.getvalue() == m.encode(), 'a file with {} pages changed when rewritten', n)
    ctx.count('files_with_pages', n > 0)
    ctx.count('variable_pages', variable)
    ctx.state(n, variable, m.encoding)
    ctx.evaluated(*([m.encode()] if n else []))


def direct(ctx):
    """The functions for counted and variable numbers."""
    rng = ctx.rng
    encoding = rng.choice(gen.ENCODINGS)
    n = rng.randint(1, 4)
    pages = [any_page(rng, encoding) for _ in range(n)]
    pages[-1] = any_page(rng, encoding, end=True)
    data = ''.join(''.join(p) for p in pages).encode(encoding)
    start = rng.choice([0, 3600, 17])
    tail = rng.randbytes(rng.choice([0, 100, 3200, 6400]))
    fh = TracingFile(b'\xee' * start + data + tail)
    fh.seek(start)
    fh.take()
    ctx.eq([list(p) for p in read_extended_headers_until_end(fh, encoding)], pages, 'read_extended_headers_until_end()')
    ctx.eq(fh.tell(), start + len(data), 'position after read_extended_headers_until_end()')
    ctx.check(sum(e[3] for e in fh.log if e[0] == 'read') == len(data), 'bytes read')
    fh.seek(start)
    k = rng.choice([0, n, rng.randint(0, n)])
    ctx.eq([list(p) for p in read_extended_headers_counted(fh, k, encoding)], pages[:k], 'read_extended_headers_counted({})'.format(k))
    ctx.eq(fh.tell(), start + 3200 * k, 'position after read_extended_headers_counted({})'.format(k))
    fh.seek(start)
    # More are declared than precede the end
    ctx.raises(ValueError, lambda: read_extended_headers_counted(fh, n + rng.randint(1, 3), encoding), 'an early end-text stanza')
    ctx.count('early_ends')
    ctx.raises(ValueError, lambda: read_extended_headers_counted(fh, -rng.randint(1, 5), encoding), 'a negative number')
    # Missing data
    cut = rng.randint(0, len(data) - 1)
    for kind, fn in (('until_end', lambda f: read_extended_headers_until_end(f, encoding)), ('counted', lambda f: read_extended_headers_counted(f, n, encoding))):
        fh = handles(ctx, b'\xee' * start + data[:cut], name=kind)
        fh.seek(start)
        ctx.raises(EOFError, lambda: fn(fh), '{} of {} pages of which {} bytes are present'.format(kind, n, cut))
        ctx.count('missing_pages')
    # No end at all
    if n > 1:
        fh = handles(ctx, data[:-3200], name='no-end')
        ctx.raises(EOFError, lambda: read_extended_headers_until_end(fh, encoding), 'no end-text stanza')
    ctx.evaluated(data, start, cut)


def damaged_files(ctx):
    """create_reader() of files with an early end, or fewer pages than declared."""
    rng = ctx.rng
    m = gen.file_model(rng, encoding='cp037', geometry_kind=rng.choice(['none', 'grid']), max_side=2, max_samples=3)
    n = rng.randint(1, 4)
    m.pages = [any_page(rng, 'cp037') for _ in range(n)]
    a = dict(encoding='cp037', endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision], cache_directory=None)
    k = rng.random()
    if k < 0.4 and n > 1:
        m.pages[rng.randrange(n - 1)] = any_page(rng, 'cp037', end=True)
        m.binary['num_extended_textual_headers'] = n
        ctx.raises(ValueError, lambda: create_reader(handles(ctx, m.encode()), **a), 'an early end-text stanza')
        ctx.count('early_ends')
    elif k < 0.7:
        m.binary['num_extended_textual_headers'] = n
        data = m.encode()[:3600 + rng.randint(0, 3200 * n - 1)]
        ctx.raises(EOFError, lambda: create_reader(handles(ctx, data), **a), 'missing pages')
        ctx.count('missing_pages')
    else:
        # Nothing ends the variable number of pages. The traces cannot contain the stanza by chance.
        m.binary['num_extended_textual_headers'] = -1
        ctx.raises(EOFError, lambda: create_reader(handles(ctx, m.encode()), **a), 'a variable number of pages without an end')
        ctx.count('missing_ends')
    ctx.evaluated(m.encode(), k)


def shapes(ctx):
    """Pages of other shapes are refused before anything is written."""
    rng = ctx.rng
    encoding = rng.choice(gen.ENCODINGS)
    n = rng.randint(1, 4)
    pages = [any_page(rng, encoding) for _ in range(n)]
    i, j = rng.randrange(n), rng.randrange(40)
    kind = rng.choice(['short line', 'long line', 'empty line', 'few lines', 'many lines', 'no lines', 'unencodable'])
    page = pages[i]
    if kind == 'short line':
        page[j] = page[j][:rng.randint(1, 79)]
    elif kind == 'long line':
        page[j] += gen.text_line(rng, rng.randint(1, 100))
    elif kind == 'empty line':
        page[j] = ''
    elif kind == 'few lines':
        del page[rng.randint(0, 39):]
    elif kind == 'many lines':
        page += [gen.text_line(rng, 80)] * rng.choice([1, 40])
    elif kind == 'no lines':
        pages[i] = []
    else:
        page[j] = '\u20ac' + page[j][1:]
    fh = TracingFile(b'\xdd' * 3600, writable=True)
    given = rng.choice([lambda: pages, lambda: iter(pages), lambda: [iter(p) for p in pages], lambda: tuple(map(tuple, pages))])
    expected = UnicodeError if kind == 'unencodable' else ValueError
    ctx.raises(expected, lambda: write_extended_textual_headers(fh, given(), encoding), 'page {} of {} with {}'.format(i, n, kind))
    ctx.check(fh.getvalue() == b'\xdd' * 3600, 'something was written before a page with {} was refused', kind)
    ctx.count('shapes_refused')
    # The same from a dataset: no trace is written
    m = gen.file_model(rng, encoding=encoding, max_side=2, max_samples=3, pages=0)
    m.pages = pages
    m.binary['num_extended_textual_headers'] = n
    out = io.BytesIO()
    ctx.raises(expected, lambda: write_segy(out, MemDataset(m, rng, TRACE_FORMATS[m.revision]), encoding=encoding, trace_header_format=TRACE_FORMATS[m.revision]), 'write_segy() with ' + kind)
    ctx.check(len(out.getvalue()) <= 3600, 'traces were written after a page with {}', kind)
    ctx.evaluated(repr(pages), kind)


QUICK_SCALE = 6  # The cases are short: so many times those given below are run in the quick tier
SCENARIOS = [
    Scenario('formatting', formatting, 400, 8000, ['pages_formatted', 'pages_read', 'encodings_refused']),
    Scenario('files', files, 200, 4000, ['files_with_pages', 'variable_pages']),
    Scenario('direct', direct, 200, 4000, ['early_ends', 'missing_pages']),
    Scenario('damaged-files', damaged_files, 150, 3000, ['early_ends', 'missing_pages', 'missing_ends']),
    Scenario('shapes', shapes, 200, 4000, ['shapes_refused']),
]
