import io
import os

from segpy.binary_reel_header import BinaryReelHeader
from segpy.dataset import Dataset, DelegatingDataset
from segpy.encoding import ASCII, EBCDIC, UnsupportedEncodingError, guess_encoding, is_supported_encoding
from segpy.reader import create_reader
from segpy.toolkit import guess_textual_header_encoding
from segpy.trace_header import TraceHeaderRev1
from segpy.writer import write_segy

from harness import gen, model
from harness.core import Scenario
from harness.observe import TRACE_FORMATS, MemDataset, TracingFile, check_reader, content, eq_content, handles, write_file

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = ('A case is a file or header whose encoding is detected, overridden or honoured when writing; or a dataset with an encoding which is, '
        'or is not, supported. Distinct by the text and how the encoding is given.')
ASSUMPTIONS = ['a textual header is conventional in an encoding if at least half of its bytes are letters, digits, blanks, colons, hyphens or '
               'underscores in that encoding, and fewer than half are in the other']

COMMON = {e: set(gen.COMMON.encode(e)) for e in gen.ENCODINGS}


def expected_guess(raw):
    if not raw:
        return None
    if not any(raw):
        return 'ascii'
    share = {e: 2 * sum(b in COMMON[e] for b in raw) >= len(raw) for e in gen.ENCODINGS}
    conventional = [e for e in gen.ENCODINGS if share[e]]
    return conventional[0] if len(conventional) == 1 else None


def raw_header(rng):
    """Any 3200 bytes, between clearly conventional and random."""
    k = rng.random()
    e = rng.choice(gen.ENCODINGS)
    if k < 0.4:
        return ''.join(gen.conventional_text(rng)).encode(e)
    if k < 0.5:
        return ' '.encode(e) * 3200
    if k < 0.55:
        return bytes(3200)
    if k < 0.65:
        return rng.randbytes(3200)
    if k < 0.75:
        # A conventional header padded with one character, often no more than half of it
        text = ''.join(gen.conventional_text(rng)).encode(e)
        n = rng.choice([1600, 1600, 1599, 1601, rng.randint(1500, 1700), rng.randint(0, 3200)])
        common = bytes(b for b in text if b in COMMON[e] and not all(b in c for c in COMMON.values()))
        padding = bytes([rng.choice([0, 0, 0, 255, 26, 13])]) * (3200 - n)
        raw = (common * (1 + n // max(1, len(common))))[:n] if common else bytes(n)
        if rng.random() < 0.5:
            return raw + padding
        return b''.join(raw[i * n // 40:(i + 1) * n // 40] + padding[i * (3200 - n) // 40:(i + 1) * (3200 - n) // 40] for i in range(40))
    # A number of common characters close to one half, the others common in neither encoding
    neither = [b for b in range(128 if e == 'ascii' and rng.random() < 0.5 else 256) if not any(b in c for c in COMMON.values())]
    if e == 'ascii':
        common = [b for b in COMMON['ascii'] if b not in COMMON['cp037']]
    else:
        common = [b for b in COMMON['cp037'] if b not in COMMON['ascii']]
    n = rng.choice([1600, 1599, 1601, 1600, rng.randint(1400, 1800), rng.randint(0, 3200)])
    raw = rng.choices(common, k=n) + rng.choices(neither, k=3200 - n)
    if rng.random() < 0.3:
        both = [b for b in range(256) if all(b in c for c in COMMON.values())]
        if both:
            for i in range(rng.randint(0, 3199)):
                raw[i] = rng.choice(both)
    rng.shuffle(raw)
    return bytes(raw)


def guessing(ctx):
    rng = ctx.rng
    raw = raw_header(rng)
    expected = expected_guess(raw)
    ctx.eq(guess_encoding(raw), expected, 'guess_encoding()')
    ctx.eq(guess_encoding(bytearray(raw)), expected, 'guess_encoding() of a bytearray')
    ctx.count('guessed_{}'.format(expected))
    # Fewer bytes
    for part in (b'', raw[:1], raw[:rng.randint(0, 300)], raw[rng.randint(0, 3200):]):
        ctx.eq(guess_encoding(part), expected_guess(part), 'guess_encoding() of {} bytes'.format(len(part)))
        ctx.count('parts_guessed')
    # Only the header matters, wherever the handle is
    for tail in (b'', rng.randbytes(400), ''.join(gen.conventional_text(rng)).encode(rng.choice(gen.ENCODINGS)) * 3):
        data = raw + tail
        fh = TracingFile(data) if rng.random() < 0.5 else handles(ctx, data)
        pos = rng.choice([0, 0, 3200, len(data), rng.randint(0, len(data)), len(data) + 10])
        fh.seek(pos)
        if isinstance(fh, TracingFile):
            fh.take()
        ctx.eq(guess_textual_header_encoding(fh), expected, 'guess_textual_header_encoding() followed by {} bytes, at position {}'.format(len(tail), pos))
        ctx.eq(fh.tell(), pos, 'position after guess_textual_header_encoding()')
        if isinstance(fh, TracingFile):
            ctx.check(all(e[1] + e[3] <= 3200 for e in fh.log if e[0] == 'read'), 'guess_textual_header_encoding() read more than the header')
        ctx.count('positions_kept')
    # A handle which fails
    class Failing(io.BytesIO):
        def read(self, n=-1):
            raise OSError('cannot read')

    fh = Failing(raw)
    fh.seek(pos)
    ctx.raises(OSError, lambda: guess_textual_header_encoding(fh), 'guess_textual_header_encoding() of a failing handle')
    ctx.eq(fh.tell(), pos, 'position after guess_textual_header_encoding() failed')
    ctx.count('positions_kept_by_failures')
    ctx.evaluated(raw)


def reading(ctx):
    """Detected and explicit encodings of whole files."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=2, max_samples=5)
    data = m.encode()
    other = 'cp037' if m.encoding == 'ascii' else 'ascii'
    cache = rng.choice([None, None, ctx.path('cache')])
    a = dict(endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision], cache_directory=cache)
    path = write_file(ctx.path('f.sgy'), data)
    opener = lambda: ctx.keep(open(path, 'rb')) if cache or rng.random() < 0.5 else io.BytesIO(data)
    for _ in range(2 if cache else 1):
        check_reader(ctx, create_reader(opener(), **a), m, None, 'encoding detected')
        check_reader(ctx, create_reader(opener(), encoding=None, **a), m, None, 'encoding=None')
        check_reader(ctx, create_reader(opener(), encoding=m.encoding, **a), m, None, 'encoding={!r}'.format(m.encoding))
        ctx.count('detected_' + m.encoding)
        # Another encoding takes precedence
        raw = data[:3200]
        if other == 'ascii':
            if max(raw) >= 128:
                ctx.raises(UnicodeError, lambda: create_reader(opener(), encoding='ascii', **a), 'reading an EBCDIC file as ASCII')
                ctx.count('explicit_refused')
        else:
            pages = [[p.encode('ascii').decode('cp037') for p in page] for page in m.pages]
            # The end-text stanza is not recognised in another encoding
            if m.binary_values()['num_extended_textual_headers'] >= 0:
                text = raw.decode('cp037')
                wrong = m.copy(text=[text[i:i + 80] for i in range(0, 3200, 80)], pages=pages, encoding='cp037')
                check_reader(ctx, create_reader(opener(), encoding='cp037', **a), wrong, None, 'an ASCII file read as EBCDIC')
                ctx.count('explicit_honoured')
    # Encodings reported are used when the reader is written
    reader = create_reader(opener(), **a)
    out = io.BytesIO()
    write_segy(out, reader, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    ctx.check(out.getvalue() == data, 'a reader written without an encoding gives another file')
    out = io.BytesIO()
    write_segy(out, DelegatingDataset(reader), endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    ctx.check(out.getvalue() == data, 'a delegating dataset written without an encoding gives another file')
    ctx.evaluated(data)


def undetected(ctx):
    """Headers which are not conventional are read as ASCII if possible."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=2, max_samples=3, encoding='ascii', pages=0)
    raw = raw_header(rng)
    guess = expected_guess(raw)
    data = raw + m.encode()[3200:]
    a = dict(endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision], cache_directory=None)
    encoding = guess or 'ascii'
    if encoding == 'ascii' and max(raw) >= 128:
        ctx.raises(UnicodeError, lambda: create_reader(handles(ctx, data), **a), 'a header which is not ASCII, of unknown encoding')
        ctx.count('undecodable')
    else:
        text = raw.decode(encoding)
        check_reader(ctx, create_reader(handles(ctx, data), **a), m.copy(text=[text[i:i + 80] for i in range(0, 3200, 80)], encoding=encoding), None, 'header guessed as {}'.format(guess))
        ctx.count('read_{}'.format(guess))
    ctx.evaluated(data)


MISSING = object()


class WithEncoding(MemDataset):
    """A dataset with an encoding property, or none."""

    def __init__(self, m, rng, encoding):
        super().__init__(m, rng)
        self.__dict__.pop('encoding', None)
        if encoding is not MISSING:
            self.encoding = encoding


def writing(ctx):
    rng = ctx.rng
    m = gen.file_model(rng, max_side=2, max_samples=3, revision='rev1', endian='>')
    m.text = [line.encode('ascii', 'replace').decode() for line in m.text]
    given = rng.choice([None, None, 'ascii', 'cp037'])
    own = rng.choice([MISSING, None, 'ascii', 'cp037'])
    expected = given or (own if own in gen.ENCODINGS else 'ascii')
    out = io.BytesIO()
    ds = WithEncoding(m, rng, own)
    if rng.random() < 0.3:
        ds = DelegatingDataset(DelegatingDataset(ds))
    kw = {} if given is None and rng.random() < 0.5 else dict(encoding=given)
    write_segy(out, ds, **kw)
    what = 'write_segy(encoding={!r}) of a dataset with encoding {!r}'.format(given, 'none' if own is MISSING else own)
    ctx.check(out.getvalue() == m.copy(encoding=expected).encode(), what + ' did not write {}', expected)
    ctx.count('written_' + expected)
    ctx.state(given, own if own is not MISSING else 'missing')
    ctx.evaluated(m.encode(), str(given), str(own))
    # Unsupported
    for bad in ('utf-8', 'latin-1', 'EBCDIC', 'ASCII', 'cp500', 'us-ascii', 'nonsense', b'ascii', 1):
        for explicit, prop in ((bad, MISSING), (bad, 'ascii'), (None, bad)):
            fh = TracingFile(writable=True)
            e = ctx.raises(UnsupportedEncodingError, lambda: write_segy(fh, WithEncoding(m, rng, prop), encoding=explicit), 'write_segy(encoding={!r}) of a dataset with encoding {!r}'.format(explicit, prop))
            ctx.check(not any(x[0] == 'write' for x in fh.log), 'something was written before refusing encoding {!r}', bad)
            ctx.eq(e.encoding, bad, 'encoding of the exception')
            ctx.check(repr(bad) in str(e), 'the message {!r} does not name the encoding', str(e))
            ctx.count('refused')
        # An explicit one which is supported takes precedence over that of the dataset
        out = io.BytesIO()
        write_segy(out, WithEncoding(m, rng, bad), encoding='cp037')
        ctx.check(out.getvalue() == m.copy(encoding='cp037').encode(), 'an explicit encoding for a dataset with encoding {!r}', bad)
        ctx.eq(is_supported_encoding(bad), False, 'is_supported_encoding({!r})'.format(bad))
    ctx.eq([is_supported_encoding(e) for e in ('ascii', 'cp037', ASCII, EBCDIC)], [True] * 4, 'is_supported_encoding()')
    ctx.eq((ASCII, EBCDIC), ('ascii', 'cp037'), 'constants')


def unencodable(ctx):
    """Text which the encoding lacks is refused rather than replaced."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=2, max_samples=3, revision='rev1', endian='>', encoding='cp037', text='any', pages=rng.choice([0, 1]))
    where = rng.choice(['text', 'page']) if m.pages else 'text'
    lines = m.text if where == 'text' else m.pages[0]
    # Not within the marker which ends extended headers of unspecified number
    i, j = rng.randrange(1, 40), rng.randrange(80)
    c = rng.choice('\xe9\xff\xa2\x80')
    lines[i] = lines[i][:j] + c + lines[i][j + 1:]
    fh = TracingFile(writable=True)
    ctx.raises(UnicodeError, lambda: write_segy(fh, MemDataset(m, rng), encoding='ascii'), '{!r} in the {} as ASCII'.format(c, where))
    ctx.check(len(fh.getvalue()) <= 3600, 'traces were written after unencodable text')
    out = io.BytesIO()
    write_segy(out, MemDataset(m, rng), encoding='cp037')
    ctx.check(out.getvalue() == m.encode(), '{!r} in the {} as EBCDIC', c, where)
    reader = create_reader(io.BytesIO(out.getvalue()), encoding='cp037', cache_directory=None)
    check_reader(ctx, reader, m)
    ctx.raises(UnicodeError, lambda: write_segy(io.BytesIO(), reader, encoding='ascii'), 'rewriting {!r} as ASCII'.format(c))
    ctx.count('unencodable_refused')
    ctx.evaluated(m.encode())


QUICK_SCALE = 3  # The cases are short: so many times those given below are run in the quick tier
SCENARIOS = [
    Scenario('guessing', guessing, 500, 10000, ['guessed_ascii', 'guessed_cp037', 'guessed_None', 'parts_guessed', 'positions_kept', 'positions_kept_by_failures']),
    Scenario('reading', reading, 200, 4000, ['detected_ascii', 'detected_cp037', 'explicit_refused', 'explicit_honoured']),
    Scenario('undetected', undetected, 200, 4000, ['undecodable', 'read_None', 'read_cp037']),
    Scenario('writing', writing, 150, 3000, ['written_ascii', 'written_cp037', 'refused']),
    Scenario('unencodable', unencodable, 100, 2000, ['unencodable_refused']),
]
