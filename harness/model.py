"""An executable model of SEG-Y files which shares nothing with segpy.

Uses only struct, integers and fractions.  A FileModel is the content of a file; encode() gives its bytes.
"""

import struct
from fractions import Fraction

from harness.layout import BINARY, TRACE_REV0, TRACE_REV1

TRACE_LAYOUTS = {'rev0': TRACE_REV0, 'rev1': TRACE_REV1}

IBM, INT32, INT16, FLOAT32, INT8 = 1, 2, 3, 5, 8
FORMATS = (IBM, INT32, INT16, FLOAT32, INT8)
SAMPLE_SIZE = {IBM: 4, INT32: 4, INT16: 2, FLOAT32: 4, INT8: 1}
SAMPLE_CODE = {INT32: 'i', INT16: 'h', FLOAT32: 'f', INT8: 'b'}
SEGY_TYPE = {IBM: 'ibm', INT32: 'int32', INT16: 'int16', FLOAT32: 'float32', INT8: 'int8'}
INT_RANGE = {INT32: (-2**31, 2**31 - 1), INT16: (-2**15, 2**15 - 1), INT8: (-128, 127)}

END_TEXT = '((SEG: EndText))'


# -- IBM floating point, from the definition: (-1)^s * 0.mantissa * 16^(exponent - 64)

def ibm_fraction(word):
    """The exact number denoted by a 32-bit word."""
    mantissa = word & 0xffffff
    exponent = (word >> 24) & 0x7f
    value = Fraction(mantissa) * Fraction(16) ** (exponent - 64 - 6)
    return -value if word >> 31 else value


MAX_IBM = ibm_fraction(0x7fffffff)


def ibm_encode(x):
    """The word for a finite float: truncation of a mantissa normalised to base 16.

    Returns 'zero' for magnitudes whose mantissa vanishes and 'range' for magnitudes out of range.
    """
    f = abs(Fraction(x))
    if f == 0:
        return 0
    if f > MAX_IBM:
        return 'range'
    e = -64
    # Estimate, then adjust: the smallest e >= -64 with f < 16^e
    bits = f.numerator.bit_length() - f.denominator.bit_length()
    e = max(-64, bits // 4 - 1)
    while f >= Fraction(16) ** e:
        e += 1
    while e > -64 and f < Fraction(16) ** (e - 1):
        e -= 1
    mantissa = (f * 2**24 / Fraction(16) ** e).__floor__()
    if mantissa == 0:
        return 'zero'
    sign = 1 if x < 0 else 0
    return (sign << 31) | ((e + 64) << 24) | mantissa


def ibm_bytes(x):
    w = ibm_encode(x)
    if not isinstance(w, int):
        raise ValueError('{!r} not representable: {}'.format(x, w))
    return struct.pack('>I', w)


def ibm_float(word):
    return float(ibm_fraction(word))


def float32(x):
    return struct.unpack('>f', struct.pack('>f', x))[0]


# -- Headers

def encode_header(layout, start, length, values, endian, junk=None):
    """Place fields by offset; unassigned bytes are zero, or random given a random generator."""
    buf = bytearray(junk.randbytes(length) if junk is not None else bytes(length))
    for name, offset, code, default, domain in layout:
        struct.pack_into(endian + code, buf, offset - start, values.get(name, default))
    return bytes(buf)


def decode_header(layout, start, buf, endian):
    return {name: struct.unpack_from(endian + code, buf, offset - start)[0]
            for name, offset, code, default, domain in layout}


def encode_binary(values, endian, junk=None):
    return encode_header(BINARY, 3201, 400, values, endian, junk)


def encode_trace_header(values, endian, revision='rev1', junk=None):
    return encode_header(TRACE_LAYOUTS[revision], 1, 240, values, endian, junk)


# -- Samples

def encode_samples(fmt, samples, endian):
    if fmt == IBM:
        return b''.join(struct.pack('>I', s) if type(s) is IbmWord else ibm_bytes(s) for s in samples)
    return struct.pack('{}{}{}'.format(endian, len(samples), SAMPLE_CODE[fmt]), *samples)


def decode_samples(fmt, data, endian):
    if fmt == IBM:
        return [ibm_float(w) for (w,) in struct.iter_unpack('>I', data)]
    return [v for (v,) in struct.iter_unpack(endian + SAMPLE_CODE[fmt], data)]


class IbmWord(int):
    """A raw IBM bit pattern among samples."""


def stored_sample(fmt, x):
    """What a sample becomes when stored in the given format."""
    if fmt == IBM:
        return ibm_float(x) if type(x) is IbmWord else ibm_float(ibm_encode(x))
    if fmt == FLOAT32:
        return float32(x)
    return x


# -- Text

def pad_lines(lines):
    lines = [line[:80].ljust(80) for line in lines][:40]
    return lines + [' ' * 80] * (40 - len(lines))


def encode_text(lines, encoding):
    return ''.join(lines).encode(encoding)


# -- Files

class FileModel:
    """The content of a SEG-Y file.

    Attributes:
        text: forty lines of eighty characters.
        binary: field values by name (defaults if omitted).
        pages: extended textual headers.
        traces: pairs of (field values by name, sample list).
        encoding, endian, revision (of the trace header: 'rev0' or 'rev1')
    """

    def __init__(self, text, binary, pages, traces, encoding='ascii', endian='>', revision='rev1', tail=b''):
        self.text = list(text)
        self.binary = dict(binary)
        self.pages = [list(p) for p in pages]
        self.traces = [(dict(h), list(s)) for h, s in traces]
        self.encoding = encoding
        self.endian = endian
        self.revision = revision
        self.tail = tail

    def copy(self, **updates):
        d = dict(text=self.text, binary=self.binary, pages=self.pages, traces=self.traces, encoding=self.encoding,
                 endian=self.endian, revision=self.revision, tail=self.tail)
        d.update(updates)
        return FileModel(**d)

    @property
    def layout(self):
        return TRACE_LAYOUTS[self.revision]

    @property
    def format(self):
        return self.binary.get('data_sample_format', 5)

    @property
    def segy_type(self):
        return SEGY_TYPE[self.format]

    def binary_values(self):
        return {name: self.binary.get(name, default) for name, _, _, default, _ in BINARY}

    def trace_values(self, i):
        h = self.traces[i][0]
        return {name: h.get(name, default) for name, _, _, default, _ in self.layout}

    def stored_samples(self, i):
        return [stored_sample(self.format, s) for s in self.traces[i][1]]

    def data_start(self):
        return 3600 + 3200 * len(self.pages)

    def trace_offsets(self):
        pos = self.data_start()
        out = []
        for h, s in self.traces:
            out.append(pos)
            pos += 240 + len(s) * SAMPLE_SIZE[self.format]
        return out

    def parts(self, junk=None):
        """Labelled parts of the file, in order."""
        yield 'textual header', encode_text(self.text, self.encoding)
        yield 'binary header', encode_binary(self.binary, self.endian, junk)
        for i, page in enumerate(self.pages):
            yield 'extended header {}'.format(i), encode_text(page, self.encoding)
        for i, (h, s) in enumerate(self.traces):
            yield 'trace header {}'.format(i), encode_trace_header(h, self.endian, self.revision, junk)
            yield 'trace samples {}'.format(i), encode_samples(self.format, s, self.endian)
        if self.tail:
            yield 'tail', self.tail

    def encode(self, junk=None):
        return b''.join(data for _, data in self.parts(junk))

    def where(self, position):
        """Describe a byte position of the encoded file."""
        start = 0
        for label, data in self.parts():
            if position < start + len(data):
                return '{}, byte {}'.format(label, position - start + 1)
            start += len(data)
        return 'beyond the end, byte {}'.format(position - start + 1)

    def summary(self):
        return dict(traces=len(self.traces), lengths=[len(s) for _, s in self.traces][:12], format=self.segy_type,
                    encoding=self.encoding, endian=self.endian, revision=self.revision, pages=len(self.pages))


def decode_file(data, encoding, endian, revision='rev1'):
    """Decode a conforming file."""
    text = data[:3200].decode(encoding)
    binary = decode_header(BINARY, 3201, data[3200:3600], endian)
    pos = 3600
    pages = []
    n = binary['num_extended_textual_headers']
    while n != len(pages):
        page = data[pos:pos + 3200].decode(encoding)
        pages.append([page[i:i + 80] for i in range(0, 3200, 80)])
        pos += 3200
        if n < 0 and END_TEXT in page[:80]:
            break
    size = SAMPLE_SIZE[binary['data_sample_format']]
    traces = []
    while pos + 240 <= len(data):
        h = decode_header(TRACE_LAYOUTS[revision], 1, data[pos:pos + 240], endian)
        pos += 240
        stop = pos + h['num_samples'] * size
        traces.append((h, decode_samples(binary['data_sample_format'], data[pos:min(stop, len(data))], endian)))
        pos = stop
    return FileModel([text[i:i + 80] for i in range(0, 3200, 80)], binary, pages, traces, encoding, endian, revision)
