"""A battery of uses of the library, whose results are returned as comparable values; run in processes with different environments."""

import contextlib
import decimal
import faulthandler
import gc
import io
import locale
import logging
import os
import pickle
import random
import resource
import struct
import sys
import threading
import time
import traceback
import warnings

import numpy

from segpy import cli, toolkit, util
from segpy.binary_reel_header import BinaryReelHeader
from segpy.catalog import CatalogBuilder
from segpy.ibm_float import IBMFloat, ieee2ibm
from segpy.ibm_float_packer import pack_ibm_floats, unpack_ibm_floats
from segpy.packer import make_header_packer
from segpy.reader import create_reader
from segpy.revisions import SegYRevision
from segpy.sorted_frozen_set import SortedFrozenSet
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1
from segpy.writer import write_segy
from segpy_numpy.extract import extract_inline_3d, extract_timeslice_3d, extract_trace, extract_trace_header_field_3d, extract_xline_3d

from harness import formats, gen, model
from harness.observe import MemDataset, TRACE_FORMATS, content


def attempt(fn):
    """The result, or the type of the exception."""
    try:
        return fn()
    except Exception as e:
        return 'raised ' + type(e).__name__


def options(m):
    return dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])


def models(rng, n, **kw):
    return [gen.file_model(rng, max_side=4, max_samples=8, words=False, **kw) for _ in range(n)]


def reading(rng, where):
    out = []
    for m in models(rng, 3):
        data = m.encode()
        reports = []
        out.append(content(create_reader(io.BytesIO(data), progress=reports.append, **options(m))))
        out.append(reports)
        out.append(attempt(lambda: create_reader(io.BytesIO(data), cache_directory=None).encoding))
    return out


def writing(rng, where):
    out = []
    for m in models(rng, 3):
        f = io.BytesIO()
        reports = []
        write_segy(f, MemDataset(m, rng), trace_header_format=TRACE_FORMATS[m.revision], encoding=m.encoding, endian=m.endian, progress=reports.append)
        out.append((f.getvalue(), reports))
        again = io.BytesIO()
        write_segy(again, create_reader(io.BytesIO(f.getvalue()), **options(m)), trace_header_format=TRACE_FORMATS[m.revision], endian='<')
        out.append(again.getvalue())
    return out


def caching(rng, where):
    """Contents and names of entries; the entries of one environment may be present in another."""
    out = []
    for i, m in enumerate(models(rng, 2)):
        path = os.path.join(where, 'c{}.sgy'.format(i))
        with open(path, 'wb') as f:
            f.write(m.encode())
        for _ in range(2):
            with open(path, 'rb') as f:
                out.append(content(create_reader(f, cache_directory='entries', **options(m))))
    out.append(sorted(os.listdir(os.path.join(where, 'entries'))))
    return out


def obstructed(rng, where):
    """Caches which cannot be used."""
    m, = models(rng, 1)
    out = []
    path = os.path.join(where, 'o.sgy')
    with open(path, 'wb') as f:
        f.write(m.encode())
    with open(os.path.join(where, 'file'), 'wb'):
        pass
    os.makedirs(os.path.join(where, 'full'), exist_ok=True)
    for cache in ('file', 'file/inside', '/dev/null/x', 'x' * 300, 'good'):
        with open(path, 'rb') as f:
            out.append(content(create_reader(f, cache_directory=cache, **options(m))))
    entry, = os.listdir(os.path.join(where, 'good'))
    entry = os.path.join(where, 'good', entry)
    with open(entry, 'rb') as f:
        whole = f.read()
    for data in (b'', b'nonsense', whole[:len(whole) // 2], b'cno_such_module\nThing\n.'):
        with open(entry, 'wb') as f:
            f.write(data)
        with open(path, 'rb') as f:
            out.append(content(create_reader(f, cache_directory='good', **options(m))))
    os.unlink(entry)
    os.symlink('/dev/full', entry)
    with open(path, 'rb') as f:
        out.append(content(create_reader(f, cache_directory='good', **options(m))))
    os.unlink(entry)
    os.mkdir(entry)
    with open(path, 'rb') as f:
        out.append(content(create_reader(f, cache_directory='good', **options(m))))
    os.rmdir(entry)
    with io.BytesIO(m.encode()) as f:
        # Has no name
        out.append(content(create_reader(f, cache_directory=os.path.join(where, 'good'), **options(m))))
    return out


def pickling(rng, where):
    m, = models(rng, 1)
    path = os.path.join(where, 'p.sgy')
    with open(path, 'wb') as f:
        f.write(m.encode())
    with open(path, 'rb') as f:
        reader = create_reader(f, **options(m))
        data = [pickle.dumps(reader, p) for p in (0, 2, 4)]
    out = [content(pickle.loads(d)) for d in data]
    out.append(attempt(lambda: pickle.dumps(reader)))
    out.append(attempt(lambda: pickle.dumps(create_reader(io.BytesIO(m.encode()), **options(m)))))
    os.rename(path, path + 'x')
    out.append([attempt(lambda: pickle.loads(d)) for d in data])
    os.rename(path + 'x', path)
    return out


def refusals(rng, where):
    m, = models(rng, 1)
    data = m.encode()
    out = []
    for _ in range(12):
        cut = rng.randrange(len(data))
        out.append(attempt(lambda: content(create_reader(io.BytesIO(data[:cut]), **options(m)))))
    reader = create_reader(io.BytesIO(data), **options(m))
    n = len(m.traces)
    for i in (n, -1, 10**9):
        out.append([attempt(fn) for fn in (lambda: reader.trace_header(i), lambda: reader.trace_samples(i), lambda: reader.num_trace_samples(i))])
    if n:
        k = len(m.traces[0][1])
        out.extend(attempt(lambda: list(map(float, reader.trace_samples(0, *r)))) for r in ((-1, 0), (0, k + 1), (2, 1), (k, k), (None, k)))
    for kw in ({'endian': '='}, {'dimensionality': 4}, {'dimensionality': 0}, {'progress': 5}, {'encoding': 'utf-8'}, {'encoding': 'nonsense'}):
        out.append(attempt(lambda: create_reader(io.BytesIO(data), **dict(options(m), **kw)).num_traces()))
    for kw in ({'encoding': 'utf-8'}, {'progress': 5}, {'endian': '='}):
        out.append(attempt(lambda: write_segy(io.BytesIO(), MemDataset(m, rng), **dict(options(m), **kw))))
    # Text in neither encoding
    for text in ('é', 'Ω', '\x80', '\xff'):
        for encoding in ('utf-8', 'latin-1'):
            try:
                raw = text.encode(encoding)
            except UnicodeEncodeError:
                continue
            damaged = bytearray(data)
            damaged[100:100 + len(raw)] = raw
            for e in ('ascii', None):
                out.append(attempt(lambda: content(create_reader(io.BytesIO(damaged), **dict(options(m), encoding=e)))))
        for e in gen.ENCODINGS:
            out.append(attempt(lambda: toolkit.format_extended_textual_header(text, e)))
            f = io.BytesIO()
            out.append((attempt(lambda: toolkit.write_textual_reel_header(f, [text] * 40, e)), f.getvalue()))
    h = TraceHeaderRev1()
    for name, v in (('inline_number', 2**31), ('num_samples', -1), ('num_samples', 32768), ('data_use', 77), ('cdp_x', 'text'), ('inline_number', None), ('nonsense', 1)):
        out.append(attempt(lambda: TraceHeaderRev1(**{name: v})))
        out.append((attempt(lambda: setattr(h, name, v)) if name != 'nonsense' else None, h.inline_number, h.num_samples))
    packer = make_header_packer(TraceHeaderRev1)
    out.append([attempt(lambda: packer.unpack(bytes(k))) for k in (0, 239, 241)])
    out.append([attempt(lambda: packer.pack(x)) for x in (TraceHeaderRev0(), None, 5)])
    out.append([attempt(lambda: make_header_packer(x)) for x in (int, None, 5)])
    out.append([attempt(lambda: float(IBMFloat.from_float(x))) for x in (1e300, -1e300, 1e-200, float('nan'), float('inf'), 0.0, 1.5, -2.0**-70)])
    for pages in ([['x'] * 40], [['x' * 80] * 39], [['x' * 80] * 40], [['x' * 81] * 40]):
        f = io.BytesIO()
        out.append((attempt(lambda: toolkit.write_extended_textual_headers(f, pages, 'ascii')), f.getvalue()))
    out.append([attempt(lambda: toolkit.format_standard_textual_header(SegYRevision.REVISION_1, **{k: 'v'})) for k in ('client', 'nonsense')])
    return out


def headers(rng, where):
    out = []
    for cls, layout in ((BinaryReelHeader, model.BINARY), (TraceHeaderRev1, model.TRACE_REV1), (TraceHeaderRev0, model.TRACE_REV0)):
        values = {r[0]: gen.from_domain(rng, r[4]) for r in layout}
        h = cls(**values)
        for endian in '><':
            packer = make_header_packer(cls, endian)
            b = packer.pack(h)
            again = packer.unpack(b)
            out.append((bytes(b), [int(getattr(again, n)) for n in cls.ordered_field_names()], again == h, repr(h) == repr(h.copy())))
        out.append([(n, int(getattr(cls(), n)), getattr(cls, n).offset) for n in cls.ordered_field_names()])
        out.append((cls.START_OFFSET_IN_BYTES, cls.LENGTH_IN_BYTES))
        out.append(repr(h))
    for _ in range(4):
        f = formats.random_format(rng)
        v = f.values(rng)
        packer = make_header_packer(f.cls, rng.choice('<>'))
        b = packer.pack(f.cls(**v))
        out.append((bytes(b), list(f.cls.ordered_field_names()), repr(packer.unpack(b))))
    return out


def numbers(rng, where):
    words = [rng.getrandbits(32) for _ in range(60)]
    data = struct.pack('>60I', *words)
    ibm = unpack_ibm_floats(data, 60)
    out = [[float(x).hex() for x in ibm], [str(x) for x in ibm], [repr(x) for x in ibm], [bytes(x) for x in ibm]]
    out.append([attempt(lambda: int(x)) for x in ibm])
    out.append([[attempt(lambda: repr(fn(x, y))) for fn in (lambda a, b: a + b, lambda a, b: a * b, lambda a, b: a - b, lambda a, b: a / b, lambda a, b: a < b,
                                                           lambda a, b: a == b, lambda a, b: a // b, lambda a, b: a % b)] for x, y in zip(ibm, ibm[1:])])
    values = [gen.ibm_representable(rng) for _ in range(40)] + [rng.uniform(-1e9, 1e9) for _ in range(40)]
    out.append(bytes(pack_ibm_floats(values)))
    out.append([bytes(ieee2ibm(v)) for v in values])
    out.append([[attempt(lambda: round(x, n)) for n in (None, 0, 2, -2)] for x in values])
    for code in 'hibf':
        sequence = [rng.randint(-100, 100) for _ in range(9)]
        out.append([bytes(toolkit.pack_values(sequence, code, e)) for e in '><'])
    return out


def catalogs(rng, where):
    out = []
    for _ in range(6):
        triples = gen.geometry(rng, max_side=5)
        for keys in ([(i, x) for i, x, _ in triples], [c for _, _, c in triples]):
            b = CatalogBuilder()
            for t, k in enumerate(keys):
                b.add(k, t)
            c = b.create()
            out.append(None if c is None else (type(c).__name__, list(c.items()), len(c), [attempt(lambda: c[k]) for k in keys[:3]], repr(list(c))))
        numbers = [c for _, _, c in triples]
        s = SortedFrozenSet(numbers)
        out.append((list(s), repr(s), numbers[0] in s if numbers else None, list(util.make_sorted_distinct_sequence(numbers))))
        out.append(attempt(lambda: util.minmax(numbers)))
    out.append(util.hash_for_file(io.BytesIO(b'content'), 'a', 5, 'b', None))
    return out


def texts(rng, where):
    out = []
    for encoding in gen.ENCODINGS:
        lines = gen.conventional_text(rng)
        f = io.BytesIO()
        toolkit.write_textual_reel_header(f, lines, encoding)
        f.seek(0)
        out.append((f.getvalue(), toolkit.read_textual_reel_header(f, encoding), toolkit.guess_textual_header_encoding(f)))
        out.append([list(p) for p in toolkit.format_extended_textual_header('\n'.join(lines + ['', 'x' * 200]), encoding, True)])
    filled = toolkit.format_standard_textual_header(SegYRevision.REVISION_1, client='Someone', area='North Sea', line='17')
    out.append(filled)
    out.append(list(toolkit.parse_standard_textual_header(filled).items()))
    return out


def extraction(rng, where):
    out = []
    for _ in range(2):
        m = gen.file_model(rng, max_side=4, max_samples=6, revision='rev1', geometry_kind=rng.choice(['grid', 'sparse']), words=False, header_style='full')
        r = create_reader(io.BytesIO(m.encode()), dimensionality=3, **options(m))
        for fn in (lambda: extract_inline_3d(r, list(r.inline_numbers())[0]), lambda: extract_xline_3d(r, list(r.xline_numbers())[-1], null=-9),
                   lambda: extract_timeslice_3d(r, 0), lambda: extract_timeslice_3d(r, 99), lambda: extract_trace(r, 0, None, None), lambda: extract_inline_3d(r, 10**7),
                   lambda: extract_trace_header_field_3d(r, ['cdp_x', 'file_sequence_num']).cdp_x):
            a = attempt(fn)
            out.append(a if isinstance(a, str) else (str(a.dtype), a.shape, numpy.ma.filled(a).tobytes() if isinstance(a, numpy.ma.MaskedArray) else a.tobytes(),
                                                     numpy.ma.getmaskarray(a).tobytes()))
    return out


def command_line(rng, where):
    m = gen.file_model(rng, endian='>', revision='rev1', text='conventional', max_side=3, max_samples=9, pages=0)
    path = os.path.join(where, 'l.sgy')
    with open(path, 'wb') as f:
        f.write(m.encode())
    out = []
    for argv in (['metadata', path], ['report', path], ['metadata', path + '.missing'], ['nonsense']):
        text = io.StringIO()
        before = list(logging.getLogger('segpy').handlers), logging.getLogger('segpy').level
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
            try:
                status = cli.main(argv)
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) or e.code is None else 1
            except Exception as e:
                status = type(e).__name__
        logging.getLogger('segpy').handlers[:] = before[0]
        logging.getLogger('segpy').setLevel(before[1])
        out.append((argv[0], status, text.getvalue().replace(where, 'DIRECTORY')))
    return out


BATTERY = [reading, writing, caching, obstructed, pickling, refusals, headers, numbers, catalogs, texts, extraction, command_line]


class Strict(logging.Handler):
    """Formats every record, so that no message is malformed."""

    def __init__(self, problems):
        super().__init__()
        self.problems = problems

    def emit(self, record):
        try:
            record.getMessage()
        except Exception as e:
            self.problems.append('{}: {!r}'.format(record.msg, e))



def adopt(states, problems, where):
    """Put the process into a state."""
    for name, value in states.items():
        if name == 'umask':
            os.umask(value)
        elif name == 'warnings':
            warnings.resetwarnings()
            warnings.simplefilter(value)
        elif name == 'logging':
            logging.getLogger().addHandler(Strict(problems))
            for n in ('', 'segpy', 'segpy.reader'):
                logging.getLogger(n).setLevel(value)
        elif name == 'gc':
            gc.disable() if value == 0 else gc.set_threshold(value)
        elif name == 'recursion':
            sys.setrecursionlimit(value)
        elif name == 'locale':
            locale.setlocale(locale.LC_ALL, value)
        elif name == 'decimal':
            decimal.getcontext().prec = value
        elif name == 'digits':
            sys.set_int_max_str_digits(value)
        elif name == 'numpy':
            numpy.seterr(**value)
            numpy.set_printoptions(precision=2, threshold=3)
        elif name == 'files':
            resource.setrlimit(resource.RLIMIT_NOFILE, (value, value))
        elif name == 'streams':
            sys.stdin = sys.stderr = None
        elif name == 'random':
            random.seed(value)
            numpy.random.seed(value)
        elif name == 'switch':
            sys.setswitchinterval(value)
        elif name == 'cwd':
            if value == 'gone':
                os.mkdir(os.path.join(where, 'gone'))
                os.chdir(os.path.join(where, 'gone'))
                os.rmdir(os.path.join(where, 'gone'))
            else:
                os.chdir(value)
        else:
            raise ValueError(name)


def run(seed, names, where, states, in_thread=False, repeats=1):
    """Results by name of the part of the battery, and problems found besides."""
    problems = []
    results = {}
    # Whatever is imported at first use is imported
    for codec in (*gen.ENCODINGS, 'latin-1', 'utf-8'):
        'x'.encode(codec)

    def go():
        adopt(states, problems, where)
        for name in names:
            part, = [f for f in BATTERY if f.__name__ == name]
            for k in range(repeats):
                directory = os.path.join(where, '{}-{}'.format(name, k))
                os.makedirs(directory, exist_ok=True)
                try:
                    result = part(random.Random('{}/{}'.format(seed, name)), directory)
                except Exception as e:
                    result = 'raised {!r} from {}'.format(e, [(f.name, f.lineno) for f in traceback.extract_tb(e.__traceback__)[-4:]])
                if k > 0 and result != results[name]:
                    problems.append('{} gives another result when repeated'.format(name))
                results[name] = result

    if in_thread:
        failure = []

        def guarded():
            try:
                go()
            except BaseException as e:
                failure.append(e)
        t = threading.Thread(target=guarded)
        t.start()
        t.join()
        if failure:
            raise failure[0]
    else:
        go()
    return results, problems, dict(optimize=sys.flags.optimize, hash_seed=os.environ.get('PYTHONHASHSEED'), assertions=__debug__, time_zone=time.tzname,
                                   utf8=sys.flags.utf8_mode, dev=sys.flags.dev_mode, faulthandler=faulthandler.is_enabled(), encoding=locale.getpreferredencoding(False))
