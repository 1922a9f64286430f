"""C27: calls of the library leave the process as they found it, and keep nothing."""

import array
import gc
import io
import os
import pickle
import random
import shutil
import sys
import tempfile
import tracemalloc
import warnings
import weakref
from collections.abc import Iterable, Mapping

import numpy

from segpy import catalog as catalogs, toolkit, util
from segpy.binary_reel_header import BinaryReelHeader
from segpy.catalog import CatalogBuilder
from segpy.dataset import DelegatingDataset
from segpy.encoding import guess_encoding
from segpy.header import Header, SubFormatMeta
from segpy.ibm_float import IBMFloat
from segpy.ibm_float_packer import pack_ibm_floats, unpack_ibm_floats
from segpy.packer import make_header_packer
from segpy.reader import create_reader
from segpy.revisions import SegYRevision
from segpy.sorted_frozen_set import SortedFrozenSet
from segpy.toolkit import catalog_traces, format_extended_textual_header, format_standard_textual_header, guess_textual_header_encoding, read_trace_header
from segpy.trace_header import TraceHeaderRev1
from segpy.util import hash_for_file, make_sorted_distinct_sequence
from segpy.writer import write_segy
from segpy_numpy.extract import extract_inline_3d, extract_timeslice_3d, extract_trace, extract_trace_header_field_3d, extract_trace_headers, extract_xline_3d

from checks import c21, c26
from harness import core, formats, gen, model
from harness.core import Scenario, Violation
from harness.observe import MemDataset, TRACE_FORMATS, content, write_file
from harness.process import Output, differences, snapshot

PROPERTY = 'C27'
LEVEL = 'exploration'
RULE = ('A case is a call of the library, or a combination of them, on a generated file: reading, writing, caching, pickling, cataloguing, packing, '
        'converting, extracting, successful or failing in some way (malformed input, errors injected into a handle, a dataset or a progress '
        'function, caches which are damaged or obstructed). The state of the process is compared before and after, the standard streams are '
        'captured, and objects passed and returned must be released. Distinct by activity and content.')
ASSUMPTIONS = ['objects in reference cycles count as released once the garbage collector has run',
               'the state which is compared is that listed in harness/process.py']


LIBRARY = core.REPO + os.sep


def options(m, **kw):
    return dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision], **kw)


def use(reader):
    """All of a reader."""
    return content(reader)


# -- activities beyond those of C26: each returns a callable

class Injected(OSError):
    pass


class Unreliable(io.BytesIO):
    """A handle which fails at its n-th operation."""

    def __init__(self, data, n, error):
        super().__init__(data)
        self.countdown = n
        self.error = error

    def _step(self):
        self.countdown -= 1
        if self.countdown == 0:
            raise self.error

    def read(self, *a):
        self._step()
        return super().read(*a)

    def write(self, *a):
        self._step()
        return super().write(*a)

    def seek(self, *a):
        self._step()
        return super().seek(*a)

    def tell(self):
        self._step()
        return super().tell()


def an_error(rng):
    return rng.choice([Injected(5, 'injected'), ValueError('injected'), KeyError('injected'), RuntimeError('injected'), KeyboardInterrupt(), MemoryError(),
                       GeneratorExit(), SystemExit(3), StopIteration(), EOFError('injected'), TypeError('injected')])


def swallow(fn):
    try:
        return fn()
    except Violation:
        raise
    except BaseException as e:
        return type(e).__name__


def unreliable_reading(ctx, rng):
    m = c26.small_model(rng)
    fh = Unreliable(m.encode(), rng.randint(1, 25 + 6 * len(m.traces)), an_error(rng))
    return lambda: swallow(lambda: use(create_reader(fh, **options(m))))


def unreliable_writing(ctx, rng):
    m = c26.small_model(rng, words=False)
    fh = Unreliable(b'', rng.randint(1, 8 + 3 * len(m.traces)), an_error(rng))
    ds = MemDataset(m, rng)
    return lambda: swallow(lambda: write_segy(fh, ds, trace_header_format=TRACE_FORMATS[m.revision], encoding=m.encoding, endian=m.endian))


def raising_progress(ctx, rng):
    m = c26.small_model(rng, words=False)
    path = write_file(ctx.path('p{}.sgy'.format(rng.getrandbits(40))), m.encode())
    error = an_error(rng)
    cache = rng.choice([None, ctx.path('cache')])
    ds = MemDataset(m, rng)

    def callback(n):
        def progress(p):
            nonlocal n
            n -= 1
            if n == 0:
                raise error
        return progress

    n = rng.randint(1, len(m.traces) + 2)

    def run():
        with open(path, 'rb') as f:
            swallow(lambda: create_reader(f, progress=callback(n), cache_directory=cache, **options(m)))
            swallow(lambda: write_segy(io.BytesIO(), ds, progress=callback(n), trace_header_format=TRACE_FORMATS[m.revision], encoding=m.encoding,
                                       endian=m.endian))
            swallow(lambda: catalog_traces(f, model.SAMPLE_SIZE[m.format], TRACE_FORMATS[m.revision], m.endian, callback(n)))
    return run


def raising_dataset(ctx, rng):
    m = c26.small_model(rng, words=False)
    error = an_error(rng)
    n = rng.randint(1, 2 * len(m.traces) + 6)

    class Raising(DelegatingDataset):
        left = n

        def _step(self):
            self.left -= 1
            if self.left == 0:
                raise error

        def trace_header(self, trace_index):
            self._step()
            return super().trace_header(trace_index)

        def trace_samples(self, trace_index, start=None, stop=None):
            self._step()
            return super().trace_samples(trace_index, start, stop)

        @property
        def textual_reel_header(self):
            self._step()
            return super().textual_reel_header

        @property
        def extended_textual_header(self):
            self._step()
            return super().extended_textual_header

    ds = Raising(MemDataset(m, rng))
    return lambda: swallow(lambda: write_segy(io.BytesIO(), ds, trace_header_format=TRACE_FORMATS[m.revision], encoding=m.encoding, endian=m.endian))


def malformed(ctx, rng):
    m = c26.small_model(rng)
    data, _ = c21.damage(rng, m.encode(), m)
    path = write_file(ctx.path('m{}.sgy'.format(rng.getrandbits(40))), data) if rng.random() < 0.5 else None
    cache = rng.choice([None, ctx.path('cache')])
    encoding = rng.choice([None, m.encoding])

    def run():
        f = open(path, 'rb') if path else io.BytesIO(data)
        with f:
            a = options(m)
            a['encoding'] = encoding
            r = swallow(lambda: create_reader(f, cache_directory=cache, **a))
            if not isinstance(r, str):
                for i in range(min(5, r.num_traces())):
                    swallow(lambda: r.trace_header(i))
                    swallow(lambda: r.trace_samples(i))
                swallow(lambda: use(r))
            del r
    return run


def unsuitable(ctx, rng):
    m = c26.small_model(rng)
    data = m.encode()
    path = write_file(ctx.path('u{}.sgy'.format(rng.getrandbits(40))), data)

    def run():
        a = options(m)
        with open(path, 'r', encoding='latin-1') as f:
            swallow(lambda: create_reader(f, **a))
        with open(path, 'rb') as f:
            swallow(lambda: create_reader(f, **dict(a, endian='=')))
            f.seek(0)
            swallow(lambda: create_reader(f, dimensionality=4, **a))
            swallow(lambda: create_reader(f, progress=5, **a))
            swallow(lambda: create_reader(f, **dict(a, encoding='utf-8')))
            swallow(lambda: create_reader(f, **dict(a, trace_header_format=int)))
            swallow(lambda: write_segy(f, 5))
        swallow(lambda: create_reader(f, **a))
        swallow(lambda: create_reader(io.BytesIO(data[:1000]), **a))
        swallow(lambda: write_segy(io.BytesIO(), MemDataset(m, rng), encoding='utf-8'))
    return run


def obstructed_cache(ctx, rng):
    """Caches which are damaged, obstructed or hold something else."""
    m = c26.small_model(rng)
    where = ctx.path('o{}'.format(rng.getrandbits(40)))
    os.mkdir(where)
    path = write_file(os.path.join(where, 'f.sgy'), m.encode())
    relative = rng.random() < 0.5
    cache = 'cache' if relative else os.path.join(where, 'cache')
    directory = os.path.join(where, 'cache')
    with open(path, 'rb') as f:
        create_reader(f, cache_directory=cache, **options(m))
    entry, = [os.path.join(directory, n) for n in os.listdir(directory)]
    with open(entry, 'rb') as f:
        whole = f.read()
    kind = rng.choice(['truncated', 'empty', 'garbage', 'foreign', 'directory', 'file as directory', 'full', 'missing', 'missing file', 'other version', 'boom'])
    if kind == 'truncated':
        write_file(entry, whole[:rng.randrange(len(whole))])
    elif kind == 'empty':
        write_file(entry, b'')
    elif kind == 'garbage':
        write_file(entry, rng.randbytes(rng.randint(0, 500)))
    elif kind == 'foreign':
        write_file(entry, pickle.dumps(rng.choice([5, 'text', [1], TraceHeaderRev1(), DelegatingDataset(None)])))
    elif kind == 'directory':
        os.unlink(entry)
        os.mkdir(entry)
    elif kind == 'file as directory':
        shutil.rmtree(directory)
        write_file(directory, b'')
    elif kind == 'full':
        os.unlink(entry)
        os.symlink('/dev/full', entry)
    elif kind == 'missing':
        shutil.rmtree(directory)
    elif kind == 'missing file':
        # The entry refers to a file which is not there any longer
        other = os.path.join(where, 'g.sgy')
        shutil.copyfile(path, other)
        os.unlink(path)
        path = other
    elif kind == 'other version':
        write_file(entry, whole.replace(b'2.0.0', b'1.9.7'))
    else:
        write_file(entry, b'cbuiltins\nint\n(S"x"\ntR.')
    ctx.count('cache_' + kind.replace(' ', '_'))

    def run():
        for _ in range(2):
            with open(path, 'rb') as f:
                r = swallow(lambda: create_reader(f, cache_directory=cache, **options(m)))
                if not isinstance(r, str):
                    use(r)
                del r
    return run


def pickling(ctx, rng):
    m = c26.small_model(rng)
    path = write_file(ctx.path('k{}.sgy'.format(rng.getrandbits(40))), m.encode())
    cut = rng.random()

    def run():
        with open(path, 'rb') as f:
            reader = create_reader(f, **options(m))
            data = pickle.dumps(reader)
        kept = [pickle.loads(data) for _ in range(3)]
        for r in kept:
            use(r)
        del r
        kept.append(pickle.loads(pickle.dumps(kept[1])))
        del kept
        swallow(lambda: pickle.dumps(reader))
        swallow(lambda: pickle.loads(data[:int(cut * len(data))]))
        swallow(lambda: pickle.loads(data.replace(b'2.0.0', b'1.9.7')))
        os.rename(path, path + '.away')
        swallow(lambda: pickle.loads(data))
        os.rename(path + '.away', path)
    return run


def extracting(ctx, rng):
    m = gen.file_model(rng, revision='rev1', geometry_kind=rng.choice(['grid', 'sparse']), max_side=3, max_samples=6)
    return lambda: [swallow(fn) for r in [create_reader(io.BytesIO(m.encode()), dimensionality=3, **options(m))] for fn in (
        lambda: extract_inline_3d(r, list(r.inline_numbers())[0]), lambda: extract_inline_3d(r, 10**6), lambda: extract_xline_3d(r, list(r.xline_numbers())[-1]),
        lambda: extract_timeslice_3d(r, 0), lambda: extract_timeslice_3d(r, 10**6), lambda: extract_trace(r, 0, None, None), lambda: extract_trace(r, 10**6, None, None),
        lambda: extract_trace_header_field_3d(r, ['file_sequence_num', 'inline_number']), lambda: extract_trace_header_field_3d(r, ['nonsense']))]


def low_level(ctx, rng):
    m = c26.small_model(rng)
    data = m.encode()
    path = write_file(ctx.path('l{}.sgy'.format(rng.getrandbits(40))), data)
    words = rng.randbytes(40)
    numbers = [rng.choice([rng.uniform(-1e6, 1e6), 1e300, 1e-200, float('nan'), float('inf')]) for _ in range(5)]

    def run():
        with open(path, 'rb') as f:
            guess_textual_header_encoding(f)
            hash_for_file(f, 'anything')
            swallow(lambda: read_trace_header(f, make_header_packer(TraceHeaderRev1, '<'), rng.randrange(len(data))))
        [swallow(lambda: pack_ibm_floats([x])) for x in numbers]
        [swallow(lambda: float(x) ** 3) for x in unpack_ibm_floats(words, 10)]
        swallow(lambda: format_extended_textual_header('a\nb' * rng.randint(0, 100), 'ascii'))
        swallow(lambda: format_standard_textual_header('2', client='someone'))
        swallow(lambda: format_standard_textual_header('2', nonsense='someone'))
        swallow(lambda: make_sorted_distinct_sequence([3, 1, 'a']))
        swallow(lambda: make_header_packer(int))
        swallow(lambda: BinaryReelHeader(nonsense=5))
        swallow(lambda: BinaryReelHeader(num_samples=10**9))
    return run


MINE = [unreliable_reading, unreliable_reading, unreliable_writing, raising_progress, raising_dataset, malformed, malformed, unsuitable, obstructed_cache, obstructed_cache,
        pickling, extracting, low_level]


def somewhere(ctx):
    """Directories in which nothing should appear."""
    out = [ctx.path(n) for n in ('cwd', 'temporary', 'home')]
    for d in out:
        os.mkdir(d)
    saved = os.getcwd(), dict(os.environ), tempfile.tempdir

    def restore():
        os.chdir(saved[0])
        for n in set(os.environ) - set(saved[1]):
            del os.environ[n]
        os.environ.update(saved[1])
        tempfile.tempdir = saved[2]

    ctx.on_exit(restore)
    os.chdir(out[0])
    os.environ.update(TMPDIR=out[1], HOME=out[2], XDG_CACHE_HOME=os.path.join(out[2], '.cache'))
    tempfile.tempdir = None
    tempfile.gettempdir()
    return out


def observed(ctx, name, run, directories):
    """Run something while its effects on the process are watched."""
    gc.collect()
    before = snapshot(directories)
    with Output(ctx.path('output')) as output:
        run()
        gc.collect()
    changes = differences(before, snapshot(directories))
    for what, how in changes:
        ctx.fail('{}: left a change of {}: {}'.format(name, what, how))
    ctx.eq(output.text, b'', name + ': printed')
    ctx.count('observed_' + name)
    ctx.count('states_compared', len(before))


def prepare(ctx, make, rng):
    if make is c26.caching:
        return make(ctx.path('cache'))(ctx, rng)
    return make(ctx, rng)


def calls(ctx):
    rng = ctx.rng
    make = rng.choice(MINE) if rng.random() < 0.7 else rng.choice(sorted(set(c26.OWN), key=lambda f: f.__name__) + [c26.caching] * 3)
    directories = somewhere(ctx)
    if rng.random() < 0.1:
        gc.disable()
        ctx.on_exit(gc.enable)
    if rng.random() < 0.3:
        # An unusual state, which is not to be set to the usual one
        mask = os.umask(rng.choice([0, 0o77, 0o27]))
        ctx.on_exit(lambda: os.umask(mask))
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(rng.choice([900, 1500, 5000]))
        ctx.on_exit(lambda: sys.setrecursionlimit(limit))
        err = numpy.seterr(over='raise', invalid='warn')
        ctx.on_exit(lambda: numpy.seterr(**err))
        random.seed(rng.random())
    if rng.random() < 0.5:
        # Any further filter is seen
        watched = warnings.catch_warnings()
        watched.__enter__()
        ctx.on_exit(lambda: watched.__exit__(None, None, None))
        warnings.simplefilter('error', rng.choice([BytesWarning, UnicodeWarning, ImportWarning]))
    seed = rng.getrandbits(60)
    ctx.note(make.__name__)
    with numpy.errstate():
        observed(ctx, make.__name__, prepare(ctx, make, random.Random(seed)), directories)
    ctx.evaluated(make.__name__, seed)
    ctx.state(make.__name__)
    ctx.sample(activity=make.__name__)


# -- release of objects

class Progress:
    def __call__(self, p):
        pass


class Handle(io.BytesIO):
    pass


def released(ctx):
    """What is passed to the library, and what it returns, is released once the caller has no use for it."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=3, max_samples=5, words=False, geometry_kind=rng.choice(['grid', 'line', 'sparse', 'irregular', 'one']))
    data = m.encode()
    path = write_file(ctx.path('f.sgy'), data)
    watched = []

    def watch(what, x):
        watched.append((what, weakref.ref(x)))
        return x

    def reading():
        fh = watch('the handle', Handle(data))
        reader = watch('the reader', create_reader(fh, progress=watch('the progress function', Progress()), **options(m)))
        use(reader)
        for i in range(len(m.traces)):
            watch('a trace header', reader.trace_header(i))
            s = reader.trace_samples(i)
            if not isinstance(s, list):
                watch('samples', s)
        watch('the binary header', reader.binary_reel_header)

    def reading_a_file():
        f = open(path, 'rb')
        watch('the handle', f)
        try:
            cache = rng.choice([None, ctx.path('cache'), ctx.path('cache')])
            reader = watch('the reader', create_reader(f, cache_directory=cache, **options(m)))
            f.seek(0)
            again = watch('the loaded reader', create_reader(f, cache_directory=cache, **options(m)))
            third = watch('the restored reader', pickle.loads(pickle.dumps(reader)))
            use(again)
            use(third)
            # Its own handle
            for r in (reader, again, third):
                for v in list(vars(r).values()):
                    if isinstance(v, io.IOBase):
                        watch('the handle of a reader', v)
        finally:
            f.close()

    def failing():
        fh = watch('the handle', Handle(data[:rng.randrange(3600)]))
        swallow(lambda: create_reader(fh, progress=watch('the progress function', Progress()), **options(m)))
        broken = watch('the handle', Unreliable(data, rng.randint(1, 30), RuntimeError('injected')))
        swallow(lambda: use(create_reader(broken, **options(m))))

    def writing():
        ds = watch('the dataset', MemDataset(m, rng))
        outer = watch('the delegating dataset', DelegatingDataset(ds))
        fh = watch('the handle', Handle())
        write_segy(fh, outer, trace_header_format=TRACE_FORMATS[m.revision], encoding=m.encoding, endian=m.endian,
                   progress=watch('the progress function', Progress()))
        broken = watch('the handle', Unreliable(b'', rng.randint(1, 10), RuntimeError('injected')))
        swallow(lambda: write_segy(broken, outer, trace_header_format=TRACE_FORMATS[m.revision], encoding=m.encoding, endian=m.endian))

    def packing():
        class Own(TraceHeaderRev1):
            pass
        watch('a header format', Own)
        packer = watch('a packer', make_header_packer(Own, m.endian))
        h = watch('a header', Own(inline_number=5))
        watch('an unpacked header', packer.unpack(packer.pack(h)))
        Sub = watch('a sub-format', formats.sub_format(rng, TraceHeaderRev1, model.TRACE_REV1, 1, 240).cls)
        packed = make_header_packer(TraceHeaderRev1, '<').pack(TraceHeaderRev1())
        watch('a header of a sub-format', make_header_packer(Sub, '<').unpack(packed))

    def cataloguing():
        builder = watch('a builder', CatalogBuilder())
        for t, (i, x, c) in enumerate(gen.geometry(rng, max_side=4)):
            builder.add((i, x), t)
        c = builder.create()
        if c is not None:
            watch('a catalog', c)
            list(c.items())
            hash_for_file(watch('the handle', Handle(data)), 'x')
        for c in catalog_traces(watch('the handle', Handle(data[m.data_start():])), model.SAMPLE_SIZE[m.format], TRACE_FORMATS[m.revision], m.endian,
                                watch('the progress function', Progress())):
            if c is not None and not isinstance(c, dict):
                watch('a catalog of traces', c)

    def extraction():
        reader = watch('the reader', create_reader(watch('the handle', Handle(data)), dimensionality=3, **options(m)))
        if len(reader.inline_numbers()) == 0:
            return
        watch('an extracted inline', extract_inline_3d(reader, list(reader.inline_numbers())[0]))
        watch('an extracted field', extract_trace_header_field_3d(reader, ['file_sequence_num']).file_sequence_num)

    for fn in (reading, reading_a_file, failing, writing, packing, cataloguing, extraction):
        if fn is extraction and m.revision != 'rev1':
            continue
        del watched[:]
        fn()
        gc.collect()
        for what, ref in watched:
            x = ref()
            if x is not None:
                ctx.fail('{}: {} ({}) is still referenced, by {}'.format(fn.__name__, what, type(x).__name__, [type(r).__name__ for r in gc.get_referrers(x)][:5]))
            ctx.count('objects_released')
        ctx.count('released_after_' + fn.__name__)
    ctx.evaluated(data)


# -- memory

def retention(ctx):
    """Repeating operations on ever different content takes no more memory."""
    rng = ctx.rng
    kinds = ['reading', 'caching', 'writing', 'pickling', 'failing', 'packing', 'converting', 'extracting']
    kind = kinds[ctx.case % len(kinds)]

    def fresh():
        return gen.file_model(rng, max_side=7, max_samples=30, words=False, header_style='sparse', revision='rev1', geometry_kind=rng.choice(['grid', 'sparse', 'line']),
                              fmt=rng.choice([model.INT16, model.INT32, model.FLOAT32]))

    def once():
        m = fresh()
        while len(m.traces) < 15:
            m = fresh()
        data = m.encode()
        if kind in ('caching', 'pickling'):
            path = write_file(ctx.path('f.sgy'), data)
        if kind == 'reading':
            use(create_reader(io.BytesIO(data), **options(m)))
            swallow(lambda: use(create_reader(io.BytesIO(data), **dict(options(m), encoding=None))))
        elif kind == 'caching':
            with open(path, 'rb') as f:
                use(create_reader(f, cache_directory=ctx.path('cache'), **options(m)))
                f.seek(0)
                use(create_reader(f, cache_directory=ctx.path('cache'), **options(m)))
            shutil.rmtree(ctx.path('cache'))
        elif kind == 'writing':
            write_segy(io.BytesIO(), MemDataset(m, rng), trace_header_format=TRACE_FORMATS[m.revision], encoding=m.encoding, endian=m.endian)
        elif kind == 'pickling':
            with open(path, 'rb') as f:
                use(pickle.loads(pickle.dumps(create_reader(f, **options(m)))))
        elif kind == 'failing':
            swallow(lambda: create_reader(Unreliable(data, rng.randint(20, 100), RuntimeError('injected')), **options(m)))
            r = create_reader(io.BytesIO(data), **options(m))
            for i in range(20):
                swallow(lambda: r.trace_samples(-1 - i))
                swallow(lambda: r.trace_header(10**6 + i))
        elif kind == 'packing':
            packer = make_header_packer(TraceHeaderRev1, m.endian)
            for i in range(20):
                packer.unpack(packer.pack(TraceHeaderRev1(inline_number=rng.getrandbits(30))))
        elif kind == 'converting':
            words = rng.randbytes(4000)
            list(map(float, unpack_ibm_floats(words, 1000)))
            pack_ibm_floats([rng.uniform(-1e5, 1e5) for _ in range(1000)])
            format_extended_textual_header(gen.text_line(rng, 3000), 'ascii')
        else:
            r = create_reader(io.BytesIO(data), dimensionality=3, **options(m))
            for i in list(r.inline_numbers())[:2]:
                extract_inline_3d(r, i)
                swallow(lambda: extract_timeslice_3d(r, 0))

    def held():
        """Bytes which were allocated by the library, or by what it called."""
        gc.collect()
        return sum(t.size for t in tracemalloc.take_snapshot().traces if any(frame.filename.startswith(LIBRARY) for frame in t.traceback))

    def growth(n):
        a = held()
        for _ in range(n):
            once()
        return held() - a

    tracemalloc.start(12)
    try:
        n = 10
        growth(5)
        seen = [growth(n)]
        while seen[-1] > 2500 * n and len(seen) < 7:
            # Perhaps something which is only done once, or tables which have grown
            seen.append(growth(n))
    finally:
        tracemalloc.stop()
    ctx.check(seen[-1] <= 2500 * n, '{}: each {} repetitions with other content retained {} bytes', kind, n, seen)
    ctx.count('memory_observations', len(seen))
    ctx.state(kind)
    ctx.evaluated(kind, rng.getrandbits(60))


# -- arguments

def state_of(x):
    """What is in an object, such that two of them differ if it has changed."""
    if isinstance(x, numpy.ndarray):
        return numpy.ma.isMaskedArray(x) and numpy.ma.getmaskarray(x).tolist(), x.dtype.str, x.shape, numpy.ma.getdata(x).tobytes() if not numpy.ma.isMaskedArray(x) else repr(x)
    if isinstance(x, Header):
        return type(x).__name__, [(n, int(getattr(x, n))) for n in x.ordered_field_names()]
    if isinstance(x, IBMFloat):
        return bytes(x)
    if isinstance(x, (str, bytes, int, float, type(None), range)):
        return type(x).__name__, repr(x)
    if isinstance(x, Mapping):
        return type(x).__name__, [(state_of(k), state_of(v)) for k, v in x.items()]
    if isinstance(x, (bytearray, array.array)):
        return type(x).__name__, bytes(x)
    if isinstance(x, set):
        return 'set', sorted(map(repr, x))
    if isinstance(x, Iterable):
        return type(x).__name__, [state_of(i) for i in x]
    return type(x).__name__, repr(x)


def scramble(rng, x):
    """Change a mutable object, and those in it."""
    if isinstance(x, (list, tuple)):
        for i in x:
            scramble(rng, i)
    if isinstance(x, (list, dict, set, bytearray)) and rng.random() < 0.3:
        try:
            x.clear()
        except BufferError:
            # Still exported, by something which therefore depends on it
            raise Violation('a buffer which was passed is still in use')
    elif isinstance(x, (list, bytearray, array.array, numpy.ndarray)) and len(x) and not numpy.ma.isMaskedArray(x):
        if isinstance(x, list):
            x.reverse()
            x[0] = x[-1] = None
        elif isinstance(x, bytearray):
            x[:] = bytes(255 - b for b in x)
        else:
            for i in range(len(x)):
                x[i] = 77
    elif isinstance(x, dict):
        for k in list(x):
            x[k] = None
        x['another'] = 1
    elif isinstance(x, set):
        x.add(987654)
    elif isinstance(x, Header):
        for n in x.ordered_field_names():
            setattr(x, n, 1)


def mutable(rng, items):
    """A collection of integers which could be changed."""
    items = list(items)
    kinds = [list, lambda i: array.array('q', i), lambda i: numpy.array(i, dtype='i8')]
    return rng.choice(kinds)(items)


def argument_cases(rng):
    """Functions, with arguments which could be changed."""
    integers = lambda n=None, lo=-50, hi=50: [rng.randint(lo, hi) for _ in range(rng.randint(1, 8) if n is None else n)]
    distinct = lambda n: rng.sample(range(-100, 100), n)
    n = rng.randint(1, 9)
    keys = distinct(n) if rng.random() < 0.5 else list(range(n))[::rng.choice([1, -1])]
    pairs = [(k, rng.randint(0, 99)) for k in keys]
    rng.shuffle(pairs)
    sides = rng.randint(1, 3), rng.randint(1, 3)
    grid = [((i, j), v) for v, (i, j) in enumerate((i, j) for i in range(sides[0]) for j in range(sides[1]))]
    rng.shuffle(grid)
    words = rng.randbytes(4 * rng.randint(0, 5))
    lines = [''.join(rng.choice('ab cZ9') for _ in range(rng.choice([80, 80, 10, 100]))) for _ in range(rng.choice([40, 3, 50]))]
    header = TraceHeaderRev1(line_sequence_num=rng.randint(0, 99), num_samples=rng.randint(0, 99))
    packer = make_header_packer(TraceHeaderRev1, rng.choice('<>'))
    template = format_standard_textual_header(rng.choice(list(SegYRevision)), client='someone')
    page = [list(p) for p in format_extended_textual_header('some\ntext\n' * rng.randint(1, 60), 'ascii', rng.random() < 0.5)]
    intervals = [range(10 * i, 10 * i + rng.randint(1, 10)) for i in range(rng.randint(1, 4))]

    def written(fn):
        def go(*args):
            f = io.BytesIO()
            fn(f, *args)
            return f.getvalue()
        return go

    # Of each: function, arguments, whether the result is independent of the arguments thereafter
    cases = [
        (lambda a: CatalogBuilder(a).create(), [list(pairs)], True),
        (lambda a: CatalogBuilder(a).create(), [[list(p) for p in pairs]], True),
        (lambda a: CatalogBuilder(a).create(), [dict(pairs)], True),
        (lambda a: CatalogBuilder(a).create(), [list(grid)], True),
        (lambda a: CatalogBuilder(a).create(), [dict(grid[:rng.randint(1, len(grid))])], True),
        (lambda a: catalogs.DictionaryCatalog(a), [rng.choice([list, dict])(pairs)], True),
        (lambda a: catalogs.DictionaryCatalog2D(range(sides[0]), range(sides[1]), a), [rng.choice([list, dict])(grid)], True),
        (lambda a: catalogs.ConstantCatalog(a, 5), [mutable(rng, keys)], True),
        (lambda a: catalogs.RegularCatalog(0, 2 * (n - 1), 2, a), [mutable(rng, integers(n))], True),
        (SortedFrozenSet, [mutable(rng, keys)], True),
        (lambda a: make_sorted_distinct_sequence(a, rng.choice([None, *util.SortSense])), [mutable(rng, keys)], True),
        (lambda a: make_sorted_distinct_sequence(a), [set(keys)], True),
        (lambda a: [list(b) for b in util.batched(a, rng.randint(1, 4))], [integers()], True),
        (lambda a: list(util.pad(a, 0, 9)), [integers()], True),
        (lambda a: list(util.complementary_intervals(a, 0, 100)), [list(intervals)], True),
        (lambda a: (util.is_sorted(a), util.measure_stride(a), util.minmax(a), util.contains_duplicates(a)), [mutable(rng, keys)], True),
        (lambda a: list(util.roundrobin(a, a)), [integers()], True),
        (lambda a, b: SortedFrozenSet(a).union(b), [integers(), integers()], True),
        (lambda a, b: SortedFrozenSet(a).symmetric_difference(b), [set(integers()), integers()], True),
        (written(lambda f, a: toolkit.write_textual_reel_header(f, a, 'cp037')), [list(lines)], True),
        (written(lambda f, a: toolkit.write_extended_textual_headers(f, a, 'ascii')), [page], True),
        (lambda a: toolkit.format_standard_textual_header(SegYRevision.REVISION_1, **a), [dict(client='someone', crew_number=5)], True),
        (toolkit.parse_standard_textual_header, [template], True),
        (written(lambda f, a: toolkit.write_binary_values(f, a, 'int32', '<')), [mutable(rng, integers())], True),
        (written(lambda f, a: toolkit.write_trace_samples(f, a, 'ibm', '<')), [mutable(rng, integers())], True),
        (written(lambda f, a: toolkit.write_trace_samples(f, a, 'float32')), [[rng.random() for _ in range(4)]], True),
        (written(lambda f, a: toolkit.write_trace_header(f, a, packer)), [header], True),
        (written(lambda f, a: toolkit.write_binary_reel_header(f, a)), [BinaryReelHeader(num_samples=rng.randint(0, 99))], True),
        (pack_ibm_floats, [mutable(rng, integers())], True),
        (pack_ibm_floats, [[1.0, float('nan')]], True),
        (lambda a: unpack_ibm_floats(a, len(a) // 4), [bytearray(words)], True),
        (lambda a: toolkit.unpack_values(a, 'i', rng.choice('<>')), [bytearray(words)], True),
        (packer.unpack, [bytearray(packer.pack(header))], True),
        (packer.pack, [header], True),
        (lambda a: a.copy(num_samples=3), [header], True),
        (guess_encoding, [bytearray(rng.randbytes(100))], True),
        (lambda a: TraceHeaderRev1(**a), [dict(num_samples=4, line_sequence_num=9)], True),
        (lambda a: make_header_packer(SubFormatMeta('Sub', (), {}, parent_format=TraceHeaderRev1, parent_field_names=a)).header_format_class.ordered_field_names(),
         [['num_samples', 'inline_number']], True),
    ]
    m = gen.file_model(rng, revision='rev1', geometry_kind=rng.choice(['grid', 'sparse']), max_side=3, max_samples=6)
    if m.traces:
        reader = create_reader(io.BytesIO(m.encode()), dimensionality=3, **options(m))
        if len(reader.inline_numbers()):
            inlines, xlines = list(reader.inline_numbers()), list(reader.xline_numbers())
            some = lambda x: mutable(rng, rng.sample(x, rng.randint(1, len(x))))
            longest = list(range(reader.max_num_trace_samples())) or [0]
            cases += [
                (lambda a, b: extract_inline_3d(reader, inlines[0], a, b), [some(xlines), some(longest)], True),
                (lambda a, b: extract_xline_3d(reader, xlines[0], a, b), [some(inlines), some(longest)], True),
                (lambda a, b: extract_timeslice_3d(reader, longest[-1], a, b, null=0), [some(inlines), some(xlines)], True),
                (lambda f, a, b: extract_trace_header_field_3d(reader, f, a, b), [['inline_number', 'num_samples'], some(inlines), some(xlines)], True),
                (lambda f, a: extract_trace_headers(reader, f, a), [['num_samples', 'inline_number'], some(list(range(reader.num_traces())))], True),
                (lambda a: extract_trace(reader, 0, a), [some(list(range(reader.num_trace_samples(0))) or [0])], True),
            ]
            # Written from lists
            text = [list(reader.textual_reel_header), [list(p) for p in reader.extended_textual_header]]
            held = [[list(map(float, reader.trace_samples(i))) if reader.data_sample_format == 'ibm' else reader.trace_samples(i), reader.trace_header(i)] for i in reader.trace_indexes()]

            class Held(DelegatingDataset):
                textual_reel_header = property(lambda self: text[0])
                extended_textual_header = property(lambda self: text[1])

                def trace_header(self, i):
                    return held[i][1]

                def trace_samples(self, i, start=None, stop=None):
                    return held[i][0][start:stop]
            cases.append((written(lambda f, *_: write_segy(f, Held(reader), endian=rng.choice('<>'), trace_header_format=TraceHeaderRev1)), [text, held], True))
    return cases


def arguments(ctx):
    """Arguments are not changed by a call, and what is done to them later does not change its results."""
    rng = ctx.rng
    for at, (fn, args, independent) in enumerate(argument_cases(rng)):
        before = state_of(args)
        what = 'case {} of arguments: {}'.format(at, core.brief(args))
        try:
            result = fn(*args)
        except Exception as e:
            result = repr(e)
            ctx.count('failed_with_arguments')
        ctx.check(state_of(args) == before, 'the arguments were changed by the call: now {} ({})', core.brief(args), what)
        ctx.count('arguments_compared', len(args))
        if independent:
            seen = state_of(result)
            for a in args:
                scramble(rng, a)
            ctx.check(state_of(result) == seen, 'the result was changed by a later change of the arguments ({})', what)
            ctx.count('results_compared')
    ctx.evaluated(rng.getrandbits(60))


SCENARIOS = [
    Scenario('arguments', arguments, 120, 2500, ['arguments_compared', 'results_compared']),
    Scenario('calls', calls, 1200, 24000, ['states_compared'] + ['observed_' + f.__name__ for f in set(MINE)]),
    Scenario('released', released, 250, 5000, ['objects_released', 'released_after_reading', 'released_after_packing', 'released_after_extraction']),
    Scenario('retention', retention, 16, 160, ['memory_observations'], cpu_limit=240),
]
