import bz2
import copy
import gzip
import io
import lzma
import os
import pickle
import shutil
import tarfile
import tempfile
import threading
import zipfile

from segpy.binary_reel_header import BinaryReelHeader
from segpy.field_types import Int16, Int32, NNInt32
from segpy.header import Header, SubFormatMeta, are_equal, field
from segpy.packer import make_header_packer
from segpy.reader import SegYReader, SegYReader2D, SegYReader3D, create_reader
from segpy.toolkit import catalog_traces
from segpy.trace_header import TraceHeaderRev0, TraceHeaderRev1

from checks.c10 import in_child
from harness import child, gen, jobs, model
from harness.core import Scenario, brief
from harness.jobs import LinesRev0, WideBinary, WideRev1
from harness.observe import TRACE_FORMATS, check_header, check_reader, content, eq_content, write_file

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = ('A case is a random reader (of a random file, opened in various ways, in various states of use), header or packer, pickled with '
        'every protocol by both picklers, restored here or in another process with another directory, and compared with the original; '
        'or an object which cannot be restored. Non-trivial: readers of files with traces, headers with some field not at its default; '
        'distinct by content.')
ASSUMPTIONS = ['the classes of custom formats can be imported where a pickle is restored', 'the file is not changed between pickling and restoring']

PROTOCOLS = range(pickle.HIGHEST_PROTOCOL + 1)


class Sub(metaclass=SubFormatMeta, parent_format=TraceHeaderRev1, parent_field_names=('num_samples', 'inline_number', 'line_sequence_num')):
    pass


class Base(Header):
    START_OFFSET_IN_BYTES = 1
    b = field(Int32, offset=5, default=3, documentation='b')
    a = field(Int16, offset=1, default=-1, documentation='a')


class Derived(Base):
    c = field(NNInt32, offset=9, default=7, documentation='c')


class Again(Derived):
    LENGTH_IN_BYTES = 40
    d = field(Int16, offset=31, default=0, documentation='d')


WIDE_ROWS = [('unassigned_3', 239, 'h', 0, (0, 32767)), ('unassigned_1', 233, 'h', 7, (-2**15, 2**15 - 1)), ('unassigned_2', 235, 'i', 0, (-2**31, 2**31 - 1))]
LINES_ROWS = [('crossline_number', 233, 'i', 0, (-2**31, 2**31 - 1)), ('inline_number', 237, 'i', 0, (-2**31, 2**31 - 1))]
BINARY_ROWS = [('extra_b', 3597, 'i', 0, (-2**31, 2**31 - 1)), ('extra_a', 3261, 'h', -3, (-2**15, 2**15 - 1))]
rev1 = {r[0]: r for r in model.TRACE_REV1}
BASE_ROWS = [('b', 5, 'i', 3, (-2**31, 2**31 - 1)), ('a', 1, 'h', -1, (-2**15, 2**15 - 1))]
C_ROWS = BASE_ROWS + [('c', 9, 'i', 7, (0, 2**31 - 1))]
CLASSES = [
    (TraceHeaderRev0, model.TRACE_REV0, 1, 240),
    (TraceHeaderRev1, model.TRACE_REV1, 1, 240),
    (BinaryReelHeader, model.BINARY, 3201, 400),
    (WideRev1, model.TRACE_REV1 + WIDE_ROWS, 1, 240),
    (LinesRev0, model.TRACE_REV0 + LINES_ROWS, 1, 240),
    (WideBinary, model.BINARY + BINARY_ROWS, 3201, 400),
    (Sub, [rev1['num_samples'], rev1['inline_number'], rev1['line_sequence_num']], 1, 240),
    (Base, BASE_ROWS, 1, 8),
    (Derived, C_ROWS, 1, 12),
    (Again, C_ROWS + [('d', 31, 'h', 0, (-2**15, 2**15 - 1))], 1, 40),
]


def dumps(obj, protocol, python=False):
    if not python:
        return pickle.dumps(obj, protocol)
    f = io.BytesIO()
    pickle._Pickler(f, protocol).dump(obj)
    return f.getvalue()


def loads(data, python=False):
    return pickle._Unpickler(io.BytesIO(data)).load() if python else pickle.loads(data)


def every_way(ctx, obj):
    for protocol in PROTOCOLS:
        for python in (False, True) if ctx.rng.random() < 0.3 else (False,):
            ctx.count('pickles')
            yield loads(dumps(obj, protocol, python), python), 'restored with protocol {}{}'.format(protocol, ' in Python' if python else '')


def headers(ctx):
    rng = ctx.rng
    for cls, layout, start, length in CLASSES:
        values = {}
        style = rng.choice(['full', 'full', 'sparse', 'default', 'extreme'])
        values = gen.header_values(rng, layout, style)
        h = cls(**values)
        if rng.random() < 0.5:
            # Assigned afterwards, some more than once
            for name in rng.sample([r[0] for r in layout], min(3, len(layout))):
                row = next(r for r in layout if r[0] == name)
                values[name] = gen.from_domain(rng, row[4])
                setattr(h, name, gen.from_domain(rng, row[4]))
                setattr(h, name, values[name])
        expected = {r[0]: values.get(r[0], r[3]) for r in layout}
        ctx.note('{} {}'.format(cls.__name__, brief(values)))
        # An attribute which is not a field
        remark = rng.choice([None, 'remark', (1, 2)])
        if remark is not None:
            h.remark = remark
            ctx.count('attributes_besides_fields')
        for again, how in every_way(ctx, h):
            what = '{} {}'.format(cls.__name__, how)
            ctx.check(type(again) is cls, what + ': is a {}', type(again))
            check_header(ctx, again, expected, layout, what)
            for row in layout:
                ctx.check(type(getattr(again, row[0])) is type(getattr(h, row[0])), '{}: type of {} is {}', what, row[0], type(getattr(again, row[0])))
            ctx.eq(are_equal(again, h), True, what + ': equal to the original')
            ctx.eq(getattr(again, 'remark', None), remark, what + ': attribute which is not a field')
            # Independent of the original, and still validating
            row = rng.choice(layout)
            other = gen.from_domain(rng, row[4])
            setattr(again, row[0], other)
            ctx.eq(int(getattr(h, row[0])), expected[row[0]], what + ': original after assignment to the restored one')
            bad = gen.outside_domain(rng, row[4], row[2])
            if bad is not None:
                ctx.raises(ValueError, lambda: setattr(again, row[0], bad), '{}: {} = {}'.format(what, row[0], bad))
        # Members of one pickle, and a header pickled twice
        both = pickle.loads(pickle.dumps([h, h, cls()]))
        ctx.check(both[0] is both[1], 'a header pickled twice became two')
        check_header(ctx, both[2], {r[0]: r[3] for r in layout}, layout, cls.__name__ + ' of defaults')
        check_header(ctx, both[0], expected, layout, cls.__name__ + ' in a list')
        check_header(ctx, h, expected, layout, cls.__name__ + ' after pickling')
        check_header(ctx, copy.deepcopy(h), expected, layout, cls.__name__ + ' deep copy')
        check_header(ctx, copy.copy(h), expected, layout, cls.__name__ + ' shallow copy')
        again = pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(h))))
        check_header(ctx, again, expected, layout, cls.__name__ + ' pickled and restored twice')
        ctx.count('headers')
        ctx.evaluated(*([cls.__name__, repr(sorted(values.items()))] if values else []))


def packers(ctx):
    rng = ctx.rng
    for cls, layout, start, length in CLASSES:
        endian = rng.choice('><')
        packer = make_header_packer(cls, endian)
        expected = {r[0]: gen.from_domain(rng, r[4]) for r in layout}
        data = model.encode_header(layout, start, length, expected, endian)
        if rng.random() < 0.5:
            packer.unpack(data)
        for again, how in every_way(ctx, packer):
            what = 'packer of {} ({}) {}'.format(cls.__name__, endian, how)
            ctx.check(again.header_format_class is cls, what + ': header_format_class is {}', again.header_format_class)
            check_header(ctx, again.unpack(data), expected, layout, what + ': unpack()')
            ctx.eq(bytes(again.pack(cls(**expected))), data, what + ': pack()')
            ctx.raises(TypeError, lambda: again.pack((TraceHeaderRev1 if issubclass(cls, (Base, BinaryReelHeader)) or cls is Sub else Base)()), what + ': pack() of another type of header')
            ctx.check(isinstance(again, type(packer)), what + ': is a {}', type(again))
        ctx.eq(bytes(packer.pack(cls(**expected))), data, 'original packer')
        ctx.count('packers')
        ctx.evaluated(cls.__name__, endian, data)


def custom_model(rng, trace, wide):
    """A file and arguments for reading it with a given format."""
    m = gen.file_model(rng, max_side=3, max_samples=6, revision='rev0' if trace in ('rev0', 'lines0') else 'rev1')
    a = dict(encoding=m.encoding, endian=m.endian, trace=trace, binary='wide' if wide else 'standard', cache_directory=None)
    data = bytearray(m.encode(rng if trace in ('wide', 'lines0') or wide else None))
    for o in m.trace_offsets():
        # unassigned_3 is not negative
        data[o + (238 if m.endian == '>' else 239)] &= 0x7f
    return m, a, bytes(data)


def opened_for_writing(path, mode):
    """The handle through which the file has just been written."""
    with open(path, 'rb') as f:
        data = f.read()
    if 'x' in mode:
        os.unlink(path)
    f = open(path, mode)
    if 'a' not in mode:
        f.write(data)
        f.flush()
    f.seek(0)
    return f


def open_somehow(ctx, path, rng):
    kind = rng.choice(['absolute', 'relative', 'unbuffered', 'update', 'bytes', 'path', 'exclusive', 'append', 'created'])
    ctx.count('opened_' + kind)
    if kind in ('exclusive', 'append', 'created'):
        return opened_for_writing(path, {'exclusive': 'x+b', 'append': 'a+b', 'created': 'w+b'}[kind])
    if kind == 'relative':
        os.chdir(os.path.dirname(path))
        if rng.random() < 0.5:
            return open(os.path.basename(path), 'rb')
        return open(os.path.join('..', os.path.basename(os.path.dirname(path)), os.path.basename(path)), 'rb')
    if kind == 'unbuffered':
        return open(path, 'rb', buffering=0)
    if kind == 'update':
        return open(path, 'rb+')
    if kind == 'bytes':
        return open(os.fsencode(path), 'rb')
    if kind == 'path':
        import pathlib
        return open(pathlib.Path(path), 'rb')
    return open(path, 'rb')


def readers(ctx, in_child=False):
    rng = ctx.rng
    m, a, data = custom_model(rng, rng.choice(['rev1', 'rev1', 'rev0', 'wide', 'lines0']), rng.random() < 0.3)
    a['dimensionality'] = rng.choice([None, None, None, 1, 2, 3])
    os.makedirs(ctx.path('where'))
    os.makedirs(ctx.path('elsewhere'))
    # Some names cannot be decoded
    name = rng.choice(['f.sgy', 'f.sgy', 'f.sgy', '\xe9 \u4e2d.sgy', os.fsdecode(b'\xff\xe9.sgy'), 'f%s{}.sgy'])
    path = write_file(ctx.path('where', name), data)
    f = ctx.keep(open_somehow(ctx, path, rng))
    reader = create_reader(f, **jobs.arguments(a))
    with open(path, 'rb') as g:
        expected = content(create_reader(g, **jobs.arguments(a)))
    ctx.note('{} {}'.format(a, m.summary()))
    # Used in some way beforehand
    use = rng.choice(['unused', 'complete', 'some', 'moved'])
    if use == 'complete':
        eq_content(ctx, content(reader), expected, 'original')
    elif use == 'some' and m.traces:
        reader.trace_samples(rng.randrange(len(m.traces)))
        reader.max_num_trace_samples()
    elif use == 'moved':
        f.seek(rng.randint(0, len(data)))
    protocols = list(PROTOCOLS) if not in_child else [rng.choice(PROTOCOLS)]
    pickles = [dumps(reader, p, rng.random() < 0.2) for p in protocols]
    eq_content(ctx, content(reader), expected, 'original after pickling')
    ctx.check(not f.closed, 'the handle was closed by pickling')
    if rng.random() < 0.7:
        f.close()
        del reader
        ctx.count('original_closed')
    os.chdir(ctx.path('elsewhere'))
    if rng.random() < 0.3:
        # There is another file of that name
        write_file(ctx.path('elsewhere', name), model.FileModel([' ' * 80] * 40, {}, [], []).encode())
    if in_child:
        answer = child.run(ctx, 'unpickle_reader', pickles[0], cwd=ctx.path('elsewhere'))
        if answer[0] != 'ok':
            ctx.fail('restoring in another process: {}: {}'.format(*answer[1:]))
        eq_content(ctx, answer[1], expected, 'restored in another process')
        ctx.count('restored_elsewhere')
    else:
        kept = []
        for p, data_ in zip(protocols, pickles):
            again = loads(data_, rng.random() < 0.2)
            eq_content(ctx, content(again), expected, 'restored with protocol {}'.format(p))
            if a['trace'] in ('rev1', 'rev0') and a['binary'] == 'standard':
                check_reader(ctx, again, m, a['dimensionality'], 'restored with protocol {}'.format(p))
            ctx.eq(os.fsencode(os.path.realpath(again.filename)), os.fsencode(path), 'filename of the restored reader')
            kept.append(again)
        # All of them at once, and restored from a restored one
        again = pickle.loads(pickle.dumps(rng.choice(kept)))
        kept.append(again)
        for again in kept:
            eq_content(ctx, content(again), expected, 'restored, once more')
    with open(path, 'rb') as g:
        ctx.check(g.read() == data, 'the file was modified')
    ctx.state(type(kept[0]).__name__ if not in_child else None, a['trace'], a['binary'], use)
    ctx.count('readers_restored', len(pickles))
    ctx.evaluated(*([data, repr(a)] if m.traces else []))


def readers_elsewhere(ctx):
    readers(ctx, True)


def in_another_process(ctx):
    """Headers and packers."""
    rng = ctx.rng
    objects, expected = [], []
    for cls, layout, start, length in CLASSES:
        values = {r[0]: gen.from_domain(rng, r[4]) for r in layout}
        objects.append((cls(**values), make_header_packer(cls, '<')))
        expected.append((values, model.encode_header(layout, start, length, values, '<')))
    answer = child.run(ctx, 'headers_and_packers', pickle.dumps(objects, rng.choice(PROTOCOLS)), module='checks.c11')
    if answer[0] != 'ok':
        ctx.fail('restoring in another process: {}: {}'.format(*answer[1:]))
    for (cls, layout, _, _), (values, packed), e in zip(CLASSES, answer[1], expected):
        ctx.eq(values, e[0], cls.__name__ + ' restored in another process')
        ctx.eq(packed, e[1], 'packer of {} restored in another process'.format(cls.__name__))
    ctx.count('restored_elsewhere')
    ctx.evaluated(repr(expected))


def headers_and_packers(data):
    """Runs in the other process."""
    return [({n: int(getattr(h, n)) for n in h.ordered_field_names()}, bytes(p.pack(h))) for h, p in pickle.loads(data)]


def refused(ctx):
    rng = ctx.rng
    m = gen.file_model(rng, max_side=3, max_samples=4)
    data = m.encode()
    a = dict(encoding=m.encoding, endian=m.endian, cache_directory=None, trace_header_format=TraceHeaderRev0 if m.revision == 'rev0' else TraceHeaderRev1)
    path = write_file(ctx.path('f.sgy'), data)
    protocol = rng.choice(PROTOCOLS)
    # No name
    f = io.BytesIO(data)
    reader = create_reader(f, **a)
    ctx.raises(TypeError, lambda: pickle.dumps(reader, protocol), 'pickling a reader of an unnamed file')
    check_reader(ctx, reader, m, None, 'reader which could not be pickled')
    f.close()
    ctx.raises(TypeError, lambda: pickle.dumps(reader, protocol), 'pickling a reader of an unnamed closed file')
    with os.fdopen(os.open(path, os.O_RDONLY), 'rb') as f:
        reader = create_reader(f, **a)
        ctx.raises(TypeError, lambda: pickle.dumps(reader, protocol), 'pickling a reader of an anonymous file')
    with tempfile.SpooledTemporaryFile() as f:
        f.write(data)
        f.seek(0)
        reader = create_reader(f, **a)
        ctx.raises(TypeError, lambda: pickle.dumps(reader, protocol), 'pickling a reader of a spooled temporary file')
    # Closed
    with open(path, 'rb') as f:
        reader = create_reader(f, **a)
        good = pickle.dumps(reader, protocol)
    ctx.raises(TypeError, lambda: pickle.dumps(reader, protocol), 'pickling a reader of a closed file')
    # Missing, and back again
    os.rename(path, path + '.away')
    ctx.raises(TypeError, lambda: pickle.loads(good), 'restoring a reader of a missing file')
    os.mkdir(path)
    ctx.raises(TypeError, lambda: pickle.loads(good), 'restoring a reader of a directory')
    os.rmdir(path)
    os.rename(path + '.away', path)
    check_reader(ctx, pickle.loads(good), m, None, 'reader restored when the file is back')
    # Handles in other modes: the file is neither created nor truncated when there is none
    for mode in ('rb+', 'x+b', 'a+b', 'w+b'):
        with opened_for_writing(path, mode) as f:
            other = pickle.dumps(create_reader(f, **a), protocol)
        again = pickle.loads(other)
        check_reader(ctx, again, m, None, 'reader of a handle of mode {} restored'.format(mode))
        with open(path, 'rb') as f:
            ctx.check(f.read() == data, 'restoring a reader of a handle of mode {} modified the file', mode)
        os.rename(path, path + '.away')
        ctx.raises(TypeError, lambda: pickle.loads(other), 'restoring a reader of a handle of mode {} of a missing file'.format(mode))
        ctx.check(not os.path.exists(path), 'restoring a reader of a handle of mode {} created the missing file', mode)
        os.rename(path + '.away', path)
    # Another version
    objects = [good, pickle.dumps(TraceHeaderRev1(), protocol), pickle.dumps(BinaryReelHeader(num_samples=5), protocol), pickle.dumps(Again(), protocol),
               pickle.dumps(make_header_packer(TraceHeaderRev1, '<'), protocol)]
    if ctx.case % 4 == 0:
        objects.append(pickle.dumps(Sub(), protocol))
        versions = rng.sample(['0.0.1', '99.0', '2.0', '', '2.1', '2.1.1', '2.0.9', '1.9.9', '10.0.0', '2.1.0.dev1'], 3)
        answer = child.run(ctx, 'unpickle_with_versions', versions, objects, rng.choice(PROTOCOLS), module='harness.jobs_version')
        ctx.check(answer[0] == 'ok', 'child process: {}', answer)
        changed, names, results = answer[1]
        ctx.check(changed > 0, 'no version to be altered')
        ctx.eq(results[None], ['accepted'] * (2 * len(objects)), 'restoring objects of the same version')
        for version in versions:
            ctx.eq(results[version], ['TypeError'] * (2 * len(objects)), 'restoring objects of another version ({}): each of {}, and without headers and packers within it'.format(version, names))
            ctx.count('other_versions_refused', len(objects))
    ctx.count('refusals', 12)
    ctx.evaluated(data, protocol)


def read_only(ctx):
    """Restored by a user who may read the file, but neither write it nor beside it."""
    rng = ctx.rng
    nobody = 65534
    m = gen.file_model(rng, max_side=3, max_samples=4)
    data = m.encode()
    a = dict(encoding=m.encoding, endian=m.endian, trace_header_format=TraceHeaderRev0 if m.revision == 'rev0' else TraceHeaderRev1)
    home = ctx.path('home')
    os.mkdir(home)
    path = write_file(os.path.join(home, 'f.sgy'), data)
    cache = ctx.path('cache')
    os.mkdir(cache)
    pickles = []
    for mode in ('rb', 'rb+', 'ab+'):
        with open(path, mode) as f:
            f.seek(0)
            pickles.append(pickle.dumps(create_reader(f, cache_directory=cache, **a), rng.choice(PROTOCOLS)))
    os.chmod(ctx.tmp, 0o755)
    os.chmod(cache, 0o755)
    for entry in os.listdir(cache):
        os.chmod(os.path.join(cache, entry), 0o644)
    os.chmod(path, rng.choice([0o444, 0o404]))
    os.chmod(home, 0o555)
    before = os.stat(path)

    def go():
        try:
            os.setgroups([])
            os.setgid(nobody)
            os.setuid(nobody)
        except OSError:
            return 'not permitted'
        for p in pickles:
            check_reader(ctx, pickle.loads(p), m, None, 'reader restored by a user who may only read the file')
        with open(path, 'rb') as f:
            check_reader(ctx, create_reader(f, cache_directory=cache, **a), m, None, 'reader loaded from the cache by a user who may only read the file')
        return 'done'

    result = in_child(ctx, go)
    if result == ('ok', 'not permitted'):
        ctx.count('could_not_drop_privileges')
    else:
        ctx.check(result == ('ok', 'done'), '{}', result[1])
    after = os.stat(path)
    with open(path, 'rb') as f:
        ctx.check(f.read() == data and (after.st_mtime_ns, after.st_ino, after.st_mode) == (before.st_mtime_ns, before.st_ino, before.st_mode), 'restoring changed the file')
    os.chmod(home, 0o755)
    ctx.count('restored_read_only', len(pickles))
    ctx.evaluated(data)


NAMELESS = ('temporary', 'descriptor', 'spooled', 'spooled-memory', 'none', 'empty', 'no-bytes')


def open_named(kind, path, data, other):
    """A handle which is not the file of its name, though there is a file of that name."""
    directory, name = os.path.split(path)
    if kind == 'zip':
        archive = io.BytesIO()
        with zipfile.ZipFile(archive, 'w') as z:
            z.writestr(name, data)
        return zipfile.ZipFile(archive).open(name)
    if kind == 'tar':
        archive = io.BytesIO()
        with tarfile.open(fileobj=archive, mode='w') as t:
            info = tarfile.TarInfo(name)
            info.size = len(data)
            t.addfile(info, io.BytesIO(data))
        archive.seek(0)
        return tarfile.open(fileobj=archive).extractfile(name)
    if kind == 'gzip':
        with gzip.open(path + '.gz', 'wb') as f:
            f.write(data)
        return gzip.open(os.path.join(directory, name + '.gz') if other else name + '.gz', 'rb')
    if kind == 'gzip-named':
        # Stored is another file, such that the restored reader could even be read from
        return gzip.GzipFile(filename=path, fileobj=io.BytesIO(gzip.compress(data)), mode='rb')
    if kind in NAMELESS:
        directory = os.path.dirname(path)
        if kind == 'temporary':
            f = tempfile.TemporaryFile(dir=directory)
        elif kind == 'descriptor':
            f = os.fdopen(os.open(path + '.fd', os.O_RDWR | os.O_CREAT), 'rb+')
        elif kind.startswith('spooled'):
            f = tempfile.SpooledTemporaryFile(dir=directory, max_size=0 if kind == 'spooled' else 2 * len(data))
            f.write(data)
            f.rollover() if kind == 'spooled' else None
        else:
            f = type('Handle', (io.BytesIO,), dict(name={'none': None, 'empty': '', 'no-bytes': b''}[kind], mode='rb'))()
        f.seek(0)
        f.write(data)
        f.seek(0)
        return f
    module = {'bz2': bz2, 'lzma': lzma}[kind]
    with module.open(path + '.' + kind, 'wb') as f:
        f.write(data)
    return module.open(path + '.' + kind, 'rb')


class Extras:
    """Mixed into the types of readers: attributes besides those of the reader."""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.name = None
        self._picks = {}

    def pick(self, trace_index):
        self._picks[trace_index] = self.trace_header(trace_index).line_sequence_num


class Unpicklable(Extras):
    """Has, besides, an attribute which cannot be pickled; overrides as the documentation tells."""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._lock = threading.Lock()

    def __getstate__(self):
        state = super().__getstate__()
        del state['_lock']
        return state

    def __setstate__(self, state):
        super().__setstate__(state)
        self._lock = threading.Lock()


class Picks(Extras, SegYReader):
    pass


class Picks2D(Extras, SegYReader2D):
    pass


class Picks3D(Extras, SegYReader3D):
    pass


class Locked(Unpicklable, SegYReader):
    pass


class Locked2D(Unpicklable, SegYReader2D):
    pass


class Locked3D(Unpicklable, SegYReader3D):
    pass


def subclasses(ctx):
    """Readers of derived types, with attributes of their own."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=3, max_samples=6)
    fmt = TRACE_FORMATS[m.revision]
    path = write_file(ctx.path('f.sgy'), m.encode())
    with open(path, 'rb') as f:
        f.seek(m.data_start())
        offsets, lengths, cdps, lines = catalog_traces(f, model.SAMPLE_SIZE[m.format], fmt, m.endian)
        for dimensionality, index, types in ((0, [], (Picks, Locked)), (2, [cdps], (Picks2D, Locked2D)), (3, [lines], (Picks3D, Locked3D))):
            if None in index:
                continue
            for cls in types:
                what = cls.__name__
                reader = cls(f, tuple(m.text), BinaryReelHeader(**m.binary), [tuple(p) for p in m.pages], offsets, lengths, *index, fmt, m.encoding, m.endian)
                reader.name = name = rng.choice(['name', ('a', 1), None, ''])
                for i in range(min(len(m.traces), 2)):
                    reader.pick(i)
                # Given by the caller, to one reader only
                reader.remark = remark = rng.choice([None, 'remark', 17])
                if rng.random() < 0.5:
                    f.seek(rng.randint(0, 5000))
                expected = dict(reader._picks)
                for protocol in rng.sample(PROTOCOLS, 3):
                    again = pickle.loads(dumps(reader, protocol, rng.random() < 0.3))
                    ctx.check(type(again) is cls, '{} restored is a {}', what, type(again))
                    ctx.eq((again.name, again._picks, again.remark), (name, expected, remark), 'attributes of {} restored with protocol {}'.format(what, protocol))
                    check_reader(ctx, again, m, dimensionality, what + ' restored')
                    if issubclass(cls, Unpicklable):
                        ctx.check(again._lock.acquire(blocking=False), '{}: attribute which could not be pickled', what)
                    # Independent of the original
                    again.name, again._picks[-1] = 'other', 'other'
                    ctx.eq((reader.name, reader._picks, reader.remark), (name, expected, remark), 'attributes of {} after assigning to those of the restored one'.format(what))
                    once_more = pickle.loads(pickle.dumps(again))
                    ctx.eq((once_more.name, once_more._picks, once_more.remark), (again.name, again._picks, remark), 'attributes of {} restored twice'.format(what))
                    again._fh.close() if hasattr(again, '_fh') else None
                    once_more._fh.close() if hasattr(once_more, '_fh') else None
                    ctx.count('derived_readers')
                check_reader(ctx, reader, m, dimensionality, what + ' after pickling')
    ctx.state(len(m.traces) and min(len(m.traces), 3))
    ctx.evaluated(m.encode())


def not_the_file_of_its_name(ctx):
    """Readers of members of archives and of compressed files, of whose name there is another file."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=3, max_samples=4)
    data = m.encode()
    different = gen.file_model(rng, max_side=3, max_samples=4, revision=m.revision)
    a = dict(encoding=m.encoding, endian=m.endian, trace_header_format=TraceHeaderRev0 if m.revision == 'rev0' else TraceHeaderRev1)
    os.chdir(ctx.path())
    path = write_file(ctx.path('f.sgy'), different.encode())
    for kind in ('zip', 'tar', 'gzip', 'gzip-named', 'bz2', 'lzma', *NAMELESS):
        with open_named(kind, path, data, rng.random() < 0.5) as f:
            reader = create_reader(f, **a, **({'cache_directory': ctx.path('cache')} if kind in NAMELESS and rng.random() < 0.3 else {}))
            if kind in NAMELESS:
                ctx.eq(reader.filename, '<unknown>', 'filename of a reader of a handle without a name ({})'.format(kind))
            for protocol in PROTOCOLS:
                ctx.raises(TypeError, lambda: dumps(reader, protocol, rng.random() < 0.3), 'pickling a reader of a handle which is not the file of its name ({})'.format(kind))
            check_reader(ctx, reader, m, None, 'reader which could not be pickled ({})'.format(kind))
            ctx.count('handles_' + kind)
        # Neither with nor from a cache does anything else appear
        for cache in rng.sample(['.segpy', 'x/y', ctx.path('abs'), None], 2):
            for turn in (1, 2, 3):
                with open_named(kind, path, data, rng.random() < 0.5) as f:
                    what = '{} handle, cache_directory={!r}, turn {}'.format(kind, cache, turn)
                    ctx.note(what)
                    reader = create_reader(f, cache_directory=cache, **a)
                    check_reader(ctx, reader, m, None, what)
                    ctx.count('read_repeatedly')
    ctx.evaluated(data, different.encode())


SCENARIOS = [
    Scenario('headers', headers, 120, 2500, ['headers', 'pickles', 'attributes_besides_fields']),
    Scenario('packers', packers, 60, 1200, ['packers', 'pickles']),
    Scenario('readers', readers, 300, 6000, ['readers_restored', 'original_closed'] + ['opened_' + k for k in ('absolute', 'relative', 'unbuffered', 'update', 'bytes', 'path', 'exclusive', 'append', 'created')]),
    Scenario('readers-elsewhere', readers_elsewhere, 16, 200, ['restored_elsewhere']),
    Scenario('in-another-process', in_another_process, 8, 60, ['restored_elsewhere']),
    Scenario('read-only', read_only, 16, 200, ['restored_read_only']),
    Scenario('not-the-file-of-its-name', not_the_file_of_its_name, 24, 300, ['read_repeatedly'] + ['handles_' + k for k in ('zip', 'tar', 'gzip', 'gzip-named', 'bz2', 'lzma', *NAMELESS)]),
    Scenario('subclasses', subclasses, 60, 1200, ['derived_readers']),
    Scenario('refused', refused, 60, 800, ['refusals', 'other_versions_refused']),
]
