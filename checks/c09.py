import gzip
import io
import os
import shutil
import struct
import tempfile
import types
import zipfile
from pathlib import Path

from segpy.field_types import Int16, Int32
from segpy.header import field
from segpy.reader import create_reader
from segpy.trace_header import TraceHeaderRev1

from harness import child, gen, jobs, model
from harness.core import Scenario, brief
from harness.jobs import arguments, outcome
from harness.observe import TRACE_FORMATS, check_reader, content, eq_content, write_file

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = ('A case is a history over a small directory tree: SEG-Y files are written, modified (down to one byte, with size and times '
        'restored), renamed and removed, and read with caching with varying arguments, in this and in other processes. Each '
        'cached outcome is compared with that of an uncached reader with the same arguments, and the tree with the files '
        'permitted. Non-trivial: some read found entries of an earlier read; distinct by history.')
ASSUMPTIONS = ['the two recorded findings (entries shared by different dimensionality, or by identical files at two paths) are avoided by the general histories and exercised by scenarios of their own']


def tree(root):
    out = set()
    for d, ds, fs in os.walk(root):
        for name in fs:
            out.add(os.path.relpath(os.path.join(d, name), root))
    return out


def compare(ctx, actual, expected, what):
    if actual[0] != expected[0]:
        ctx.fail('{}: with caching {}, without {}'.format(what, brief(actual), brief(expected)))
    if actual[0] == 'ok':
        eq_content(ctx, actual[1], expected[1], what)
    else:
        ctx.eq(actual[1], expected[1], what + ': exception')
        ctx.count('errors_compared')


def uncached(path, a):
    return jobs.read(path, dict(a, cache_directory=None))


class World:
    """SEG-Y files in a directory, each with content never seen at another path."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = ctx.rng
        self.root = ctx.path('world')
        os.makedirs(self.root)
        self.files = {}
        self.serial = 0
        self.permitted = set()     # directories which may hold entries
        self.log = []

    def new_model(self):
        self.serial += 1
        # The serial number keeps contents distinct, so no path shares an entry with another
        m = gen.file_model(self.rng, max_side=3, max_samples=6, endian='>', revision='rev1')
        m.binary['job_id_num'] = self.serial
        return m

    def write(self, rel, data):
        path = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        write_file(path, data)
        self.files[rel] = data
        return path

    def check_tree(self, what):
        extra = tree(self.root) - set(self.files)
        for rel in extra:
            if os.path.dirname(rel) not in self.permitted:
                self.ctx.fail('{}: file {} appeared; cache directories: {}'.format(what, rel, sorted(self.permitted)))
        for rel, data in self.files.items():
            with open(os.path.join(self.root, rel), 'rb') as f:
                if f.read() != data:
                    self.ctx.fail('{}: SEG-Y file {} was modified'.format(what, rel))
        self.ctx.count('trees_examined')
        return len(extra)


# Unusual names, some of which cannot be decoded
NAMES = ['\xe9/\xfc.sgy', os.fsdecode(b'\xff\xe9/\xfe.sgy'), 'plain/\u4e2d.sgy', 'n/%s%d{}.sgy', 'long/' + 200 * 'x', ' / .sgy']

RELATIVE = ['.segpy', '.segpy', 'cache', 'deep/er/cache', '../sibling']


def random_arguments(rng, dims):
    a = dict(encoding=rng.choice([None, None, None, 'ascii', 'cp037']), endian=rng.choice('>>>><'), trace=rng.choice(['rev1', 'rev1', 'rev1', 'rev0', 'wide', 'lines0']),
             binary=rng.choice(['standard', 'standard', 'standard', 'wide']))
    a['dimensionality'] = dims
    return a


def histories(ctx):
    rng = ctx.rng
    w = World(ctx)
    dims = rng.choice([None, None, None, 1])   # fixed, see the findings
    absolute = os.path.join(w.root, 'absolute')
    names = ['a.sgy', 'd/b.sgy', 'd/c d.segy', rng.choice(NAMES)]
    for rel in rng.sample(names, rng.randint(1, 3)):
        w.write(rel, w.new_model().encode())
    found = 0
    for step in range(rng.choice([4, 8, 14])):
        rel = rng.choice(sorted(w.files))
        path = os.path.join(w.root, rel)
        k = rng.random()
        if k < 0.3 and step:
            kind = modify(ctx, w, rel)
            w.log.append((kind, rel))
            ctx.note('{} {}'.format(kind, rel))
        # Read
        a = random_arguments(rng, dims) if rng.random() < 0.5 or step == 0 else dict(a)
        cache = rng.choice([rng.choice(RELATIVE), rng.choice(RELATIVE), absolute, None])
        if cache is not None:
            where = os.path.join(os.path.dirname(path), cache) if not os.path.isabs(cache) else cache
            w.permitted.add(os.path.relpath(os.path.normpath(where), w.root))
        rel = rel if rel in w.files else rng.choice(sorted(w.files))
        path = os.path.join(w.root, rel)
        if cache is not None:
            where = os.path.join(os.path.dirname(path), cache) if not os.path.isabs(cache) else cache
            w.permitted.add(os.path.relpath(os.path.normpath(where), w.root))
            found += bool(os.path.isdir(where) and os.listdir(where))
        what = 'read {} with {} cached in {}'.format(rel, a, cache)
        ctx.note(what)
        expected = uncached(path, a)
        actual = open_and_read(ctx, rng, path, dict(a, cache_directory=cache if rng.random() < 0.7 or cache is None else Path(cache)), w.root)
        compare(ctx, actual, expected, what)
        w.check_tree(what)
        w.log.append((what,))
        ctx.count('cached_reads' if cache is not None else 'uncached_reads')
        ctx.state(a['encoding'], a['endian'], a['trace'], a['binary'], cache if cache in RELATIVE or cache is None else 'absolute', actual[0])
    ctx.count('reads_with_entries_present', found)
    ctx.evaluated(*([repr(w.log), ctx.case] if found else []))
    ctx.sample(history=[x[0] for x in w.log][:10])


def open_and_read(ctx, rng, path, a, root):
    """Open the file in one of the ways a user may."""
    k = rng.choice(['absolute', 'absolute', 'relative', 'unbuffered', 'update', 'bytes', 'descriptor', 'pathlib', 'moved'])
    if k == 'descriptor':
        fd = os.open(path, os.O_RDONLY)
        f = os.fdopen(fd, 'rb')
    elif k == 'relative':
        os.chdir(os.path.dirname(path))
        f = open(os.path.basename(path), 'rb')
    elif k == 'unbuffered':
        f = open(path, 'rb', buffering=0)
    elif k == 'update':
        f = open(path, 'rb+')
    elif k == 'bytes':
        f = open(os.fsencode(path), 'rb')
    elif k == 'pathlib':
        f = Path(path).open('rb')
    else:
        f = open(path, 'rb')
    ctx.count('opened_' + k)
    try:
        with f:
            def go():
                reader = create_reader(f, **arguments(a))
                if k == 'relative':
                    os.chdir(root)
                return content(reader)
            result = outcome(go)
            ctx.check(not f.closed, 'the given handle was closed')
            return result
    finally:
        os.chdir(root)


def modify(ctx, w, rel):
    """Change the content at a path, perhaps as little and as covertly as possible, or move it."""
    rng = w.rng
    path = os.path.join(w.root, rel)
    st = os.stat(path)
    data = bytearray(w.files[rel])
    kind = rng.choice(['byte', 'byte', 'byte', 'replace', 'append', 'truncate', 'swap', 'rename', 'drop-cache', 'touch', 'samples'])
    if kind == 'byte':
        # Keep it distinct from all else by never touching the serial number
        i = rng.choice([rng.randrange(3600, len(data)) if len(data) > 3600 else 3300, rng.randrange(3204, 3600), rng.randrange(0, 3200), len(data) - 1])
        if 3200 <= i < 3204:
            i = 3300
        data[i] ^= 1 << rng.randrange(8)
        w.write(rel, bytes(data))
        os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
    elif kind == 'samples' and len(data) > 4000:
        i = rng.randrange(3840, len(data) - 8)
        data[i:i + 8] = rng.randbytes(8)
        w.write(rel, bytes(data))
        os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
    elif kind == 'append':
        w.write(rel, bytes(data) + rng.choice([bytes(1), bytes(240), rng.randbytes(500)]))
    elif kind == 'truncate':
        w.write(rel, bytes(data[:rng.randint(3600, len(data))]))
    elif kind == 'swap' and len(data) > 4400:
        i = rng.randrange(3600, len(data) - 400)
        data[i:i + 100], data[i + 200:i + 300] = data[i + 200:i + 300], data[i:i + 100]
        w.write(rel, bytes(data))
        os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
    elif kind == 'rename':
        del w.files[rel]
        new = os.path.join(os.path.dirname(rel), 'moved{}.sgy'.format(len(w.log)))
        os.rename(path, os.path.join(w.root, new))
        w.files[new] = bytes(data)
    elif kind == 'drop-cache':
        for d in sorted(w.permitted):
            shutil.rmtree(os.path.join(w.root, d), ignore_errors=True)
    elif kind == 'touch':
        os.utime(path)
    else:
        w.write(rel, w.new_model().encode())
    ctx.count('modification_' + kind)
    return kind


def each_argument(ctx):
    """Entries of all combinations of arguments in one directory; none is confused with another."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=3, max_samples=5, geometry_kind=rng.choice(['grid', 'line', 'irregular']), pages=0, text='conventional')
    path = write_file(ctx.path('f.sgy'), m.encode(rng if rng.random() < 0.5 else None))
    combos = [dict(encoding=e, endian=n, trace=t, binary=b) for e in (None, 'ascii', 'cp037') for n in '><' for t in jobs.TRACE for b in jobs.BINARY]
    rng.shuffle(combos)
    combos = combos[:16]
    cache = rng.choice(['.segpy', ctx.path('c')])
    first = [jobs.read(path, dict(a, cache_directory=cache)) for a in combos]
    expected = [uncached(path, a) for a in combos]
    for a, f, e in zip(combos, first, expected):
        compare(ctx, f, e, 'first read with {}'.format(a))
    order = list(range(len(combos)))
    rng.shuffle(order)
    for i in order:
        compare(ctx, jobs.read(path, dict(combos[i], cache_directory=cache)), expected[i], 'second read with {}'.format(combos[i]))
    ctx.count('combinations', len(combos))
    ctx.count('successful_combinations', sum(e[0] == 'ok' for e in expected))
    ctx.evaluated(m.encode(), cache)


def every_byte(ctx):
    """Whichever byte of a file is changed, the earlier entry is not used."""
    rng = ctx.rng
    m = gen.file_model(rng, geometry_kind='grid', max_side=2, max_samples=4, pages=rng.choice([0, 1]), encoding='ascii', endian='>', revision='rev1')
    data = m.encode()
    path = write_file(ctx.path('f.sgy'), data)
    os.utime(path, (1000000000, 1000000000))
    a = dict(encoding='cp037', trace='wide', binary='wide')
    compare(ctx, jobs.read(path, dict(a, cache_directory='.segpy')), uncached(path, a), 'original')
    positions = [rng.randrange(len(data)) for _ in range(6)] + [0, len(data) - 1, 3599, 3600]
    for i in positions:
        changed = bytearray(data)
        changed[i] ^= rng.choice([1, 128, 255])
        write_file(path, changed)
        os.utime(path, (1000000000, 1000000000))
        compare(ctx, jobs.read(path, dict(a, cache_directory='.segpy')), uncached(path, a), 'byte {} changed ({})'.format(i, m.where(i)))
        ctx.count('single_byte_changes')
    # ... and back again
    write_file(path, data)
    compare(ctx, jobs.read(path, dict(a, cache_directory='.segpy')), uncached(path, a), 'original restored')
    ctx.evaluated(data, repr(positions))


def large_file_changes(ctx):
    """As every_byte, for a file which is much larger than the block size of any hashing."""
    rng = ctx.rng
    n = rng.choice([32000, 20000])
    k = 6 if ctx.case % 2 else rng.choice([40, 90] + [280] * ctx.thorough)
    # The headers of the short traces lie together in the last, incomplete, block
    short = rng.choice([0, 3, 3, 12, 40])
    traces = [({'num_samples': n, 'ensemble_num': t + 1, 'inline_number': t + 1}, [t + 1] * n) for t in range(k)]
    traces += [({'num_samples': 3, 'ensemble_num': t + 1, 'inline_number': t + 1}, [t + 1, -t - 1, 0]) for t in range(k, k + short)]
    m = model.FileModel([' ' * 80] * 40, {'data_sample_format': 2}, [], traces)
    data = m.encode()
    offsets = m.trace_offsets()
    path = write_file(ctx.path('f.sgy'), data)

    def seen(cache, positions):
        with open(path, 'rb') as f:
            reader = create_reader(f, cache_directory=cache, encoding='ascii')
            d = reader.dimensionality
            lines = [list(x) for x in (reader.inline_numbers(), reader.xline_numbers())] if d == 3 else list(reader.cdp_numbers()) if d == 2 else []
            values = []
            for i in positions:
                t = max(t for t, o in enumerate(offsets) if o <= i)
                x = (i - offsets[t] - 240) // 4
                if x >= 0:
                    values.append(list(reader.trace_samples(t, x, x + 1)))
                else:
                    h = reader.trace_header(t)
                    values.append((h.inline_number, h.crossline_number, h.ensemble_num, h.line_sequence_num))
            indexes = []
            if d == 3:
                indexes = [reader.trace_index((i, j)) for i in reader.inline_numbers() for j in reader.xline_numbers() if reader.has_trace_index((i, j))]
            elif d == 2:
                indexes = [(c, reader.trace_index(c)) for c in reader.cdp_numbers()]
            return (d, lines, indexes, reader.num_traces(), [reader.num_trace_samples(t) for t in reader.trace_indexes()],
                    [list(reader.trace_samples(t, 0, 1)) for t in reader.trace_indexes()], values)

    def compare_all(what, positions):
        ctx.eq(seen('.segpy', positions), seen(None, positions), what)

    compare_all('original', [])
    fields = {'crossline': (192, 4), 'inline': (188, 4), 'cdp': (20, 4), 'sequence': (0, 4)}
    for _ in range(4 if k == 6 else 6):
        kind = rng.choice(['byte', 'field', 'last-field', 'exchange-fields', 'exchange-samples', 'exchange-bytes'])
        changed = bytearray(data)
        if kind == 'byte':
            positions = [rng.randrange(3600, len(data))]
            changed[positions[0]] ^= 1
        elif kind in ('field', 'last-field'):
            t = rng.randrange(k + short) if kind == 'field' else rng.randrange(k, k + short) if short else k - 1
            o, size = fields[rng.choice(sorted(fields))]
            positions = [offsets[t] + o]
            changed[positions[0] + size - 1] ^= rng.choice([1, 64])
            if t >= k:
                ctx.count('large_file_changes_in_last_block')
        elif kind == 'exchange-fields' and short:
            # The same bytes in another order within one block
            o, size = fields[rng.choice(['inline', 'cdp'])]
            p, q = (offsets[t] + o for t in rng.sample(range(k, k + short), 2))
            changed[p:p + size], changed[q:q + size] = changed[q:q + size], changed[p:p + size]
            positions = [p, q]
            ctx.count('large_file_permutations')
        else:
            t = rng.randrange(k)
            x = rng.randrange(n - 1)
            p = offsets[t] + 240 + 4 * x
            if kind == 'exchange-bytes':
                changed[p + 2:p + 4] = changed[p + 2:p + 4][::-1]
                positions = [p]
            else:
                # Both in the header and in the samples
                o = offsets[t] + 188
                for q in (p, o):
                    changed[q + 2:q + 4] = changed[q + 2:q + 4][::-1]
                positions = [p, o]
            ctx.count('large_file_permutations')
        write_file(path, changed)
        os.utime(path, (1000000000, 1000000000))
        compare_all('{} at {} of {}'.format(kind, positions, len(data)), positions)
        ctx.count('large_file_changes')
        ctx.state(kind, k, short)
    ctx.evaluated(n, k, short, ctx.case)


def changes_everywhere(ctx):
    """Changes of the trace headers at many positions of a file larger than the block size of any hashing."""
    rng = ctx.rng
    n = rng.choice([9, 100, 251])
    k = rng.choice([200000, 600000] + [3000000] * ctx.thorough) // (240 + 2 * n)
    m = model.FileModel([' ' * 80] * 40, {'data_sample_format': 3}, [],
                        [({'num_samples': n, 'ensemble_num': t + 1, 'inline_number': 3 * t, 'crossline_number': 7}, [t % 100] * n) for t in range(k)])
    data = bytearray(m.encode())
    offsets = m.trace_offsets()
    path = write_file(ctx.path('f.sgy'), data)
    lines = [3 * t for t in range(k)]

    def expect(what):
        with open(path, 'rb') as f:
            reader = create_reader(f, encoding='ascii', cache_directory='.segpy')
            expected = {(x, 7): t for t, x in enumerate(lines)}
            if {p: reader.trace_index(p) for p in reader.inline_xline_numbers()} != expected:
                wrong = [p for p in expected if not reader.has_trace_index(p) or reader.trace_index(p) != expected[p]]
                ctx.fail(what + ': lines {} are wrong'.format(wrong[:5]))

    expect('original')
    for _ in range(40):
        t = rng.randrange(k)
        lines[t] = 3 * t + (1 if lines[t] % 3 == 0 else 0)
        o = offsets[t] + 188
        data[o:o + 4] = lines[t].to_bytes(4, 'big')
        write_file(path, data)
        expect('line of trace {} changed, at byte {} of {}'.format(t, o, len(data)))
        ctx.count('changes_anywhere')
    ctx.evaluated(n, k, bytes(data[3600:4000]))


def placement(ctx):
    """Where entries appear, for named and unnamed files."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=3, max_samples=4)
    data = m.encode()
    root = ctx.path('root')
    home = os.path.join(root, 'home')
    other = os.path.join(root, 'cwd')
    os.makedirs(home)
    os.makedirs(other)
    path = write_file(os.path.join(home, 'f.sgy'), data)
    a = dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    os.chdir(other)
    before = tree(root)
    for cache, where in rng.sample([(None, None), ('.segpy', 'home/.segpy'), ('x/y', 'home/x/y'), ('../z', 'z'), (os.path.join(root, 'abs'), 'abs'), (os.path.join(root, 'p', 'q'), 'p/q')], 4):
        for kind in ('path', 'relative', 'symlink-directory', 'anonymous', 'unnamed', 'gzip', 'spooled', 'archive-member'):
            already = tree(root)
            for turn in (1, 2):
                if kind == 'path':
                    f = open(path, 'rb')
                elif kind == 'relative':
                    f = open('../home/f.sgy', 'rb')
                elif kind == 'symlink-directory':
                    if not os.path.islink(os.path.join(other, 'link')):
                        os.symlink(home, os.path.join(other, 'link'))
                    f = open('link/f.sgy', 'rb')
                elif kind == 'anonymous':
                    f = os.fdopen(os.open(path, os.O_RDONLY), 'rb')
                elif kind == 'unnamed':
                    f = io.BytesIO(data)
                elif kind == 'spooled':
                    f = tempfile.SpooledTemporaryFile()
                    f.write(data)
                    f.seek(0)
                elif kind == 'archive-member':
                    # The name of the member is also that of a file
                    shutil.copy(path, os.path.join(other, 'f.sgy'))
                    archive = io.BytesIO()
                    with zipfile.ZipFile(archive, 'w') as z:
                        z.writestr('f.sgy', data)
                    f = zipfile.ZipFile(archive).open('f.sgy')
                else:
                    f = gzip.GzipFile(fileobj=io.BytesIO(gzip.compress(data)))
                what = 'cache_directory={!r}, {} handle, turn {}'.format(cache, kind, turn)
                ctx.note(what)
                with f:
                    reader = create_reader(f, cache_directory=cache, **a)
                    check_reader(ctx, reader, m, None, what)
                new = tree(root) - before - {'cwd/f.sgy'}
                if kind == 'archive-member':
                    # Whether its name is that of a file is a matter of opinion
                    new = {rel for rel in new if not rel.startswith('cwd/') and not (cache and cache.startswith('..'))}
                for rel in new:
                    ctx.eq(os.path.dirname(rel), where, what + ': location of ' + rel)
                if kind in ('anonymous', 'unnamed', 'gzip', 'spooled') and cache is not None and not os.path.isabs(cache):
                    ctx.eq(tree(root) - already, set(), what + ': nothing can be cached beside a file without a name')
                ctx.count('placements')
                ctx.count('entries_seen', len(new))
        for d in ('cwd/.segpy', 'cwd/x', 'home/.segpy', 'home/x', 'z', 'abs', 'p'):
            shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    with open(path, 'rb') as f:
        ctx.eq(f.read(), data, 'content of the file')
    ctx.evaluated(data)


class CountingFile(io.FileIO):
    reads = 0

    def read(self, *args):
        self.reads += 1
        return super().read(*args)

    def readinto(self, *args):
        self.reads += 1
        return super().readinto(*args)


def scanned_once(ctx):
    """A file is scanned by the first creation of a reader, and not by the following ones with the same parameters."""
    rng = ctx.rng
    m = gen.file_model(rng, geometry_kind=rng.choice(['line', 'grid']), max_side=5, max_samples=6)
    if not m.traces:
        return
    m.traces.extend(m.traces[:1] * (100 - len(m.traces)))
    data = m.encode()
    home = ctx.path('home')
    os.makedirs(home)
    name = rng.choice(['f.sgy', 'f.sgy', *map(os.path.basename, NAMES)])
    path = write_file(os.path.join(home, name), data)
    kw = rng.choice([dict(), dict(cache_directory='.segpy'), dict(cache_directory=ctx.path('absolute'))])
    where = kw.get('cache_directory', '.segpy')
    where = where if os.path.isabs(where) else os.path.join(home, where)
    a = dict(kw, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision], encoding=m.encoding)
    if rng.random() < 0.3:
        a['dimensionality'] = rng.choice([1, None])
    reads, entries = [], []
    for turn in range(3):
        what = 'creation {} with {}'.format(turn, kw)
        mode = rng.choice(['rb', 'rb', 'rb+', 'ab+', 'xb+', 'wb+'])
        if mode == 'xb+':
            os.unlink(path)
        with CountingFile(rng.choice([path, os.fsencode(path)]), mode) as f:
            if mode in ('xb+', 'wb+'):
                f.write(data)
            f.seek(0)
            reader = create_reader(f, **a)
            reads.append(f.reads)
            check_reader(ctx, reader, m, None, what)
        ctx.eq(sorted(os.listdir(home)), sorted(['.segpy', name]) if where.startswith(home) else [name], what + ': files beside the SEG-Y file')
        entries.append({e.name: (e.stat().st_ino, e.stat().st_mtime_ns, e.stat().st_size) for e in os.scandir(where)})
        ctx.eq(len(entries[-1]), 1, what + ': number of entries')
        ctx.eq(entries[-1], entries[0], what + ': the entry')
        if turn:
            ctx.check(reads[turn] < reads[0], '{}: {} reads of the file, as many as when it was scanned', what, reads[turn])
            ctx.count('loads_instead_of_scans')
    ctx.evaluated(data, repr(kw))


def other_processes(ctx):
    """Entries written by one process and read by others, with other hash seeds and working directories."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=4, max_samples=6, endian='>', revision='rev1')
    path = write_file(ctx.path('f.sgy'), m.encode())
    os.makedirs(ctx.path('elsewhere'))
    cache = rng.choice(['.segpy', ctx.path('cache')])
    combos = [dict(random_arguments(rng, None)) for _ in range(2)]
    for a in combos:
        expected = uncached(path, a)
        cached = dict(a, cache_directory=cache)
        for turn in range(2):
            where = rng.choice(['here', 'child', 'child'])
            if where == 'here':
                actual = jobs.read(path, cached)
            else:
                answer = child.run(ctx, 'read', path, cached, cwd=ctx.path('elsewhere'))
                ctx.eq(answer[0], 'ok', 'reading in another process')
                actual = answer[1]
            compare(ctx, actual, expected, '{} read {} with {}'.format(where, turn, a))
            directory = os.path.join(os.path.dirname(path), cache)
            entries = {e.name: (e.stat().st_ino, e.stat().st_mtime_ns) for e in os.scandir(directory)} if os.path.isdir(directory) else {}
            if turn and expected[0] == 'ok':
                ctx.eq(entries, before, 'entries after a read in another process with {}'.format(a))
                ctx.count('loads_of_entries_of_others')
            before = entries
    ctx.count('cross_process_reads', len(combos) * 2)
    ctx.evaluated(m.encode(), repr(combos))


Redefined = TraceHeaderRev1


def redefined_format(ctx):
    """A header format which has changed since the entry was written."""
    global Redefined
    rng = ctx.rng
    m = gen.file_model(rng, geometry_kind=rng.choice(['grid', 'line']), max_side=3, max_samples=4, revision='rev1', endian='>', encoding='ascii')
    path = write_file(ctx.path('f.sgy'), m.encode(rng))
    definitions = [
        {},
        {'extra': field(Int16, offset=233, default=0, documentation='')},
        {'extra': field(Int16, offset=235, default=0, documentation='')},
        {'extra': field(Int32, offset=233, default=0, documentation='')},
        {'crossline_number': field(Int32, offset=233, default=0, documentation='')},
        {'inline_number': field(Int32, offset=237, default=0, documentation='')},
        {'another': field(Int32, offset=237, default=0, documentation='')},
    ]
    rng.shuffle(definitions)
    for d in definitions[:4] + definitions[:2]:
        Redefined = types.new_class('Redefined', (TraceHeaderRev1,), {}, lambda ns: ns.update(d, __module__=__name__, __qualname__='Redefined'))
        results = []
        for cache in (None, '.segpy', '.segpy'):
            with open(path, 'rb') as f:
                results.append(outcome(lambda: content(create_reader(f, encoding='ascii', trace_header_format=Redefined, cache_directory=cache))))
        for r in results[1:]:
            compare(ctx, r, results[0], 'format redefined with {}'.format(sorted(d)))
        ctx.count('redefinitions')
    ctx.evaluated(m.encode(), repr([sorted(d) for d in definitions]))


def identical_copies(ctx):
    """Identical files which share a cache and stay unmodified."""
    rng = ctx.rng
    m = gen.file_model(rng, max_side=3, max_samples=5)
    a = dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    paths = [write_file(ctx.path('{}.sgy'.format(k)), m.encode()) for k in range(3)]
    for k in range(6):
        path = rng.choice(paths)
        with open(path, 'rb') as f:
            check_reader(ctx, create_reader(f, cache_directory=rng.choice(['.segpy', ctx.path('shared')]), **a), m, None, path)
        if rng.random() < 0.2 and len(paths) > 1:
            os.unlink(paths.pop(rng.randrange(len(paths))))
            ctx.count('copies_removed')
    ctx.count('copies_read', 6)
    ctx.evaluated(m.encode(), paths)


def independent_readers(ctx):
    """Several readers loaded from one entry do not affect one another or the entry."""
    rng = ctx.rng
    m = gen.file_model(rng, geometry_kind=rng.choice(['grid', 'line', 'sparse']), max_side=4, max_samples=8)
    a = dict(encoding=m.encoding, endian=m.endian, trace_header_format=TRACE_FORMATS[m.revision])
    path = write_file(ctx.path('f.sgy'), m.encode())
    readers = []
    for k in range(4):
        f = ctx.keep(open(path, 'rb'))
        readers.append(create_reader(f, **a))
        if rng.random() < 0.5:
            # A user modifies what it obtained
            r = rng.choice(readers)
            h = r.trace_header(0)
            h.inline_number = 12345 if hasattr(h, 'inline_number') else None
            r.trace_samples(0)
        check_reader(ctx, readers[-1], m, None, 'reader {}'.format(k))
    for k, r in enumerate(readers):
        check_reader(ctx, r, m, None, 'reader {} at the end'.format(k))
    ctx.count('readers_of_one_entry', 4)
    ctx.evaluated(m.encode())


# -- recorded findings

def finding_dimensionality(ctx):
    rng = ctx.rng
    triples = [(i, x, 10 * i + x) for i in (1, 2) for x in (1, 2, 3)]
    traces = [(dict(inline_number=i, crossline_number=x, ensemble_num=c, num_samples=1), [c]) for i, x, c in triples]
    m = model.FileModel([' ' * 80] * 40, {'data_sample_format': 2, 'job_id_num': ctx.case}, [], traces)
    path = write_file(ctx.path('f.sgy'), m.encode())
    first, second = rng.sample([None, 1, 2, 3], 2)
    with open(path, 'rb') as f:
        reader = create_reader(f, encoding='ascii', dimensionality=first)
        check_reader(ctx, reader, m, first, 'first reader')
    with open(path, 'rb') as f:
        reader = create_reader(f, encoding='ascii', dimensionality=second)
        expected = {None: 3, 1: 0, 2: 2, 3: 3}
        if reader.dimensionality == expected[second]:
            check_reader(ctx, reader, m, second, 'second reader')
        elif reader.dimensionality == expected[first]:
            ctx.known('cache-ignores-dimensionality', 'dimensionality={} requested after {}: the reader has dimensionality {}'.format(second, first, reader.dimensionality))
            # In all else it must be right
            check_reader(ctx, reader, m, first, 'second reader')
        else:
            ctx.fail('dimensionality={} requested after {}: the reader has dimensionality {}'.format(second, first, reader.dimensionality))
    ctx.count('findings_exercised')
    ctx.evaluated(first, second)


def finding_first_path(ctx):
    def with_value(v):
        return model.FileModel([' ' * 80] * 40, {'data_sample_format': 2}, [], [(dict(num_samples=2, inline_number=5), [v, v])]).encode()
    a, b = write_file(ctx.path('a.sgy'), with_value(1)), write_file(ctx.path('b.sgy'), with_value(1))
    cache = ctx.path('cache')
    with open(a, 'rb') as f:
        ctx.eq(create_reader(f, encoding='ascii', cache_directory=cache).trace_samples(0)[0], 1, 'first file')
    write_file(a, with_value(2))
    with open(b, 'rb') as f:
        v = create_reader(f, encoding='ascii', cache_directory=cache).trace_samples(0)[0]
    if v == 2:
        ctx.known('cache-refers-to-first-path', 'a reader of one file returned the data of another')
    else:
        ctx.eq(v, 1, 'second file')
    with open(a, 'rb') as f:
        ctx.eq(create_reader(f, encoding='ascii', cache_directory=cache).trace_samples(0)[0], 2, 'first file after modification')
    ctx.count('findings_exercised')
    ctx.evaluated('paths')


SCENARIOS = [
    Scenario('histories', histories, 400, 8000, ['cached_reads', 'reads_with_entries_present', 'modification_byte', 'modification_samples',
                                                 'modification_rename', 'modification_drop-cache', 'trees_examined', 'contents_compared']),
    Scenario('each-argument', each_argument, 40, 800, ['combinations', 'successful_combinations']),
    Scenario('every-byte', every_byte, 60, 1500, ['single_byte_changes']),
    Scenario('large-file-changes', large_file_changes, 10, 80, ['large_file_changes', 'large_file_permutations', 'large_file_changes_in_last_block']),
    Scenario('changes-everywhere', changes_everywhere, 14, 100, ['changes_anywhere'], cpu_limit=240),
    Scenario('placement', placement, 40, 400, ['placements', 'entries_seen']),
    Scenario('scanned-once', scanned_once, 60, 1000, ['loads_instead_of_scans']),
    Scenario('other-processes', other_processes, 16, 200, ['cross_process_reads', 'child_processes', 'loads_of_entries_of_others']),
    Scenario('redefined-format', redefined_format, 40, 600, ['redefinitions']),
    Scenario('identical-copies', identical_copies, 60, 1000, ['copies_read', 'copies_removed']),
    Scenario('independent-readers', independent_readers, 60, 1000, ['readers_of_one_entry']),
    Scenario('finding-dimensionality', finding_dimensionality, 16, 16, ['findings_exercised']),
    Scenario('finding-first-path', finding_first_path, 2, 2, ['findings_exercised']),
]
