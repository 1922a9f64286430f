import errno
import io
import os
import pickle
import resource
import signal
import sys
import time

from segpy.dataset import DelegatingDataset
from segpy.reader import SegYReader, create_reader
from segpy.trace_header import TraceHeaderRev1

from harness import gen, jobs, model
from harness.core import Scenario, Violation, brief
from harness.observe import TRACE_FORMATS, check_reader, content, eq_content, write_file

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = ('A case is a cache entry cut off at some byte or replaced by something else, or a fault injected at the n-th operation on the '
        'cache (for every n which occurs), or a real one (no space, no permission, size limit), or several processes which read '
        'files, damage and remove entries at once with delays injected at operations on the cache. Every reader obtained is '
        'compared with the content of the file. Distinct by content and fault.')
ASSUMPTIONS = ['an entry which was altered into another valid pickle of a reader cannot be recognised',
               'a pickle of something other than a reader is refused with TypeError, as documented']


class Site:
    """A SEG-Y file and the directory of its cache."""

    def __init__(self, ctx, m=None, absolute=None):
        rng = ctx.rng
        self.ctx = ctx
        self.m = m or gen.file_model(rng, max_side=3, max_samples=5, pages=rng.choice([0, 0, 1]))
        os.makedirs(ctx.path('data'), exist_ok=True)
        self.path = write_file(ctx.path('data', 'f.sgy'), self.m.encode())
        absolute = rng.random() < 0.5 if absolute is None else absolute
        self.cache = ctx.path('cache') if absolute else '.segpy'
        self.directory = self.cache if absolute else ctx.path('data', '.segpy')
        self.arguments = dict(encoding=self.m.encoding, endian=self.m.endian, trace_header_format=TRACE_FORMATS[self.m.revision])

    def read(self, what):
        with open(self.path, 'rb') as f:
            reader = create_reader(f, cache_directory=self.cache, **self.arguments)
            check_reader(self.ctx, reader, self.m, None, what)
            self.ctx.check(not f.closed, what + ': the handle was closed')
        self.ctx.count('correct_readers')

    def untouched(self, what):
        with open(self.path, 'rb') as f:
            self.ctx.check(f.read() == self.m.encode(), what + ': the SEG-Y file was modified')

    def entry(self):
        """Path of the entry, after a read."""
        if not os.path.isdir(self.directory):
            self.ctx.fail('no cache directory appeared')
        names = os.listdir(self.directory)
        self.ctx.eq(len(names), 1, 'number of cache entries')
        return os.path.join(self.directory, names[0])


def load_entry(path):
    with open(path, 'rb') as f:
        return f.read()


def truncated_entry(ctx):
    """Every kind of partially written entry."""
    rng = ctx.rng
    site = Site(ctx)
    site.read('first')
    path = site.entry()
    whole = load_entry(path)
    ctx.check(len(whole) > 100, 'the entry has only {} bytes', len(whole))
    if ctx.thorough:
        points = range(len(whole)) if len(whole) < 3000 and ctx.case % 5 == 0 else sorted(rng.sample(range(len(whole)), 80))
    else:
        points = sorted(set([0, 1, 2, len(whole) - 1, len(whole) - 2] + [rng.randrange(len(whole)) for _ in range(15)]))
    for k in points:
        style = rng.choice(['cut', 'cut', 'zeros', 'block-of-zeros'])
        damaged = whole[:k] + {'cut': b'', 'zeros': bytes(len(whole) - k), 'block-of-zeros': bytes(4096)}[style]
        what = 'entry of {} bytes valid up to {} ({})'.format(len(whole), k, style)
        ctx.note(what)
        write_file(path, damaged)
        site.read(what)
        if os.path.exists(path):
            ctx.check(load_entry(path) != damaged, what + ': the entry is neither repaired nor removed')
        ctx.count('partial_entries')
        site.read(what + ', once more')
        ctx.evaluated(whole, k, style)
    site.untouched('partial entries')
    site.read('at the end')


class Boom:

    def __init__(self, error):
        self.error = error

    def __reduce__(self):
        return raise_error, (self.error,)


def raise_error(error):
    raise error


class PlainThing:
    pass


def damages(rng, whole):
    yield 'empty', b''
    yield 'zeros', bytes(rng.choice([1, 100, 5000]))
    yield 'text', b'This is not a pickle.\n' * 3
    yield 'markup', b'<html><body>403</body></html>'
    yield 'random', bytes([rng.choice([0xff, 0xfe, 0x01, 0x7f, 0x00])]) + rng.randbytes(rng.randint(0, 2000))
    yield 'newline', b'\n' + whole
    yield 'text mode', whole.replace(b'\n', b'\r\n') if b'\n' in whole else whole[:-1]
    yield 'missing module', b'cno_such_module_segpy\nThing\n)\x81.'
    yield 'missing class', b'csegpy.reader\nNoSuchReader\n)\x81.'
    yield 'missing state', b'csegpy.reader\nSegYReader\n)\x81}b.'
    yield 'other version', whole.replace(b'2.0.0', b'1.9.7') if b'2.0.0' in whole else b''
    yield 'stack underflow', b'\x80\x04R.'
    yield 'future protocol', b'\x80\xff' + whole[2:]
    for error in (ValueError('x'), KeyError('x'), IndexError('x'), AttributeError('x'), ImportError('x'), MemoryError(), RecursionError('x'), OSError(5, 'x'),
                  EOFError(), UnicodeDecodeError('ascii', b'\xff', 0, 1, 'x'), ZeroDivisionError(), StopIteration(), TypeError('x'), AssertionError(), RuntimeError('x')):
        yield 'raises ' + type(error).__name__, pickle.dumps(Boom(error))


def garbage_entry(ctx):
    """Entries which are something else altogether."""
    rng = ctx.rng
    site = Site(ctx)
    site.read('first')
    path = site.entry()
    whole = load_entry(path)
    for name, damaged in damages(rng, whole):
        what = 'entry replaced: ' + name
        ctx.note(what)
        write_file(path, damaged)
        site.read(what)
        if os.path.exists(path):
            ctx.check(load_entry(path) != damaged, what + ': the entry is neither repaired nor removed')
        site.read(what + ', once more')
        ctx.count('garbage_entries')
        ctx.evaluated(whole, name, damaged)
    foreign = [None, 5, 'text', {}, [1, 2], PlainThing(), io.BytesIO(b'x'), SegYReader, DelegatingDataset(None), DelegatingDataset('text'),
               TraceHeaderRev1(), [pickle.loads(whole)], DelegatingDataset(pickle.loads(whole))]
    for thing in rng.sample(foreign, 4):
        write_file(path, pickle.dumps(thing))

        def go():
            with open(site.path, 'rb') as f:
                create_reader(f, cache_directory=site.cache, **site.arguments)
        ctx.raises(TypeError, go, 'entry holding a pickled {}'.format(type(thing).__name__))
        ctx.count('foreign_pickles')
    os.unlink(path)
    site.untouched('foreign entries')
    site.read('after removal')


def obstructed(ctx):
    """Things which are in the way of the cache directory or the entry, and are so for root as well."""
    rng = ctx.rng
    site = Site(ctx, absolute=True)
    site.read('first')
    name = os.path.basename(site.entry())
    whole = load_entry(site.entry())
    kinds = ['file-as-directory', 'file-as-parent', 'directory-as-entry', 'dangling-entry', 'looping-entry', 'full-device', 'name-too-long', 'looping-directory',
             'dangling-directory', 'null-device', 'nonempty-directory-as-entry']
    rng.shuffle(kinds)
    for i, kind in enumerate(kinds):
        d = ctx.path('c{}'.format(i))
        if kind == 'file-as-directory':
            write_file(d, b'x')
        elif kind == 'file-as-parent':
            write_file(d, b'x')
            d = os.path.join(d, 'sub', 'cache')
        elif kind == 'name-too-long':
            d = os.path.join(d, 'x' * 300)
        elif kind == 'looping-directory':
            os.symlink(d, d)
        elif kind == 'dangling-directory':
            os.symlink(ctx.path('nowhere'), d)
        else:
            os.makedirs(d)
            entry = os.path.join(d, name)
            if kind.endswith('directory-as-entry'):
                os.makedirs(entry)
                if kind.startswith('nonempty'):
                    write_file(os.path.join(entry, 'x'), b'')
            elif kind == 'dangling-entry':
                os.symlink(ctx.path('missing', 'entry'), entry)
            elif kind == 'looping-entry':
                os.symlink(entry, entry)
            elif kind == 'full-device':
                os.symlink('/dev/full', entry)
            elif kind == 'null-device':
                os.symlink('/dev/null', entry)
        site.cache = site.directory = d
        for turn in (1, 2):
            what = '{}, turn {}'.format(kind, turn)
            ctx.note(what)
            site.read(what)
        ctx.count('obstruction_' + kind)
        site.untouched(kind)
        ctx.evaluated(whole, kind)


def size_limited(ctx):
    """A real failure of write() after some number of bytes."""
    rng = ctx.rng
    site = Site(ctx)
    site.read('first')
    path = site.entry()
    whole = len(load_entry(path))
    previous = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    try:
        for limit in [0, 1, whole - 1] + [rng.randrange(whole) for _ in range(4)]:
            for f in os.listdir(site.directory):
                os.unlink(os.path.join(site.directory, f))
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            try:
                site.read('files limited to {} bytes'.format(limit))
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            left = [len(load_entry(os.path.join(site.directory, f))) for f in os.listdir(site.directory)]
            ctx.check(all(n <= limit for n in left), 'files of {} bytes with a limit of {}', left, limit)
            ctx.count('writes_cut_short')
            site.read('after the limit of {} was lifted'.format(limit))
            site.read('after the limit of {} was lifted, once more'.format(limit))
            ctx.evaluated(site.m.encode(), limit)
    finally:
        signal.signal(signal.SIGXFSZ, previous)
    site.untouched('limited size')


# -- faults at every operation on the cache

EVENTS = ('open', 'os.mkdir', 'os.remove', 'os.rename', 'os.rmdir', 'os.listdir', 'os.scandir', 'os.chmod', 'os.truncate', 'os.link', 'os.symlink', 'os.utime', 'os.chown')


def in_child(ctx, fn):
    """Run fn() in a forked process; returns ('ok', value), ('error', text) or ('exit', status)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            try:
                answer = ('ok', fn())
            except Violation as e:
                answer = ('error', str(e))
            except BaseException as e:
                import traceback
                answer = ('error', '{!r} {}'.format(e, traceback.format_exc()[-800:]))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(answer, f)
            os._exit(0)
        finally:
            os._exit(3)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    status = os.waitpid(pid, 0)[1]
    ctx.count('forked_processes')
    return pickle.loads(data) if data else ('exit', status)


def path_of(args):
    for a in args:
        if isinstance(a, (str, bytes, os.PathLike)):
            try:
                return os.path.abspath(os.fsdecode(a))
            except (TypeError, ValueError):
                return ''
        if isinstance(a, int):
            return ''
    return ''


def hook(directory, action):
    """Call action(event, path) before every operation on files in the directory or on the directory itself."""

    def audit(event, args):
        if event in EVENTS:
            p = path_of(args)
            if p == directory or p.startswith(directory + os.sep):
                action(event, p, args)
    sys.addaudithook(audit)


FAULTS = {'EACCES': PermissionError(errno.EACCES, 'injected'), 'EIO': OSError(errno.EIO, 'injected'), 'ENOSPC': OSError(errno.ENOSPC, 'injected'),
          'ENOENT': FileNotFoundError(errno.ENOENT, 'injected'), 'EROFS': OSError(errno.EROFS, 'injected'), 'EMFILE': OSError(errno.EMFILE, 'injected'),
          'ESTALE': OSError(errno.ESTALE, 'injected')}


def faults(ctx):
    """The n-th and, or only, operation on the cache fails, or the process is killed there, for each n."""
    rng = ctx.rng
    site = Site(ctx)
    state = rng.choice(['absent', 'valid', 'damaged', 'empty-directory'])
    fault = rng.choice(list(FAULTS) + ['kill', 'kill'])
    persistent = rng.random() < 0.4
    whole = None
    for n in range(12):
        # Prepare
        if whole is None:
            site.read('preparation')
            entry = site.entry()
            whole = load_entry(entry)
        if state == 'absent':
            if os.path.isdir(site.directory):
                for f in os.listdir(site.directory):
                    os.unlink(os.path.join(site.directory, f))
                os.rmdir(site.directory)
        else:
            os.makedirs(site.directory, exist_ok=True)
            for f in os.listdir(site.directory):
                os.unlink(os.path.join(site.directory, f))
            if state == 'valid':
                write_file(entry, whole)
            elif state == 'damaged':
                write_file(entry, whole[:rng.randrange(len(whole))])
        what = '{} at operation {} on the cache{}, entry {}'.format(fault, n, ' and all later ones' if persistent else '', state)
        ctx.note(what)

        def go():
            seen = []

            def action(event, path, args):
                seen.append((event, str(args[1]) if event == 'open' else ''))
                if len(seen) - 1 == n or (persistent and len(seen) - 1 > n):
                    if fault == 'kill':
                        os._exit(77)
                    raise FAULTS[fault]
            hook(site.directory, action)
            site.read(what)
            return seen
        result = in_child(ctx, go)
        if result[0] == 'error':
            ctx.fail('{}: {}'.format(what, result[1]))
        site.untouched(what)
        if result[0] == 'exit':
            ctx.eq(os.WEXITSTATUS(result[1]), 77, what + ': exit status')
            ctx.count('crashes_injected')
        else:
            if len(result[1]) <= n:
                # No such operation
                ctx.state(state, fault, persistent, tuple(result[1]))
                break
            ctx.count('faults_injected')
            ctx.state(state, fault, persistent, n, tuple(result[1]))
        site.read(what + '; afterwards')
        site.read(what + '; afterwards, once more')
        ctx.evaluated(site.m.encode(), state, fault, persistent, n)
    ctx.sample(state=state, fault=fault, persistent=persistent, operations=n)


def unremovable(ctx):
    """A damaged entry which cannot be removed is left as it is, or replaced by a valid one."""
    rng = ctx.rng
    site = Site(ctx)
    site.read('preparation')
    entry = site.entry()
    whole = load_entry(entry)
    damaged = rng.choice([whole[:rng.randrange(len(whole))], b'garbage', bytes(5000), whole[:40] + rng.randbytes(50), b'', whole[:-1]])
    write_file(entry, damaged)
    fault = rng.choice(list(FAULTS))

    def go(refused):
        written = []

        def action(event, path, args):
            if event == 'os.remove' and refused:
                raise FAULTS[fault]
            if event == 'open' and isinstance(args[1], str) and args[1][:1] in 'wax':
                written.append(args[1])
        hook(site.directory, action)
        site.read('damaged entry which cannot be removed ({})'.format(fault))
        return written
    for turn in (1, 2, 3):
        result = in_child(ctx, lambda: go(True))
        ctx.check(result[0] == 'ok', 'damaged entry which cannot be removed ({}), turn {}: {}', fault, turn, result[1])
        left = [load_entry(os.path.join(site.directory, f)) for f in os.listdir(site.directory)]
        ctx.check(damaged in left or sum(map(len, left)) <= max(2 * len(whole), len(damaged)), 'damaged entry of {} bytes, valid one of {}, turn {}: left with {} bytes', len(damaged), len(whole), turn, [len(x) for x in left])
        if damaged not in left:
            again = in_child(ctx, lambda: go(True))
            ctx.check(again == ('ok', []), 'damaged entry of {} bytes was altered, but not to a valid one: {}', len(damaged), again)
            ctx.count('replaced_in_place')
        ctx.count('unremovable_entries')
    site.untouched('unremovable entry')
    site.read('afterwards')
    ctx.evaluated(site.m.encode(), damaged, fault)


def unprivileged(ctx):
    """Permissions, as seen by a user who is not root."""
    rng = ctx.rng
    site = Site(ctx, absolute=True)
    site.read('preparation')
    entry = site.entry()
    whole = load_entry(entry)
    nobody = 65534

    def own(mode_dir, mode_entry, data):
        """Set permissions for the other user."""
        os.chmod(site.directory, 0o777)
        for f in os.listdir(site.directory):
            os.unlink(os.path.join(site.directory, f))
        if data is not None:
            write_file(entry, data)
            os.chown(entry, nobody, nobody)
            os.chmod(entry, mode_entry)
        os.chown(site.directory, nobody, nobody)
        os.chmod(site.directory, mode_dir)

    os.chmod(ctx.tmp, 0o755)
    os.chmod(ctx.path('data'), 0o755)
    os.chmod(site.path, 0o644)
    cases = [(d, e, data) for d in (0o000, 0o100, 0o300, 0o500, 0o700) for e, data in ((0o000, whole), (0o200, whole), (0o400, whole), (0o600, whole), (0o400, whole[:50]), (0o000, whole[:50]), (0, None))]
    rng.shuffle(cases)
    for mode_dir, mode_entry, data in cases[:12 if not ctx.thorough else None]:
        own(mode_dir, mode_entry, data)
        what = 'cache directory with mode {:o}, entry {}'.format(mode_dir, 'absent' if data is None else '{} with mode {:o}'.format('valid' if data is whole else 'damaged', mode_entry))
        ctx.note(what)

        def go():
            try:
                os.setgroups([])
                os.setgid(nobody)
                os.setuid(nobody)
            except OSError:
                return 'not permitted'
            site.read(what)
            site.read(what + ', once more')
            return 'done'
        result = in_child(ctx, go)
        if result == ('ok', 'not permitted'):
            ctx.count('could_not_drop_privileges')
        else:
            ctx.check(result == ('ok', 'done'), '{}: {}', what, result[1])
        ctx.count('permissions_tried')
        site.untouched(what)
        ctx.evaluated(what, site.m.encode())
    os.chmod(site.directory, 0o700)
    own(0o700, 0o600, None)
    # A file in a directory which cannot be written, with the cache beside it
    os.chmod(ctx.path('data'), 0o555)
    site.cache = '.segpy'

    def go_beside():
        try:
            os.setgroups([])
            os.setgid(nobody)
            os.setuid(nobody)
        except OSError:
            return 'not permitted'
        site.read('cache in a directory which cannot be written')
        return sorted(os.listdir(ctx.path('data')))
    result = in_child(ctx, go_beside)
    ctx.check(result[0] == 'ok' and result[1] in (['f.sgy'], 'not permitted'), 'cache in a directory which cannot be written: {}', result[1])


# -- racing processes

def race(ctx):
    """Processes which create readers of the same files at once, while others damage and remove the entries."""
    rng = ctx.rng
    sites = []
    for k in range(rng.choice([1, 1, 2])):
        m = gen.file_model(rng, max_side=3, max_samples=4, pages=rng.choice([0, 0, 1]))
        m.binary['job_id_num'] = k + 1
        os.makedirs(ctx.path('data'), exist_ok=True)
        site = Site(ctx, m, absolute=True)
        site.path = write_file(ctx.path('data', 'f{}.sgy'.format(k)), m.encode())
        sites.append(site)
    directory = sites[0].directory
    start = time.monotonic() + 0.02
    seeds = [rng.randrange(2**32) for _ in range(6)]
    vandals = rng.choice([0, 1, 2])
    turns = 6 if not ctx.thorough else 12

    def worker(seed, vandal):
        import random
        r = random.Random(seed)
        log = []

        def action(event, path, args):
            log.append((time.monotonic_ns(), event, str(args[1]) if event == 'open' else ''))
            if r.random() < 0.5:
                time.sleep(r.choice([0, 0.0002, 0.001, 0.003]))

        if not vandal:
            hook(directory, action)
        while time.monotonic() < start:
            pass
        for t in range(turns):
            if vandal:
                try:
                    names = os.listdir(directory)
                except OSError:
                    names = []
                for name in names:
                    p = os.path.join(directory, name)
                    try:
                        k = r.random()
                        if k < 0.4:
                            os.unlink(p)
                        elif k < 0.7:
                            os.truncate(p, r.randrange(os.path.getsize(p) + 1))
                        else:
                            write_file(p, b'garbage')
                    except OSError:
                        pass
                time.sleep(r.choice([0, 0.001, 0.004]))
            else:
                site = r.choice(sites)
                site.read('racing reader, turn {}'.format(t))
        return log

    pids = []
    for i, seed in enumerate(seeds):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.setitimer(signal.ITIMER_PROF, 0)
                try:
                    answer = ('ok', worker(seed, i < vandals))
                except BaseException as e:
                    import traceback
                    answer = ('error', '{!r} {}'.format(e, traceback.format_exc()[-1500:]))
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(answer, f)
            finally:
                os._exit(0)
        os.close(w)
        pids.append((pid, r))
    logs = []
    failure = None
    for i, (pid, r) in enumerate(pids):
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        answer = pickle.loads(data) if data else ('error', 'died')
        if answer[0] != 'ok':
            failure = failure or 'process {}: {}'.format(i, answer[1])
        else:
            logs.extend((at, i, event, mode) for at, event, mode in answer[1])
    if failure:
        ctx.fail(failure)
    logs.sort()
    ctx.state(tuple((i, event, mode) for _, i, event, mode in logs))
    ctx.count('racing_reads', turns * (len(seeds) - vandals))
    ctx.count('cache_operations', len(logs))
    ctx.count('changes_of_process', sum(a[1] != b[1] for a, b in zip(logs, logs[1:])))
    for site in sites:
        site.untouched('race')
        # Vandals may have left anything; it is repaired
        site.read('after the race')
        site.read('after the race, once more')
    ctx.evaluated(*[s.m.encode() for s in sites], repr(seeds))
    ctx.sample(interleaving=[(i, event, mode) for _, i, event, mode in logs][:24])


SCENARIOS = [
    Scenario('truncated-entry', truncated_entry, 60, 600, ['partial_entries', 'correct_readers']),
    Scenario('garbage-entry', garbage_entry, 40, 500, ['garbage_entries', 'foreign_pickles']),
    Scenario('obstructed', obstructed, 24, 200, ['obstruction_full-device', 'obstruction_file-as-directory', 'obstruction_directory-as-entry', 'obstruction_looping-entry']),
    Scenario('size-limited', size_limited, 32, 400, ['writes_cut_short']),
    Scenario('faults', faults, 120, 2000, ['faults_injected', 'crashes_injected']),
    Scenario('unremovable', unremovable, 60, 800, ['unremovable_entries']),
    Scenario('unprivileged', unprivileged, 16, 100, ['permissions_tried']),
    Scenario('race', race, 40, 600, ['racing_reads', 'cache_operations', 'changes_of_process']),
]
