import contextlib
import io
import json
import os
import random
import re
import subprocess
import sys

from segpy import cli
from segpy.reader import create_reader

from harness import core, gen, model
from harness.core import Scenario
from harness.gen import expected_dimensionality
from harness.observe import model_triples, write_file

PROPERTY = 'C22'
LEVEL = 'exploration'
RULE = ('A case is a random SEG-Y file as the command line reads it (big endian, revision 1 trace headers, recognisable text), or a file which '
        'cannot be read, given to the metadata and report commands in a process of their own or in this one; output and exit status are '
        'judged against the model of the file. Distinct by content and command.')
ASSUMPTIONS = ['text is printable, and most of it is letters, digits and spaces, so its encoding is recognised']

DESCRIPTION = {'ibm': 'IBM 32 bit float', 'int32': '32 bit signed integer', 'int16': '16 bit signed integer', 'float32': 'IEEE float32',
               'int8': '8 bit signed integer (byte)'}

LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']


class Outcome:
    def __init__(self, status, out, err):
        self.status, self.out, self.err = status, out, err


def run_process(argv, cwd):
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONSTARTUP')}
    env.update(PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', PYTHONHASHSEED='0')
    p = subprocess.run([sys.executable, '-m', 'segpy'] + argv, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       stdin=subprocess.DEVNULL, timeout=300)
    return Outcome(p.returncode, p.stdout.decode('utf8', 'surrogateescape'), p.stderr.decode('utf8', 'replace'))


def run_here(argv, cwd):
    """As the console script does: sys.exit(main())."""
    out, err = io.StringIO(), io.StringIO()
    before = os.getcwd()
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                sys.exit(cli.main(argv))
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                if status == 1:
                    err.write(str(e.code))
            except Exception as e:
                status = 1
                err.write(repr(e))
    finally:
        os.chdir(before)
    return Outcome(status, out.getvalue(), err.getvalue())


def cli_model(rng):
    m = gen.file_model(rng, endian='>', revision='rev1', text='conventional', max_side=rng.choice([2, 5]), max_samples=rng.choice([4, 40]))
    m.pages = [[line.replace("'", ' ').replace('\\', ' ') for line in p] for p in m.pages]
    return m


def check_metadata(ctx, out, m, what):
    try:
        result = json.loads(out)
    except ValueError as e:
        ctx.fail('{}: {!r} is not JSON: {}'.format(what, out[:200], e))
    d = expected_dimensionality(model_triples(m))
    ctx.eq(result, {'num_traces': len(m.traces), 'dimensionality': d, 'data_sample_format': m.segy_type,
                    'max_num_trace_samples': max((len(s) for _, s in m.traces), default=0)}, what)
    ctx.count('metadata_reports')


def labelled(out, label):
    found = re.findall(r'^{}:[ \t]*(.*)$'.format(re.escape(label)), out.split('=== BEGIN TEXTUAL')[0], re.M)
    return found


def check_report(ctx, out, m, path, cwd, what):
    triples = model_triples(m)
    d = expected_dimensionality(triples)
    expected = {'SEG Y revision': None, 'Number of traces': str(len(m.traces)), 'Data format': DESCRIPTION[m.segy_type], 'Dimensionality': str(d)}
    if d == 3:
        expected['Number of inlines'] = str(len({i for i, _, _ in triples}))
        expected['Number of crosslines'] = str(len({x for _, x, _ in triples}))
    if d == 2:
        expected['Number of CDPs'] = str(len({c for _, _, c in triples}))
    for label in ('SEG Y revision', 'Number of traces', 'Data format', 'Dimensionality', 'Number of inlines', 'Number of crosslines', 'Number of CDPs'):
        found = labelled(out, label)
        if label not in expected:
            ctx.eq(found, [], '{}: {}'.format(what, label))
        elif label == 'SEG Y revision':
            ctx.eq(len(found), 1, what + ': ' + label)
            # As the name or number of the revision
            r = m.binary_values()['format_revision_num']
            text = found[0]
            ctx.check(text == str(int(r)) or {0: 'REVISION_0', 256: 'REVISION_1'}[int(r)] in text, '{}: revision {!r}, expected {}', what, text, r)
        else:
            ctx.eq([x.rstrip() for x in found], [expected[label]], '{}: {}'.format(what, label))
    name = labelled(out, 'Filename')
    ctx.eq(len(name), 1, what + ': Filename')
    ctx.eq(os.path.realpath(os.path.join(cwd, name[0].rstrip('\n'))), os.path.realpath(path), what + ': Filename')
    try:
        text = out.split('=== BEGIN TEXTUAL REEL HEADER ===\n')[1].split('=== END TEXTUAL REEL HEADER ===\n')[0]
        pages = out.split('=== BEGIN EXTENDED TEXTUAL HEADER ===\n')[1].split('=== END EXTENDED TEXTUAL_HEADER ===')[0]
    except IndexError:
        ctx.fail('{}: sections are missing in {!r}'.format(what, out))
    lines = text.split('\n')
    ctx.eq(lines.pop(), '', what + ': end of textual header')
    ctx.eq(len(lines), 40, what + ': lines of the textual header')
    for a, e in zip(lines, m.text):
        # With or without the card number
        ctx.check(a in (e[3:], e), '{}: line {!r} of the textual header, expected {!r}', what, a, e)
    position = 0
    for page in m.pages:
        for line in page:
            shown = [s for s in (line, repr(line)[1:-1]) if s in pages[position:]]
            ctx.check(shown, '{}: line {!r} of the extended headers does not appear in its place', what, line)
            position = pages.index(shown[0], position) + len(shown[0])
            ctx.count('extended_lines_reported')
    if not m.pages:
        ctx.check(not re.search('[A-Za-z0-9]', pages), '{}: extended headers {!r}', what, pages)
    ctx.count('text_reports')
    ctx.count('reports_of_{}d'.format(d))


def place(ctx, data, rng):
    """Put a file somewhere; returns (its path, the argument, the working directory)."""
    directory = ctx.path(rng.choice(['data', 'with space', 'd\xe9p\xf4t', 'a.b']))
    os.makedirs(directory, exist_ok=True)
    name = rng.choice(['file.sgy', 'file', 'my file.segy', 'x.y.z', '\xe9.sgy', 'a=b.sgy', '%s{}.sgy', os.fsdecode(b'\xff\xfe.sgy')])
    path = write_file(os.path.join(directory, name), data)
    k = rng.randrange(4)
    if k == 0:
        return path, path, ctx.tmp
    if k == 1:
        return path, name, directory
    if k == 2:
        return path, os.path.join('..', os.path.basename(directory), name), directory
    link = ctx.path('link.sgy')
    os.symlink(path, link)
    return path, link, directory


def snapshot(path):
    s = os.stat(path)
    with open(path, 'rb') as f:
        return f.read(), s.st_mtime_ns, s.st_ino, s.st_mode


def run_cases(ctx, run):
    rng = ctx.rng
    m = cli_model(rng)
    data = m.encode(random.Random(rng.random()) if rng.random() < 0.3 else None)
    path, arg, cwd = place(ctx, data, rng)
    before = snapshot(path)
    # Twice, hence also from the cache
    for command in rng.choice([['metadata', 'report'], ['report', 'metadata', 'report'], ['metadata', 'metadata']]):
        options = rng.choice([[], [], ['--log-level=' + rng.choice(LEVELS)], ['--log-level', rng.choice(LEVELS)]])
        what = 'segpy {}'.format(' '.join(options + [command, arg]))
        ctx.note(what)
        o = run(options + [command, arg], cwd)
        ctx.eq(o.status, 0, '{}: exit status (stderr: {})'.format(what, o.err[-300:]))
        (check_metadata(ctx, o.out, m, what) if command == 'metadata' else check_report(ctx, o.out, m, path, cwd, what))
        ctx.check(snapshot(path) == before, what + ': the file was modified')
        ctx.evaluated(data, command, run is run_here)
    ctx.state(m.segy_type, m.encoding, len(m.pages), min(len(m.traces), 3))
    ctx.sample(command=what, output=o.out[:300], **m.summary())


def processes(ctx):
    run_cases(ctx, run_process)
    ctx.count('processes')


def in_process(ctx):
    run_cases(ctx, run_here)


def same_as_library(ctx):
    """The printed values are the library's, for files of which the model knows nothing: damaged ones which can still be read."""
    rng = ctx.rng
    m = cli_model(rng)
    data = bytearray(m.encode())
    for _ in range(rng.randint(1, 6)):
        data[rng.randrange(3200, len(data))] = rng.choice([0, 1, 255, rng.randrange(256)])
    if rng.random() < 0.4:
        del data[rng.randint(3600, len(data)):]
    path = write_file(ctx.path('damaged.sgy'), data)
    try:
        with open(path, 'rb') as f:
            r = create_reader(f, cache_directory=None)
            expected = {'num_traces': r.num_traces(), 'dimensionality': r.dimensionality, 'data_sample_format': str(r.data_sample_format.value),
                        'max_num_trace_samples': r.max_num_trace_samples()}
            counts = {'Number of inlines': r.num_inlines, 'Number of crosslines': r.num_xlines} if hasattr(r, 'num_inlines') else {}
            counts.update({'Number of CDPs': r.num_cdps} if hasattr(r, 'num_cdps') else {})
            counts = {k: str(v()) for k, v in counts.items()}
    except Exception:
        expected = None
    for command in ('metadata', 'report'):
        o = run_here([command, path], ctx.tmp)
        if expected is None:
            check_failed(ctx, o, '{} of a file the library cannot read'.format(command))
            ctx.count('damaged_and_refused')
        else:
            ctx.eq(o.status, 0, command + ': exit status')
            if command == 'metadata':
                ctx.eq(json.loads(o.out), expected, 'metadata')
            else:
                ctx.eq(labelled(o.out, 'Number of traces'), [str(expected['num_traces'])], 'Number of traces')
                ctx.eq(labelled(o.out, 'Dimensionality'), [str(expected['dimensionality'])], 'Dimensionality')
                for label in ('Number of inlines', 'Number of crosslines', 'Number of CDPs'):
                    ctx.eq(labelled(o.out, label), [counts[label]] if label in counts else [], label)
            ctx.count('damaged_and_read')
    ctx.evaluated(bytes(data))


def check_failed(ctx, o, what):
    ctx.check(o.status != 0, '{}: exit status 0; printed {!r}', what, o.out[:200])
    ctx.eq(labelled(o.out, 'Number of traces'), [], what + ': number of traces')
    try:
        json.loads(o.out)
    except ValueError:
        pass
    else:
        ctx.fail('{}: printed {!r}'.format(what, o.out))
    ctx.check(o.err, what + ': nothing on standard error')
    ctx.count('failures')


def failures(ctx):
    rng = ctx.rng
    m = cli_model(rng)
    data = m.encode()
    run = run_process if ctx.case % 10 == 0 else run_here
    options = []
    kind = ['missing', 'directory', 'empty', 'short', 'format', 'page', 'log-level', 'no-file', 'two-files', 'revision', 'length'][ctx.case % 11]
    path = ctx.path('f.sgy')
    args = None
    if kind == 'directory':
        os.mkdir(path)
    elif kind == 'empty':
        write_file(path, b'')
    elif kind == 'short':
        write_file(path, data[:rng.randint(1, 3599)])
    elif kind == 'format':
        if rng.random() < 0.5:
            write_file(path, data[:3224] + bytes([0, rng.choice([4, 6, 7, 9, 100])]) + data[3226:])
        else:
            write_file(path, data[:3224] + bytes([rng.choice([1, 127]), rng.choice([0, 1, 5])]) + data[3226:])
    elif kind == 'page':
        # Announces more extended headers than there are bytes
        write_file(path, (data[:3504] + b'\x00\x02' + data[3506:])[:3600 + rng.randint(0, 6399)])
    elif kind == 'log-level':
        write_file(path, data)
        options = ['--log-level=' + rng.choice(['nothing', 'debug', 'x'])]
    elif kind == 'revision':
        write_file(path, data[:3500] + b'\x7f\x03' + data[3502:])
    elif kind == 'length':
        if not m.traces:
            m.traces = [({}, [])]
            data = m.encode()
        o = rng.choice(m.trace_offsets())
        write_file(path, data[:o + 114] + b'\xff\xf0' + data[o + 116:])
    if kind == 'no-file':
        args = []
    elif kind == 'two-files':
        write_file(path, data)
        args = [path, path]
    for command in ('metadata', 'report'):
        what = '{} {} ({})'.format(command, path if args is None else args, kind)
        o = run(options + [command] + ([path] if args is None else args), ctx.tmp)
        if kind == 'log-level':
            ctx.check(o.status != 0, what + ': exit status 0')
            ctx.eq(o.out, '', what + ': output')
            ctx.count('failures')
        else:
            check_failed(ctx, o, what)
    ctx.count('kind_' + kind)
    ctx.evaluated(kind, ctx.case)


def help_texts(ctx):
    run = run_process if ctx.case < 3 else run_here
    for argv in (['--version'], ['--help'], ['-h'], ['help'], ['help', 'metadata'], ['help', 'report']):
        o = run(argv, ctx.tmp)
        ctx.eq(o.status, 0, 'segpy {}: exit status'.format(argv))
        ctx.check(o.out.strip(), 'segpy {}: nothing was printed', argv)
        for command in ('metadata', 'report'):
            if argv in (['help'], ['--help'], ['-h']) or argv == ['help', command]:
                ctx.check(command in o.out, 'segpy {} does not mention {}', argv, command)
        ctx.count('helps')
    import segpy
    ctx.check(segpy.__version__ in run(['--version'], ctx.tmp).out, 'version')
    ctx.evaluated(ctx.case)


QUICK_SCALE = 2  # The cases are short: so many times those given below are run in the quick tier
SCENARIOS = [
    Scenario('processes', processes, 24, 300, ['processes', 'metadata_reports', 'text_reports']),
    Scenario('in-process', in_process, 300, 6000, ['metadata_reports', 'text_reports', 'extended_lines_reported', 'reports_of_3d', 'reports_of_2d', 'reports_of_0d']),
    Scenario('same-as-library', same_as_library, 150, 3000, ['damaged_and_read', 'damaged_and_refused']),
    Scenario('failures', failures, 44, 440, ['failures']),
    Scenario('help', help_texts, 4, 12, ['helps']),
]
