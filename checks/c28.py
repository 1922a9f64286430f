"""C28: what the library does depends on its arguments and the files, not on the environment of the process."""

import os
import shutil

from harness import child, jobs_battery
from harness.core import Scenario, brief

PROPERTY = 'C28'
LEVEL = 'exploration'
RULE = ('A case is a part of a battery of uses (reading, writing, caching, pickling, refusals, headers, numbers, catalogs, text, extraction, the '
        'command line) on generated content, run in a process with a random environment: interpreter options, environment variables, hash seed, '
        'and process-wide state; its results are compared with those of a process without any of them. Distinct by content and environment.')
ASSUMPTIONS = ['the environment is one in which Python and NumPy themselves work',
               'docstrings are present (the command line is made from them, so python -OO is not supported)']

OPTIONS = [('-O',), ('-bb',), ('-X', 'dev'), ('-X', 'utf8=0'), ('-X', 'utf8=1'), ('-X', 'faulthandler'), ('-X', 'int_max_str_digits=640'), ('-B',), ('-s',), ('-u',),
           ('-X', 'no_debug_ranges'), ('-W', 'error::DeprecationWarning:segpy'), ('-P',), ('-v',)[:0]]
VARIABLES = {
    'LC_ALL': ['C', 'POSIX', 'C.utf8', 'nonsense'], 'LANG': ['C', 'de_DE.UTF-8', 'ja_JP.SJIS'], 'LC_NUMERIC': ['C.utf8', 'nonsense'], 'LANGUAGE': ['de'],
    'TZ': ['UTC', 'Asia/Kathmandu', 'XYZ+13', 'nonsense/zone'], 'PYTHONUTF8': ['0', '1'], 'PYTHONIOENCODING': ['ascii:strict', 'utf-16', 'latin-1'],
    'PYTHONMALLOC': ['debug', 'malloc'], 'PYTHONINTMAXSTRDIGITS': ['640', '0'], 'HOME': ['/nonexistent', ''], 'TMPDIR': ['/nonexistent'], 'COLUMNS': ['3', '1000'],
    'PYTHONOPTIMIZE': ['1'], 'PYTHONCOERCECLOCALE': ['0', '1'], 'DISPLAY': [':0'], 'TERM': ['dumb', ''], 'USER': ['nobody'], 'XDG_CACHE_HOME': ['/nonexistent'],
    'PYTHONWARNINGS': ['default', 'ignore'], 'NPY_PROMOTION_STATE': ['weak'], 'OMP_NUM_THREADS': ['1'], 'SOURCE_DATE_EPOCH': ['1'], 'PATH': ['']}
STATES = {
    'umask': [0, 0o77, 0o27], 'warnings': ['error', 'error', 'always'], 'logging': ['DEBUG', 'DEBUG', 'CRITICAL'], 'gc': [0, 1, 7], 'recursion': [400, 20000],
    'locale': ['C', 'C.utf8'], 'decimal': [1, 3], 'digits': [0, 640], 'files': [40], 'streams': ['none'], 'random': [1, 2], 'switch': [1e-6], 'cwd': ['/', 'gone'],
    'numpy': [{'all': 'ignore'}, {'all': 'warn'}]}

PARTS = [f.__name__ for f in jobs_battery.BATTERY]


def environment(rng):
    options = [x for o in rng.sample(OPTIONS, rng.choice([0, 1, 2, 3])) for x in o]
    variables = {n: rng.choice(VARIABLES[n]) for n in rng.sample(sorted(VARIABLES), rng.choice([0, 1, 3, 6]))}
    states = {n: rng.choice(STATES[n]) for n in rng.sample(sorted(STATES), rng.choice([0, 1, 2, 4, 6]))}
    if states.get('warnings') == 'error':
        # Warnings about arithmetic are NumPy's own
        states['numpy'] = {'all': 'ignore'}
    return options, variables, states


def compare(ctx, parts, seed, options, variables, states, threaded, repeats):
    where = ctx.path('plain')
    os.mkdir(where)
    expected, problems, plain = answer(ctx, child.run(ctx, 'run', seed, parts, where, {}, module='harness.jobs_battery', hashseed=0))
    ctx.eq(problems, [], 'problems without anything special')
    for part in parts:
        if isinstance(expected[part], str):
            ctx.fail('{} without anything special: {}'.format(part, expected[part]))
    where = ctx.path('special')
    os.mkdir(where)
    observed, problems, flags = answer(ctx, child.run(ctx, 'run', seed, parts, where, states, threaded, repeats, module='harness.jobs_battery', options=options,
                                                      variables=variables))
    what = 'with options {}, variables {}, states {}{}'.format(options, variables, states, ', in a thread' if threaded else '')
    for part in parts:
        if expected[part] != observed[part]:
            ctx.fail('{} {}: {}'.format(part, what, difference(observed[part], expected[part])))
        ctx.count('results_compared')
        ctx.count('compared_' + part)
    ctx.eq(problems, [], 'problems ' + what)
    for name in states:
        ctx.count('state_' + name)
    for name in variables:
        ctx.count('variable_' + name)
    if not flags['assertions']:
        ctx.count('without_assertions')
    if flags['hash_seed'] != plain['hash_seed']:
        ctx.count('other_hash_seeds')
    ctx.state(tuple(sorted(flags.items(), key=repr)[1:3]), flags['optimize'], flags['utf8'], flags['encoding'], tuple(sorted(states)))
    ctx.evaluated(tuple(parts), seed, tuple(options), repr(sorted(variables.items())), repr(sorted(states.items())))
    ctx.sample(parts=parts, options=options, variables=variables, states=repr(states))
    for d in ('plain', 'special'):
        shutil.rmtree(ctx.path(d))


def answer(ctx, a):
    if a[0] != 'ok':
        ctx.fail('the battery failed in another process: {}: {}'.format(*a[1:]))
    return a[1]


def difference(a, b, where=''):
    """A short description of where two results differ."""
    if type(a) is type(b):
        if isinstance(a, (list, tuple)) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return difference(x, y, '{}[{}]'.format(where, i))
        if isinstance(a, dict) and set(a) == set(b):
            for k in a:
                if a[k] != b[k]:
                    return difference(a[k], b[k], '{}[{!r}]'.format(where, k))
    return 'result{} is {}, otherwise {}'.format(where, brief(a, 600), brief(b, 600))


def environments(ctx):
    rng = ctx.rng
    options, variables, states = environment(rng)
    parts = rng.sample(PARTS, 6 if not ctx.thorough else len(PARTS))
    compare(ctx, parts, rng.getrandbits(40), options, variables, states, rng.random() < 0.25, rng.choice([1, 1, 2]))


SINGLE = ([('option', o) for o in OPTIONS if o] + [('variable', (n, v)) for n in sorted(VARIABLES) for v in VARIABLES[n]] +
          [('state', (n, v)) for n in sorted(STATES) for v in STATES[n]] + [('thread', None), ('nothing', None)])


def one_by_one(ctx):
    """Each difference of the environment alone, with the whole battery."""
    rng = ctx.rng
    kind, value = SINGLE[ctx.case % len(SINGLE)]
    options = list(value) if kind == 'option' else []
    variables = dict([value]) if kind == 'variable' else {}
    states = dict([value]) if kind == 'state' else {}
    if states.get('warnings') == 'error':
        states['numpy'] = {'all': 'ignore'}
    compare(ctx, PARTS, rng.getrandbits(40), options, variables, states, kind == 'thread', 1)
    ctx.count('single_differences')


SCENARIOS = [
    Scenario('environments', environments, 48, 800, ['results_compared', 'without_assertions', 'other_hash_seeds', 'state_logging', 'state_warnings']),
    Scenario('one-by-one', one_by_one, len(SINGLE), 4 * len(SINGLE), ['single_differences'] + ['compared_' + p for p in PARTS]),
]
