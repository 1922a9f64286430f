"""The runner shared by all checks.

A check is a module in /verif/checks with

    PROPERTY    the property id
    LEVEL       'exploration' or 'fault_enumeration'
    RULE        how cases are made, and what makes one non-trivial
    ASSUMPTIONS a list of strings
    SCENARIOS   a list of Scenario objects

Every scenario is a function of a Ctx.  It drives the real code through its
public interface, records what it observes, and judges those observations with
an oracle of its own.  The runner executes a fixed number of cases of every
scenario (all random choices derive from VERIF_SEED, the property, the scenario
name and the case number), in forked worker processes, and turns what was
observed into the verdict, the evidence file and a replay file.

Verdicts (exit status):
    0  held on everything explored
    1  violated (a VIOLATION line, with a replay file)
    2  inconclusive: a monitor which should have observed something observed nothing
"""

import concurrent.futures
import concurrent.futures.process
import hashlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEGPY_REPO', '/repo')
EVIDENCE = os.environ.get('SEGPY_EVIDENCE', os.path.join(VERIF, 'evidence'))
KNOWN_FINDINGS = os.path.join(VERIF, 'known_findings.json')

#: CPU seconds, not wall-clock seconds, so load cannot cause a verdict.
CASE_CPU_LIMIT = 90.0


class Violation(AssertionError):
    """The property does not hold on an observed execution."""


class DidNotTerminate(BaseException):
    """A case used far more CPU time than any correct execution of it needs.

    Derives from BaseException so the code under test cannot swallow it.
    """


class Scenario:

    def __init__(self, name, fn, quick, thorough, requires=(), cpu_limit=CASE_CPU_LIMIT):
        """
        Args:
            name: A short identifier.
            fn: A callable taking a Ctx.
            quick, thorough: Numbers of cases on each tier.
            requires: Names of counters which must be non-zero over the whole
                run, else the run is inconclusive.
        """
        self.name = name
        self.fn = fn
        self.cases = {'quick': quick, 'thorough': thorough}
        self.requires = tuple(requires)
        self.cpu_limit = cpu_limit


class Result:
    """What was observed by one or more cases. Mergeable."""

    def __init__(self):
        self.cases = 0
        self.evaluations = 0
        self.counters = {}
        self.distinct = set()
        self.states = set()
        self.samples = []
        self.violations = []
        self.known = {}

    def merge(self, other):
        self.cases += other.cases
        self.evaluations += other.evaluations
        for k, v in other.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.distinct |= other.distinct
        self.states |= other.states
        self.samples.extend(other.samples[:3])
        self.violations.extend(other.violations)
        for k, v in other.known.items():
            n, what = self.known.get(k, (0, v[1]))
            self.known[k] = (n + v[0], what)


def digest(*key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode('utf8', 'backslashreplace'), digest_size=8).digest(), 'big')


class Ctx:
    """The view of a single case of a scenario."""

    def __init__(self, prop, scenario, case, seed, tier, result, known_keys, verbose=False):
        self.prop = prop
        self.scenario = scenario
        self.case = case
        self.seed = seed
        self.tier = tier
        self.result = result
        self.known_keys = known_keys
        self.verbose = verbose
        self.rng = random.Random('{}/{}/{}/{}'.format(seed, prop, scenario.name, case))
        self._tmp = None
        self._cleanups = []
        self._evaluations_at_start = result.evaluations
        self.trail = []

    # -- resources

    @property
    def thorough(self):
        return self.tier == 'thorough'

    @property
    def tmp(self):
        """A scratch directory which lives as long as the case."""
        if self._tmp is None:
            self._tmp = os.path.realpath(tempfile.mkdtemp(prefix='segpy-verif-'))
        return self._tmp

    def path(self, *names):
        return os.path.join(self.tmp, *names)

    def on_exit(self, fn):
        self._cleanups.append(fn)

    def keep(self, closeable):
        """Arrange for an object to be closed at the end of the case."""
        self._cleanups.append(closeable.close)
        return closeable

    def close(self):
        for fn in reversed(self._cleanups):
            try:
                fn()
            except Exception:
                pass
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)

    # -- observations

    def count(self, name, n=1):
        c = self.result.counters
        c[name] = c.get(name, 0) + n

    def evaluated(self, *key):
        """One execution was judged. A key, if given, identifies a non-trivial one."""
        self.result.evaluations += 1
        if key:
            self.result.distinct.add(digest(self.scenario.name, *key))

    def state(self, *key):
        """A distinct state or interleaving was observed."""
        self.result.states.add(digest(*key))

    def sample(self, **kw):
        if len(self.result.samples) < 3:
            self.result.samples.append(dict(scenario=self.scenario.name, case=self.case, **kw))

    def note(self, text):
        """Leave a trail to be included in the report of a violation."""
        self.trail.append(text)
        if len(self.trail) > 60:
            del self.trail[:20]
        if self.verbose:
            print('   ', text)

    # -- verdicts

    def fail(self, message):
        raise Violation(message)

    def check(self, condition, message, *args):
        if not condition:
            raise Violation(message.format(*args) if args else message)

    def eq(self, actual, expected, what):
        if not (actual == expected):
            raise Violation('{}: observed {}, expected {}'.format(what, brief(actual), brief(expected)))

    def known(self, key, message):
        """A violation by a recorded mechanism; any other is still reported."""
        if key not in self.known_keys:
            raise Violation('{} [mechanism {}]'.format(message, key))
        n, what = self.result.known.get(key, (0, message))
        self.result.known[key] = (n + 1, what)

    def raises(self, exceptions, fn, what):
        """Observe that fn() raises one of the given exceptions; returns the exception."""
        try:
            value = fn()
        except exceptions as e:
            self.count('expected_exceptions')
            return e
        except Exception as e:
            raise Violation('{}: raised {!r}, expected {}'.format(what, e, names_of(exceptions))) from e
        raise Violation('{}: returned {}, expected {}'.format(what, brief(value), names_of(exceptions)))


def names_of(exceptions):
    if isinstance(exceptions, tuple):
        return ' or '.join(e.__name__ for e in exceptions)
    return exceptions.__name__


def brief(value, limit=400):
    try:
        text = repr(value)
    except Exception as e:
        text = '<unprintable {}: {}>'.format(type(value).__name__, e)
    return text if len(text) <= limit else text[:limit] + '... ({} chars)'.format(len(text))


def load_known(prop):
    try:
        with open(KNOWN_FINDINGS) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {f['key']: f for f in data['findings'] if f['property'] == prop}


def run_case(module, scenario, case, seed, tier, result, known_keys, verbose=False):
    ctx = Ctx(module.PROPERTY, scenario, case, seed, tier, result, known_keys, verbose)
    before = result.evaluations

    def on_alarm(signum, frame):
        raise DidNotTerminate('still running after {} CPU seconds'.format(scenario.cpu_limit))

    idle = dict(used=-1.0, ticks=0)

    def on_tick(signum, frame):
        # Neither this process nor any it has waited for does anything at all: it waits for what will not come
        used = sum(sum(resource.getrusage(who)[:2]) for who in (resource.RUSAGE_SELF, resource.RUSAGE_CHILDREN))
        idle['ticks'] = idle['ticks'] + 1 if used - idle['used'] < 0.02 else 0
        idle['used'] = used
        if idle['ticks'] >= 6:
            raise DidNotTerminate('nothing has happened for two minutes')

    previous = signal.signal(signal.SIGPROF, on_alarm)
    previous_tick = signal.signal(signal.SIGALRM, on_tick)
    signal.setitimer(signal.ITIMER_REAL, 20.0, 20.0)
    signal.setitimer(signal.ITIMER_PROF, scenario.cpu_limit, 1.0)
    cwd = os.getcwd()
    try:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                scenario.fn(ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGPROF, previous)
            signal.signal(signal.SIGALRM, previous_tick)
            os.chdir(cwd)
    except (Exception, DidNotTerminate) as e:
        # In a scenario everything is expected to succeed except where the scenario itself says
        # otherwise, so an unexpected exception is as much a violation as a wrong result.
        kind = 'oracle' if isinstance(e, Violation) else 'exception'
        result.violations.append(dict(
            property=module.PROPERTY,
            scenario=scenario.name,
            case=case,
            seed=seed,
            tier=tier,
            kind=kind,
            message=str(e) if isinstance(e, Violation) else '{}: {}'.format(type(e).__name__, e),
            trail=list(ctx.trail),
            traceback=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:],
        ))
    finally:
        ctx.close()
    result.cases += 1
    if result.evaluations == before:
        result.evaluations += 1


_CURRENT = {}


def _init_worker(directory):
    # What is running is noted in a file, in case the interpreter does not survive it
    _CURRENT['note'] = os.open(os.path.join(directory, str(os.getpid())), os.O_WRONLY | os.O_CREAT, 0o600)
    # A runaway allocation becomes a MemoryError in this worker, hence a violation
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _run_chunk(args):
    name, cases = args
    module, seed, tier, known_keys, scenarios = (
        _CURRENT['module'], _CURRENT['seed'], _CURRENT['tier'], _CURRENT['known'], _CURRENT['scenarios'])
    result = Result()
    scenario = scenarios[name]
    started = time.process_time()
    for case in cases:
        os.pwrite(_CURRENT['note'], '{} {}'.format(name, case).ljust(100).encode(), 0)
        run_case(module, scenario, case, seed, tier, result, known_keys)
        if len(result.violations) >= 5:
            break
    return name, result, time.process_time() - started


def crashed(processes, notes):
    """What was run by processes which did not end in an orderly manner."""
    out = []
    for process in processes.values():
        process.join(5)
        # The executor terminates the others
        if process.exitcode is not None and process.exitcode < 0 and process.exitcode != -signal.SIGTERM:
            try:
                with open(os.path.join(notes, str(process.pid))) as f:
                    name, case = f.read().split()
            except (OSError, ValueError):
                continue
            out.append((name, int(case), -process.exitcode))
    return out


def run_check(module, tier, seed, workers=None, only=None, scale=1.0):
    started = time.time()
    known = load_known(module.PROPERTY)
    scenarios = {s.name: s for s in module.SCENARIOS if only is None or s.name in only}
    _CURRENT.update(module=module, seed=seed, tier=tier, known=set(known), scenarios=scenarios)
    workers = workers or int(os.environ.get('VERIF_WORKERS', 0)) or min(8, os.cpu_count() or 1)
    tasks = []
    for s in scenarios.values():
        n = s.cases[tier]
        if tier == 'quick':
            n *= getattr(module, 'QUICK_SCALE', 1)
        n = max(1, int(n * scale)) if n else 0
        size = max(1, min(200, -(-n // (workers * 4))))
        tasks.extend((s.name, list(range(i, min(i + size, n)))) for i in range(0, n, size))
    # Long scenarios first would be better balanced, but interleaving is good enough
    random.Random(0).shuffle(tasks)
    total = Result()
    per = {name: Result() for name in scenarios}
    cpu = dict.fromkeys(scenarios, 0.0)
    mp = multiprocessing.get_context('fork')
    sys.stdout.flush()
    crashes = []
    notes = tempfile.mkdtemp(prefix='segpy-verif-')
    pool = concurrent.futures.ProcessPoolExecutor(workers, mp_context=mp, initializer=_init_worker, initargs=(notes,))
    try:
        futures = [pool.submit(_run_chunk, t) for t in tasks]
        processes = dict(pool._processes)
        for future in concurrent.futures.as_completed(futures):
            name, result, seconds = future.result()
            per[name].merge(result)
            cpu[name] += seconds
            if len([v for r in per.values() for v in r.violations]) >= 12:
                break
        else:
            processes = {}
    except concurrent.futures.process.BrokenProcessPool:
        crashes = crashed(processes, notes)
    finally:
        for process in processes.values():
            process.kill()
        pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(notes, ignore_errors=True)
    inconclusive = []
    for name, case, signum in crashes:
        if signum == signal.SIGKILL:
            # Most likely for want of memory in the machine
            inconclusive.append('{}: the process running case {} was killed'.format(name, case))
        else:
            per[name].violations.append(dict(
                property=module.PROPERTY, scenario=name, case=case, seed=seed, tier=tier, kind='crash',
                message='the interpreter did not survive: {}'.format(signal.Signals(signum).name), trail=[], traceback=''))
    if crashes:
        print('processes died: {}'.format(crashes))
    for name in sorted(per):
        total.merge(per[name])
    wall = time.time() - started

    if not total.violations and not crashes:
        for s in scenarios.values():
            if not s.cases[tier]:
                continue
            for counter in s.requires:
                if not per[s.name].counters.get(counter):
                    inconclusive.append('{}: monitor {!r} observed nothing'.format(s.name, counter))

    write_evidence(module, tier, seed, total, per, cpu, wall)
    return finish(module, tier, seed, total, known, inconclusive, wall)


def write_evidence(module, tier, seed, total, per, cpu, wall):
    os.makedirs(EVIDENCE, exist_ok=True)
    coverage = dict(
        evaluations=total.evaluations,
        distinct_nontrivial=min(len(total.distinct), total.evaluations),
        rule=module.RULE,
        samples=jsonable(total.samples[:8]) or [dict(note='no sample recorded')],
        cases=total.cases,
        distinct_states=len(total.states),
        events=dict(sorted(total.counters.items())),
        scenarios={name: dict(cases=r.cases, evaluations=r.evaluations, distinct_nontrivial=len(r.distinct),
                              cpu_s=round(cpu[name], 2), events=dict(sorted(r.counters.items())))
                   for name, r in sorted(per.items())},
        known_findings_observed={k: v[0] for k, v in sorted(total.known.items())},
    )
    doc = dict(property=module.PROPERTY, tier=tier, seed=seed, level=module.LEVEL, coverage=coverage,
               assumptions=list(getattr(module, 'ASSUMPTIONS', [])),
               wall_s=round(wall, 3), violations=len(total.violations))
    path = os.path.join(EVIDENCE, module.PROPERTY + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(doc, f, indent=1)
    os.replace(path + '.tmp', path)


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:40]]
    if x is None or isinstance(x, (bool, str)):
        return x if not isinstance(x, str) or len(x) < 500 else x[:500] + '...'
    if type(x) in (int, float):
        return x if x == x and abs(x) < 1e300 else repr(x)
    return brief(x)


def finish(module, tier, seed, total, known, inconclusive, wall):
    for key, (n, what) in sorted(total.known.items()):
        print('KNOWN-FINDING: property={} {} [{}; observed {} times]'.format(
            module.PROPERTY, known[key]['what'], key, n))
    print('{} tier={} seed={} cases={} evaluations={} distinct={} states={} wall={:.1f}s'.format(
        module.PROPERTY, tier, seed, total.cases, total.evaluations, len(total.distinct), len(total.states), wall))
    if total.violations:
        directory = os.path.join(EVIDENCE, 'replay')
        os.makedirs(directory, exist_ok=True)
        seen = set()
        total.violations.sort(key=lambda v: (v['scenario'], v['case']))
        for v in total.violations:
            if v['scenario'] in seen:
                continue
            seen.add(v['scenario'])
            path = os.path.join(directory, '{}-{}-{}.json'.format(module.PROPERTY, v['scenario'], v['case']))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('  {} case {}: {}'.format(v['scenario'], v['case'], v['message'][:1500]))
            for t in v['trail'][-12:]:
                print('      . ' + t[:300])
            print('VIOLATION property={} replay={}'.format(module.PROPERTY, path))
        return 1
    if inconclusive:
        for text in inconclusive:
            print('INCONCLUSIVE ' + text)
        return 2
    return 0


def replay(module, path):
    with open(path) as f:
        v = json.load(f)
    scenario = {s.name: s for s in module.SCENARIOS}[v['scenario']]
    result = Result()
    run_case(module, scenario, v['case'], v['seed'], v['tier'], result, set(load_known(module.PROPERTY)), verbose=True)
    for r in result.violations:
        print(r['message'])
        print(r['traceback'])
        print('VIOLATION property={} replay={}'.format(module.PROPERTY, path))
    return 1 if result.violations else 0
