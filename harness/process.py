"""A monitor of process-wide state: what a library should leave as it found it."""

import atexit
import builtins
import decimal
import gc
import locale
import logging
import os
import random
import resource
import signal
import sys
import tempfile
import threading
import time
import warnings

import numpy

LOGGERS = ('segpy', 'segpy.reader', 'segpy.writer', 'segpy.toolkit', 'segpy.cli', 'segpy.util', 'segpy.catalog', 'segpy_numpy')
HOOKS = ('excepthook', 'unraisablehook', 'displayhook', 'breakpointhook', 'stdin', 'stdout', 'stderr', '__stdout__', '__stderr__', 'argv', 'dont_write_bytecode',
         'pycache_prefix')
MODULES = (builtins, os, os.path, __import__('io'), __import__('pickle'), __import__('struct'), time, tempfile, random, __import__('math'),
           __import__('shutil'), __import__('copyreg'), __import__('array'), __import__('hashlib'), __import__('itertools'), __import__('collections'),
           __import__('functools'), __import__('operator'), __import__('codecs'), __import__('contextlib'), __import__('pathlib'))


def descriptors():
    """What each open file descriptor refers to, and how it was opened."""
    out = {}
    for name in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink('/proc/self/fd/' + name)
        except OSError:
            # The one with which the directory was read
            continue
        out[int(name)] = (target, os.get_inheritable(int(name)))
    return out


def loggers():
    root = logging.getLogger()
    out = [(id(root), root.level, [id(h) for h in root.handlers], root.disabled, logging.raiseExceptions, logging.root.manager.disable,
            logging.lastResort is not None, id(logging.getLoggerClass()))]
    for name in LOGGERS:
        # Not created by looking at it
        logger = logging.root.manager.loggerDict.get(name)
        if isinstance(logger, logging.Logger):
            out.append((name, logger.level, [(id(h), h.level) for h in logger.handlers], logger.disabled, logger.propagate, len(logger.filters)))
    return out


def umask():
    current = os.umask(0o77)
    os.umask(current)
    return current


def signals():
    out = []
    for s in signal.valid_signals():
        handler = signal.getsignal(s)
        out.append((int(s), id(handler) if callable(handler) else handler))
    return out


def listing(*directories):
    out = []
    for d in directories:
        for where, dirs, files in os.walk(d):
            out.extend(os.path.join(where, n) for n in dirs + files)
    return sorted(out)


def random_state():
    r = numpy.random.get_state()
    return hash(random.getstate()), (r[0], r[1].tobytes(), r[2:])


STATE = {
    'the working directory': os.getcwd,
    'the umask': umask,
    'the environment': lambda: (dict(os.environ), dict(os.environb)),
    'the locale': lambda: [locale.setlocale(c) for c in (locale.LC_CTYPE, locale.LC_COLLATE, locale.LC_TIME, locale.LC_MONETARY, locale.LC_NUMERIC)],
    'the time zone': lambda: (time.tzname, time.timezone, time.daylight),
    'the decimal context': lambda: repr(decimal.getcontext()),
    'the floating-point error state of NumPy': lambda: (numpy.geterr(), id(numpy.geterrcall())),
    'the print options of NumPy': lambda: repr(sorted(numpy.get_printoptions().items(), key=repr)),
    'the state of a random number generator': random_state,
    'the warning filters': lambda: (list(warnings.filters), id(warnings.showwarning), warnings.defaultaction),
    'the recursion limit': sys.getrecursionlimit,
    'the switch interval': sys.getswitchinterval,
    'the limit on digits': sys.get_int_max_str_digits,
    'signal handlers': signals,
    'timers': lambda: (signal.getitimer(signal.ITIMER_REAL)[0] > 0, signal.getitimer(signal.ITIMER_VIRTUAL)[0] > 0),
    'the garbage collector': lambda: (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks), gc.get_freeze_count()),
    'the import path': lambda: (list(sys.path), [id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks]),
    'logging': loggers,
    'exit functions': atexit._ncallbacks,
    'trace functions': lambda: (sys.gettrace(), sys.getprofile(), threading.gettrace(), threading.getprofile()),
    'threads': lambda: sorted(t.ident or 0 for t in threading.enumerate()),
    'hooks and standard streams': lambda: [id(getattr(sys, n)) if n != 'argv' else list(sys.argv) for n in HOOKS],
    'resource limits': lambda: [resource.getrlimit(getattr(resource, n)) for n in sorted(vars(resource)) if n.startswith('RLIMIT_')],
    'the priority': lambda: os.getpriority(os.PRIO_PROCESS, 0),
    'file descriptors': descriptors,
    'functions of the standard library': lambda: {(m.__name__, n): id(v) for m in MODULES for n, v in vars(m).items() if callable(v)},
    'the directory for temporary files': lambda: tempfile.gettempdir(),
}


def snapshot(directories=()):
    out = {}
    for name, fn in STATE.items():
        out[name] = fn()
    out['files'] = listing(*directories)
    return out


def differences(before, after):
    """Names of what changed, and how."""
    out = []
    for name in before:
        a, b = before[name], after[name]
        if a != b:
            if isinstance(a, dict):
                what = '{} -> {}'.format({k: v for k, v in a.items() if b.get(k, None) != v}, {k: v for k, v in b.items() if a.get(k, None) != v})
            elif name == 'files':
                what = 'appeared {}, disappeared {}'.format(sorted(set(b) - set(a)), sorted(set(a) - set(b)))
            else:
                what = '{!r} -> {!r}'.format(a, b)
            out.append((name, what[:700]))
    return out


class Output:
    """Whatever is written to the standard streams or their descriptors."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        for s in (sys.stdout, sys.stderr):
            s.flush()
        self._saved = os.dup(1), os.dup(2)
        f = os.open(self.path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600)
        os.dup2(f, 1)
        os.dup2(f, 2)
        os.close(f)
        return self

    def __exit__(self, *exc):
        for s in (sys.stdout, sys.stderr):
            s.flush()
        for fd, saved in zip((1, 2), self._saved):
            os.dup2(saved, fd)
            os.close(saved)
        with open(self.path, 'rb') as f:
            self.text = f.read()
        os.unlink(self.path)
        return False
