"""Runs one function in a fresh process: the request is read from standard input, the answer written to a file.

The request is a pickled (sys_path, module, function, args, kwargs); the answer a pickled ('ok', value) or ('error', type name, text).
"""

import os
import pickle
import subprocess
import sys

if __name__ == '__main__':
    sys.dont_write_bytecode = True
    request = sys.stdin.buffer.read()
    sys_path, module, function, args, kwargs = pickle.loads(request)
    sys.path[:0] = sys_path
    import importlib
    try:
        answer = ('ok', getattr(importlib.import_module(module), function)(*args, **kwargs))
    except Exception as e:
        answer = ('error', type(e).__name__, str(e))
    out = sys.argv[1]
    with open(out, 'wb') as f:
        pickle.dump(answer, f)


def sys_path():
    from harness import core
    return [core.VERIF, core.REPO, os.path.join(core.REPO, 'segpy-ext', 'segpy_numpy')]


def start(ctx, function, *args, module='harness.jobs', cwd=None, hashseed=None, options=(), variables={}, **kwargs):
    """Start a function in a new process; returns a function which waits for and returns its answer."""
    ctx.count('child_processes')
    out = ctx.path('answer-{}'.format(ctx.result.counters['child_processes']))
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed if hashseed is not None else ctx.rng.randrange(1, 2**31)))
    env.update(variables)
    p = subprocess.Popen([sys.executable, '-W', 'ignore'] + list(options) + [os.path.abspath(__file__), out], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                         stderr=subprocess.PIPE, cwd=cwd or ctx.tmp, env=env)
    ctx.on_exit(p.kill)
    p.stdin.write(pickle.dumps((sys_path(), module, function, args, kwargs)))
    p.stdin.close()

    def wait():
        err = p.stderr.read()
        p.stderr.close()
        status = p.wait()
        if status != 0:
            ctx.fail('{} in another process ended with status {}: {}'.format(function, status, err.decode(errors='replace')[-1500:]))
        with open(out, 'rb') as f:
            answer = pickle.load(f)
        os.unlink(out)
        return answer

    wait.process = p
    return wait


def run(ctx, function, *args, **kwargs):
    return start(ctx, function, *args, **kwargs)()
