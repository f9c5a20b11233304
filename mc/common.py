"""Shared plumbing of the checks (CPython 3)."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JY = os.path.join(VERIF, 'jy')
PYW = os.path.join(VERIF, 'py3', 'worker.py')
PY3 = '/opt/venv/bin/python'
NPROC = max(2, min(8, os.cpu_count() or 2))


def env():
    e = {k: v for k, v in os.environ.items()
         if k in ('PATH', 'HOME', 'TMPDIR', 'VERIF_SEED', 'VERIF_TIER',
                  'VERIF_REPO')}
    e.setdefault('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:'
                         '/sbin:/bin')
    e.setdefault('HOME', '/root')
    e.update(LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', JYTHONPATH='/opt/jylib')
    return e


def jython(args, heap='1200m'):
    return ['java', '-XX:+UseSerialGC', '-XX:CICompilerCount=2', '-Xss8m',
            '-Xmx' + heap, '-jar', '/usr/share/java/jython.jar',
            '-Dpython.cachedir.skip=true', '-Dpython.home=/usr/share/jython',
            '-B'] + args


def drop_stale_bytecode():
    """Stale Python 2 bytecode would hide a change to the source."""
    for top, dirs, names in os.walk(REPO):
        if '.git' in dirs:
            dirs.remove('.git')
        for n in names:
            if n.endswith('$py.class') or n.endswith('.pyc'):
                try:
                    os.remove(os.path.join(top, n))
                except OSError:
                    pass


class Result(object):
    """What one check found and covered."""

    def __init__(self):
        self.violations = []       # dicts: what, replay payload
        self.states = set()
        self.n_states = 0          # states counted elsewhere
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.exhaustive = True

    def violation(self, what, **payload):
        payload['what'] = what
        self.violations.append(payload)


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setpgid(0, 0)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


class Scratch(object):
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='verif-')
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class CheckError(Exception):
    pass


def run_jython_shards(module, tier, result, nshards=None, timeout=840,
                      heap='1200m'):
    """Runs every shard of jy/<module>.py and merges what they report."""
    run_shards(module, tier, result,
               jython([os.path.join(JY, 'worker.py')], heap), nshards, timeout)


def run_py3_shards(module, tier, result, nshards=None, timeout=840):
    """Runs every shard of py3/<module>.py and merges what they report."""
    run_shards(module, tier, result, [PY3, '-B', PYW], nshards, timeout)


def run_shards(module, tier, result, command, nshards, timeout):
    nshards = nshards or NPROC
    with Scratch() as tmp:
        procs = []
        for s in range(nshards):
            out = os.path.join(tmp, 'out%d' % s)
            err = open(os.path.join(tmp, 'err%d' % s), 'wb')
            p = subprocess.Popen(
                command + [module, tier, str(s), str(nshards), out],
                stdin=subprocess.DEVNULL, stdout=err, stderr=err,
                env=dict(env(), TMPDIR=tmp),
                cwd=tmp, preexec_fn=limits)
            procs.append((p, out, err))
        deadline = time.time() + timeout
        try:
            for p, out, err in procs:
                try:
                    p.wait(max(1, deadline - time.time()))
                except subprocess.TimeoutExpired:
                    raise CheckError('%s: time limit' % module)
        finally:
            for p, _, err in procs:
                kill(p)
                err.close()
        import_error = None
        for p, out, err in procs:
            if not os.path.exists(out):
                text = open(err.name, 'rb').read().decode('utf-8', 'replace')
                import_error = text[-3000:]
                continue
            d = json.load(open(out))
            merge(result, d)
        if import_error is not None:
            # The harness itself could not start: report it as an error of
            # the check unless a shard has already shown a violation.
            if not result.violations:
                raise CheckError('%s: a shard died:\n%s' %
                                 (module, import_error))


def merge(result, d):
    result.traces += d.get('histories', 0)
    result.transitions += d.get('messages', 0)
    result.evaluations += d.get('messages', 0)
    result.states.update(d.get('states', ()))
    result.distinct += d.get('wires', 0)
    if len(result.samples) < 4:
        result.samples.extend(d.get('samples', [])[:1])
    result.violations.extend(v for v in d.get('violations', []) if v)
    for k, v in d.get('extra', {}).items():
        if isinstance(v, (int, float)):
            result.extra[k] = result.extra.get(k, 0) + v
        else:
            result.extra[k] = v
