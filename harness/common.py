"""Shared machinery: TLC runs, scratch space, evidence, verdicts.

Standard library only. Every check runs as `python check.py <ID>`; see check.py.
"""
import atexit
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NPROC = min(8, os.cpu_count() or 8)
NOBODY = 65534
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    """Something in the checking machinery (not the code under test) failed."""


_SCRATCH = None


def scratch():
    """Scratch directory of this run (created once, removed at exit)."""
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix='rsv-')
        os.chmod(_SCRATCH, 0o755)
        pid = os.getpid()

        def _clean():
            if os.getpid() == pid:
                shutil.rmtree(_SCRATCH, ignore_errors=True)
        atexit.register(_clean)
    return _SCRATCH


class TlcResult(object):
    """Outcome of one TLC run."""

    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.lines = []
        self.ok = False
        self.output = ''
        self.wall = 0.0


def tlc(module, cfg, env=None, workers=NPROC, args=(), timeout=800, heap='4g', expect_ok=True,
        on_line=None, files=None, judge=False):
    """Run TLC on spec/<module>.tla with configuration text cfg.

    Returns TlcResult; .lines has every JSON value the spec printed with PrintT(ToJson(..)).
    If expect_ok then a TLC error (invariant violated on the model, evaluation error) is a
    MachineryError: the models are fixed inputs, so they never fail because of the code.
    """
    work = tempfile.mkdtemp(dir=scratch(), prefix='tlc-')
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
    for name, text in (files or {}).items():
        p = os.path.join(work, name)
        if os.path.lexists(p):
            os.unlink(p)
        with open(p, 'w') as fh:
            fh.write(text)
    cfgfile = os.path.join(work, module + '_run.cfg')
    with open(cfgfile, 'w') as fh:
        fh.write(cfg)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-cp', JARS, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', os.path.join(work, 'meta'), '-noGenerateSpecTE',
           '-config', cfgfile] + list(args) + [module + '.tla']
    t0 = time.time()
    res = TlcResult()
    other = []
    proc = subprocess.Popen(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            text=True, errors='replace', start_new_session=True)

    def on_alarm(*_):
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
    import threading
    timer = threading.Timer(timeout, on_alarm)
    timer.start()
    try:
        for line in proc.stdout:
            if line.startswith('"'):
                try:
                    val = json.loads(json.loads(line))
                except ValueError:
                    other.append(line)
                    continue
                if on_line:
                    on_line(val)
                else:
                    res.lines.append(val)
            else:
                other.append(line)
        proc.wait()
    finally:
        timer.cancel()
    res.output = ''.join(other)
    res.wall = time.time() - t0
    import re
    m = re.findall(r'^(\d+) states generated, (\d+) distinct states', res.output, re.M)
    if m:
        res.states, res.distinct = int(m[-1][0]), int(m[-1][1])
    else:
        m = re.findall(r'The number of states generated: (\d+)', res.output)
        if m:
            res.states = int(m[-1])
            res.distinct = 0
    res.ok = proc.returncode == 0
    if judge and not res.ok and res.wall < timeout - 5:
        # the records of the real runs are of a form the specification knows nothing of
        raise CodeCrash('records of real runs', 'TLC cannot evaluate %s on the recorded runs:\n%s' % (module, res.output[-3000:]))
    if expect_ok and not res.ok:
        raise MachineryError('TLC failed on %s (exit %s):\n%s' % (module, proc.returncode, res.output[-6000:]))
    shutil.rmtree(work, ignore_errors=True)
    return res


class Check(object):
    """Collects coverage and violations of one property and writes the evidence."""

    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.rng = random.Random('%s/%d' % (prop, SEED))
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.violations = []
        self.extra = {}
        self.exhaustive = False
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = set()
        self.tlc_runs = []

    def add_tlc(self, name, res):
        """Account for a TLC run."""
        self.states += res.distinct or res.states
        self.transitions += res.states
        self.tlc_runs.append({'model': name, 'generated': res.states, 'distinct': res.distinct,
                              'emitted': len(res.lines), 'wall_s': round(res.wall, 1)})

    def run_tlc(self, name, module, cfg, **kw):
        """Run TLC and account for it."""
        res = tlc(module, cfg, **kw)
        self.add_tlc(name, res)
        return res

    def sample(self, obj, limit=4):
        """Keep a few actual cases for the evidence."""
        if len(self.samples) < limit:
            self.samples.append(obj)

    def violation(self, what, detail):
        """Report that the real code broke the property."""
        for k in self.known:
            if k['match'](what, detail):
                self.known_hit.add(k['text'])
                return
        if len(self.violations) < 20:
            self.violations.append({'what': what, 'detail': detail})
        else:
            self.violations.append(None)

    def finish(self):
        """Write evidence, print verdict, return exit code."""
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.validated,
               'samples': self.samples or ['none'], 'exhaustive': self.exhaustive,
               'tlc_runs': self.tlc_runs}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        for text in sorted(self.known_hit):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        if self.violations:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', self.prop + '.json')
            with open(path, 'w') as fh:
                json.dump([v for v in self.violations if v], fh, indent=1, default=str)
            for v in [v for v in self.violations if v][:3]:
                print('  %s: %s' % (v['what'], json.dumps(v['detail'], default=str)[:700]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('OK property=%s states=%d transitions=%d validated=%d wall=%.1fs' %
              (self.prop, self.states, self.transitions, self.validated, time.time() - self.t0))
        return 0


# ---------------------------------------------------------------- known findings

def load_known(prop):
    """Known findings of a property from known_findings.jsonl."""
    import findings
    return findings.for_property(prop)


# ---------------------------------------------------------------- worker pool

_W = {}


def worker_dir():
    """Scratch directory of this worker process (owned by the unprivileged user)."""
    return _W['dir']


def _init_worker(base, init, initargs):
    d = tempfile.mkdtemp(dir=base, prefix='w-')
    if os.getuid() == 0:
        os.chown(d, NOBODY, NOBODY)
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.environ['HOME'] = d
    os.environ['TMPDIR'] = d
    tempfile.tempdir = d
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    os.chdir(d)
    _W['dir'] = d
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _W['failed'] = None
    if init:
        import traceback
        try:
            init(*initargs)
        except BaseException as e:  # a failing initializer would make the pool respawn for ever
            _W['failed'] = ('crash' if _in_repo(e) else 'err', 'initializer: ' + traceback.format_exc())


class Hang(BaseException):
    """Raised in a worker when one item takes too long."""


class CodeCrash(Exception):
    """The code under test raised where the harness expected no exception, or did not end."""

    def __init__(self, item, text):
        Exception.__init__(self, text)
        self.item = item
        self.text = text


def _on_alarm(*_):
    raise Hang('item did not finish in time')


def _in_repo(exc):
    import traceback
    root = os.path.abspath(REPO) + '/'
    return any(os.path.abspath(f.filename).startswith(root) for f in traceback.extract_tb(exc.__traceback__))


def _blame(e):
    """'crash' if e is due to the code under test, 'err' if to the machinery.

    The harness runs without exception on the unchanged code, so one that it meets (say, on
    interpreting a result of unexpected form) comes from what the code did, except for want of resources.
    """
    import errno
    if _in_repo(e):
        return 'crash'
    if isinstance(e, (MemoryError, MachineryError)) or (isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM)):
        return 'err'
    return 'crash'


class _Call(object):
    def __init__(self, fn, limit):
        self.fn = fn
        self.limit = limit

    def __call__(self, item):
        import traceback
        if _W.get('failed'):
            return _W['failed']
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(self.limit)
        try:
            return ('ok', self.fn(item))
        except Hang:
            return ('crash', 'did not end within %d s\n%s' % (self.limit, traceback.format_exc()))
        except BaseException as e:
            return (_blame(e), traceback.format_exc())
        finally:
            signal.alarm(0)


def _worker(conn, base, init, initargs, call):
    """Loop of a worker process: chunks of items in, lists of outcomes out."""
    try:
        _init_worker(base, init, initargs)
        while True:
            chunk = conn.recv()
            if chunk is None:
                break
            conn.send([call(x) for x in chunk])
    except (EOFError, KeyboardInterrupt):
        pass
    finally:
        os._exit(0)


def pmap(fn, items, init=None, initargs=(), nproc=NPROC, chunk=8, limit=60):
    """Parallel map in unprivileged worker processes; yields (item, result) in order.

    An exception out of the code under test, or an item that does not end, is a CodeCrash;
    any other exception of fn is a MachineryError.
    """
    import multiprocessing
    from multiprocessing.connection import wait
    items = list(items)
    if not items:
        return
    base = os.path.join(scratch(), 'pool')
    os.makedirs(base, exist_ok=True)
    os.chmod(base, 0o755)
    sys.stdout.flush()
    sys.stderr.flush()
    ctx = multiprocessing.get_context('fork')
    call = _Call(fn, limit)
    chunks = [items[i:i + chunk] for i in range(0, len(items), chunk)]
    conns, procs, doing, done = [], {}, {}, {}
    try:
        for _ in range(min(nproc, len(chunks))):
            mine, theirs = ctx.Pipe()
            pr = ctx.Process(target=_worker, args=(theirs, base, init, initargs, call), daemon=True)
            pr.start()
            theirs.close()
            conns.append(mine)
            procs[mine] = pr
        todo = 0
        for c in conns:
            if todo < len(chunks):
                c.send(chunks[todo])
                doing[c] = todo
                todo += 1
        nxt = 0
        while nxt < len(chunks):
            while nxt in done:
                for item, (st, val) in zip(chunks[nxt], done.pop(nxt)):
                    if st == 'crash':
                        raise CodeCrash(item, val)
                    if st != 'ok':
                        raise MachineryError('harness failure on %r:\n%s' % (item, val))
                    yield item, val
                nxt += 1
            if nxt >= len(chunks):
                break
            for c in wait(list(doing)):
                k = doing.pop(c)
                try:
                    done[k] = c.recv()
                except (EOFError, OSError):
                    done[k] = [('crash', 'worker process died while working on this or one of the following %d items' % len(chunks[k]))] * len(chunks[k])
                    continue
                if todo < len(chunks) and todo < nxt + 40 * len(conns):
                    c.send(chunks[todo])
                    doing[c] = todo
                    todo += 1
            for c in conns:
                if c not in doing and todo < len(chunks) and todo < nxt + 40 * len(conns) and procs[c].is_alive():
                    c.send(chunks[todo])
                    doing[c] = todo
                    todo += 1
            if not doing and nxt not in done and nxt < len(chunks):
                raise MachineryError('all workers died')
    finally:
        for c in conns:
            c.close()
        for pr in procs.values():
            pr.kill()
        for pr in procs.values():
            pr.join(10)


def use_repo():
    """Make `import resync` use the working tree of REPO."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path or sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import resync
    if not os.path.abspath(resync.__file__).startswith(REPO + '/'):
        raise MachineryError('resync imported from ' + resync.__file__)


def write_ndjson(path, recs):
    """Write records for ndJsonDeserialize."""
    with open(path, 'w') as fh:
        for r in recs:
            fh.write(json.dumps(r) + '\n')
