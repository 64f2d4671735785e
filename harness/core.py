"""Runner: drives generated cases through a property's sub-checks.

A *sub-check* is (name, strategy, predicate, examples).  The strategy yields
JSON-serialisable cases; the predicate gets (case, ctx), raises Violation when
the property is broken, and reports to ctx whether the case was non-trivial.
Cases are searched and shrunk by Hypothesis; the smallest failing case is
written as a replay file that is re-run without Hypothesis.

Exit codes: 0 held, 1 violation, 2 usage, 3 error of the harness.
"""
import collections
import hashlib
import json
import logging
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NRWAL_REPO', '/repo')
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

if REPO not in sys.path:
    sys.path.insert(0, REPO)
if HYP not in sys.path:
    sys.path.append(HYP)

import numpy as np  # noqa: E402

logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')
np.seterr(all='ignore')

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401


class Violation(AssertionError):
    """The code under test breaks the property on this case."""


class HarnessError(Exception):
    """The harness itself cannot decide the case (never a violation)."""


class Hang(BaseException):
    """A case used far more CPU than any case of this kind needs."""


def digest(obj):
    txt = json.dumps(obj, sort_keys=True, default=str)
    return hashlib.sha1(txt.encode()).hexdigest()[:16]


class Ctx:
    """Collects what one worker actually covered."""

    def __init__(self):
        self.n = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.known = collections.Counter()
        self.scratch = None
        self._current = None
        self._nt = False

    def label(self, *names):
        for name in names:
            self.labels[name] += 1

    def nontriv(self, flag=True):
        if flag:
            self._nt = True

    def known_finding(self, text):
        self.known[text] += 1

    # ------------------------------------------------------------------
    def start(self, case):
        self.n += 1
        self._nt = False

    def finish(self, name, case):
        if self._nt:
            d = digest([name, case])
            if d not in self.nontrivial:
                self.nontrivial.add(d)
                k = len(self.nontrivial)
                # keep a few, spread over the run
                if k in (1, 2, 10, 40) or k % 400 == 0:
                    if len(self.samples) < 8:
                        txt = json.dumps(case, default=str)
                        if len(txt) > 3000:
                            case = txt[:3000] + ' ... (cut)'
                        self.samples.append({'check': name, 'case': case})


_SCRATCH_ROOT = None


def scratch_dir():
    """A fresh scratch directory for the current case (removed afterwards)."""
    return tempfile.mkdtemp(prefix='c_', dir=_SCRATCH_ROOT)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def equal(a, b):
    """Equal arrays or numbers; nan equals nan."""
    a, b = np.asarray(a), np.asarray(b)
    nan = a.dtype.kind in 'fc' and b.dtype.kind in 'fc'
    return bool(np.array_equal(a, b, equal_nan=nan))


def attempt(fun, *args, **kwargs):
    """Run code under test, return (True, value) or (False, exception)."""
    try:
        return True, fun(*args, **kwargs)
    except (Hang, KeyboardInterrupt):
        raise
    except BaseException as e:  # noqa: B902
        if isinstance(e, (SystemExit, Exception)):
            return False, e
        raise


def must(what, fun, *args, **kwargs):
    """Run code under test that has to succeed."""
    ok, out = attempt(fun, *args, **kwargs)
    if not ok:
        raise Violation('{}: unexpected {}: {}'.format(
            what, type(out).__name__, str(out)[:400]))
    return out


def must_raise(what, types, fun, *args, **kwargs):
    ok, out = attempt(fun, *args, **kwargs)
    if ok:
        raise Violation('{}: expected {} but got {!r}'.format(
            what, _names(types), _short(out)))
    if not isinstance(out, types):
        raise Violation('{}: expected {} but got {}: {}'.format(
            what, _names(types), type(out).__name__, str(out)[:300]))
    return out


def _short(x):
    ok, s = attempt(repr, x)
    return s[:200] if ok else '<unprintable>'


def _names(types):
    if isinstance(types, tuple):
        return ' or '.join(t.__name__ for t in types)
    return types.__name__


# ----------------------------------------------------------------------
def _timer(seconds):
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def _on_timer(signum, frame):
    raise Hang()


def _limits(mem_gb):
    lim = int(mem_gb * (1 << 30))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGVTALRM, _on_timer)
    sys.setrecursionlimit(1000)


class Discard(Exception):
    """The case cannot be run (a number of millions of digits)."""


class Sub:
    def __init__(self, name, strategy, predicate, quick, thorough=None,
                 cpu_s=30, shards=None, always=None):
        self.name = name
        self.strategy = strategy
        self.predicate = predicate
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.cpu_s = cpu_s
        self.shards = shards
        # function of the seed: cases every run covers besides generated ones
        self.always = always


def _trace():
    """The current exception as text. Python asks objects of the code under
    test for attributes while it formats one, which can fail as well."""
    try:
        return traceback.format_exc()
    except Exception:
        return ''.join(traceback.format_tb(sys.exc_info()[2]))


def run_case(sub, case, ctx):
    """Run one case outside Hypothesis' bookkeeping. Raises on violation."""
    global _SCRATCH_ROOT
    base = tempfile.mkdtemp(prefix='verif_')
    _SCRATCH_ROOT = base
    ctx.start(case)
    # the code under test never sees the object the oracle uses
    work = json.loads(json.dumps(case))
    _timer(sub.cpu_s)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sub.predicate(work, ctx)
    except (Violation, HarnessError):
        raise
    except Discard:
        ctx.label('discarded')
    except Hang:
        raise
    except Exception as e:
        tb = _trace()
        raise Violation('unexpected {} while checking: {}\n{}'.format(
            type(e).__name__, str(e)[:300], tb[-1500:])) from e
    finally:
        _timer(0)
        shutil.rmtree(base, ignore_errors=True)
        _SCRATCH_ROOT = None
    ctx.finish(sub.name, case)


def _search(args, conn=None):
    """Worker: one shard of one sub-check."""
    modname, subname, seed, examples, mem, shard, shards, base_seed = args
    t0 = time.time()
    import importlib
    mod = importlib.import_module(modname)
    sub = [s for s in mod.SUBS if s.name == subname][0]
    ctx = Ctx()
    _limits(mem)
    box = {'fail': None}
    res = {'sub': subname, 'seed': seed, 'status': 'ok'}

    def failed(case, msg):
        box['fail'] = (case, msg)
        now = time.time()
        if conn is not None and now - box.get('sent', 0) > 0.5:
            box['sent'] = now
            # the parent keeps the last one if shrinking takes too long
            conn.send({'sub': subname, 'seed': seed, 'status': 'partial',
                       'case': case, 'message': msg, 'n': ctx.n,
                       'nontrivial': [], 'labels': {}, 'samples': [],
                       'known': dict(ctx.known), 'wall': time.time() - t0})

    def body(case):
        # Hypothesis' RNG seeds are fixed; numpy's are never used by cases
        try:
            run_case(sub, case, ctx)
        except Violation as e:
            failed(case, str(e))
            raise
        except Hang:
            failed(case, 'no result after {} s of CPU time'
                   .format(sub.cpu_s))
            raise

    test = hypothesis.given(sub.strategy)(body)
    test = hypothesis.seed(seed)(test)
    test = settings(
        max_examples=examples, deadline=None, database=None,
        derandomize=False, print_blob=False, report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.explicit, Phase.generate, Phase.shrink))(test)
    try:
        if sub.always is not None:
            for case in sub.always(base_seed)[shard::shards]:
                body(case)
        test()
    except (Violation, Hang):
        case, msg = box['fail']
        res.update(status='violation', case=case, message=msg)
    except HarnessError as e:
        res.update(status='error', message='HarnessError: {}'.format(e))
    except BaseException:  # noqa: B902
        tb = _trace()
        if box['fail'] is not None:
            # e.g. Hypothesis' flaky report after a violation
            case, msg = box['fail']
            res.update(status='violation', case=case, message=msg)
        else:
            res.update(status='error', message=tb[-3000:])
    res.update(n=ctx.n, nontrivial=list(ctx.nontrivial),
               labels=dict(ctx.labels), samples=ctx.samples,
               known=dict(ctx.known), wall=time.time() - t0)
    return res


def _child(job, conn):
    try:
        # keep anything the code under test prints out of our stdout
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        conn.send(_search(job, conn))
    except BaseException:  # noqa: B902
        conn.send({'sub': job[1], 'seed': job[2], 'status': 'error',
                   'message': _trace()[-3000:], 'n': 0,
                   'nontrivial': [], 'labels': {}, 'samples': [],
                   'known': {}, 'wall': 0})
    finally:
        conn.close()


SHRINK_S = 60


def _run_jobs(jobs, nproc, budget):
    """Run jobs in forked processes; a job past the budget is inconclusive."""
    mp = multiprocessing.get_context('fork')
    pending = list(jobs)
    running = []
    results = []
    t0 = time.time()
    stop = False
    partial = {}
    found_at = None
    while pending or running:
        while pending and len(running) < nproc and not stop:
            job = pending.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(job, b))
            p.start()
            b.close()
            running.append((p, a, job))
        if stop:
            pending = []
        still = []
        for p, a, job in running:
            if a.poll(0.02):
                try:
                    r = a.recv()
                    if r['status'] == 'partial':
                        r['status'] = 'violation'
                        partial[job] = r
                        if found_at is None:
                            found_at = time.time()
                        still.append((p, a, job))
                        continue
                except EOFError:
                    p.join()
                    r = {'sub': job[1], 'seed': job[2], 'status': 'error',
                         'message': 'worker died with exit code {}'
                         .format(p.exitcode), 'n': 0, 'nontrivial': [],
                         'labels': {}, 'samples': [], 'known': {}, 'wall': 0}
                    r = partial.get(job, r)
                results.append(r)
                p.join(10)
                if p.is_alive():
                    p.kill()
                if r['status'] == 'violation':
                    stop = True
            else:
                still.append((p, a, job))
        running = still
        over = time.time() - t0 > budget
        if found_at is not None:
            # a violation decides the run, only its shrinking goes on
            pending = []
            if time.time() - found_at > SHRINK_S:
                over = True
        if (stop or over) and running:
            for p, a, job in running:
                p.kill()
                p.join()
                results.append(partial[job] if job in partial else {
                    'sub': job[1], 'seed': job[2],
                    'status': 'stopped' if stop else 'inconclusive',
                    'n': 0, 'nontrivial': [], 'labels': {}, 'samples': [],
                    'known': {}, 'wall': time.time() - t0})
            running = []
            if over:
                pending = []
    return results


def load_known():
    out = []
    fp = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(fp):
        with open(fp) as f:
            for line in f:
                line = line.strip()
                if line:
                    out.append(json.loads(line))
    return out


def main(argv):
    import importlib
    if len(argv) < 1:
        print('usage: run.py <property> [--replay FILE]')
        return 2
    pid = argv[0]
    modname = 'checks.{}'.format(pid.lower())
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(modname)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()

    import NRWAL
    src = os.path.dirname(os.path.dirname(os.path.abspath(NRWAL.__file__)))
    if os.path.realpath(src) != os.path.realpath(REPO):
        print('ERROR: NRWAL imported from {} instead of {}'.format(src, REPO))
        return 3

    if '--replay' in argv:
        return replay(mod, pid, argv[argv.index('--replay') + 1])

    nproc = int(os.environ.get('VERIF_PROCS', '0')) or min(
        8, os.cpu_count() or 1)
    jobs = []
    for sub in mod.SUBS:
        total = sub.quick if tier == 'quick' else sub.thorough
        shards = sub.shards or (2 if tier == 'quick' else 4)
        for i in range(shards):
            n = max(1, total // shards)
            jobs.append((modname, sub.name, seed * 1000 + i * 7919
                         + int(digest(sub.name)[:6], 16) % 997, n,
                         getattr(mod, 'MEM_GB', 3), i, shards, seed))
    budget = 700 if tier == 'quick' else float(
        os.environ.get('VERIF_BUDGET', '3000'))
    results = _run_jobs(jobs, nproc, budget)

    errors = [r for r in results if r['status'] == 'error']
    viols = [r for r in results if r['status'] == 'violation']
    incon = [r for r in results if r['status'] == 'inconclusive']
    nontriv = set()
    labels = collections.Counter()
    known = collections.Counter()
    samples = []
    per_sub = collections.OrderedDict()
    for r in results:
        nontriv.update(r['nontrivial'])
        labels.update({'{}:{}'.format(r['sub'], k): v
                       for k, v in r['labels'].items()})
        known.update(r['known'])
        d = per_sub.setdefault(r['sub'], {'cases': 0, 'nontrivial': 0,
                                          'wall_s': 0.0})
        d['cases'] += r['n']
        d['nontrivial'] += len(r['nontrivial'])
        d['wall_s'] = round(d['wall_s'] + r['wall'], 2)
    seen = collections.Counter()
    for r in results:
        for s in r['samples']:
            if seen[s['check']] < 2 and len(samples) < 14:
                seen[s['check']] += 1
                samples.append(s)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['n'] for r in results),
            'distinct_nontrivial': len(nontriv),
            'rule': mod.RULE,
            'samples': samples or [{'note': 'no non-trivial case'}],
            'per_check': per_sub,
            'classes': dict(sorted(labels.items())),
            'inconclusive_jobs': len(incon),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viols),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    for entry in load_known():
        if entry.get('property') == pid and entry.get('kind') == 'known':
            print('KNOWN-FINDING: property={} {} (seen {} times)'.format(
                pid, entry['what'], known.get(entry['id'], 0)))
    if viols:
        # smallest case first
        viols.sort(key=lambda r: len(json.dumps(r['case'], default=str)))
        r = viols[0]
        rep = os.path.join(VERIF, 'evidence', 'replay_{}.json'.format(pid))
        with open(rep, 'w') as f:
            json.dump({'property': pid, 'check': r['sub'], 'case': r['case'],
                       'message': r['message'], 'seed': seed}, f, indent=1,
                      default=str)
        print('check {}: {}'.format(r['sub'], r['message'][:2000]))
        print('case: {}'.format(json.dumps(r['case'], default=str)[:2000]))
        print('VIOLATION property={} replay={}'.format(pid, rep))
        return 1
    if errors:
        for r in errors[:3]:
            print('ERROR in {}: {}'.format(r['sub'], r['message']))
        return 3
    print('{}: held on {} cases ({} distinct non-trivial) in {:.1f} s'.format(
        pid, ev['coverage']['evaluations'], len(nontriv), time.time() - t0))
    return 0


def replay(mod, pid, path):
    with open(path) as f:
        rep = json.load(f)
    sub = [s for s in mod.SUBS if s.name == rep['check']][0]
    _limits(getattr(mod, 'MEM_GB', 3))
    try:
        run_case(sub, rep['case'], Ctx())
    except (Violation, Hang) as e:
        print(e)
        print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    print('replay passes')
    return 0
