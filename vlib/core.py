# -*- coding: utf-8 -*-
'''Framework shared by every check: environment, sharded execution of cases,
violation/known-finding accounting, evidence.'''
import atexit
import collections
import hashlib
import io
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types

REPO = os.environ.get('VERIF_REPO') or '/repo'   # override: development only
SRC = os.path.join(REPO, 'src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAMPLES = os.path.join(REPO, 'tests', 'hwp5_tests', 'fixtures')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
NPROC = min(8, os.cpu_count() or 1)

sys.dont_write_bytecode = True
if sys.path[0] != SRC:
    sys.path.insert(0, SRC)


def scale(quick, thorough):
    return thorough if THOROUGH else quick


_scratch = None
_scratch_pid = None


def scratch():
    '''The scratch directory of this process tree (removed at exit).'''
    global _scratch, _scratch_pid
    if _scratch is None:
        base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix='verif-', dir=base)
        _scratch_pid = os.getpid()
        atexit.register(_cleanup)
    return _scratch


def _cleanup():
    if _scratch and os.getpid() == _scratch_pid:
        shutil.rmtree(_scratch, ignore_errors=True)


_n = [0]


def newdir(prefix='d'):
    _n[0] += 1
    p = os.path.join(scratch(), '%s-%d-%d' % (prefix, os.getpid(), _n[0]))
    os.mkdir(p)
    return p


def rmdir(p):
    assert p.startswith(scratch() + '/')
    shutil.rmtree(p, ignore_errors=True)


def samples():
    import glob
    return sorted(glob.glob(os.path.join(SAMPLES, '*.hwp')))


class HarnessError(Exception):
    pass


def exc_from_repo(exc):
    '''True when the exception was raised by (or under) code of the
    repository rather than by our own harness.'''
    tb = exc.__traceback__
    last_ours = last_repo = -1
    i = 0
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(SRC):
            last_repo = i
        elif fn.startswith(VERIF):
            last_ours = i
        i += 1
        tb = tb.tb_next
    return last_repo > last_ours


def misshapen(e):
    '''an exception raised while a monitor examines what the library gave
    (something of another type, with parts missing), other than a failure of
    the machinery or a name of the library which is not there'''
    if not isinstance(e, (AttributeError, TypeError, LookupError, ValueError,
                          AssertionError, ArithmeticError)):
        return False
    return not isinstance(getattr(e, 'obj', None), types.ModuleType)


class Ctx(object):
    '''Records what the monitors of one case saw.'''

    def __init__(self, prop):
        self.prop = prop
        self.counts = collections.Counter()
        self.keys = set()
        self.samples = []
        self.viol = []      # dicts
        self.case = None

    def ev(self, name, n=1):
        self.counts[name] += n

    def distinct(self, *key):
        h = hashlib.sha1(repr(key).encode('utf-8', 'surrogatepass'))
        self.keys.add(h.hexdigest()[:12])
        if not self.samples:
            self.sample(' '.join(short(k, 120) for k in key))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:300])

    def fail(self, mech, msg, **data):
        self.counts['violations'] += 1
        if len([v for v in self.viol if v['mech'] == mech]) < 5 and \
                len(self.viol) < 200:
            self.viol.append(dict(mech=mech, msg=str(msg)[:2000],
                                  case=self.case,
                                  data={k: short(v) for k, v in data.items()}))

    def eq(self, mech, got, want, msg='', **data):
        self.counts['comparisons'] += 1
        if got != want or type(got) is bool and type(want) is not bool:
            self.fail(mech, '%s: got %s, expected %s' %
                      (msg, short(got), short(want)), **data)
            return False
        return True

    def check(self, mech, cond, msg='', **data):
        self.counts['comparisons'] += 1
        if not cond:
            self.fail(mech, msg, **data)
            return False
        return True

    def guard(self, mech, fn, *args, **kw):
        '''Run code of the repository which must not raise.
        Returns (ok, value).'''
        try:
            return True, fn(*args, **kw)
        except CaseTimeout:
            raise
        except Exception as e:
            if not exc_from_repo(e) and not getattr(e, 'from_repo', False):
                tb = traceback.format_exc()
                if SRC not in tb:
                    raise
            self.fail(mech, 'unexpected %s: %s' % (type(e).__name__, e),
                      traceback=traceback.format_exc()[-1500:])
            return False, None


def short(v, n=400):
    if isinstance(v, str) and len(v) <= n:
        s = v
    else:
        s = repr(v)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


core_short = short


def rng(*key):
    return random.Random(repr(('verif',) + key))


def patience(seconds):
    '''a time limit, longer on a machine which is busy with other work'''
    return int(seconds * min(4, max(1, os.getloadavg()[0] / NPROC)))


class CaseTimeout(Exception):
    pass


class Stuck(CaseTimeout):
    '''a process which runs code of the repository did not come to an end
    in time, or crashed'''


_stuck = []


def _alarm(sig, frame):
    # (it comes again: code which catches everything may swallow it)
    f, where = frame, None
    while f is not None:
        if f.f_code.co_filename.startswith(SRC):
            where = '%s, line %d' % (
                os.path.relpath(f.f_code.co_filename, SRC), f.f_lineno)
            break
        f = f.f_back
    _stuck.append(where)
    if len(_stuck) > 20 and where is None:
        return
    raise CaseTimeout()


class Check(object):
    '''Subclass per property: PROP, RULE, cases(), run(ctx, case).'''
    PROP = None
    RULE = ''
    CASE_TIMEOUT = 60
    ASSUME = []
    TIMEOUT_IS_VIOLATION = False

    def cases(self):
        raise NotImplementedError

    def run(self, ctx, case):
        raise NotImplementedError

    def setup(self):
        pass

    def extra_coverage(self, counts):
        return {}

    def minimum(self, counts):
        '''names -> minimal counts below which the run is inconclusive'''
        return {}

    # -- execution ------------------------------------------------------
    def run_one(self, case):
        ctx = Ctx(self.PROP)
        ctx.case = case
        t0 = time.time()
        signal.signal(signal.SIGALRM, _alarm)
        del _stuck[:]
        signal.setitimer(signal.ITIMER_REAL, patience(self.CASE_TIMEOUT), 1)
        err = None
        limit = sys.getrecursionlimit()
        try:
            if case[0] == 'deep':
                # for the references; commands run with the usual limit
                sys.setrecursionlimit(30000)
            self.run(ctx, case)
            ctx.counts['cases'] += 1
        except Stuck as e:
            ctx.fail('timeout', '%s' % e)
        except CaseTimeout:
            if self.TIMEOUT_IS_VIOLATION or any(_stuck):
                ctx.fail('timeout', 'case did not finish in %ds'
                         % self.CASE_TIMEOUT)
            else:
                err = 'timeout in case %r' % (case,)
        except Exception as e:
            if exc_from_repo(e):
                ctx.fail('unexpected-exception:' + type(e).__name__,
                         '%s: %s' % (type(e).__name__, e),
                         traceback=traceback.format_exc()[-2500:])
            elif misshapen(e):
                ctx.fail('shape:' + type(e).__name__,
                         'what was given can not be examined: %s: %s' %
                         (type(e).__name__, e),
                         traceback=traceback.format_exc()[-2500:])
            else:
                err = traceback.format_exc()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.setrecursionlimit(limit)
        return dict(counts=dict(ctx.counts), keys=list(ctx.keys),
                    samples=ctx.samples, viol=ctx.viol, err=err,
                    case=case, t=time.time() - t0)


_check = None


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.setpgid(0, 0)
    null = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(null, 2)
    import logging
    logging.disable(logging.CRITICAL)


def _worker(case):
    return _check.run_one(case)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with io.open(p, encoding='utf-8') as f:
        return json.load(f)['findings']


def main(check, argv):
    global _check
    _check = check
    t0 = time.time()
    prop = check.PROP
    scratch()
    assert_repo()
    replay = None
    if '--replay' in argv:
        with io.open(argv[argv.index('--replay') + 1]) as f:
            replay = json.load(f)
    check.setup()
    if replay is not None:
        c = replay['case']
        cases = [tuplify(c)]
    else:
        cases = list(check.cases())
    counts = collections.Counter()
    keys = set()
    samples_ = []
    viol = []
    errs = []
    listed = [k['mechanism'] for k in load_known()
              if k['property'] == prop and k.get('status') == 'known']
    if len(cases) > 1 and not os.environ.get('VERIF_SERIAL'):
        mp = multiprocessing.get_context('fork')
        with mp.Pool(NPROC, _worker_init) as pool:
            it = pool.imap_unordered(_worker, cases, chunksize=1)
            for _ in range(len(cases)):
                try:
                    limit = patience(check.CASE_TIMEOUT * 2 + 30)
                    r = it.next(timeout=limit)
                except multiprocessing.TimeoutError:
                    errs.append('worker lost or stuck (no result in %ds)'
                                % limit)
                    break
                _merge(r, counts, keys, samples_, viol, errs)
                found = [v['mech'] for v in viol if v['mech'] not in listed]
                if found and (os.environ.get('VERIF_FAILFAST') or
                              TIER == "quick" and time.time() - t0 > 300 or
                              found.count('timeout') + len(errs) >= NPROC):
                    break
            workers = [p.pid for p in pool._pool]
            pool.terminate()
            # what they have started and left
            for pid in workers:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
    else:
        if not os.environ.get('VERIF_DEBUG'):
            import logging
            logging.disable(logging.CRITICAL)
        for c in cases:
            _merge(check.run_one(c), counts, keys, samples_, viol, errs)
    # findings
    known = [k for k in load_known() if k['property'] == prop]
    new = []
    seen_known = {}
    for v in viol:
        for k in known:
            if k.get('status') == 'known' and k['mechanism'] == v['mech']:
                seen_known[k['mechanism']] = k
                break
        else:
            new.append(v)
    for mech, k in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    status = 0
    shown = set()
    replay_dir = os.path.join(VERIF, 'evidence', 'replay')
    files = []
    if new:
        status = 1
        os.makedirs(replay_dir, exist_ok=True)
        for i, v in enumerate(new):
            if v['mech'] in shown or len(shown) > 12:
                continue
            shown.add(v['mech'])
            path = os.path.join(replay_dir, '%s-%d.json' % (prop, len(shown)))
            with io.open(path, 'w', encoding='utf-8') as f:
                json.dump(dict(property=prop, case=v['case'], mech=v['mech'],
                               msg=v['msg'], data=v['data'], seed=SEED,
                               tier=TIER,
                               how='VERIF_SEED=%d VERIF_TIER=%s ./run %s '
                               '--replay %s' % (SEED, TIER, prop, path)),
                          f, indent=1, ensure_ascii=True)
            files.append(path)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  [%s] %s' % (v['mech'], v['msg'][:600]
                                 .encode('ascii', 'backslashreplace')
                                 .decode()))
    if errs and not new:
        status = 3
    if errs:
        print('CHECK-ERROR property=%s %d case(s) without an answer: %s'
              % (prop, len(errs), errs[0][-1500:]))
    if status == 0 and replay is None:
        for name, least in sorted(check.minimum(counts).items()):
            if counts.get(name, 0) < least:
                print('CHECK-ERROR property=%s inconclusive: %s=%d < %d'
                      % (prop, name, counts.get(name, 0), least))
                status = 4
    wall = time.time() - t0
    if replay is None:
        cov = dict(evaluations=int(counts.get('comparisons', 0)),
                   distinct_nontrivial=len(keys),
                   rule=check.RULE,
                   samples=samples_[:8] or ['(none)'],
                   cases=len(cases),
                   monitor_events={k: int(v) for k, v in
                                   sorted(counts.items())})
        cov.update(check.extra_coverage(counts))
        ev = dict(property=prop, tier=TIER, seed=SEED, level='exploration',
                  coverage=cov, wall_s=round(wall, 2))
        if check.ASSUME:
            ev['assumptions'] = check.ASSUME
        if new:
            ev['violations'] = len(new)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', prop + '.json')
        with io.open(p, 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
    print('%s: %d cases, %d comparisons, %d distinct, %d violation(s), '
          '%d error(s), %.1fs' % (prop, len(cases),
                                  counts.get('comparisons', 0), len(keys),
                                  len(new), len(errs), wall))
    if os.environ.get('VERIF_VERBOSE'):
        for k, v in sorted(counts.items()):
            print('   %-40s %d' % (k, v))
        for t, c in sorted(_times, key=lambda x: -x[0])[:6]:
            print('   slow %.2f %s' % (t, core_short(c)))
    sys.stdout.flush()
    return status


def tuplify(c):
    if isinstance(c, list):
        return tuple(tuplify(x) for x in c)
    return c


_times = []


def _merge(r, counts, keys, samples_, viol, errs):
    counts.update(r['counts'])
    keys.update(r['keys'])
    if len(samples_) < 12:
        samples_.extend(r['samples'])
    viol.extend(r['viol'])
    _times.append((r['t'], r['case']))
    if r['err']:
        errs.append(r['err'])


def assert_repo():
    import hwp5
    p = os.path.abspath(hwp5.__file__)
    if not p.startswith(SRC + '/'):
        raise HarnessError('hwp5 imported from %s' % p)
