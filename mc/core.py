"""Common machinery: exhaustive drivers, parallel exploration, known findings,
evidence files, violation reporting.

Every check is a function run(ctx).  It enumerates a finite space completely, runs
the real PyHDI/Pyverilog code on each element and compares with a reference model.
"""
import collections
import contextlib
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
NPROC = int(os.environ.get('MC_NPROC', '0')) or min(8, os.cpu_count() or 1)
MAX_REPORT = 20


class CaseTimeout(Exception):
    pass


class Stats(object):
    """Measured counts; mergeable across worker processes."""

    def __init__(self):
        self.n = collections.Counter()
        self.outcomes = set()
        self.distinct = set()
        self.samples = []
        self.viol = []          # (key, what, replay)

    def count(self, name, k=1):
        self.n[name] += k

    def outcome(self, o):
        """Record one observed outcome (kept as a digest) to show the space collides/varies."""
        if len(self.outcomes) < 200000:
            self.outcomes.add(hashlib.md5(repr(o).encode('utf-8', 'replace')).digest()[:8])

    def state(self, s):
        """Record one distinct model state / model input (kept as a digest)."""
        self.distinct.add(hashlib.md5(repr(s).encode('utf-8', 'replace')).digest()[:8])

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def fail(self, key, what, replay=None):
        self.n['raw_failures'] += 1
        self.viol.append((str(key), str(what)[:2000], replay))

    def merge(self, o):
        self.n.update(o.n)
        self.outcomes |= o.outcomes
        self.distinct |= o.distinct
        for s in o.samples:
            self.sample(s)
        self.viol.extend(o.viol)


def case_alarm(_sig, _frm):
    raise CaseTimeout('case exceeded its CPU budget')


class budget(object):
    """CPU-time budget for one call into the code under test (immune to machine load)."""

    def __init__(self, seconds=60.0):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, case_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


def attempt(fn, *args, **kw):
    """Run code under test. Returns ('ok', value) or ('exc', TypeName, message)."""
    seconds = kw.pop('budget_s', 60.0)
    try:
        with budget(seconds):
            return ('ok', fn(*args, **kw))
    except CaseTimeout:
        return ('exc', 'HANG', 'no result within %.0f s of CPU time' % seconds)
    except RecursionError as e:
        return ('exc', 'RecursionError', str(e)[:200])
    except MemoryError as e:
        return ('exc', 'MemoryError', str(e)[:200])
    except SystemExit as e:
        return ('exc', 'SystemExit', str(e)[:200])
    except Exception as e:          # noqa: every escape of the code under test is an observation
        return ('exc', type(e).__name__, str(e)[:300])


_WORK = None


def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def _worker(args):
    unit = args
    st = Stats()
    try:
        _WORK(unit, st)
        return (st, None)
    except BaseException as e:      # noqa
        return (st, (repr(unit)[:500], type(e).__name__, str(e)[:500], traceback.format_exc()))


def touches_repo(tb):
    return (os.path.join(REPO, 'pyverilog') + os.sep) in tb


class Context(object):
    def __init__(self, pid, tier, level, seed):
        self.pid = pid
        self.tier = tier
        self.level = level
        self.seed = seed
        self.stats = Stats()
        self.t0 = time.time()
        self.assumptions = []
        self.rule = ''
        self.bounds = {}
        self.exhaustive = True
        self.errors = []
        self.extra = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def explore(self, units, work, nproc=None):
        """Run work(unit, stats) for every unit, in forked workers, deterministically merged."""
        global _WORK
        units = list(units)
        _WORK = work
        nproc = nproc or NPROC
        if nproc <= 1 or len(units) <= 1:
            res = [_worker(u) for u in units]
        else:
            sys.stdout.flush()
            sys.stderr.flush()
            with multiprocessing.get_context('fork').Pool(nproc, initializer=_limits) as pool:
                res = pool.map(_worker, units, chunksize=1)
        for st, err in res:
            self.stats.merge(st)
            if err is not None:
                unit, tn, msg, tb = err
                if touches_repo(tb):
                    self.stats.fail('crash:%s:%s' % (tn, unit[:120]),
                                    'the code under test raised %s: %s\n%s' % (tn, msg, tb[-1500:]),
                                    {'unit': unit, 'traceback': tb})
                else:
                    self.errors.append(tb)

    def load_known(self):
        """known-findings.txt: KNOWN-FINDING: property=<id> key=<json string> <what fails>"""
        known = collections.OrderedDict()
        path = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(path):
            dec = json.JSONDecoder()
            for line in open(path, encoding='utf-8'):
                line = line.rstrip('\n')
                pre = 'KNOWN-FINDING: property=%s key=' % self.pid
                if line.startswith(pre):
                    key, end = dec.raw_decode(line[len(pre):])
                    known[key] = line[len(pre) + end:].strip()
        return known

    def finish(self):
        st = self.stats
        known = self.load_known()
        byk = collections.OrderedDict()
        for key, what, replay in st.viol:
            byk.setdefault(key, (what, replay))
        new = [(k, w, r) for k, (w, r) in byk.items() if k not in known]
        new.sort(key=lambda x: (len(x[0]), x[0]))       # shortest counterexample first
        hit = [k for k in known if k in byk]
        for k in hit:
            print('KNOWN-FINDING: property=%s %s [%s]' % (self.pid, known[k], k))
        if os.environ.get('MC_DUMP'):
            with open(os.environ['MC_DUMP'], 'w') as f:
                for k, w, r in new:
                    f.write(json.dumps([k, w, repr(r)]) + '\n')
        outdir = os.path.join(VERIF, 'out', self.pid)
        if new:
            os.makedirs(outdir, exist_ok=True)
        for i, (k, w, r) in enumerate(new[:MAX_REPORT]):
            path = os.path.join(outdir, 'violation-%d.json' % i)
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({'property': self.pid, 'tier': self.tier, 'key': k, 'what': w,
                           'replay': r}, f, indent=1, default=repr)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  case: %s' % k[:400].replace('\n', '\\n'))
            print('  what: %s' % w[:600].replace('\n', '\n        '))
        if len(new) > MAX_REPORT:
            print('  (and %d more failing cases)' % (len(new) - MAX_REPORT))
        cov = {
            'rule': self.rule,
            'samples': st.samples[:6] or ['(no sample recorded)'],
            'states': len(st.distinct),
            'transitions': int(st.n.get('transitions', 0)),
            'traces_validated_against_impl': int(st.n.get('traces', 0)),
            'distinct_observed_outcomes': len(st.outcomes),
            'bounds': self.bounds,
            'exhaustive': bool(self.exhaustive and not self.errors),
            'counters': {k: int(v) for k, v in sorted(st.n.items())
                         if k not in ('evaluations', 'nontrivial', 'traces', 'transitions')},
        }
        cov.update(self.extra)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': cov, 'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3), 'violations': len(new),
            'known_findings_seen': hit,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write('\n')
        print('%s tier=%s: %d evaluations, %d states, %d transitions, %d traces, %d outcomes, '
              '%d known, %d violations, %.1f s' % (
                  self.pid, self.tier, st.n.get('evaluations', 0), cov['states'], cov['transitions'],
                  cov['traces_validated_against_impl'], cov['distinct_observed_outcomes'],
                  len(hit), len(new), ev['wall_s']))
        if new:
            return 1
        if self.errors:
            print('HARNESS ERROR\n' + self.errors[0])
            return 2
        if not st.n.get('evaluations'):
            print('HARNESS ERROR: vacuous run')
            return 2
        return 0


def chunks(seq, size):
    buf = []
    for x in seq:
        buf.append(x)
        if len(buf) >= size:
            yield buf
            buf = []
    if buf:
        yield buf


@contextlib.contextmanager
def quiet():
    """the code under test prints warnings: keep them out of the reports (workers inherit it)"""
    sys.stdout.flush()
    keep = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)
    try:
        yield
    finally:
        sys.stdout.flush()
        os.dup2(keep, 1)
        os.close(keep)
