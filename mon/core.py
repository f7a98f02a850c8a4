"""Running checks: cases, verdicts, shrinking, replay, evidence."""
import datetime
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import resource
import signal
import sys
import tempfile
import time
import traceback
from decimal import Decimal
from fractions import Fraction

from .values import Name, Odd

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
EVIDENCE = os.path.join(HERE, 'evidence')
CASE_SECONDS = 30          # watchdog per case; a hang is confirmed by a second, longer run
HANG_SECONDS = 75
BUDGET = {'quick': 240, 'thorough': 1500}   # seconds after which no further case is begun


class Hang(BaseException):
    pass


class Rec:
    """What the monitors observed."""

    def __init__(self):
        self.events = {}
        self.buckets = {}
        self.states = set()
        self.nontrivial = False

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def bucket(self, name, n=1):
        self.buckets[name] = self.buckets.get(name, 0) + n

    def state(self, x):
        self.states.add(hash(x) & 0xffffffffffff)


class Check:
    pid = None
    level = 'exploration'
    technique = 'runtime monitoring: reference-model monitor over randomised histories (public API, lockstep)'
    rule = ''
    note = ''
    assumptions = ()
    required = ()            # buckets without which a run is inconclusive
    quick = 400              # number of cases
    thorough = 8000
    chunk = 10
    shrink_fields = ('ops',)

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, case, rec):
        raise NotImplementedError


# ---------------------------------------------------------------- one case
def _alarm(signum, frame):
    raise Hang()


def run_case(check, case, rec, seconds=CASE_SECONDS):
    """None when the property held on this case, otherwise what was seen."""
    from .execute import Violation
    random.seed(12345)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        check.run(case, rec)
        return None
    except Violation as e:
        return str(e)
    except Hang:
        return 'HANG'
    except RecursionError as e:
        return 'library call raised RecursionError: %s' % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        lib = [f for f in tb if f.filename.startswith(REPO)]
        if not lib:
            if isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)):
                # never on an answer of the documented shape
                return ('monitor could not read the library\'s answer: %s: %s (in %s)'
                        % (type(e).__name__, str(e)[:200], tb[-1].name))
            raise
        site = lib[-1]
        return 'library call raised %s: %s (in %s)' % (type(e).__name__, str(e)[:200], site.name)
    finally:
        signal.alarm(0)


def case_rng(seed, pid, i):
    return random.Random('%s/%s/%s' % (seed, pid, i))


def digest(case):
    return hashlib.sha1(repr(case).encode('utf8', 'surrogatepass')).hexdigest()[:16]


_CHECK = None
_SEED = None
_TIER = None
_LINES = set()


def _watch_lines():
    """Record which lines of the library ran (each line reports once; near-zero cost)."""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))    # a runaway library call fails, not the machine
    except (ValueError, OSError):
        pass
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, 'verif')
    except ValueError:
        return

    prefix = REPO + '/dynetworkx/'

    def on_line(code, line):
        if code.co_filename.startswith(prefix):
            _LINES.add((code.co_filename[len(prefix):], code.co_qualname, line))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, on_line)
    mon.set_events(3, mon.events.LINE)


def _work(span):
    lo, hi = span
    out = {'n': 0, 'nontrivial': set(), 'events': {}, 'buckets': {}, 'states': set(), 'samples': [],
           'bad': None, 'lines': set(), 'cases': set()}
    for i in range(lo, hi):
        case = _CHECK.gen(case_rng(_SEED, _CHECK.pid, i), i, _TIER)
        rec = Rec()
        msg = run_case(_CHECK, case, rec)
        if msg == 'HANG':
            msg = run_case(_CHECK, case, Rec(), HANG_SECONDS)
            if msg == 'HANG':
                msg = 'a library call did not return within %d s' % HANG_SECONDS
        out['n'] += 1
        d = digest(case)
        out['cases'].add(d)
        if rec.nontrivial:
            out['nontrivial'].add(d)
        for k, v in rec.events.items():
            out['events'][k] = out['events'].get(k, 0) + v
        for k, v in rec.buckets.items():
            out['buckets'][k] = out['buckets'].get(k, 0) + v
        out['states'] |= rec.states
        if rec.nontrivial and len(out['samples']) < 1:
            s = repr(case)
            if len(s) < 1500:
                out['samples'].append(s)
        if msg is not None:
            out['bad'] = (i, repr(case), msg)
            break
    out['lines'] = set(_LINES)
    _LINES.clear()
    return out


# ---------------------------------------------------------------- replay files
def ev(text):
    """Cases are literals plus frozenset, inf, fractions, dates and names."""
    return eval(text, {'__builtins__': {}}, {'datetime': datetime, 'Fraction': Fraction, 'Decimal': Decimal, 'Name': Name, 'Odd': Odd, 'frozenset': frozenset, 'inf': float('inf'), 'set': set, 'nan': float('nan')})


def write_replay(check, case, msg, seed, tier):
    d = os.path.join(EVIDENCE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (check.pid, digest(case)))
    with open(path, 'w') as f:
        json.dump({'property': check.pid, 'seed': seed, 'tier': tier, 'message': msg, 'case': repr(case),
                   'replay_with': 'cd /verif && ./check %s --replay %s' % (check.pid, os.path.relpath(path, HERE))},
                  f, indent=1)
    return os.path.relpath(path, HERE)


# ---------------------------------------------------------------- shrinking
def _kind_of(msg):
    """Mechanism of a message: its text without the values."""
    return re.sub(r'[^A-Za-z ]+', '', msg.split('(')[0])[:60]


def shrink(check, case, msg, budget=25.0):
    """Delete elements of the case's lists while it still fails the same way."""
    t0 = time.time()
    kind = _kind_of(msg)

    def fails(c):
        if time.time() - t0 > budget:
            return None
        try:
            m = run_case(check, c, Rec(), 10)
        except Exception:
            return None
        if m is not None and m != 'HANG' and _kind_of(m) == kind:
            return m
        return None
    best, best_msg = case, msg
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for field in check.shrink_fields:
            xs = best.get(field)
            if not isinstance(xs, list):
                continue
            size = max(1, len(xs) // 2)
            while size >= 1:
                i = 0
                while i < len(best[field]):
                    c = dict(best)
                    c[field] = best[field][:i] + best[field][i + size:]
                    m = fails(c)
                    if m is not None:
                        best, best_msg, changed = c, m, True
                    else:
                        i += size
                    if time.time() - t0 > budget:
                        break
                size //= 2
    return best, best_msg


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    """Unrepaired findings listed for a property: (case digest text, mechanism regex, description)."""
    path = os.path.join(HERE, 'known-findings.json')
    with open(path) as f:
        data = json.load(f)
    return [k for k in data['findings'] if k['property'] == pid]


# ---------------------------------------------------------------- one check
def run_check(check, tier, seed, workers=None, scale=1.0, quiet=False):
    global _CHECK, _SEED, _TIER
    t0 = time.time()
    _CHECK, _SEED, _TIER = check, seed, tier
    n = int((check.quick if tier == 'quick' else check.thorough) * scale) or 1
    workers = workers or min(8, os.cpu_count() or 4)
    chunk = check.chunk if tier == 'quick' else check.chunk * 4
    spans = [(lo, min(n, lo + chunk)) for lo in range(0, n, chunk)]
    total = {'n': 0, 'nontrivial': set(), 'events': {}, 'buckets': {}, 'states': set(), 'samples': [],
             'lines': set(), 'cases': set()}
    bad = []
    known = known_findings(check.pid)
    known_seen = {}
    ctx = mp.get_context('fork')
    with ctx.Pool(workers, initializer=_watch_lines) as pool:
        results = pool.imap_unordered(_work, spans)
        while True:
            try:
                out = results.next(timeout=600)
            except StopIteration:
                break
            total['n'] += out['n']
            for k in ('nontrivial', 'states', 'lines', 'cases'):
                total[k] |= out[k]
            for k in ('events', 'buckets'):
                for a, b in out[k].items():
                    total[k][a] = total[k].get(a, 0) + b
            if time.time() - t0 > BUDGET[tier]:
                total['stopped'] = True
            if len(total['samples']) < 3:
                total['samples'] += out['samples'][:3 - len(total['samples'])]
            if out['bad']:
                hit = [k for k in known if re.search(k['mechanism'], out['bad'][2])]
                if hit:
                    known_seen[hit[0]['id']] = hit[0]
                    continue
                bad.append(out['bad'])
                pool.terminate()
                break
            if total.get('stopped'):
                pool.terminate()
                break
    for k in known:
        # the listed inputs themselves are tried on every run
        case = ev(k['case'])
        msg = run_case(check, case, Rec())
        if msg is not None and re.search(k['mechanism'], msg):
            known_seen[k['id']] = k
        elif msg is not None:
            bad.append((-1, k['case'], msg))
    for k in known_seen.values():
        print('KNOWN-FINDING: property=%s %s' % (check.pid, k['what']))
    rc = 0
    replay = None
    if bad:
        i, text, msg = bad[0]
        case = ev(text)
        small, smsg = shrink(check, case, msg)
        replay = write_replay(check, small, smsg, seed, tier)
        print('VIOLATION property=%s replay=%s' % (check.pid, replay))
        print('  ' + smsg)
        rc = 1
    missing = [b for b in check.required if not total['buckets'].get(b)]
    if rc == 0 and (missing or not total['nontrivial']):
        print('INCONCLUSIVE property=%s: not reached: %s' % (check.pid, missing or 'any non-trivial case'))
        rc = 2
    wall = time.time() - t0
    write_evidence(check, tier, seed, total, len(bad), wall, replay, bool(missing), n)
    if not quiet:
        print('%s %s: %d cases (%d distinct non-trivial), %d states, %.1f s, %s'
              % (check.pid, tier, total['n'], len(total['nontrivial']), len(total['states']), wall,
                 {0: 'held', 1: 'VIOLATED', 2: 'inconclusive'}[rc]))
    return rc


def write_evidence(check, tier, seed, total, nbad, wall, replay, inconclusive, planned):
    files = {}
    for f, q, line in total['lines']:
        files.setdefault(f, [set(), set()])
        files[f][0].add(line)
        if '<' not in q:
            files[f][1].add(q)
    doc = {
        'property': check.pid, 'tier': tier, 'seed': seed, 'level': check.level,
        'coverage': {
            'evaluations': total['n'],
            'distinct_nontrivial': len(total['nontrivial']),
            'rule': check.rule,
            'samples': total['samples'] or ['(no non-trivial case short enough to print)'],
            'planned_cases': planned,
            'stopped_by_time': bool(total.get('stopped')),
            'distinct_cases': len(total['cases']),
            'distinct_states_observed': len(total['states']),
            'monitor_events': dict(sorted(total['events'].items())),
            'situations_reached': dict(sorted(total['buckets'].items())),
            'situations_required': list(check.required),
            'library_lines_executed': {f: len(v[0]) for f, v in sorted(files.items())},
            'library_functions_entered': sorted({q for v in files.values() for q in v[1]}),
            'inconclusive': inconclusive,
        },
        'assumptions': list(check.assumptions),
        'wall_s': round(wall, 2),
        'violations': nbad,
    }
    if replay:
        doc['replay'] = replay
    os.makedirs(EVIDENCE, exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=EVIDENCE)
    with os.fdopen(fd, 'w') as f:
        json.dump(doc, f, indent=1, sort_keys=False, default=str)
    os.chmod(tmp, 0o644)
    os.replace(tmp, os.path.join(EVIDENCE, check.pid + '.json'))


def replay(check, path):
    with open(path) as f:
        doc = json.load(f)
    case = ev(doc['case'])
    msg = run_case(check, case, Rec(), HANG_SECONDS)
    if msg is None:
        print('replay: the property held on this case')
        return 0
    print('VIOLATION property=%s replay=%s' % (check.pid, path))
    print('  ' + msg)
    return 1
