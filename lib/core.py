"""Runner of the property checks: generation (Hypothesis), shrinking, replay, evidence.

A property module (``props/cNN.py``) defines::

    PID = 'C01'
    RULE = 'what makes a case non-trivial'
    PARTS = [Part(name, gen, check, quick, thorough), ...]
    ASSUMPTIONS = [...]            # optional

``gen(g)`` builds a *case* (plain data) from the primitives of :class:`G`.
``check(case)`` raises :class:`Violation` or returns ``(nontrivial, labels)``.
"""
import ast
import collections
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import hypothesis                                                   # noqa: E402
import hypothesis.strategies as st                                  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings          # noqa: E402
import hypothesis.internal.conjecture.engine as _engine             # noqa: E402

_engine.MAX_SHRINKING_SECONDS = 25

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The harness itself is wrong; never a violation."""


class Hang(KeyboardInterrupt):
    """A case did not complete in CASE_SECONDS (ordinary cases take milliseconds)."""


CASE_SECONDS = 60


def _on_alarm(*_):
    raise Hang()


def guarded(check, case):
    """Run a check under the watchdog."""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_SECONDS)
    try:
        return check(case)
    finally:
        signal.alarm(0)


def sut(what, func, *args, **kwargs):
    """Call the code under test; an unexpected exception is a violation."""
    try:
        return func(*args, **kwargs)
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:                                      # noqa: B902
        if type(e).__module__.startswith('hypothesis'):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if REPO in f.filename]
        where = '%s:%s' % (os.path.basename(last[-1].filename), last[-1].name) \
            if last else '?'
        raise Violation('%s raised %s at %s: %s' %
                        (what, type(e).__name__, where, str(e)[:300])) from e


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(what, expected, actual):
    if expected != actual:
        raise Violation('%s\n  expected: %r\n  actual:   %r' %
                        (what, expected, actual))


# ------------------------------------------------------------------ generator

_INT = {}


def _int_strategy(lo, hi):
    s = _INT.get((lo, hi))
    if s is None:
        s = _INT[(lo, hi)] = st.integers(lo, hi)
    return s


class G:
    """Drawing primitives; everything goes through Hypothesis integers, small = simple."""

    def __init__(self, draw):
        self._draw = draw

    def int(self, lo, hi):
        if lo == hi:
            return lo
        return self._draw(_int_strategy(lo, hi))

    def bool(self, percent=50):
        return self.int(0, 99) >= 100 - percent

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first is the simplest."""
        total = sum(w for w, _ in pairs)
        x = self.int(0, total - 1)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        raise HarnessError('weighted')

    def call(self, pairs):
        return self.weighted(pairs)()

    def list(self, f, lo, hi):
        return [f() for _ in range(self.int(lo, hi))]

    def some(self, seq, percent=50):
        return [x for x in seq if self.bool(percent)]

    def sample(self, seq, k):
        """k distinct elements in random order."""
        pool = list(seq)
        out = []
        for _ in range(min(k, len(pool))):
            out.append(pool.pop(self.int(0, len(pool) - 1)))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    def string(self, alphabet, lo, hi):
        return ''.join(self.choice(alphabet) for _ in range(self.int(lo, hi)))

    def bytes(self, lo, hi):
        return self._draw(st.binary(min_size=lo, max_size=hi))

    def text(self, lo, hi):
        """Arbitrary Unicode (no surrogates)."""
        return self._draw(st.text(min_size=lo, max_size=hi))


class Part:
    def __init__(self, name, gen, check, quick, thorough=None, pinned=()):
        self.name = name
        self.gen = gen
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.pinned = list(pinned)


# ------------------------------------------------------------------ execution

HISTORY = 30


def _seed_int(*parts):
    h = hashlib.sha256('|'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class _Run:
    def __init__(self):
        self.n = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failing = None
        self.history = collections.deque(maxlen=HISTORY)
        self.fail_history = None
        self.first_failing = None


class _Again(Exception):
    """Hypothesis saw a generator behave differently on the same choices; draw other cases instead."""


def _run_part(part, n, seed, run):
    def one(case):
        run.n += 1
        try:
            r = guarded(part.check, case)
        except Hang:
            run.failing = (part.name, case, 'not completed in %d s' % CASE_SECONDS)
            raise
        except (Violation, TypeError, AttributeError, LookupError, ValueError, ArithmeticError) as e:
            if not isinstance(e, Violation):
                # What came out could not even be read.
                tb = traceback.extract_tb(e.__traceback__)[-1]
                e = Violation('what came out could not be understood: %s at %s:%d: %s' % (
                    type(e).__name__, os.path.basename(tb.filename), tb.lineno, str(e)[:300]))
            run.failing = (part.name, case, str(e))
            if run.first_failing is None:
                run.first_failing = run.failing
                run.fail_history = list(run.history)
            raise e
        run.history.append(case)
        nontrivial, labels = r if r is not None else (True, ())
        if nontrivial:
            key = hashlib.blake2b(repr(case).encode('utf-8', 'replace'),
                                  digest_size=8).digest()
            if key not in run.nontrivial:
                run.nontrivial.add(key)
                if len(run.samples) < 3 and len(run.nontrivial) % 7 == 3:
                    run.samples.append('%s: %s' % (part.name, repr(case)[:1500]))
        for lab in labels:
            run.labels[part.name + ':' + lab] += 1

    strategy = st.composite(lambda draw: part.gen(G(draw)))()

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None,
              suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink],
              report_multiple_bugs=False, print_blob=False)
    @given(strategy)
    def test(case):
        one(case)

    for case in part.pinned:
        one(case)
    if n <= 0:
        return
    try:
        test()
    except Violation:
        raise
    except BaseException as e:                                      # noqa: B902
        if run.first_failing is not None and \
                type(e).__name__ in ('FlakyFailure', 'Flaky', 'FlakyReplay',
                                     'FlakyStrategyDefinition'):
            run.failing = run.first_failing
            raise Violation(run.first_failing[2] +
                            '\n  (depends on what was checked before; '
                            'the replay file holds the history)') from e
        if run.first_failing is None and type(e).__name__ == 'FlakyStrategyDefinition':
            raise _Again() from e
        raise


def _worker(mod_name, tier, seed, index, nworkers, queue, only):
    import importlib
    run = _Run()
    outcome = ('ok', None)
    try:
        mod = importlib.import_module(mod_name)
        for part in mod.PARTS:
            if only and part.name not in only:
                continue
            total = part.quick if tier == 'quick' else part.thorough
            n = total // nworkers + (1 if index < total % nworkers else 0)
            if index != 0:
                part.pinned = []
            if n == 0 and not part.pinned:
                continue
            run.history.clear()
            for attempt in range(4):
                try:
                    _run_part(part, n, _seed_int(seed, mod.PID, part.name, index if not attempt else '%d/%d' % (index, attempt)), run)
                    break
                except _Again:
                    if attempt == 3:
                        raise
    except Violation as e:
        name, case, _ = run.failing
        hist = run.fail_history if 'depends on what was checked' in str(e) else None
        outcome = ('violation', (name, case, str(e), hist))
    except Hang:
        outcome = ('violation', run.failing + (None,))
    except BaseException:                                           # noqa: B902
        outcome = ('error', traceback.format_exc() +
                   ('\nlast failing: %r' % (run.failing,) if run.failing else ''))
    queue.put((index, outcome, run.n, run.nontrivial, run.labels, run.samples))


def _load_known(pid):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['known'] if k['property'] == pid]


def write_replay(pid, name, case, message, history=None):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    doc = {'property': pid, 'part': name, 'case': case, 'message': message,
           'history': history}
    text = repr(doc)
    path = os.path.join(d, '%s-%s.txt' %
                        (pid, hashlib.sha256(text.encode('utf-8', 'replace')).hexdigest()[:10]))
    with open(path, 'w', encoding='utf-8', errors='backslashreplace') as f:
        f.write('# replay with: /opt/venv/bin/python %s/run.py %s --replay %s\n' %
                (ROOT, pid, path))
        for line in message.splitlines():
            f.write('# ' + ascii(line)[1:-1] + '\n')
        f.write(ascii(doc) + '\n')
    return path


def read_replay(path):
    with open(path, encoding='utf-8') as f:
        text = ''.join(line for line in f if not line.startswith('#'))
    return ast.literal_eval(text)


def check_import():
    import httpolice
    where = os.path.realpath(httpolice.__file__)
    if not where.startswith(REPO + '/'):
        raise HarnessError('httpolice comes from %s, not from %s' % (where, REPO))


def main(mod_name, argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--part', action='append')
    ap.add_argument('--scale', type=float, default=1)
    args = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED') or '1')
    check_import()
    mod = importlib.import_module(mod_name)
    pid = mod.PID
    parts = {p.name: p for p in mod.PARTS}

    if args.replay:
        doc = read_replay(args.replay)
        try:
            for case in doc.get('history') or []:
                parts[doc['part']].check(case)
            r = guarded(parts[doc['part']].check, doc['case'])
        except Hang:
            print('not completed in %d s' % CASE_SECONDS)
            print('VIOLATION property=%s replay=%s' % (pid, args.replay))
            return 1
        except (Violation, TypeError, AttributeError, LookupError, ValueError, ArithmeticError) as e:
            print(str(e).encode('utf-8', 'replace').decode())
            print('VIOLATION property=%s replay=%s' % (pid, args.replay))
            return 1
        print('held on this case: %r' % (r,))
        return 0

    if args.scale != 1:
        for p in mod.PARTS:
            p.quick = int(p.quick * args.scale)
            p.thorough = int(p.thorough * args.scale)
    started = time.time()

    # Listed findings: pinned inputs that really fail and are not repaired.
    for k in _load_known(pid):
        doc = ast.literal_eval(k['case'])
        try:
            parts[k['part']].check(doc)
        except Violation as e:
            if k['match'] in str(e):
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            else:
                path = write_replay(pid, k['part'], doc, str(e))
                print(str(e)[:2000])
                print('VIOLATION property=%s replay=%s' % (pid, path))
                return 1

    ctx = multiprocessing.get_context('fork')
    queue = ctx.Queue()
    procs = [ctx.Process(target=_worker,
                         args=(mod_name, args.tier, seed, i, args.workers,
                               queue, args.part), daemon=True)
             for i in range(args.workers)]
    for p in procs:
        p.start()
    total, nontrivial, labels, samples = 0, set(), collections.Counter(), []
    violations, errors = [], []
    pending = len(procs)
    deadline = None
    while pending:
        import queue as q
        try:
            (_, outcome, n, nt, labs, smp) = queue.get(timeout=5)
        except q.Empty:
            if deadline is not None and time.time() > deadline:
                break
            dead = [p for p in procs if p.exitcode not in (None, 0)]
            if dead:
                errors.append('worker died with exit code %r' %
                              [p.exitcode for p in dead])
                break
            continue
        pending -= 1
        total += n
        nontrivial |= nt
        labels.update(labs)
        samples.extend(smp)
        if outcome[0] == 'violation':
            violations.append(outcome[1])
            # Others may still be shrinking another one; one is enough.
            deadline = time.time()
            break
        if outcome[0] == 'error':
            errors.append(outcome[1])
    for p in procs:
        if p.is_alive():
            p.terminate()
    for p in procs:
        p.join(5)

    wall = time.time() - started
    evidence = {
        'property': pid,
        'tier': 'thorough' if args.tier == 'thorough' else 'quick',
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': sorted(samples)[:12],
            'labels': dict(sorted(labels.items())),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 1),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    if violations:
        name, case, message, hist = violations[0]
        path = write_replay(pid, name, case, message, hist)
        print('[%s] %s' % (name, message[:3000].encode('utf-8', 'replace').decode()))
        print('case: ' + ascii(case)[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        sys.stderr.write('harness error:\n%s\n' % errors[0])
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %.1f s' %
          (pid, total, len(nontrivial), wall))
    return 0
