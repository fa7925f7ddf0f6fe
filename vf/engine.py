"""A small property-based testing engine.

* Every random decision goes through a `Src`, which records it as an integer.
  A case is therefore a pure function of (VERIF_SEED, property, part, shard,
  index), and of the recorded choices, which is what shrinking works on.
* Cases are JSON values; a replay file holds the (shrunk) case itself, so a
  replay bypasses the generators.
* The work is split over a fixed number of shards (so results do not depend on
  the number of cores) run by a process pool.
* Exceptions raised by the code under test are violations; exceptions raised by
  the harness are errors of the check (exit 2).
"""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SHARDS = 16
CASE_CPU = 20          # CPU seconds one case may use (typical: milliseconds)
MEM = 3 << 30          # address space of one worker


class Violation(Exception):
    """The property does not hold on this case."""


class Skip(Exception):
    """The case is outside the property's domain (counted, with a reason)."""


class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout()


def arm(seconds):
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def disarm():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def sut(f, *a, **k):
    """Call the code under test: whatever it raises is a violation."""
    try:
        return f(*a, **k)
    except (Violation, Skip):
        raise
    except Exception as e:       # Timeout is a BaseException: passes through
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%s' % (os.path.basename(t.filename), t.name)
                            for t in reversed(tb[-3:]))
        raise Violation('raised %s: %s (%s)' % (type(e).__name__,
                                                str(e)[:200], where))


class Src(object):
    """Source of choices."""

    def __init__(self, rng=None, replay=None):
        self.rng = rng
        self.replay = replay
        self.log = []

    def below(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.replay is not None:
            k = len(self.log)
            v = self.replay[k] if k < len(self.replay) else 0
            if v >= n:
                v = n - 1
        else:
            v = int(self.rng.random() * n)
        self.log.append(v)
        return v

    def int(self, lo, hi):
        """An integer in [lo, hi]."""
        return lo + self.below(hi - lo + 1)

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def chance(self, num, den=100):
        """True with probability num/den; shrinks to False."""
        return self.below(den) >= den - num

    def weighted(self, table):
        """table: [(weight, value)]; shrinks towards the first entry."""
        total = sum(w for w, _ in table)
        v = self.below(total)
        for w, x in table:
            v -= w
            if v < 0:
                return x
        return table[-1][1]

    def small(self, hi):
        """A small-biased integer in [0, hi]."""
        n = 0
        while n < hi and self.below(3) == 2:
            n += 1
        return n

    def text(self, alphabet, lo, hi):
        return ''.join(self.pick(alphabet) for _ in range(self.int(lo, hi)))

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class Stat(object):
    """What a case was: class labels and non-triviality."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, name):
        self.labels.append(name)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


QUICK = 3      # multiplies the counts of the quick tier
# and once more where a case costs little
MORE = {'C04': 2, 'C05': 2, 'C06': 4, 'C07': 4, 'C09': 3, 'C10': 2, 'C13': 4,
        'C14': 4, 'C15': 3, 'C16': 2, 'C17': 2, 'C23': 4, 'C25': 2, 'C27': 2,
        'C29': 3}


class Part(object):
    """One generated check: gen(src) -> case (JSON), check(case, stat)."""

    def __init__(self, name, gen, check, quick, thorough, rule,
                 text_shrink=None, size=None, cpu=CASE_CPU, enum=None,
                 deep=False):
        self.name = name
        self.gen = gen
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.text_shrink = text_shrink   # (get, set) or True when case is str
        self.cpu = cpu
        self.deep = deep    # the oracle may recurse as deep as the case
        self.enum = enum    # enum(tier) -> list/sequence of cases, exhaustive


class Prop(object):
    def __init__(self, pid, parts, assumptions=()):
        self.pid = pid
        self.parts = parts
        self.assumptions = list(assumptions)


def run_case(part, case, cpu=None):
    """(message or None, Stat, skip reason or None)."""
    st = Stat()
    cpu = cpu or part.cpu
    if part.deep:
        sys.setrecursionlimit(40000)
    arm(cpu)
    try:
        try:
            part.check(case, st)
            return None, st, None
        finally:
            disarm()
            if part.deep:
                sys.setrecursionlimit(1000)
    except Violation as e:
        return str(e), st, None
    except Skip as e:
        return None, st, str(e) or 'skip'
    except Timeout:
        return 'no answer after %d CPU-seconds' % cpu, st, None
    except MemoryError:
        return 'ran out of memory (%d GB)' % (MEM >> 30), st, None
    except RecursionError if part.deep else Timeout:
        return None, st, 'too deep for the oracle'
    except Exception as e:
        # what came out is of a form that no result should have
        where = traceback.extract_tb(e.__traceback__)[-1]
        return 'unusable result: %s: %s (%s, line %d)' % (
            type(e).__name__, e, os.path.basename(where.filename),
            where.lineno), st, None


# ------------------------------------------------------------- shrinking

_stop = mp.get_context('fork').Value('i', 0)    # slow violations found


def shrink(part, log, case, msg, budget=25.0):
    if 'no answer after' in msg or 'out of memory' in msg:
        # every attempt is slow: shrink with a lower limit, and keep the
        # result only if it exceeds the real one, too
        if _stop.value > 1:
            return case, msg
        with _stop.get_lock():
            _stop.value += 1
        quick = min(part.cpu, 4)
        small, m = shrink_with(part, log, case, msg, 60.0, quick)
        if small != case:
            m, _, _ = run_case(part, small)
            if m is not None:
                return small, m
        return case, msg
    return shrink_with(part, log, case, msg, budget, None)


def shrink_with(part, log, case, msg, budget, cpu):
    t0 = time.process_time()

    def left():
        return time.process_time() - t0 < budget

    def attempt(replay):
        s = Src(replay=replay)
        try:
            c = part.gen(s)
        except Exception:
            return None
        m, _, skip = run_case(part, c, cpu)
        if m is None:
            return None
        return s.log, c, m

    best = (list(log or []), case, msg)
    if part.gen is not None and log is not None:
        improved = True
        while improved and left():
            improved = False
            size = max(1, len(best[0]) // 2)
            while size >= 1 and left():
                i = 0
                while i < len(best[0]) and left():
                    cand = best[0][:i] + best[0][i + size:]
                    r = attempt(cand)
                    if r and (len(r[0]), sum(r[0])) < \
                            (len(best[0]), sum(best[0])):
                        best = r
                        improved = True
                    else:
                        i += size
                size //= 2
            i = 0
            while i < len(best[0]) and left():
                v = best[0][i]
                for nv in sorted({0, v // 2, v - 1}):
                    if 0 <= nv < v:
                        r = attempt(best[0][:i] + [nv] + best[0][i + 1:])
                        if r and (len(r[0]), sum(r[0])) < \
                                (len(best[0]), sum(best[0])):
                            best = r
                            improved = True
                            break
                i += 1
    case, msg = best[1], best[2]
    if part.text_shrink:
        if part.text_shrink is True:
            get, put = (lambda c: c), (lambda c, t: t)
        else:
            get, put = part.text_shrink
        text = get(case)
        size = max(1, len(text) // 2)
        while size >= 1 and left():
            i, hit = 0, False
            while i < len(text) and left():
                cand = text[:i] + text[i + size:]
                m, _, skip = run_case(part, put(case, cand), cpu)
                if m is not None:
                    text, msg, hit = cand, m, True
                else:
                    i += size
            if not hit or size > 1:
                size //= 2
        case = put(case, text)
    return case, msg


# ------------------------------------------------------------- running

_prop = None      # set before the pool forks


def _worker(args):
    part_i, shard, tier, seed, count = args
    part = _prop.parts[part_i]
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    if soft == resource.RLIM_INFINITY or soft > MEM:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, hard))
    sys.setrecursionlimit(1000)
    res = {'part': part_i, 'shard': shard, 'n': 0, 'skip': {}, 'labels': {},
           'nt': set(), 'samples': [], 'bad': None, 'ntn': 0}
    try:
        if part.enum is not None:
            cases = part.enum(tier)
            idx = range(shard, len(cases), SHARDS)
        else:
            cases = None
            idx = range(count)
        for i in idx:
            if _stop.value:
                break
            if cases is not None:
                case, log = cases[i], None
            else:
                rng = random.Random('%s/%s/%s/%d/%d' % (
                    seed, _prop.pid, part.name, shard, i))
                src = Src(rng)
                case = part.gen(src)
                log = src.log
            msg, st, skip = run_case(part, case)
            res['n'] += 1
            if skip is not None:
                res['skip'][skip] = res['skip'].get(skip, 0) + 1
                continue
            for l in st.labels:
                res['labels'][l] = res['labels'].get(l, 0) + 1
            if st.nontrivial:
                h = hashlib.blake2b(
                    json.dumps(case, sort_keys=True).encode('utf-8',
                                                            'surrogatepass'),
                    digest_size=8).digest()
                res['nt'].add(h)
                res['ntn'] += 1
                if len(res['samples']) < 2 and (i % 7 == shard % 7):
                    res['samples'].append(case)
            if msg is not None:
                case, msg = shrink(part, log, case, msg)
                res['bad'] = (case, msg)
                break
        return res
    except Exception:
        res['error'] = traceback.format_exc()
        return res


def known_findings(pid):
    """[(key, text)] listed for this property."""
    out = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(line.rstrip('\n'))
    return out


def _clip(x):
    s = json.dumps(x, ensure_ascii=True, sort_keys=True)
    return s if len(s) <= 400 else s[:400] + '... (%d chars)' % len(s)


def write_replay(pid, part, case, msg):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': pid, 'part': part.name, 'case': case, 'message': msg}
    blob = json.dumps(body, indent=1, sort_keys=True)
    h = hashlib.sha1(blob.encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s-%s.json' % (pid, part.name, h))
    with open(path, 'w') as f:
        f.write(blob + '\n')
    return path


def write_import_failure(pid, text):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-import.json' % pid)
    with open(path, 'w') as f:
        json.dump({'property': pid, 'part': 'import', 'case': None,
                   'message': text}, f)
    return path


def run(prop, tier, seed, only=None, scale=1.0):
    global _prop
    _prop = prop
    t0 = time.time()
    jobs = []
    for pi, part in enumerate(prop.parts):
        if only and part.name not in only:
            continue
        total = part.quick * QUICK * MORE.get(prop.pid, 1) \
            if tier == 'quick' else part.thorough
        if part.enum is not None:
            if total == 0:
                continue
            for sh in range(SHARDS):
                jobs.append((pi, sh, tier, seed, 0))
        else:
            total = int(total * scale)
            per = max(1, -(-total // SHARDS)) if total else 0
            for sh in range(SHARDS):
                if per:
                    jobs.append((pi, sh, tier, seed, per))
    results = []
    errors = []
    workers = int(os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 4)
    ctx = mp.get_context('fork')
    stop_parts = set()
    with cf.ProcessPoolExecutor(workers, mp_context=ctx) as ex:
        futs = [ex.submit(_worker, j) for j in jobs]
        for f in cf.as_completed(futs):
            if f.cancelled():
                continue
            r = f.result()
            if 'error' in r:
                errors.append(r['error'])
            results.append(r)
            if r['bad'] and not stop_parts:
                stop_parts.add(r['part'])
                for g in futs:
                    g.cancel()
    results.sort(key=lambda r: (r['part'], r['shard']))
    bads = []
    cov_parts = []
    total = nt_total = 0
    samples = []
    for pi, part in enumerate(prop.parts):
        rs = [r for r in results if r['part'] == pi]
        if not rs:
            continue
        n = sum(r['n'] for r in rs)
        nt = set().union(*[r['nt'] for r in rs])
        labels, skips = {}, {}
        for r in rs:
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in r['skip'].items():
                skips[k] = skips.get(k, 0) + v
        total += n
        nt_total += len(nt)
        ss = [s for r in rs for s in r['samples']][:3]
        samples += [{'part': part.name, 'case': _clip(s)} for s in ss]
        cov_parts.append({'part': part.name, 'evaluations': n,
                          'distinct_nontrivial': len(nt), 'rule': part.rule,
                          'classes': dict(sorted(labels.items())),
                          'excluded': dict(sorted(skips.items()))})
        bad = [r['bad'] for r in rs if r['bad']]
        if bad:
            bad.sort(key=lambda b: len(json.dumps(b[0])))
            bads.append((part, bad[0][0], bad[0][1]))
    lines = []
    for part, case, msg in bads:
        path = write_replay(prop.pid, part, case, msg)
        lines.append({'property': prop.pid, 'part': part.name,
                      'message': msg[:2000], 'case': _clip(case),
                      'replay': path})
        print('VIOLATION property=%s replay=%s' % (prop.pid, path))
        print('  part %s: %s' % (part.name, msg[:1500]))
        print('  case: %s' % _clip(case))
    known = known_findings(prop.pid)
    for k in known:
        print(k)
    write_evidence(prop, tier, seed, cov_parts, total, nt_total, samples,
                   lines, known, time.time() - t0)
    for c in cov_parts:
        print('%s/%s: %d cases, %d distinct non-trivial, excluded %s' % (
            prop.pid, c['part'], c['evaluations'], c['distinct_nontrivial'],
            c['excluded'] or 'none'))
    print('%s %s: %d cases in %.1f s' % (prop.pid, tier, total,
                                         time.time() - t0))
    if bads:
        return 1
    if errors:
        sys.stderr.write('HARNESS ERROR\n' + errors[0])
        return 2
    return 0


def write_evidence(prop, tier, seed, parts, total, nt_total, samples, bads,
                   known, wall):
    ev = {
        'property': prop.pid,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': nt_total,
            'rule': '; '.join('%s: %s' % (p['part'], p['rule'])
                              for p in parts),
            'samples': samples[:24],
            'parts': parts,
        },
        'assumptions': prop.assumptions + known,
        'wall_s': round(wall, 2),
        'violations': len(bads),
        'violation_details': bads,
    }
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')


def replay(prop, path):
    body = json.load(open(path))
    part = [p for p in prop.parts if p.name == body['part']][0]
    msg, st, skip = run_case(part, body['case'])
    if msg is not None:
        print('VIOLATION property=%s replay=%s' % (prop.pid, path))
        print('  ' + msg)
        return 1
    print('no violation' + (' (skipped: %s)' % skip if skip else ''))
    return 0
