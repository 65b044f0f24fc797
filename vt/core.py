"""Choice-sequence property-based testing core: generation, shrinking, replay, evidence.

A property is a function  prop(c, x):  `c` hands out every random choice (and records it), `x`
executes things against the tree under test.  It raises Violation(msg) when the oracle disagrees.
A failing run is identified by its list of choices, so shrinking = deleting/lowering choices and
replaying = feeding the same list again; nothing else is random.
"""
import os, sys, json, time, hashlib, random, signal, traceback, multiprocessing as mp, queue as _q

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class Discard(Exception):
    """The drawn case is outside the domain (counted, never a verdict)."""


class Inconclusive(Exception):
    """Environment trouble (wall-clock timeout and the like): never a verdict."""


class Choices:
    def __init__(self, seed=None, replay=None):
        self.rec = []
        self.replay = replay
        self.pos = 0
        self.rng = random.Random(seed) if replay is None else None
        self.ncases = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.rendered = None
        self.excluded = {}

    # --- drawing ------------------------------------------------------------------------
    def _draw(self, n, gen=None):
        """integer in [0,n)"""
        if n <= 1:
            n = 1
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n:
                v = n - 1
        else:
            v = gen() if gen else int(self.rng.random() * n) if n < (1 << 50) else self.rng.randrange(n)
            if v >= n:
                v = n - 1
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self._draw(hi - lo + 1)

    def size(self, lo, hi):
        """Length in [lo,hi], skewed to small."""
        span = hi - lo + 1
        return lo + self._draw(span, lambda: int(span * self.rng.random() ** 2))

    def bool(self, pct=50):
        """True with probability pct%; shrinks to False."""
        return self._draw(100, lambda: int(self.rng.random() * 100)) >= 100 - pct

    def pick(self, seq):
        return seq[self._draw(len(seq))]

    def weighted(self, pairs):
        """[(weight, value)...]; shrinks to the first."""
        tot = sum(w for w, _ in pairs)
        r = self._draw(tot)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        return pairs[-1][1]

    def list(self, lo, hi, f):
        return [f() for _ in range(self.size(lo, hi))]

    def perm(self, seq):
        s = list(seq)
        for i in range(len(s) - 1, 0, -1):
            j = i - self._draw(i + 1)
            s[i], s[j] = s[j], s[i]
        return s

    # --- reporting ----------------------------------------------------------------------
    def case(self, key, nontrivial=True, n=1):
        """Count one generated case; `key` identifies it for the distinct count."""
        self.ncases += n
        if nontrivial:
            if not isinstance(key, (bytes, bytearray)):
                key = repr(key).encode('utf8', 'surrogateescape')
            self.keys.add(hashlib.blake2b(key, digest_size=8).digest())

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s if isinstance(s, str) else repr(s))

    def exclude(self, name):
        """Count something left out by construction because of a recorded finding."""
        self.excluded[name] = self.excluded.get(name, 0) + 1


def run_once(prop, x, seed=None, replay=None):
    """-> (choices, failure message or None, kind)"""
    c = Choices(seed=seed, replay=replay)
    try:
        prop(c, x)
        return c, None, 'ok'
    except Violation as e:
        return c, str(e), 'fail'
    except Discard:
        return c, None, 'discard'
    except Inconclusive as e:
        return c, str(e), 'inconclusive'


def shrink(prop, x, choices, budget_s=60, maxruns=2500):
    """Smaller choice list that still fails."""
    best = list(choices)
    msg = None
    t0 = time.time()
    runs = 0
    seen = set()

    def fails(cand):
        nonlocal best, msg, runs
        k = tuple(cand)
        if k in seen or time.time() - t0 > budget_s or runs > maxruns:
            return False
        seen.add(k)
        runs += 1
        try:
            c, m, kind = run_once(prop, x, replay=list(cand))
        except Exception:
            return False
        if kind == 'fail':
            rec = c.rec[:]
            while rec and rec[-1] == 0:
                rec.pop()
            if (len(rec), rec) <= (len(best), best) or m is not None and msg is None:
                best = rec
                msg = m
            return True
        return False

    improved = True
    while improved and time.time() - t0 < budget_s and runs < maxruns:
        improved = False
        before = list(best)
        n = len(best)
        size = max(1, n // 2)
        while size >= 1:                      # delete spans
            i = 0
            while i < len(best):
                if not fails(best[:i] + best[i + size:]):
                    i += size
                if time.time() - t0 > budget_s:
                    break
            size //= 2
        i = 0
        while i < len(best):                  # delete a span and lower a preceding count
            if best[i] > 0:
                for sp in (1, 2, 3, 4, 6, 8):
                    if i + 1 + sp <= len(best):
                        if fails(best[:i] + [best[i] - 1] + best[i + 1 + sp:]):
                            break
            i += 1
            if time.time() - t0 > budget_s:
                break
        i = 0
        while i < len(best):                  # lower values
            if best[i] > 0:
                if not fails(best[:i] + [0] + best[i + 1:]):
                    lo, hi = 0, best[i] if i < len(best) else 0
                    while i < len(best) and hi - lo > 1:
                        mid = (lo + hi) // 2
                        if fails(best[:i] + [mid] + best[i + 1:]):
                            hi = mid
                        else:
                            lo = mid
            i += 1
            if time.time() - t0 > budget_s:
                break
        if best != before:
            improved = True
    return best, msg, runs


def _merge(tot, c):
    tot['evaluations'] += c.ncases
    tot['keys'] |= c.keys
    for k, v in c.labels.items():
        tot['labels'][k] = tot['labels'].get(k, 0) + v
    for k, v in c.excluded.items():
        tot['excluded'][k] = tot['excluded'].get(k, 0) + v
    if c.samples and len(tot['samples']) < 3:
        tot['samples'].extend(c.samples[:1])


def _worker(wid, prop, mkx, seed, ncases, deadline, outq, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    tot = dict(runs=0, evaluations=0, keys=set(), labels={}, excluded={}, samples=[], discards=0, inconclusive=0,
               flaky=[], fail=None, capped=False, error=None)
    x = None
    try:
        x = mkx(wid)
        rng = random.Random('%s/%d' % (seed, wid))
        for i in range(ncases):
            if stop.is_set():
                break
            if time.time() > deadline:
                tot['capped'] = True
                break
            s = rng.getrandbits(62)
            c, m, kind = run_once(prop, x, seed=s)
            tot['runs'] += 1
            if kind == 'discard':
                tot['discards'] += 1
            elif kind == 'inconclusive':
                tot['inconclusive'] += 1
            elif kind == 'ok':
                _merge(tot, c)
            else:
                again = [run_once(prop, x, replay=list(c.rec))[2] for _ in range(3)]
                if again != ['fail'] * 3:
                    tot['flaky'].append(m[:2000])
                    continue
                if stop.is_set():
                    break
                stop.set()
                best, bm, nr = shrink(prop, x, c.rec, budget_s=getattr(x, "shrink_s", 25))
                c2, m2, k2 = run_once(prop, x, replay=list(best))
                if k2 != 'fail':
                    best, m2, c2 = c.rec, m, c
                tot['fail'] = dict(choices=best, message=m2, shrink_runs=nr, orig_len=len(c.rec), rendered=c2.rendered)
                break
    except Exception:
        tot['error'] = traceback.format_exc()
    finally:
        if x is not None:
            x.close()
    outq.put((wid, tot))
    outq.close()
    outq.join_thread()


class Check:
    """One property's check.  props: list of (name, prop function, weight, {tier: cases})."""

    def __init__(self, pid, mkx, props, rule, probes=None, level='exploration', workers=8):
        self.pid, self.mkx, self.props, self.rule = pid, mkx, props, rule
        self.probes = probes or []
        self.level, self.nworkers = level, workers

    def known(self):
        """slugs listed as open findings for this property"""
        d = {}
        p = os.path.join(V, 'known_findings.txt')
        if os.path.exists(p):
            for ln in open(p, encoding='utf8'):
                w = ln.strip().split(None, 3)
                if len(w) == 4 and w[0] == 'finding:' and w[1] == 'property=' + self.pid and w[2].startswith('key='):
                    d[w[2][4:]] = w[3]
        return d

    def write_replay(self, name, obj):
        d = os.path.join(V, 'replays')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:10]
        p = os.path.join(d, '%s-%s-%s.json' % (self.pid, name, h))
        with open(p, 'w') as f:
            json.dump(obj, f, indent=1, default=repr)
            f.write('\n')
        return p

    def main(self, tier, seed, scale=1.0, only=None, max_s=None):
        t0 = time.time()
        max_s = max_s or (300 if tier == 'quick' else 3600)
        known = self.known()
        tot = dict(runs=0, evaluations=0, keys=set(), labels={}, excluded={}, samples=[], discards=0, inconclusive=0,
                   flaky=[], capped=False)
        parts = {}
        viol = None
        errors = []
        # 1. regression probes: fixed defects and recorded findings, each one a specific input
        probe_res = {}
        if self.probes and not only:
            x = self.mkx(99)
            try:
                for slug, fn in self.probes:
                    bad = None
                    for _ in range(3):
                        try:
                            fn(x)
                            bad = None
                            break
                        except Violation as e:
                            bad = str(e)
                        except Inconclusive as e:
                            bad = None
                            tot['inconclusive'] += 1
                            break
                    probe_res[slug] = 'fails' if bad else 'holds'
                    if bad and slug in known:
                        print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, known[slug], slug), flush=True)
                    elif bad and viol is None:
                        p = self.write_replay(slug, dict(property=self.pid, probe=slug, message=bad))
                        viol = (p, 'regression input %s: %s' % (slug, bad))
            finally:
                x.close()
        # 2. generated search
        ctx = mp.get_context('fork')
        for name, fn, counts in self.props:
            if viol:
                break
            if only and name not in only:
                continue
            n = counts.get(tier, 0) if isinstance(counts, dict) else counts
            n = int(n * scale)
            if n <= 0:
                continue
            pt0 = time.time()
            outq = ctx.Queue()
            stop = ctx.Event()
            W = min(self.nworkers, max(1, n))
            deadline = t0 + max_s
            ps = []
            for w in range(W):
                k = n // W + (1 if w < n % W else 0)
                p = ctx.Process(target=_worker, args=(w, fn, self.mkx, '%s/%s/%s' % (seed, self.pid, name), k, deadline, outq, stop))
                p.start()
                ps.append(p)
            got = {}
            while len(got) < W:
                try:
                    wid, r = outq.get(timeout=1)
                    got[wid] = r
                except _q.Empty:
                    if all(not p.is_alive() for p in ps):
                        try:
                            while True:
                                wid, r = outq.get(timeout=0.5)
                                got[wid] = r
                        except _q.Empty:
                            break
                    if time.time() > deadline + 200:
                        break
            for p in ps:
                if p.is_alive():
                    p.terminate()
                p.join(5)
            if len(got) < W:
                errors.append('%s: %d of %d workers gave no result' % (name, W - len(got), W))
            pk = set()
            pr = dict(evaluations=0, runs=0)
            for wid in sorted(got):
                r = got[wid]
                if r['error']:
                    errors.append('%s: worker error\n%s' % (name, r['error']))
                tot['evaluations'] += r['evaluations']
                pr['evaluations'] += r['evaluations']
                pr['runs'] += r['runs']
                tot['runs'] += r['runs']
                pk |= r['keys']
                for k, v in r['labels'].items():
                    tot['labels'][name + ':' + k] = tot['labels'].get(name + ':' + k, 0) + v
                for k, v in r['excluded'].items():
                    tot['excluded'][k] = tot['excluded'].get(k, 0) + v
                tot['discards'] += r['discards']
                tot['inconclusive'] += r['inconclusive']
                tot['flaky'] += r['flaky']
                tot['capped'] |= r['capped']
                if r['samples'] and sum(1 for s in tot['samples'] if s.startswith('[' + name)) < 2:
                    tot['samples'].append('[%s] %s' % (name, r['samples'][0][:1500]))
                if r['fail'] and viol is None:
                    f = r['fail']
                    p = self.write_replay(name, dict(property=self.pid, prop=name, choices=f['choices'], message=f['message'],
                                                     rendered=f['rendered'], shrink_runs=f['shrink_runs'], original_choices=f['orig_len']))
                    viol = (p, '[%s] %s' % (name, f['message']))
            tot['keys'] |= set((name, k) for k in pk)
            pr['distinct_nontrivial'] = len(pk)
            pr['wall_s'] = round(time.time() - pt0, 2)
            parts[name] = pr
        wall = time.time() - t0
        cov = dict(evaluations=tot['evaluations'], distinct_nontrivial=len(tot['keys']), rule=self.rule,
                   samples=tot['samples'] or ['(none)'], runs=tot['runs'], classes=dict(sorted(tot['labels'].items())),
                   discarded=tot['discards'], inconclusive=tot['inconclusive'], not_reproducible=len(tot['flaky']),
                   time_capped=tot['capped'], parts=parts, regression_inputs=probe_res, excluded_known=tot['excluded'])
        ev = dict(property=self.pid, tier=tier, seed=seed, level=self.level, coverage=cov, wall_s=round(wall, 2))
        if tot['flaky']:
            cov['not_reproducible_samples'] = tot['flaky'][:3]
        if viol:
            ev['violation'] = dict(replay=viol[0], message=viol[1][:4000])
        if errors:
            ev['errors'] = errors
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write('\n')
        print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs%s%s' % (
            self.pid, tier, seed, tot['evaluations'], len(tot['keys']), wall,
            ', %d inconclusive' % tot['inconclusive'] if tot['inconclusive'] else '',
            ', %d not reproducible' % len(tot['flaky']) if tot['flaky'] else ''), flush=True)
        if viol:
            print(viol[1][:6000])
            print('VIOLATION property=%s replay=%s' % (self.pid, viol[0]), flush=True)
            return 1
        if errors:
            print('\n'.join(errors), file=sys.stderr)
            return 2
        if tot['runs'] and tot['inconclusive'] * 5 > tot['runs'] * 2:
            print('too many inconclusive runs', file=sys.stderr)
            return 2
        return 0

    def replay(self, path):
        o = json.load(open(path))
        x = self.mkx(0)
        try:
            if 'probe' in o:
                try:
                    dict(self.probes)[o['probe']](x)
                except Violation as e:
                    print(e)
                    print('VIOLATION property=%s replay=%s' % (self.pid, path))
                    return 1
                return 0
            fn = [f for n, f, _ in self.props if n == o['prop']][0]
            c, m, kind = run_once(fn, x, replay=o['choices'])
            if c.rendered:
                print(c.rendered)
            print(kind, m or '')
            if kind == 'fail':
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                return 1
            return 0
        finally:
            x.close()
