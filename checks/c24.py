"""C24: timers, update and signals on a virtual clock; a model follows the trace of callbacks."""
import re
from vt.core import Check, Violation
from vt.js import X, jsstr, expect, same, conv, show, UNPRIV

SIGS = ['SIGUSR1', 'SIGUSR2', 'SIGWINCH', 'SIGHUP', 'SIGURG']


def mk(w): return X(w, user=UNPRIV)


class Bad(Exception): pass


class Gen:
    """labels 0..n-1: what each creates is fixed, so that every label is one event"""
    def __init__(self, c):
        self.c = c
        self.n = 0
        self.acts = {}           # (label, k-th call) -> actions
        self.kind = {}           # label -> ('once'|'every', ms) or ('sig', name)
        self.depth = {}

    def new(self, lev):
        c = self.c
        l = self.n
        self.n += 1
        if c.bool(22): self.kind[l] = ('sig', c.pick(SIGS))
        else: self.kind[l] = (c.pick(['once', 'every', 'every']), c.weighted([(6, c.int(1, 300)), (3, c.pick([0, 1, 2, 10, 50, 100, 250, 500, 999, 1000, 1001])), (1, c.int(300, 3000))]))
        for k in c.pick([[1], [1, 2], [2], [1, 3], [1, 2, 4], []]):
            if lev < 3 and self.n < 14: self.acts[l, k] = self.actions(lev + 1, True)
        return l

    def actions(self, lev, incb):
        c = self.c
        out = []
        for _ in range(c.size(0, 3) if incb else c.int(3, 12)):
            k = c.weighted([(5, 'make'), (4, 'clear'), (3, 'adv'), (3 if incb else 9, 'update'), (2, 'info'), (1, 'names'), (3, 'raise'), (1, 'resched')])
            if k == 'make' and self.n < 14: out.append(('make', self.new(lev)))
            elif k == 'clear': out.append(('clear', c.int(0, 14)))
            elif k == 'adv': out.append(('adv', c.pick([1, 5, 20, 100, 300, 999, 1000, 1500, c.int(1, 2500)])))
            elif k == 'update':
                o = {}
                if c.bool(75): o['minTime'] = c.weighted([(2, 0), (5, c.int(1, 400)), (4, c.int(400, 2500))])
                if incb: o['minTime'] = min(o.get('minTime', 0), 150)
                if c.bool(15): o['maxPasses'] = c.int(1, 20)
                if c.bool(15): o['maxEvents'] = c.int(0, 5)
                if c.bool(15): o['sleep'] = c.pick([1, 2, 7, 50, 100, 1000, 1200])
                if 'maxPasses' in o and o.get('minTime') and c.bool(10): o['minTime'] = -1
                form = 'obj' if set(o) - {'minTime'} or c.bool(30) else ('num' if 'minTime' in o else 'none')
                out.append(('update', o, form))
            elif k == 'info': out.append(('info', c.int(0, 14)))
            elif k == 'names': out.append(('names',))
            elif k == 'raise':
                s = [v[1] for v in self.kind.values() if v[0] == 'sig']
                if s: out.append(('raise', c.pick(s), c.int(1, 3)))
        if incb and c.bool(8): out.append(('throw',))
        return out

    def js(self, acts, ind=''):
        out = []
        for a in acts:
            k = a[0]
            if k == 'make':
                l = a[1]
                q, v = self.kind[l]
                e = 'Signal.callback(f%d, "%s")' % (l, v) if q == 'sig' else '%s(f%d, %d)' % (self.c.pick(['setTimeout', 'Event.setTimeout'] if q == 'once' else ['setInterval', 'Event.setInterval']), l, v)
                out.append('if (ids[%d] === null) { ids[%d] = %s; %semit("M", ids[%d]); } else emit("m");' % (l, l, e, 'H.%s = 1; ' % v if q == 'sig' else '', l))
            elif k == 'clear': out.append('if (ids[%d] === null) emit("c"); else try { %s(ids[%d]); emit("C"); } catch(e) { emit("E"); }' % (a[1], self.c.pick(['clearInterval', 'Event.clearInterval']), a[1]))
            elif k == 'adv': out.append('vclock(vclock()+%d);' % a[1])
            elif k == 'update':
                o = a[1]
                t = {'none': '', 'num': str(o.get('minTime')), 'obj': '{%s}' % ', '.join('%s:%d' % z for z in o.items())}[a[2]]
                out.append('emit("U"); var r_ = 0; r_ = %s(%s); emit("u", r_, vclock());' % (self.c.pick(['update', 'Event.update']), t))
            elif k == 'info': out.append('emit("I", ids[%d] === null ? 0 : Info.event(ids[%d]));' % (a[1], a[1]))
            elif k == 'names': out.append('emit("N", %s());' % self.c.pick(['Event.names', 'Info.event']))
            elif k == 'raise': out.extend(['if (H.%s) Signal.kill(Util.getpid(), "%s");' % (a[1], a[1])] * a[2])
            elif k == 'throw': out.append('throw "thrown";')
        return ''.join(ind + o + '\n' for o in out)


class Model:
    def __init__(self, g, start, trace):
        self.g, self.now, self.t, self.i = g, start, trace, 0
        self.ev = {}             # id -> dict
        self.ids = {}
        self.maxid = 0
        self.pend, self.hand = set(), set()
        self.calls = {}
        self.fires = 0
        self.p0s = []

    def peek(self): return self.t[self.i] if self.i < len(self.t) else None

    def take(self, want=None):
        if self.i >= len(self.t): raise Bad('output ends, expected %r' % (want,))
        v = self.t[self.i]
        self.i += 1
        if want is not None and not same(v, conv(want)): raise Bad('output %d is %r, expected %r at time %d' % (self.i - 1, v, want, self.now))
        return v

    def due(self, e):
        if e['busy']: return False
        if e['sig']: return e['sig'] in self.pend
        return e['when'] <= self.cur

    def run(self, acts):
        """returns False if it threw"""
        for a in acts:
            k = a[0]
            if k == 'make':
                l = a[1]
                if l in self.ids:
                    self.take('m')
                    continue
                self.take('M')
                i = self.take()
                if not isinstance(i, float) or i != int(i) or i in self.ev: raise Bad('bad event id %r' % (i,))
                i = int(i)
                q, v = self.g.kind[l]
                self.ids[l] = i
                self.maxid = max(self.maxid, i)
                self.ev[i] = {'l': l, 'sig': v if q == 'sig' else None, 'init': v, 'when': self.now + (v if q != 'sig' else 0), 'once': q == 'once', 'busy': False, 'count': 0}
                if q == 'sig': self.hand.add(v)
            elif k == 'clear':
                if a[1] not in self.ids: self.take('c')
                elif self.ids[a[1]] in self.ev:
                    self.take('C')
                    del self.ev[self.ids[a[1]]]
                else: self.take('E')
            elif k == 'adv': self.now += a[1]
            elif k == 'raise':
                if a[1] in self.hand: self.pend.add(a[1])
            elif k == 'info':
                self.take('I')
                i = self.ids.get(a[1])
                if i is None: self.take(0)
                elif i not in self.ev: self.take()
                else:
                    e = self.ev[i]
                    want = {'type': 'signal', 'count': e['count'], 'builtin': False, 'busy': e['busy']}
                    got = self.take()
                    if e['sig'] is None:
                        want.update({'type': 'timer', 'once': e['once'], 'initial': e['init']})
                        if not e['busy']: want['when'] = e['when'] - self.now
                    g = {k.decode('latin1') if isinstance(k, bytes) else k: v for k, v in dict(got).items()} if isinstance(got, dict) else {}
                    for k in want:
                        if k not in g or not same(g[k], conv(want[k])): raise Bad('Info.event: %r is %r, expected %r' % (k, g.get(k), want[k]))
            elif k == 'names':
                self.take('N')
                got = self.take()
                if sorted(got) != sorted(map(float, self.ev)): raise Bad('names are %r, expected %r' % (got, sorted(self.ev)))
            elif k == 'update': self.update(a[1])
            elif k == 'throw': return False
        return True

    def update(self, o):
        self.take('U')
        start = self.now
        cnt = n = 0
        mx = o.get('maxEvents', -1)
        mt = o.get('minTime', 0)
        while 1:
            cnt += self.once(mx - cnt if mx >= 0 else -1)
            if mx >= 0 and cnt >= mx: break
            if mt == 0 or mt > 0 and self.now - start >= mt: break
            n += 1
            if o.get('maxPasses') and n >= o['maxPasses']: break
            self.now += o.get('sleep', 1)
        self.take('u')
        self.take(cnt)
        self.take(self.now)

    def once(self, mx):
        """one pass over the events"""
        cur, top = self.now, self.maxid
        seen = set()
        cnt = 0
        p0 = set(self.pend)
        self.p0s.append(p0)
        try: return self.once_(mx, cur, top, seen, cnt, p0)
        finally: self.p0s.pop()

    def once_(self, mx, cur, top, seen, cnt, p0):
        while 1:
            self.cur = cur
            v = self.peek()
            if not (isinstance(v, bytes) and v[:1] == b'F'): break
            l = int(v[1:])
            i = self.ids.get(l)
            e = self.ev.get(i)
            if e is None: raise Bad('callback of %d called which is cleared, done or not made' % l)
            if i > top or i in seen or not self.due(e) or self.t[self.i + 1:self.i + 2] != [float(self.now)]: break
            self.i += 1
            seen.add(i)
            self.take(self.now)
            if e['sig']:
                self.pend.discard(e['sig'])
                for z in self.p0s: z.discard(e['sig'])
            e['busy'] = True
            e['count'] += 1
            cnt += 1
            self.fires += 1
            k = self.calls[l] = self.calls.get(l, 0) + 1
            if self.run(self.g.acts.get((l, k), [])): self.take('f')
            if self.ev.get(i) is e:
                e['busy'] = False
                if e['once']: del self.ev[i]
                elif e['sig'] is None: e['when'] = cur + e['init']
            if mx >= 0 and cnt >= mx: return cnt
        self.cur = cur
        for i, e in self.ev.items():
            if i <= top and i not in seen and self.due(e) and (not e['sig'] or e['sig'] in p0):
                raise Bad('event %r (label %d) was due at %d and not called by %d; next output %r' % (e, e['l'], e['when'], cur, self.peek()))
        return cnt


def p_events(c, x):
    """timers, cleared and made at any time, update with options, signals, errors"""
    g = Gen(c)
    main = [('make', g.new(0)) for _ in range(c.int(0, 3))] + g.actions(0, False)
    if not any(a[0] == 'update' for a in main): main.append(('update', {'minTime': c.int(1, 600)}, 'num'))
    start = c.pick([1000000, 1000001, 1000999, 1000500, c.int(1000000, 1001000), 1700000000000])
    J = 'vclock(%d);\nvar H = {%s}, ids = [%s], K = [%s];\n' % (start, ', '.join('%s:0' % z for z in SIGS), ','.join(['null'] * 15), ','.join(['0'] * 15))
    for l in range(g.n):
        J += 'function f%d() {\nemit("F%d", vclock()); K[%d]++;\n' % (l, l, l)
        for (q, k), acts in sorted(g.acts.items()):
            if q == l and acts: J += 'if (K[%d] == %d) {\n%s}\n' % (l, k, g.js(acts, '  '))
        J += 'emit("f");\n}\n'
    J += g.js(main) + 'emit("END");\n'
    c.rendered = J
    r = x.js(J, 1)
    if r.crashed or r.killed or r.rc: raise Violation('script did not complete: %s\n%s' % (r.summary(), J))
    m = Model(g, start, r.vals())
    try:
        m.run(main)
        m.take('END')
        if m.peek() is not None: raise Bad('more output: %r' % m.peek())
    except Bad as e:
        raise Violation('%s\n--- script\n%s--- output\n%s\n%s' % (e, J, r.out[:6000].decode(), show(r.err[:500])))
    c.case(J, m.fires >= 3)
    for a in main: c.label(a[0])
    c.label('calls>=%d' % min(m.fires // 10 * 10, 50))
    if any(a[0] == 'throw' for v in g.acts.values() for a in v): c.label('throw')


def p_long(c, x):
    """many timers of one period each over a long time: each is called as often as its period fits"""
    n = c.size(1, 60)
    P = [c.pick([7, 10, 13, 50, 100, 333, 999, 1000, 1001, 2500, 60000, 86400000, c.int(5, 5000)]) for _ in range(n)]
    T = c.pick([1000, 5000, 20000, c.int(500, 40000)])
    sl = c.pick([1, 1, 3, 10, 100, 700])
    step = c.pick([0, 0, 200])
    start = c.pick([1000000, 1000937, 1700000000999])
    J = 'vclock(%d, %d); var N = [%s], L = [%s], w = 0, now = 0;\n' % (start, step, ','.join('0' * n), ','.join([str(start)] * n))
    J += 'function mk(i, ms) { setInterval(function() { now = vclock(); if (now-L[i] < ms-%g) emit("early", i, now-L[i]); L[i] = now; N[i]++; }, ms); }\n'
    slack = sl + step * (n + 4) * 3 / 1000.0 + 1
    J = J.replace('%g', str(step * (n + 4) * 3 / 1000.0))
    J += ''.join('mk(%d, %d);\n' % z for z in enumerate(P))
    J += 'var t0 = vclock(), r = update({minTime:%d, sleep:%d}); emit(vclock()-t0, r, N);' % (T, sl)
    c.case(J, n > 3)
    c.rendered = J
    got = x.vals(J)
    if len(got) != 3: raise Violation('a timer was called early: %r\n%s' % (got[:6], J))
    el, r, N = got
    if not T <= el <= T + slack: raise Violation('update of %d ms took %r\n%s' % (T, el, J))
    if r != sum(N): raise Violation('update returned %r but %r calls were made\n%s' % (r, sum(N), J))
    for p, k in zip(P, N):
        # each period takes at least p and at most p rounded up to the next check
        lo, hi = int(el // (p + slack)), int(el // max(p, 1)) + 1
        if not lo <= k <= hi: raise Violation('timer of %d ms was called %r times in %r ms (expected %d to %d)\n%s' % (p, k, el, lo, hi, J))


def p_sub(c, x):
    """timers of sub-interps run by their own update; deleting an interp or ending with timers pending is clean"""
    n = c.int(1, 3)
    J = 'vclock(1000000);\n'
    want = []
    J += 'var top = 0; setInterval(function() { top++; }, 100);\n'
    for i in range(n):
        ms, T = c.pick([10, 50, 100, 250]), c.int(1, 800)
        J += 'var i%d = new Interp(); i%d.eval("var k = 0; setInterval(function() { k++; }, %d); setTimeout(function() { k += 1000; }, %d);");\n' % (i, i, ms, 2 * ms)
        J += 'i%d.eval("update(%d)"); emit(i%d.eval("k"), top);\n' % (i, T, i)
        # on a virtual clock with a check every ms, intervals fire every ms
        want += [T // ms + (1000 if T >= 2 * ms else 0), 0]
        if c.bool(30):
            J += 'delete i%d;\n' % i
    k = c.int(0, 3)
    if k == 1: J += 'setTimeout(function() { emit("cb"); }, 1); update(5);\n'; want += [b'cb']
    elif k == 2: J += 'var q = new Interp(); q.eval("var self = 1; setTimeout(function() { self = 2; }, 10);"); update(50); emit(q.eval("self")); q.eval("update(20)"); emit(q.eval("self"));\n'; want += [1, 2]
    c.case(J, True)
    c.rendered = J
    r = x.js(J, 1, ok=True)
    got = r.vals()
    if len(got) != len(want) or not all(same(a, conv(b)) for a, b in zip(got, want)): raise Violation('got %r want %r\n%s' % (got, want, J))


def p_exit(c, x):
    """exit, errors and quit from a callback; a program waiting with update ends with that code"""
    code = c.pick([0, 1, 2, 3, 17, 127])
    ms = c.int(0, 8)
    kind = c.pick(['exit', 'exit', 'signal', 'clear'])
    J = 'var n = 0;\n'
    if kind == 'exit': J += 'setInterval(function() { n++; puts("tick "+n); if (n == %d) exit(%d); }, %d);\nwhile (1) { update(%d); }\n' % (c.int(1, 4), code, ms, c.pick([-1, 5, 0]) or 1)
    elif kind == 'signal': J += 'Signal.callback(function() { puts("sig"); exit(%d); }, "SIGUSR1"); setTimeout(function() { Signal.kill(Util.getpid(), "USR1"); }, %d); update(-1);\n' % (code, ms)
    else: J += 'var id = setInterval(function() { if (++n == 3) { clearInterval(id); setTimeout(function() { puts("done"); exit(%d); }, %d); } }, 1); update(-1); puts("not reached");\n' % (code, ms)
    f = x.tmp + '/ex.jsi'
    open(f, 'w').write(J)
    import os
    os.chmod(f, 0o644)
    c.case(J, True)
    c.rendered = J
    r = x.cli([f])
    o = r.stdout.decode()
    n = re.search(r'n == (\d)\) exit', J)
    w = {'exit': ''.join('tick %d\n' % (i + 1) for i in range(int(n.group(1)))) if n else '', 'signal': 'sig\n', 'clear': 'done\n'}[kind]
    if r.returncode != code or o != w: raise Violation('exit code %d output %r, want %d %r\n%s\n%s' % (r.returncode, o, code, w, J, r.stderr.decode('utf8', 'replace')[:500]))


def P(js, *want): return lambda x: expect(x, js, list(want))


PROBES = [
    ('own-clear', P('vclock(1000000); var id = setInterval(function() { clearInterval(id); emit("a"); }, 10); emit(update(100));', 'a', 1)),
    ('other-clear', P('vclock(1000000); var a, b; var id = setInterval(function() { clearInterval(id2); emit("a"); }, 10); var id2 = setTimeout(function() { emit("b"); }, 10); emit(update(15));', 'a', 1)),
    ('second-boundary', P('vclock(1000800); emit(update(500)); emit(vclock());', 0, 1001300)),
    ('full-second', P('vclock(1000900); setTimeout(function() { emit("x"); }, 100); emit(update());', 0)),
    ('max-events', P('vclock(1000000); setInterval(function() { emit(1); }, 10); emit(update({minTime:1000, maxEvents:2}));', 1, 1, 2)),
]
CHECK = Check('C24', mk, [
    ('events', p_events, {'quick': 6000, 'thorough': 120000}),
    ('long', p_long, {'quick': 150, 'thorough': 1500}),
    ('sub', p_sub, {'quick': 400, 'thorough': 4000}),
    ('exit', p_exit, {'quick': 150, 'thorough': 1200}),
], 'histories of making, clearing, updating, raising, advancing the clock, at top level and in callbacks (at least 3 callbacks); sets of periodic timers (more than 3); sub-interps; exit codes', probes=PROBES)
