"""C30: deleting an interpreter frees all it allocated, and repeated work does not grow it: the allocator is asked before and after.
The scripts are those the generators of the other checks make (their results are judged there); here only memory is looked at."""
import importlib, re
from vt.core import Check, Violation, Discard, Inconclusive
from vt.js import X, expect, show, UNPRIV


class Captured(Exception): pass


class XC(X):
    def __init__(self, w):
        X.__init__(self, w, user=UNPRIV)
        self.capture = False
        self.unit = None

    def run(self, script, flags=0, tmo=60):
        if self.capture: raise Captured(script)
        return X.run(self, script, flags, tmo)

    def cli(self, *a, **k):
        if self.capture: raise Discard()
        return X.cli(self, *a, **k)


def mk(w): return XC(w)


DEL = [(5, 'C02'), (5, 'C03'), (5, 'C04'), (3, 'C05'), (4, 'C06'), (3, 'C07'), (3, 'C08'), (1, 'C09'), (3, 'C10'), (3, 'C11'), (3, 'C12'), (2, 'C13'), (3, 'C16'), (2, 'C17'), (3, 'C18'), (2, 'C19'), (5, 'C20'), (8, 'C21'), (3, 'C24'), (6, 'C26'), (4, 'C27'), (6, 'C29'), (4, 'C34')]
GROW = [(5, 'C04'), (3, 'C06'), (3, 'C07'), (3, 'C08'), (2, 'C09'), (3, 'C10'), (3, 'C11'), (3, 'C12'), (2, 'C13'), (3, 'C16'), (3, 'C20'), (6, 'C21'), (3, 'C27')]
# not judged: threads; texts whose values contain themselves; functions made within functions (kept with the scope they are in)
SKIP = {('C18', 'threads'), ('C29', 'errors after')}
SKIPG = {('C20', 'script functions'), ('C21', 'histories'), ('C21', 'functions and hooks')}


def script(c, x, table, skip):
    pid = c.weighted(table)
    m = importlib.import_module('checks.' + pid.lower())
    ps = [p for p in m.PROPS] if hasattr(m, 'PROPS') else m.CHECK.props
    p = c.pick([p for p in ps if (pid, p[0]) not in skip])
    c.rendered = None
    x.capture = True
    keep = (c.ncases, set(c.keys), dict(c.labels), list(c.samples), dict(c.excluded))
    try:
        p[1](c, x)
        raise Discard()
    except Captured as e: s = e.args[0]
    finally:
        x.capture = False
        c.ncases, c.keys, c.labels, c.samples, c.excluded = keep
    return pid, p[0], s if isinstance(s, bytes) else s.encode('utf8', 'surrogateescape')


def leaks(x, s):
    r = x.run(s, 2, 90)
    m = re.findall(rb'LEAK (-?\d+) (-?\d+) (-?\d+)', r.out)
    if r.killed or not m: raise Inconclusive('no measure')
    return [int(v) for v in m[-1]]


def selfref(s): return b'o.o=o' in s.replace(b' ', b'') or b'6f2e6f203d206f' in s


def p_delete(c, x):
    """an interpreter is made, runs a script and is deleted, five times"""
    pid, nm, s = script(c, x, DEL, SKIP)
    if selfref(s): raise Discard()
    c.case(s, len(s) > 150)
    c.label(pid)
    if not c.rendered: c.rendered = show(s)
    c.sample(c.rendered)
    if x.unit is None: x.unit = leaks(x, b'1;')[0]
    v = leaks(x, s)
    if min(v) > x.unit:
        raise Violation('%s bytes are kept after each interpreter is deleted (%s %s)\n%s' % ([k - x.unit for k in v], pid, nm, c.rendered))


def growth(x, s):
    w = b'var zzS=rawstr("%s"); var zzm=[0,0,0,0,0,0,0,0]; for (var zzi=0; zzi<7; zzi++) { zzm[zzi]=liveBytes(); try { eval(zzS); } catch(zze) { zze=0; } } zzm[7]=liveBytes(); puts("GROW "+zzm.join(" "));' % s.hex().encode()
    r = x.run(w, 0, 60)
    m = re.findall(rb'GROW ([\d ]+)', r.out)
    if r.killed or not m: raise Inconclusive('no measure')
    v = [int(k) for k in m[-1].split()]
    return [v[i + 1] - v[i] for i in range(7)][3:]


def p_growth(c, x):
    """a text is evaluated seven times in one interpreter"""
    pid, nm, s = script(c, x, GROW, SKIP | SKIPG)
    if selfref(s) or b'liveBytes' in s: raise Discard()
    c.case(s, len(s) > 150)
    c.label(pid)
    if not c.rendered: c.rendered = show(s)
    c.sample(c.rendered)
    if not hasattr(x, 'fun'): x.fun = growth(x, b'function zzf() { return 1; }')[0]     # what the text of a function takes
    g = min(growth(x, s))
    nf = len(re.findall(rb'function|=>|\bget\b|\bset\b', s))
    if g > 0 and (g % x.fun or g // x.fun > nf):
        raise Violation('each evaluation keeps %d bytes more (%s %s; a function takes %d)\n%s' % (g, pid, nm, x.fun, show(s)))


def P(s):
    def f(x):
        u, v = leaks(x, b'1;')[0], leaks(x, s)
        if min(v) > u: raise Violation('%s bytes kept after deletion\n%s' % (v, show(s)))
    return f


def G(s):
    def f(x):
        g = min(growth(x, s))
        if g > 0: raise Violation('each evaluation keeps %d bytes\n%s' % (g, show(s)))
    return f


DEEP = b'function pr(q) { return {"":q}; } var l = null; for (var k = 0; k < 5000; k++) { l = pr(l); } '
PROBES = [
    ('deep-stringify', P(DEEP + b'try { JSON.stringify(l); } catch(e) { 1; } l = null;')),
    ('deep-tostring', P(DEEP + b'try { l.toString(); } catch(e) { 1; } l = null;')),
    ('keys-refused', P(b'Interp.conf({maxArrayList:1000}); var o = {}; for (var k = 0; k < 1010; k++) { o["k" + k] = k; } try { Object.keys(o); } catch(e) { 1; }')),
    ('deep-call', P(DEEP + b'var i = new Interp(); i.eval("function f(x) { return 1; }"); try { i.call("f", [l], true); } catch(e) { 1; } try { i.call("f", [l]); } catch(e) { 1; } l = null;')),
    ('deep-alias', P(DEEP + b'var i = new Interp(); i.alias("g", function(x) { return 1; }, null); i.eval("function f() { " + \'var l = null; for (var k = 0; k < 5000; k++) { l = {"":l}; } try { g(l); } catch(e) { 1; } l = null; \' + "}"); i.eval("f();"); l = null;')),
    ('tempfile-refused', P(b'var i = new Interp({isSafe:true}); try { i.eval("File.tempfile(\\"/etc/zzXXXXXX\\");"); } catch(e) { 1; }')),
    ('sqlite-refused', P(b'try { new Sqlite("/nonexistent/zz"); } catch(e) { 1; }')),
    ('case-syntax', P(b'try { eval("switch (1) { case 2: emit(1); case 3+4: x = 3 } z z"); } catch(e) { 1; } try { eval("switch (1) { default: emit(1); case 3: x = [1] z }"); } catch(e) { 1; }')),
    ('error-midway', P(b'emit("z"); try { eval("emit(\\"z\\", nosuch());"); } catch(e) { 1; } try { eval("emit(\\"z\\"); emit(\\"z\\", nosuch());"); } catch(e) { 1; }')),
    ('error-grows', G(b'try { eval("emit(\\"z\\", [1,2,nosuch2()]);"); } catch(e) { 1; }')),
    ('glob-dirfilter', P(b'File.glob("*.zz", {dir:"/usr/include", recurse:true, dirFilter:function(f) { return false; }});')),
]
CHECK = Check('C30', mk, [
    ('delete', p_delete, {'quick': 6000, 'thorough': 120000}),
    ('growth', p_growth, {'quick': 4000, 'thorough': 80000}),
], 'scripts of the generators of the other checks (more than 150 bytes)', probes=PROBES)
