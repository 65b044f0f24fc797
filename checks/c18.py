"""C18: sub-interps.  Oracle: a model in which every interp is a separate set of variables, functions and aliases and every
value which crosses is copied."""
import copy, json
from vt.core import Check, Violation
from vt.js import X, jsstr, raw, show, same, conv, UNDEF, jsnum


def mk(w): return X(w)


def value(c, d=0):
    k = c.int(0, 9 if d < 4 else 5)
    if k == 0: return c.pick([None, True, False])
    if k <= 2: return c.pick([0, 1, -1, 7, 255, 65536, -2147483648, 4294967296, 1e15, 0.5, -0.125, 3.25, 1e21, 1e-7, 123456.789, c.int(-10**6, 10**6), 9007199254740991])
    if k <= 5:
        s = ''.join(c.pick(['a', 'b', 'Z', ' ', '"', "'", '\\', '\n', '\t', '/', '\u00e9', '\u2665', '%', '$', '{', ']', ',', '0']) for _ in range(c.size(0, 8)))
        if c.bool(4): s *= c.pick([30, 300, 5000])
        return s
    n = c.size(0, 4)
    if c.bool(3) and d == 0: n = c.pick([30, 200, 999])
    if k <= 7: return [value(c, d + 1 if n < 9 else 9) for _ in range(n)]
    return {c.pick(['a', 'b', 'c', 'key', 'a b', '', '1', '"', 'é', 'x_y']) + (str(i) if n > 9 else ''): value(c, d + 1 if n < 9 else 9) for i in range(n)}


def js(v):
    if v is None: return 'null'
    if v is True: return 'true'
    if v is False: return 'false'
    if isinstance(v, (int, float)): return jsnum(v)
    if isinstance(v, str): return jsstr(v)
    if isinstance(v, list): return '[' + ','.join(js(e) for e in v) + ']'
    return '({' + ','.join(jsstr(k) + ':' + js(e) for k, e in v.items()) + '})'


def js_(v):
    s = js(v)
    return s


PRE = ('var V = []; var a = null, b = null, d = null; function echo(x) { return x; } function put(x) { V.push(x); return V.length; } function two(x,y) { return {x:x, y:y, n:arguments.length}; }'
       'function thr(x) { throw x; } function cat(x,y) { return ""+x+"|"+y; } function incr(x) { a = x; return a; } function deep(n) { if (n > 0) { return deep(n-1); } throw "deep"; } function vars() { return [a,b,d,V]; }')


class I:
    def __init__(self, path):
        self.path, self.v, self.V, self.al, self.alive, self.mod = path, {'a': None, 'b': None, 'd': None}, [], {}, True, set()


def wrap(path, code):
    """an expression which evaluates code in the interp of path"""
    for n in reversed(path): code = '%s.eval(%s)' % (n, jsstr(code))
    return code


def p_model(c, x):
    """histories of eval, call, value, alias, delete over a tree of interps"""
    main = I(())
    its = [main]
    L = ['Interp.conf({maxInterpDepth:20});', PRE, 'var G = []; function pecho(x) { G.push(x); return x; } function pair(x,y) { G.push([x,y]); return [y,x]; } function three(x,y,z) { G.push([x,y,z]); x = 5; return {p:z}; } function pthr(x) { G.push(x); throw "parent"; } ']
    # variables of the parent functions exist in the main interp only
    G = []
    want, lab = [], set()
    cnt = [0]

    def ev(i, code): return wrap(i.path, code)

    def emit(code, w, what):
        L.append('try { emit(%s); } catch(ex) { emit("<error>"); }' % code)
        want.append((w, what))

    def err(code, what):
        L.append('try { %s; emit("ok"); } catch(ex) { emit("<error>"); }' % code)
        want.append(('<error>', what))

    ncross = 0
    for _ in range(c.int(3, 14) if c.bool(40) else c.size(4, 45)):
        alive = [i for i in its if i.alive]
        k = c.int(0, 25)
        i = c.pick(alive)
        if k <= 3 and len([a for a in alive if a is not main]) < 6:
            p = i
            if len(p.path) > 3: continue
            n = 'i%d' % cnt[0]
            cnt[0] += 1
            s = I(p.path + (n,))
            o = c.pick(['', '', '{}', '{name:"%s"}' % n, '{scriptStr:%s}' % jsstr(PRE)])
            L.append(ev(p, 'var %s=new Interp(%s);' % (n, o)) + ';')
            if 'scriptStr' not in o: L.append(ev(s, PRE) + ';')
            its.append(s)
            continue
        if k <= 6:
            v, n = value(c), c.pick('abd')
            L.append(ev(i, '%s = %s; 0;' % (n, js(v))) + ';')
            i.v[n] = v
        elif k <= 9:
            n = c.pick('abd')
            if i.path:
                # the value got is a copy
                w = copy.deepcopy(i.v[n])
                mut = c.pick(['', 'r.push("mut")', 'r["mut"] = 1', 'r[0] = "mut"', 'delete r.a'])
                if isinstance(w, list) and mut.startswith('delete'): mut = ''
                if isinstance(w, dict) and mut.startswith(('r.push', 'r[0')): mut = ''
                if not isinstance(w, (list, dict)): mut = ''
                L.append('var r = %s;' % ev(i, n))
                if mut:
                    L.append(mut + ';')
                    lab.add('mutated copy')
                L.append('emit(%s);' % ev(i, n))
                want.append((w, 'the variable %s of %s' % (n, i.path)))
            else: emit(n, copy.deepcopy(i.v[n]), 'the variable %s of the main interp' % n)
            ncross += 1
        elif k <= 13 and i.path:
            # call from the parent, which itself may be nested
            f = c.pick(['echo', 'echo', 'put', 'two', 'cat', 'thr', 'incr', 'deep', 'nosuch', 'vars'])
            par = [j for j in its if j.path == i.path[:-1]][0]
            A = [value(c) for _ in range(2 if f in ('two', 'cat') else 0 if f == 'vars' else 1)]
            if f == 'cat': A = [c.pick(['x', 'y z', 'é"', 5, True]) for _ in A]
            if f == 'deep': A = [c.int(0, 20)]
            code = '%s.call(%s, %s, true)' % (i.path[-1], jsstr(f), js(A))
            w = None
            if f == 'echo': w = A[0]
            elif f == 'put':
                i.V.append(A[0])
                w = len(i.V)
            elif f == 'two': w = {'x': A[0], 'y': A[1], 'n': 2}
            elif f == 'cat': w = '%s|%s' % tuple('true' if a is True else a for a in A)
            elif f == 'incr': w = i.v['a'] = A[0]
            elif f == 'vars': w = [i.v['a'], i.v['b'], i.v['d'], copy.deepcopy(i.V)]
            if f in ('thr', 'deep', 'nosuch'): err(ev(par, code), 'call of %s in %s' % (f, i.path))
            else: emit(ev(par, code), copy.deepcopy(w), 'call of %s in %s' % (f, i.path))
            ncross += 1
        elif k == 14 and i.path:
            par = [j for j in its if j.path == i.path[:-1]][0]
            n = c.pick(['a', 'b', 'd', 'V', 'novar'])
            code = ev(par, '%s.value(%s)' % (i.path[-1], jsstr(n)))
            if n == 'novar': err(code, 'value of an unknown variable')
            else: emit(code, copy.deepcopy(i.V if n == 'V' else i.v[n]), 'value(%s) of %s' % (n, i.path))
            ncross += 1
        elif k <= 17 and len(i.path) == 1:
            # aliases to functions of the main interp
            n = c.pick(['up', 'up', 'q1', 'echo2'])
            f = c.pick(['pecho', 'pair', 'three', 'pthr', 'cb'])
            if c.bool(15):
                if n not in i.al: continue
                L.append('%s.alias(%s, null, null);' % (i.path[0], jsstr(n)))
                del i.al[n]
                continue
            ar = {'pecho': 1, 'pair': 2, 'three': 3, 'pthr': 1, 'cb': 1}[f]
            pre = [value(c) for _ in range(c.int(0, ar - 1))]
            if f == 'cb': fn = 'function(s) { return %s.call("put", [s], true); }' % i.path[0]
            else: fn = f
            L.append('%s.alias(%s, %s, %s);' % (i.path[0], jsstr(n), fn, js(pre) if pre or c.bool(70) else 'null'))
            i.al[n] = (f, pre, ar)
            if f == 'cb': lab.add('re-entrant alias')
        elif k <= 22 and i.path and i.al:
            n = c.pick(sorted(i.al))
            f, pre, ar = i.al[n]
            A = [value(c) for _ in range(ar - len(pre))]
            T = copy.deepcopy(pre + A)
            call = '%s(%s)' % (n, ', '.join(js(a) for a in A))
            if f == 'pthr':
                G.append(T[0])
                if c.bool(50): err(ev(i, call), 'an alias whose function throws')
                else: emit(ev(i, 'var rr = ""; try { %s; } catch(ex) { rr = "caught"; }; rr' % call), 'caught', 'an alias whose function throws, caught in the sub-interp')
            else:
                if f == 'pecho':
                    G.append(T[0])
                    w = T[0]
                elif f == 'pair':
                    G.append(T)
                    w = [T[1], T[0]]
                elif f == 'three':
                    G.append(T)
                    w = {'p': T[2]}
                else:
                    i.V.append(T[0])
                    w = len(i.V)
                if c.bool(50): emit(ev(i, call), copy.deepcopy(w), 'result of the alias %s in %s' % (n, i.path))
                else:
                    # what the sub-interp gets is its own copy
                    L.append(ev(i, 'd = %s; 0;' % call) + ';')
                    i.v['d'] = copy.deepcopy(w)
                    if isinstance(w, dict):
                        L.append(ev(i, 'd.own = 1; 0;') + ';')
                        i.v['d']['own'] = 1
                    emit(ev(i, 'd'), copy.deepcopy(i.v['d']), 'result of the alias %s in %s, kept and changed' % (n, i.path))
            lab.add('alias')
            ncross += 1
        elif k == 23 and i.path:
            err(ev(i, c.pick(['throw "x";', 'nosuch();', 'var z = ;', 'thr("q");', 'deep(9);', 'null.x;', '(', 'V.push(1,2', 'JSON.parse("{");'])), 'an error in %s' % (i.path,))
            lab.add('error')
        elif k == 24 and i.path:
            # things built in
            m = c.pick(['Math.zork = 1;', 'String.prototype.zork = function() { return 1; };', 'Array.prototype.zork = 5;', 'parseInt = function(q) { return "hacked"; };', 'JSON = 5;', 'Math.abs = function(q) { return "hacked"; };', 'Object.prototype.zork = 7;'])
            if 'Object' in m: continue
            m = 'try { %s } catch(ex) { V.length; };' % m
            L.append(ev(i, m + ' 0;') + ';')
            lab.add('built-ins changed')
            i.mod.add(1)
            others = [j for j in its if j.alive and not j.mod]
            j = c.pick(others)
            emit(ev(j, '[parseInt("12"), Math.abs(-2), typeof Math.zork, typeof "".zork, typeof [].zork, JSON.stringify(1)]'), [12, 2, 'undefined', 'undefined', 'undefined', '1'], 'built-ins of %s after a change in %s' % (j.path, i.path))
        elif k == 25 and i.path:
            par = [j for j in its if j.path == i.path[:-1]][0]
            L.append(ev(par, 'delete %s;' % i.path[-1]) + ';')
            for j in its:
                if j.path[:len(i.path)] == i.path: j.alive = False
            err(ev(par, '%s.eval("1")' % i.path[-1]), 'use of a deleted interp')
            lab.add('deleted')
    for i in its:
        if i.alive:
            emit(ev(i, '[a,b,d,V]'), [i.v['a'], i.v['b'], i.v['d'], i.V], 'variables of %s at the end' % (i.path,))
            if len(i.path) == 1 and i.alive: emit('%s.alias()' % i.path[0], sorted(i.al), 'aliases of %s' % (i.path,))
    emit('G', G, 'what the aliased functions of the main interp received')
    src = '\n'.join(L)
    c.case(src, ncross > 2)
    c.rendered = src
    c.label('depth %d' % max(len(i.path) for i in its), *lab)
    got = x.vals(src, flags=1 if c.bool(30) else 0)
    if len(got) != len(want): raise Violation('%d results, expected %d\n%s' % (len(got), len(want), show(src)))
    for g, (w, what) in zip(got, want):
        w = conv(w)
        if what.startswith('aliases') and isinstance(g, list): g = sorted(g)
        if not same(g, w): raise Violation('%s: got %s expected %s\n%s' % (what, show(repr(g)[:600]), show(repr(w)[:600]), show(src)))


def p_async(c, x):
    """call without wait: each call is made once, in order, when events are handled"""
    n = c.int(1, 3)
    L = ['var I=[];']
    for k in range(n):
        L.append('I[%d] = new Interp(); I[%d].eval("var L=[]; function put(x,y) { L.push([x,y]); return 1; }");' % (k, k))
    exp = [[] for _ in range(n)]
    for _ in range(c.size(1, 30)):
        k = c.int(0, n - 1)
        if c.bool(80):
            A = [value(c), value(c)]
            L.append('I[%d].call("put", %s%s);' % (k, js(A), c.pick(['', ', false'])))
            exp[k].append(A)
        else: L.append('update(0);')
    L.append('for (var q=0; q<100; q++) update(0);')
    for k in range(n): L.append('emit(I[%d].eval("L"));' % k)
    src = '\n'.join(L)
    c.case(src, sum(map(len, exp)) > 1)
    c.rendered = src
    got = x.vals(src)
    for k in range(n):
        if k >= len(got) or not same(got[k], conv(exp[k])): raise Violation('interp %d received %s, expected %s\n%s' % (k, show(repr(got)), show(repr(exp[k])), show(src)))


def p_thread(c, x):
    """interps in threads of their own"""
    n = c.int(1, 3)
    L = ['var I=[]; var G=[];']
    for k in range(n):
        L.append('I[%d] = new Interp({subthread:true, scriptStr:%s});' % (k, jsstr('var L=[]; var E=[]; var n=0; var s=""; function put(x,y) { L.push([x,y]); return L.length; } while(1) { update(-1); }')))
    # until the script runs the functions do not exist
    for k in range(n): L.append('while (1) { try { I[%d].call("put", [0,0], true); break; } catch(ex) { sleep(0.002); } };' % k)
    for k in range(n): L.append('I[%d].eval("L=[];");' % k)
    exp = [dict(L=[], E=[], n=0, s='', calls=0) for _ in range(n)]
    want = []
    for _ in range(c.size(1, 25)):
        k = c.int(0, n - 1)
        e = exp[k]
        j = c.int(0, 9)
        if j == 7:
            L.append('I[%d].eval("sleep(%s);", true);' % (k, c.pick(['0.002', '0.01'])))
        elif j >= 8:
            A = [c.int(0, 99), c.pick('xyz')]
            L.append('I[%d].eval(%s, true);' % (k, jsstr('E.push([%s,%s]);' % (js(A[0]), js(A[1])))))
            e['E'].append(A)
        elif j <= 1:
            A = [value(c, 3), value(c, 3)]
            L.append('I[%d].call("put", %s);' % (k, js(A)))
            e['L'].append(A)
        elif j == 2:
            A = c.int(1, 9)
            L.append('I[%d].eval("n+=%d;");' % (k, A))
            e['n'] += A
        elif j == 3:
            t = c.pick('abcd')
            L.append('I[%d].eval("s+=\'%s\';");' % (k, t))
            e['s'] += t
        elif j == 4:
            v = value(c, 3)
            L.append('emit(I[%d].eval(%s));' % (k, jsstr('var tt=%s; tt' % js(v))))
            want.append(v)
        elif j == 5:
            L.append('try { I[%d].eval(%s); emit("ok"); } catch(ex) { emit("<error>"); };' % (k, jsstr(c.pick(['throw "x";', 'nosuch();', 'null.x;']))))
            want.append('<error>')
        else: L.append('sleep(%s);' % c.pick(['0.001', '0.003']))
    for k in range(n):
        L.append('var t=0; while (I[%d].eval("L.length") + I[%d].eval("E.length") < %d && t++ < 1000) sleep(0.002);' % (k, k, len(exp[k]['L']) + len(exp[k]['E'])))
        L.append('emit(I[%d].eval("[L,E,n,s]"));' % k)
        want.append([exp[k]['L'], exp[k]['E'], exp[k]['n'], exp[k]['s']])
    if c.bool(60):
        for k in range(n): L.append('delete I[%d];' % k)
        L.append('emit("deleted");')
        want.append('deleted')
    src = '\n'.join(L)
    c.case(src, len(want) > n)
    c.rendered = src
    c.label('%d threads' % n)
    got = x.vals(src)
    if not same(got, conv(want)): raise Violation('got %s\nexpected %s\n%s' % (show(repr(got)), show(repr(conv(want))), show(src)))


CHECK = Check('C18', mk, [
    ('history', p_model, {'quick': 1400, 'thorough': 20000}),
    ('asynchronous calls', p_async, {'quick': 150, 'thorough': 1500}),
    ('threads', p_thread, {'quick': 100, 'thorough': 1500}),
], 'non-trivial: at least three exchanges between interps (two calls, results)')
