"""C20: typed parameters: a call is made if and only if the arguments fit the declaration."""
import json, os
from vt.core import Check, Violation, Discard
from vt.js import parse_dump, X, jsstr, show, same, conv, raw, UNDEF, UNPRIV, Other


def mk(w): return X(w, user=UNPRIV)


# expression -> type, emitted value (None: compare the type only)
VALUES = [('1', 'number', 1), ('(-2.5)', 'number', -2.5), ('0', 'number', 0), ('1e30', 'number', 1e30), ('"s"', 'string', b's'), ('""', 'string', b''), ('"5"', 'string', b'5'), ('true', 'boolean', True), ('false', 'boolean', False), ('null', 'null', None),
          ('undefined', 'undefined', UNDEF), ('[1]', 'array', [1]), ('[]', 'array', []), ('{a:1}', 'object', {b'a': 1}), ('{}', 'object', {}), ('FN', 'function', 0), ('parseInt', 'function', 0), ('RX', 'regexp', 0), ('UO', 'userobj', 0), ('[undefined]', 'array', 0)]
PRE = 'var FN = function() { return 1; }; var RX = /x/; var UO = new Interp(); var UND; var hits = 0;\n'
TYPES = ['number', 'string', 'boolean', 'array', 'object', 'function', 'regexp', 'userobj', 'null', 'undefined', 'any']
DEFS = [('1', 'number', 1), ('(-3)', None, None), ('"d"', 'string', b'd'), ('true', 'boolean', True), ('null', 'null', None), ('undefined', 'undefined', UNDEF), ('void', 'void', UNDEF), ('2.5', 'number', 2.5), ("'q r'", 'string', b'q r'), ('false', 'boolean', False)]
DEFS = [d for d in DEFS if d[1]]


def signature(c):
    """-> text, [(name, types set, default or None)], varargs, ret types or None"""
    params, text, dflt = [], [], False
    for i in range(c.weighted([(1, 0), (4, 1), (4, 2), (3, 3), (1, 5), (1, 12)])):
        ts = [c.pick(TYPES) for _ in range(c.weighted([(2, 0), (5, 1), (2, 2), (1, 4)]))]
        t = 'p%d' % i
        if ts: t += ':' + '|'.join(ts)
        d = None
        if dflt or c.bool(20):
            dflt = True
            d = c.pick(DEFS)
            t += '=' + d[0]
            ts = ts + [d[1]]
        params.append(('p%d' % i, set(ts), d))
        text.append(t)
    va = c.bool(15)
    if va: text.append('...')
    ret = None
    if c.bool(30): ret = [c.pick(TYPES[:-2] + ['void', 'any', 'any']) for _ in range(c.weighted([(5, 1), (2, 2), (1, 3)]))]
    return ', '.join(text), params, va, ret


def fits(ts, vt, noundef, index):
    """may an argument of type vt be passed to a parameter with these types"""
    if vt == 'undefined' and index and not noundef and not (ts & {'undefined', 'any'}): return False
    if not ts or 'any' in ts: return True
    if not index and vt == 'undefined': return 'void' in ts
    return vt in ts


def p_user(c, x):
    """calls of script functions in every way"""
    sig, params, va, ret = signature(c)
    noret, noundef, nocheck, noerr = c.bool(12), c.bool(12), c.bool(6), c.bool(6)
    rv = c.pick([v for v in VALUES if v[0] not in ('[undefined]',)]) if ret or c.bool(20) else None
    style = c.pick(['function f(%s)%s { %s }', 'var f = function(%s)%s { %s };', 'var o = {f:function(%s)%s { %s }}; var f = o.f;', 'function mkf() { return function(%s)%s { %s }; } var f = mkf();'])
    names = [p[0] for p in params]
    body = 'hits++; got = [%s]; cnt = arguments.length;' % ', '.join('{v:%s}' % n for n in names)
    ret_t = ':' + '|'.join(ret) if ret else ''
    if rv: body += ' return %s;' % (rv[0] if rv[0] != 'undefined' else 'UND')
    src = PRE + 'var got, cnt;\n'
    pre = []
    conf = {}
    tc = [n for n, b in (('noreturn', noret), ('noundef', noundef)) if b]
    if tc: pre.append('Interp.conf({typeCheck:%s});' % json.dumps(tc))
    if nocheck: pre.append('Interp.conf({noCheck:true});')
    if noerr: pre.append('Interp.conf({noError:true});')
    src = '\n'.join(pre) + '\n' + src + style % (sig, ret_t, body) + '\n'
    want = []
    for _ in range(c.int(2, 5)):
        vals = []
        if c.bool(70):        # mostly fitting
            ndef = len([p for p in params if p[2]])
            n = c.int(len(params) - ndef, len(params)) if c.bool(88) else c.int(0, len(params) + 2)
            for i in range(n):
                ok = [v for v in VALUES if i >= len(params) or fits(params[i][1], v[1], noundef, 1)]
                vals.append(c.pick(ok) if ok and c.bool(90) else c.pick(VALUES))
            if va and n == len(params): vals += [c.pick(VALUES) for _ in range(c.size(0, 3))]
        else:
            vals = [c.pick(VALUES) for _ in range(c.int(0, len(params) + 1))]
        ctor = False
        ex = [v[0] if v[0] != 'undefined' or c.bool(30) else 'UND' for v in vals]
        pad = '["x"]'
        how = c.int(0, 7)
        if how == 0: call = 'f(%s)' % ', '.join(ex)
        elif how == 1:
            src += ''.join('var v%d = %s; ' % (i, e.replace('UND', 'undefined')) for i, e in enumerate(ex))
            call = 'f(%s)' % ', '.join('v%d' % i for i in range(len(ex)))
        elif how == 2: call = 'f.call(%s)' % ', '.join(['null'] + ex)
        elif how == 3 and not any(v[0] in ('[undefined]',) for v in vals): call = 'f.apply(null, [%s])' % ', '.join(ex)
        elif how == 4:
            k = c.int(0, len(ex))
            call = '(f.bind(%s))(%s)' % (', '.join(['null'] + ex[:k]), ', '.join(ex[k:]))
        elif how == 5 and not ret:
            call, ctor = 'new f(%s)' % ', '.join(ex), True
        elif how == 6: call = '(function() { return f(%s); })()' % ', '.join(ex)
        else: call = 'eval(%s)' % jsstr('f(%s)' % ', '.join(ex))
        dv = len([p for p in params if p[2]])
        lo, hi = len(params) - dv, len(params)
        nargs = len(vals)
        count_ok = nargs >= lo and (va or nargs <= hi)
        argn = [i for i, v in enumerate(vals[:len(params)]) if not fits(params[i][1], v[1], noundef, 1)]
        off = nocheck or noerr
        called = off or count_ok and not argn
        rtype = rv[1] if rv else 'undefined'
        retok = off or ctor or not ret or noret or 'any' in ret or (('void' in ret) if rtype == 'undefined' else rtype in ret)
        if 'undefined' in (ret or []) : raise Discard()
        src += 'hits = 0; got = 0; cnt = -1; var e = 0; try { %s; } catch(ex) { e = ex; }; emit(hits, got, cnt, e);\n' % call
        exp = None
        if called:
            exp = []
            for i, p in enumerate(params):
                exp.append(vals[i] if i < nargs else p[2] if p[2] else ('', 'undefined', UNDEF))
        want.append((call, called, retok, exp, nargs, count_ok, argn))
    c.case(src, len(params) > 0)
    c.rendered = src
    for w in want: c.label('called' if w[1] and w[2] else 'result rejected' if w[1] else 'rejected count' if not w[5] else 'rejected type')
    got = x.vals(src)
    if len(got) != 4 * len(want): raise Violation('%d values\n%s' % (len(got), src))
    for i, (call, called, retok, exp, nargs, cok, argn) in enumerate(want):
        hits, g, cnt, e = got[4 * i:4 * i + 4]
        def bad(m): raise Violation('%s: %s\ngot hits=%r args=%r count=%r error=%r\n%s' % (call, m, hits, g, cnt, e, src))
        if not called:
            if hits or not isinstance(e, bytes): bad('the call does not fit the declaration but was made')
            if cok and argn and params[argn[0]][0].encode() not in e: bad('the error does not name the parameter ' + params[argn[0]][0])
            continue
        if hits != 1: bad('the call fits the declaration but was not made')
        if (e == 0) != retok: bad('result ' + ('rejected' if retok else 'accepted'))
        if cnt != nargs: bad('%d arguments expected' % nargs)
        if len(g) != len(exp): bad('wrong number of parameters')
        for q, v in zip(g, exp):
            q = q[b'v']
            if v[1] in ('function', 'regexp', 'userobj'):
                if not isinstance(q, Other): bad('parameter %r' % q)
            elif v[0] == '[undefined]':
                if not isinstance(q, list): bad('parameter %r' % q)
            elif not same(q, conv(v[2])): bad('parameter %r, expected %r' % (q, v[2]))


# what to call built-in methods on
THIS = {'Array': '[3,1,2]', 'String': '"abc"', 'Number': '(5)', 'Object': '{a:1}', 'Function': 'FN', 'Interp': 'UO', 'Channel': 'CH', 'Sqlite': 'DB', 'Boolean': '(true)'}
# masked out by default (assert, logging), effects beyond this process, or waiting
SKIP = ('exit', 'Socket', 'Signal.', 'sleep', 'Event.update', 'update', 'console.input', 'load', 'unload', 'assert', 'Log', 'console.assert', 'Array.isArray', 'Number.is')
STATIC = None


def builtins(x):
    global STATIC
    if STATIC is None:
        out = x.vals('var L = Info.cmds("*", {full:true}); var R = []; for (var k = 0; k < L.length; k++) { var q = L[k]; R.push(q); } emit(R); var T = []; for (var k = 0; k < R.length; k++) { T.push(Info.cmds(R[k] + ".*")); } emit(T);')
        names = []
        for top, subs in zip(out[0], out[1]):
            names.append(top)
            if isinstance(subs, list): names += [top + b'.' + q for q in subs]
        names = sorted(set(names))
        src = '\n'.join('try { emit(Info.cmds("%s")); } catch(ex) { emit(0); }' % n.decode() for n in names)
        res = []
        for n, d in zip(names, x.vals(src)):
            if isinstance(d, dict) and d.get(b'type') == b'command' and isinstance(d.get(b'args'), bytes):
                res.append((n.decode(), d[b'args'].decode(), int(d[b'minArgs']), int(d[b'maxArgs'])))
        STATIC = res
    return STATIC


def parse_args(s):
    out = []
    for a in [q.strip() for q in s.split(',')] if s.strip() else []:
        if a.startswith('...'): out.append(None); continue
        d = None
        if '=' in a: a, d = a.split('=', 1)
        n, _, t = a.partition(':')
        ts = set(t.split('|')) if t else set()
        if d is not None:
            d = d.strip()
            ts |= {'void' if d == 'void' else 'null' if d == 'null' else 'undefined' if d == 'undefined' else 'boolean' if d in ('true', 'false') else 'string' if d[:1] in '\'"' else 'number'}
        out.append((n.strip(), {q.strip() for q in ts}, d))
    return out


def p_builtin(c, x):
    """built-in commands refuse a wrong number or type of arguments and go on working"""
    L = builtins(x)
    if len(L) < 150: raise Violation('only %d built-in commands listed' % len(L))
    src = PRE + 'var CH = new Channel("ch.txt", "w+"); var DB = new Sqlite(":memory:");\n'
    n = 0
    want = []
    for _ in range(c.int(3, 8)):
        name, args, lo, hi = c.pick(L)
        if name.replace('System.', '').startswith(SKIP): continue
        if ',' in args and "','" in args or '[' in args: continue
        ps = parse_args(args)
        if None in ps[:lo] or hi >= 0 and len([p for p in ps if p]) < hi: continue
        obj, _, meth = name.partition('.')
        if meth in ('constructor',) or name in THIS: continue
        def good(i):
            ts = ps[i][1] if i < len(ps) and ps[i] else set()
            ok = [v for v in VALUES if fits(ts, v[1], False, 1) and v[1] not in ('undefined', 'userobj')]
            return c.pick(ok)[0] if ok else '1'
        kind = c.int(0, 2)
        if kind == 0:
            if lo == 0: continue
            k = c.int(0, lo - 1)
            ex = [good(i) for i in range(k)]
        elif kind == 1:
            if hi < 0: continue
            k = hi + c.int(1, 3)
            ex = [good(i) for i in range(k)]
        else:
            if hi == 0 or not ps: continue
            k = c.int(max(1, lo), hi if hi >= 0 else max(lo, 1))
            cand = [i for i in range(min(k, len(ps))) if ps[i] and ps[i][1] and 'any' not in ps[i][1]]
            if not cand or ':' not in args: continue
            if hi < 0: cand = [i for i in cand if i + 1 < lo]
            if not cand: continue
            j = c.pick(cand)
            ex = [good(i) for i in range(k)]
            badv = [v for v in VALUES if not fits(ps[j][1], v[1], False, 1) and v[1] not in ('undefined',)]
            if not badv: continue
            ex[j] = c.pick(badv)[0]
        src += 'var e = 0; try { %s(%s); } catch(ex) { e = ex; }; emit(e);\n' % (this_of(obj, meth), ', '.join(ex))
        want.append((name, args, kind, ex))
    src += 'emit([2,3,1].sort(), "abc".length, Math.abs(-3), JSON.parse("[1]"));\n'
    c.case(src, bool(want))
    c.rendered = src
    for w in want: c.label(['too few', 'too many', 'wrong type'][w[2]])
    got = x.vals(src)
    if got[len(want):] != [[1, 2, 3], 3, 3, [1]]: raise Violation('after the errors: %r\n%s' % (got[len(want):], src))
    for w, e in zip(want, got):
        if not isinstance(e, bytes) or not e: raise Violation('%s(%s) called with (%s) is accepted: %r\n%s' % (w[0], w[1], ', '.join(w[3]), e, src))


def this_of(obj, meth):
    if not meth: return obj
    if obj in THIS:
        # both static (Object.keys) and methods of a value exist
        st = {'Object': ('create', 'freeze', 'getOwnPropertyDescriptor', 'getOwnPropertyDescriptors', 'is', 'keys', 'merge', 'setPrototypeOf', 'values', 'getPrototypeOf'), 'Array': ('isArray',), 'String': ('fromCharCode',), 'Interp': ('conf',), 'Number': ('isFinite', 'isInteger', 'isNaN', 'isSafeInteger')}
        if meth in st.get(obj, ()): return obj + '.' + meth
        t = THIS[obj]
        return (t if t[0] != '{' else 'Object({a:1})') + '.' + meth
    return obj + '.' + meth


CHECK = Check('C20', mk, [
    ('script functions', p_user, {'quick': 1500, 'thorough': 20000}),
    ('built-in commands', p_builtin, {'quick': 700, 'thorough': 8000}),
], 'non-trivial: at least one parameter or built-in called')
