"""C11: literals and displayed values."""
import math
from vt.core import Check, Violation
from vt.js import X, jsstr, jsnum, UNDEF, same, show, conv, expect, raw
from checks import c10
from checks.c10 import enc, cv, src, r15, text, depth, MK, key, num

SIZES = [254, 255, 256, 1023, 1024, 4090, 8180, 8185, 8186, 8187, 8188, 8189, 8190, 8191, 8192, 8193, 8200, 16379, 16384, 20000]


def spell(c, s, q):
    """s as the inside of a literal with quote q"""
    o = ''
    for ch in s:
        n = ord(ch)
        k = c.int(0, 11)
        e = {'\n': '\\n', '\r': '\\r', '\t': '\\t', '\b': '\\b', '\f': '\\f', '\0': '\\0', '\\': '\\\\', q: '\\' + q}.get(ch)
        if n == 0: o += '\\0' if k < 9 else '\\u0000'
        elif ch == '\\' or ch == q: o += e if k < 10 else '\\u%04x' % n
        elif ch in '"\'`' and k < 3: o += '\\' + ch
        elif e and (k < 6): o += e
        elif k == 11 or (n < 32 and k > 8):
            if n > 0xffff: o += '\\u%04x\\u%04X' % (0xd800 + ((n - 0x10000) >> 10), 0xdc00 + ((n - 0x10000) & 0x3ff))
            else: o += c.pick(['\\u%04x', '\\u%04X']) % n
        else: o += ch
    return o


def literal(c, x):
    L = []
    for _ in range(c.size(1, 10)):
        s = text(c)
        if c.bool(10): s += '\0' + c.pick(['', 'x', '\0', '0'])
        if c.bool(5):
            n = c.pick(SIZES)
            u = (s or 'a')[:20]
            s = (u * n)[:n]
            if c.bool(30): s += '\0'
        q = c.pick('"\'`')
        L.append((s, q + spell(c, s, q) + q))
    k = c.int(0, 3)
    S = ''
    if k == 0: S = ''.join('emit(%s);\n' % l for _, l in L)
    elif k == 1: S = 'for (var v of [%s]) { emit(v); }\n' % ', '.join(l for _, l in L)
    elif k == 2: S = 'function f() { return %s; }\n' % ' + "|" + '.join(l for _, l in L) + 'for (var v of f().split("|X|")) { emit(v); }\n'.replace('"|"', '"|"')
    if k == 2: S = S.replace(' + "|" + ', ' + "|X|" + ')
    if k == 3: S = 'function f(v) { emit(v); }\n' + ''.join('switch (%s) { case "no\\u0001pe": f(0); break; case %s: f(%s); break; default: f(1); }\n' % (l, l, l) for _, l in L)
    if k == 2 and any('|X|' in s or '\0' in s for s, _ in L): S = ''.join('emit(%s);\n' % l for _, l in L)
    c.rendered = S
    g = x.vals(S)
    w = [enc(s) for s, _ in L]
    if g != w: raise Violation('string literals denote other texts\n%s\n--- got  %s\n--- want %s' % (show(S), show(repr(g)), show(repr(w))))
    for s, l in L: c.case(l, '\\' in l or len(l) > 200)
    c.label('form%d' % k)
    c.sample(S[:300])


IDENT = ['a', 'b', 'x_1', '$q', '_', 'abc', 'A9', 'toString', 'length', 'Object', 'k']


def lobj(c, d=3):
    """(source, value) of an array or object literal"""
    k = c.int(0, 8 if d else 5)
    if k == 0: return c.pick([('null', None), ('true', True), ('false', False), ('undefined', UNDEF), ('NaN', math.nan), ('Infinity', math.inf), ('(1+2)', 3.0), ('"a"+"b"', 'ab'), ('!1', False), ('-3', -3.0)])
    if k <= 2:
        n = num(c)
        return jsnum(n), n
    if k <= 5:
        s = text(c, False)
        q = c.pick('"\'`')
        return q + spell(c, s, q) + q, s
    w = lambda: c.pick(['', '', '', ' ', '\n', '/*,]}*/', ' //}\n'])
    if k == 6:
        it = [lobj(c, d - 1) for _ in range(c.size(0, 6))]
        return '[' + w() + ','.join(w() + s + w() for s, _ in it) + (',' if it and c.bool(15) else '') + ']', [v for _, v in it]
    o, S = {}, []
    for _ in range(c.size(0, 6)):
        s, v = lobj(c, d - 1)
        j = c.int(0, 3)
        if j == 0: kk = c.pick(IDENT); ks = kk
        elif j == 1: n = c.int(0, 99); kk, ks = str(n), str(n)
        else:
            kk = key(c)
            q = c.pick('"\'')
            ks = q + spell(c, kk, q) + q
        o[kk] = v
        S.append(w() + ks + w() + ':' + w() + s + w())
    return '{' + ','.join(S) + '}', o


def cv2(v):
    if v is UNDEF: return v
    if isinstance(v, list): return [cv2(i) for i in v]
    if isinstance(v, dict): return {enc(k): cv2(i) for k, i in v.items()}
    return cv(v)


def composite(c, x):
    L = [lobj(c) for _ in range(c.size(1, 6))]
    L = [('[%s]' % s, [v]) for s, v in L]
    S = 'Interp.conf({noCheck:true});\n'
    form = c.int(0, 3)
    if form == 0: S += ''.join('var v=%s; emit(v);\n' % s for s, _ in L)
    elif form == 1: S += 'function f() { return %s; }\nfor (var i=0;i<2;i++) { var r=f(); %s }\n' % ('[' + ','.join(s for s, _ in L) + ']', ' '.join('emit(r[%d]); r[%d].push(9); r[%d][0]=5;' % (i, i, i) for i in range(len(L))))
    elif form == 2: S += ''.join('emit(eval(%s));\n' % raw(enc(s)) for s, _ in L)
    else: S += 'var all=[%s];\nfor (var q of all) { emit(q); }\n' % ','.join(s for s, _ in L)
    c.rendered = S
    g = x.vals(S)
    w = [cv2(v) for _, v in L] * (2 if form == 1 else 1)
    if not same(g, w): raise Violation('literals denote other values\n%s\n--- got  %s\n--- want %s' % (show(S), show(repr(g)), show(repr(w))))
    for s, v in L: c.case(s, depth(v) > 1)
    c.label('form%d' % form)
    c.sample(S[:300])


def r15u(v):
    if v is UNDEF or isinstance(v, float) and not math.isfinite(v): return v
    if isinstance(v, list): return [r15u(i) for i in v]
    if isinstance(v, dict): return {k: r15u(i) for k, i in v.items()}
    return r15(v)


def has(v):
    """an own toString gets in the way of v.toString()"""
    return 'toString' in v if isinstance(v, dict) else False


def display(c, x):
    """the displayed text of a container evaluates to it"""
    L = []
    for _ in range(c.size(1, 5)):
        s, v = lobj(c)
        if not isinstance(v, (list, dict)) or has(v): s, v = '[%s]' % s, [v]
        if has(v): s, v = '[1]', [1.0]
        if c.bool(12):
            # objects of Boolean, Number and String show as their values
            b = c.bool()
            w, wv = c.pick([('Boolean(%s)' % str(b).lower(), b), ('Number(2.5)', 2.5), ('String("a\\"b")', 'a"b')])
            s, v = c.pick([('[new %s,%s]' % (w, s), [wv, v]), ('{ww:new %s,vv:%s}' % (w, s), {'ww': wv, 'vv': v})])
        L.append((s, v))
    S = 'Interp.conf({noCheck:true});\n'
    for s, v in L:
        S += 'var v=%s; var t=v.toString(); emit(t); emit(eval("var zq="+t+"; zq")); emit(eval("var zq="+t+"; zq").toString()==t); puts(v); emit(quote(t)); emit(eval("("+quote(t)+")"));\n' % s
    c.rendered = S
    r = x.js(S, ok=True)
    out = r.out.split(b'\n')
    from vt.js import parse_dump
    pos = 0
    o = r.out
    for s, v in L:
        e = o.index(b'\n'); t = parse_dump(o[:e]); o = o[e + 1:]
        e = o.index(b'\n'); val = parse_dump(o[:e]); o = o[e + 1:]
        e = o.index(b'\n'); st = parse_dump(o[:e]); o = o[e + 1:]
        if not same(val, cv2(r15u(v))): raise Violation('the text of a value evaluates to another one\n%s\n--- text %s\n--- got  %r\n--- want %r' % (show(s), show(t), val, cv2(r15u(v))))
        if st is not True: raise Violation('the text of a value is not stable\n%s\n%s' % (show(s), show(t)))
        if not o.startswith(t + b'\n'): raise Violation('puts shows %r, toString %r\n%s' % (o[:len(t) + 50], t, show(s)))
        o = o[len(t) + 1:]
        e = o.index(b'\n'); o = o[e + 1:]
        e = o.index(b'\n'); qv = parse_dump(o[:e]); o = o[e + 1:]
        if qv != t: raise Violation('quote(%s) evaluates to %s' % (show(t), show(qv)))
        c.case(s, depth(v) > 1 or '\\' in s)
    c.sample(S[:300])


def numlit(c):
    """(source, value) of a number literal"""
    D = lambda a, b: ''.join(c.pick('0123456789') for _ in range(c.int(a, b)))
    k = c.weighted([(4, 'int'), (6, 'frac'), (6, 'exp'), (6, 'hex'), (2, 'oct'), (2, 'edge'), (1, 'long')])
    if k == 'int': s = c.pick('123456789') + D(0, c.pick([1, 3, 9, 18, 25]))
    elif k == 'frac': s = c.pick(['0.', '.', c.pick('123456789') + D(0, 6) + '.', c.pick('123456789') + D(10, 20) + '.']) + D(1, c.pick([2, 6, 20]))
    elif k == 'exp':
        s = c.pick(['0', '1', '9', '12', '1.5', '.5', '0.25', '5.', '123456789.123456789', '0.0'])
        s += c.pick('eE') + c.pick(['', '+', '-']) + str(c.pick([0, 1, 2, 5, 9, 15, 21, 22, 100, 300, 308, 309, 323, 324, 400])).rjust(c.pick([1, 1, 3]), '0')
    elif k == 'hex':
        s = '0' + c.pick('xX') + ''.join(c.pick('0123456789abcdefABCDEFeE') for _ in range(c.pick([1, 1, 2, 2, 4, 8, 13, 14, 16, 17, 20, 30])))
        return s, float(int(s, 16)), k
    elif k == 'oct':
        s = '0' + ''.join(c.pick('01234567') for _ in range(c.int(1, 20)))
        return s, float(int(s, 8)), k
    elif k == 'edge': s = c.pick(['0', '1', '9007199254740991', '9007199254740992', '9007199254740993', '9223372036854775807', '9223372036854775808', '18446744073709551615', '18446744073709551616', '1.7976931348623157e308', '1.7976931348623159e308', '5e-324', '2e-324', '2.2250738585072014e-308', '0.1', '1e23', '4294967295', '4294967296', '2147483648', '1.', '0.', '.0'])
    else: s = c.pick(['1', '0', '9']) + '.' + D(1, 1) * c.int(200, 900)
    return s, float(s), k


BADNUM = ['0x', '0X', '0xg', '1e', '1E', '1e+', '2e-', '12ab', '1.2.3', '3x', '3x4', '0x1g', '1e5e5', '1.e', '.5.5', '12 34', '0x1 2', '5f', '1e1.5']


def numbers(c, x):
    """number literals, with operators right behind them"""
    L = []
    for _ in range(c.size(1, 12)):
        s, v, k = numlit(c)
        f = c.int(0, 5)
        c.label(k)
        tail = c.pick(['', '', ' ', '/**/', '\n', '//x\n'])
        if f < 2: e, w = s, v
        elif f == 2: e, w = '-' + s, -v
        elif f == 3:
            t, u, _ = numlit(c)
            o = c.pick('+-*')
            e, w = s + o + t, (v + u if o == '+' else v - u if o == '-' else v * u)
        elif f == 4: e, w = '%s<%s' % (s, '5'), v < 5
        else: e, w = '%s?1:2' % s, (1.0 if v else 2.0)
        L.append((e + tail, w, k))
        if math.isnan(v): pass
    form = c.int(0, 3)
    if form == 0: S = ''.join('emit(%s);\n' % e for e, _, _ in L)
    elif form == 1: S = 'for (var v of [%s]) { emit(v); }\n' % ','.join(e for e, _, _ in L)
    elif form == 2: S = ''.join('var o={a:%s}; emit(o.a);' % e for e, _, _ in L)
    else: S = ''.join('emit(eval(%s));\n' % jsstr('var q=%s; q' % e) for e, _, _ in L)
    c.rendered = S
    bad = c.pick(BADNUM) if c.bool(40) else None
    if bad: S += 'var e=0; try { eval(%s); } catch(x) { e=1; }; emit(e);' % jsstr('var q=%s;' % bad)
    g = x.vals('Interp.conf({noCheck:true});\n' + S)
    w = [w for _, w, _ in L] + ([1.0] if bad else [])
    if not same(g, w): raise Violation('number literals denote other values\n%s\n--- got  %s\n--- want %s' % (show(S), show(repr(g)), show(repr(w))))
    for e, _, k in L: c.case(e, k not in ('int',))
    c.sample(S[:300])


PROPS = [('number literals', numbers, {'quick': 1500, 'thorough': 40000}), ('string literals', literal, {'quick': 3000, 'thorough': 60000}), ('composite literals', composite, {'quick': 3000, 'thorough': 60000}), ('display', display, {'quick': 2500, 'thorough': 50000})]
CHECK = Check('C11', lambda w: X(w), PROPS, 'string literals in every spelling, non-trivial = with escapes or long; number literals, non-trivial = other than decimal integers; array and object literals, non-trivial = nested; displayed texts evaluated again')
