"""C10: JSON."""
import json, math, struct, sys
sys.setrecursionlimit(20000)
from vt.core import Check, Violation
from vt.js import X, jsstr, jsnum, UNDEF, same, show, conv, expect, raw

ALPH = ['ab', 'aé日😀', 'a"\\/', '\n\t\r\b\f', ''.join(chr(i) for i in range(1, 32)) + '\x7f', "a'b`", ' ,:{}[]', '\u0080\u07ff\u0800\uffff\U00010000\U0010ffff\u2028', 'if0_$', 'eE+-.019']
SIZES = [30, 31, 32, 63, 64, 88, 89, 90, 91, 92, 93, 94, 127, 128, 199, 200, 201, 255, 256, 1023, 1024, 8192]


def text(c, big=True):
    al = c.pick(ALPH) + c.pick(ALPH)
    n = c.pick(SIZES) if big and c.bool(6) else c.size(0, 12)
    if n > 60:
        u = ''.join(c.pick(al) for _ in range(c.int(1, 9)))
        return (u * n)[:n]
    return ''.join(c.pick(al) for _ in range(n))


def num(c):
    k = c.int(0, 5)
    if k == 0: return c.int(-10, 1000)
    if k == 1: return c.int(-(1 << 53), 1 << 53)
    if k == 2: return c.int(-10 ** 6, 10 ** 6) / 64.0
    if k == 3: return c.pick([0, 1e300, 1e-300, 1e21, 123456789012345, -2147483648, 4294967296, 0.1, -1.5e-7, 1e15, 5e-324])
    if k == 4: return c.int(1, 999999999999999) * 10.0 ** c.int(-25, 25)
    return c.int(0, 9)


def key(c):
    return c.pick(['a', 'b', 'if', '0', '12', 'a b', 'x_1', '', 'toString', 'length', 'é']) if c.bool(60) else text(c, False)


def val(c, d=4):
    k = c.int(0, 9 if d else 5)
    if k == 0: return c.pick([None, True, False])
    if k in (1, 2): return num(c)
    if k <= 5: return text(c)
    if k <= 7: return [val(c, d - 1) for _ in range(c.size(0, 6))]
    return {key(c): val(c, d - 1) for _ in range(c.size(0, 6))}


def r15(v):
    """what survives a text of 15 digits (the jsish number format)"""
    if isinstance(v, bool) or v is None or isinstance(v, str): return v
    if isinstance(v, (int, float)):
        v = float(v)
        if v == int(v) and abs(v) < 2 ** 63: return v
        return float('%.15g' % v)
    if isinstance(v, list): return [r15(i) for i in v]
    return {k: r15(i) for k, i in v.items()}


def enc(s): return s.encode('utf8', 'surrogatepass')


def src(v):
    """jsish expression"""
    if v is None: return 'null'
    if v is True: return 'true'
    if v is False: return 'false'
    if isinstance(v, str): return raw(enc(v))
    if isinstance(v, (int, float)): return jsnum(v)
    if isinstance(v, list): return '[' + ','.join(src(i) for i in v) + ']'
    return 'mk([%s])' % ','.join('[%s,%s]' % (raw(enc(k)), src(i)) for k, i in v.items())


MK = 'function mk(l) { var o={}; for (var i=0;i<l.length;i++) { o[l[i][0]]=l[i][1]; } return o; }\n'


def cv(v):
    if isinstance(v, str): return enc(v)
    if isinstance(v, bool) or v is None: return v
    if isinstance(v, (int, float)): return float(v)
    if isinstance(v, list): return [cv(i) for i in v]
    return {enc(k): cv(i) for k, i in v.items()}


def dup(pairs):
    d = {}
    for k, v in pairs:
        if k in d: raise ValueError('duplicate key ' + repr(k))
        d[k] = v
    return d


def depth(v):
    if isinstance(v, list): return 1 + max([0] + [depth(i) for i in v])
    if isinstance(v, dict): return 1 + max([0] + [depth(i) for i in v.values()])
    return 0


def norm(v):
    """python value of json.loads -> same() form; lone surrogates kept"""
    return cv(v)


def big(c, v):
    k = c.int(0, 4)
    if k == 0: return [v] * c.pick([0, 1, 99, 100, 101, 127, 128, 199, 200, 201, 1000, 5000])
    if k == 1: return {'k%d' % i: v for i in range(c.pick([1, 99, 100, 101, 200, 1000]))}
    n = c.pick([10, 50, 99, 150, 190])
    for i in range(n): v = [v] if c.bool() else {'n': v}
    return v


def pretty_ok(t, ind):
    """every property on its own line, indented by indent*depth"""
    return all(len(l) - len(l.lstrip(' ')) == len(l) - len(l.lstrip()) and (len(l) - len(l.lstrip(' '))) % ind == 0 for l in t.split('\n')[1:])


def lines(v, ind, d=0):
    """indentation of every line after the first"""
    if isinstance(v, list):
        return [x for i in v for x in lines(i, ind, d + 1)]
    if isinstance(v, dict):
        if not v: return []
        r = []
        for k in sorted(v, key=enc): r += [(d + 1) * ind] + lines(v[k], ind, d + 1)
        return r + [d * ind]
    return []


def roundtrip(c, x):
    v = val(c)
    if c.bool(4):
        v = val(c, 1)
        v = big(c, v if len(repr(v)) < 200 else num(c))
    extra = c.int(0, 5)
    s = MK + 'var v=%s;\n' % src(v)
    want = r15(v)
    mode = c.pick(['', '', ',true', ',null', ',true,%d' % c.int(1, 9), ',null,%d' % c.int(1, 9), ',false', ',false,3'])
    if extra == 0 and isinstance(v, dict) and v:
        # values JSON cannot express: undefined properties vanish, others give null
        ks = list(v)
        k = c.pick(['u', '', 'zz', 'a'])
        nk = [q for q in [k + '1', k + '2', k + '3'] if q not in v]
        s += 'Interp.conf({noCheck:true});\n'
        for q in nk:
            t = c.pick(['undefined', 'NaN', 'Infinity', '(-Infinity)', '[undefined,1]', '[[NaN]]', 'null'])
            s += 'v[%s]=%s;\n' % (jsstr(q), t)
            if t == '[undefined,1]': want[q] = [None, 1]
            elif t == '[[NaN]]': want[q] = [[None]]
            elif t != 'undefined': want[q] = None
        c.label('unrepresentable')
    s += 'var t=JSON.stringify(v%s);\nemit(t);\nemit(JSON.parse(t%s));\nemit(JSON.stringify(JSON.parse(t%s)%s)==t);\n' % (mode, *((',false',) * 2 if 'false' in mode else ('', '')), mode)
    if isinstance(v, (list, dict)): s += 'emit(JSON.check(t%s));\n' % (',false' if 'false' in mode else '')
    s += 'emit(v);\n'
    c.rendered = s
    g = x.vals(s)
    t = g[0]
    if not isinstance(t, bytes): raise Violation('stringify gave %r\n%s' % (t, show(s)))
    if 'false' not in mode:
        try:
            p = json.loads(t.decode('utf8'), object_pairs_hook=dup)
        except ValueError as e:
            raise Violation('JSON.stringify gave invalid JSON (%s)\n%s\n--- text\n%s' % (e, show(s), show(t)))
        if not same(cv(p), cv(want)):
            raise Violation('the JSON text denotes another value\n%s\n--- text\n%s\n--- want %r' % (show(s), show(t), want))
        if mode in ('', ',true') and b'\n' in t: raise Violation('line breaks in compact JSON\n%s' % show(t))
    m = mode.split(',')
    if len(m) == 3 or mode == ',null':
        ind = int(m[2]) if len(m) == 3 else 2
        il = [len(l) - len(l.lstrip(' ')) for l in t.decode('utf8').split('\n')[1:]]
        if il != lines(want, ind): raise Violation('indentation is %r, want %r\n%s\n--- text\n%s' % (il, lines(want, ind), show(s), show(t)))
    if depth(want) < 38 and not same(g[1], cv(want)): raise Violation('parse(stringify(v)) differs\n%s\n--- text %s\n--- got  %r\n--- want %r' % (show(s), show(t), g[1], cv(want)))
    if g[2] is not True: raise Violation('stringify is not stable\n%s' % show(s))
    if isinstance(v, (list, dict)) and g[3] is not True: raise Violation('JSON.check rejects the output of stringify\n%s\n%s' % (show(s), show(t)))
    c.case(s, depth(v) > 0 or isinstance(v, str) and len(v) > 0)
    c.label('depth%d' % min(depth(v), 5), 'mode' + mode.rstrip('0123456789'))
    c.sample(show(t))


def ws(c): return ''.join(c.pick(' \t\n\r') for _ in range(c.int(0, 2))) if c.bool(30) else ''


def jtext(c, s):
    o = '"'
    for ch in s:
        n = ord(ch)
        k = c.int(0, 9)
        if ch in '"\\' or n < 32:
            e = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\b': '\\b', '\f': '\\f'}.get(ch)
            if e and k: o += e
            else: o += '\\u%04x' % n
        elif ch == '/' and k < 5: o += '\\/'
        elif k == 0 or 0xd800 <= n < 0xe000:
            for u in struct.unpack('>%dH' % (len(ch.encode('utf-16-be', 'surrogatepass')) // 2), ch.encode('utf-16-be', 'surrogatepass')): o += c.pick(['\\u%04x', '\\u%04X']) % u
        else: o += ch
    return o + '"'


def numtext(c):
    dg = lambda lo, hi: ''.join(c.pick('0123456789') for _ in range(c.int(lo, hi)))
    s = c.pick(['', '-']) + c.pick(['0', c.pick('123456789') + dg(0, 18)])
    if c.bool(40): s += '.' + dg(1, 18)
    if c.bool(30): s += c.pick('eE') + c.pick(['', '+', '-']) + dg(1, 2)
    return s


def jt(c, d=4):
    """JSON text of a random value, in any spelling"""
    k = c.int(0, 9 if d else 5)
    if k == 0: return c.pick(['null', 'true', 'false'])
    if k <= 2: return numtext(c)
    if k <= 5: return jtext(c, text(c))
    if k <= 7: return '[' + ws(c) + ','.join(ws(c) + jt(c, d - 1) + ws(c) for _ in range(c.size(0, 6))) + ']'
    ks = list(dict.fromkeys(key(c) for _ in range(c.size(0, 6))))
    return '{' + ws(c) + ','.join(ws(c) + jtext(c, q) + ws(c) + ':' + ws(c) + jt(c, d - 1) + ws(c) for q in ks) + '}'


def parse(c, x):
    L = []
    for _ in range(c.size(1, 6)):
        t = ws(c) + jt(c) + ws(c)
        if c.bool(3) and len(t) < 300: t = '[' + ','.join([t] * c.pick([63, 64, 99, 100, 101, 127, 128, 199, 200, 201, 1000])) + ']'
        if c.bool(2):
            n = c.pick([100, 500, 1000])
            t = '[' * n + t + ']' * n
        L.append(t)
    s = ''.join('var t=%s;\nemit(JSON.parse(t)%s);\n%s' % (raw(enc(t)), '', 'emit(JSON.check(t));\n' if t.strip()[0] in '[{"' else 'emit(true);\n') for t in L)
    c.rendered = '\n'.join(show(t) for t in L)
    g = x.vals(s)
    for i, t in enumerate(L):
        w = json.loads(t, parse_int=float)
        deep = depth(w) > 38
        if g[2 * i + 1] is not True: raise Violation('JSON.check rejects valid JSON:\n%s' % show(t))
        if not deep and not same(g[2 * i], norm(w)): raise Violation('JSON.parse of\n%s\n--- got  %r\n--- want %r' % (show(t), g[2 * i], norm(w)))
        c.case(t, depth(w) > 0 or '\\' in t)
        c.label('depth%d' % min(depth(w), 5))
    c.sample(L[0][:300])


def struct_ok(t):
    """bracket structure of a text without strings errors: True if balanced"""
    st, i = [], 0
    while i < len(t):
        ch = t[i]
        if ch == '"':
            i += 1
            while i < len(t) and t[i] != '"':
                if t[i] == '\\': i += 1
                i += 1
            if i >= len(t): return False
        elif ch in '[{': st.append(ch)
        elif ch in ']}':
            if not st or st.pop() + ch not in ('[]', '{}'): return False
        i += 1
    return not st


def brackets(t):
    """positions of the brackets outside strings"""
    r, i = [], 0
    while i < len(t):
        if t[i] == '"':
            i += 1
            while t[i] != '"': i += 2 if t[i] == '\\' else 1
        elif t[i] in '[]{}': r.append(i)
        i += 1
    return r


def malformed(c, x):
    L = []
    for _ in range(c.size(1, 6)):
        t = c.pick(['[%s]', '{"k":%s}', '[1,%s,2]', '%s']) % jt(c, 3)
        if t.strip()[0] not in '[{"': t = '[%s]' % t
        k = c.pick(['cut', 'cutq', 'drop', 'swap', 'extra', 'escape', 'hex', 'word', 'squote', 'any', 'any'])
        b = t
        st = brackets(t)
        if not st: t = '[%s]' % t; st = [0, len(t) - 1]
        if k == 'cut': b = t[:c.int(1, max(1, len(t) - 1))]
        elif k == 'cutq': b = '[%s, %s' % (t, jtext(c, text(c))[:-1]) + c.pick(['', ']', '\\"]', ', 1]'])
        elif k == 'drop': i = c.pick(st); b = t[:i] + t[i + 1:]
        elif k == 'swap':
            i = c.pick(st); b = t[:i] + {'[': '{', '{': '[', ']': '}', '}': ']'}[t[i]] + t[i + 1:]
        elif k == 'extra': i = c.int(0, len(t)); b = t[:i] + c.pick(']}') + t[i:]
        elif k == 'escape': b = '[%s, "x\\%sy"]' % (t, c.pick('xavz0 \'1U'))
        elif k == 'hex': b = '[%s, "\\u%s"]' % (t, c.pick(['12', '12g4', 'xyzw', '00 1', '123"']))
        elif k == 'word': b = '[%s, %s]' % (t, c.pick(['a', 'undefined', 'NaN', 'Infinity', '+1', '.5', 'x1', '/*c*/1', '@', '(1)']))
        elif k == 'squote': b = "['%s']" % c.pick(['', 'a', '1'])
        if k == 'any':
            L2 = list(t)
            for _ in range(c.int(1, 6)):
                i = c.int(0, len(L2))
                L2[i:i + c.int(0, 3)] = [c.pick('[]{}",:\\tfn0-1e.u \'a/')] * c.int(0, 2)
            b = ''.join(L2)
        must = k in ('escape', 'hex', 'word', 'squote') or (k in ('cut', 'cutq', 'drop', 'swap', 'extra') and not struct_ok(b))
        L.append((k, b, must))
    s = ''
    for k, b, m in L:
        r = raw(enc(b))
        s += 'var t=%s, r="none";\ntry { var v=JSON.parse(t); r="ok"; JSON.stringify(v); } catch(e) { r=(r=="ok"?"late":"err")+("%%s".sub?"":""); }\nemit(r); emit(JSON.check(t));\ntry { JSON.parse(t,false); } catch(e) { v=1; }\n'.replace('+("%%s".sub?"":"")', '') % r
    s += 'emit(JSON.parse("[1,{\\"a\\":2}]"));\n'
    c.rendered = '\n'.join('%s: %s' % (k, show(b)) for k, b, m in L)
    g = x.vals(s)
    if len(g) != 2 * len(L) + 1 or not same(g[-1], cv([1, {'a': 2}])): raise Violation('parsing is disturbed by earlier malformed text\n%s' % c.rendered)
    for i, (k, b, m) in enumerate(L):
        if m and (g[2 * i] != b'err' or g[2 * i + 1] is not False):
            raise Violation('malformed JSON (%s) accepted (parse: %r, check: %r):\n%s' % (k, g[2 * i], g[2 * i + 1], show(b)))
        if g[2 * i + 1] is False and g[2 * i] == b'ok' and b.strip()[:1] in ('[', '{', '"'):
            raise Violation('JSON.check says no but JSON.parse accepts:\n%s' % show(b))
        c.case(b, m)
        c.label(k, 'rejected' if m else 'any')
    c.sample(c.rendered[:300])


def lax(c, x):
    """strict=false: unquoted names"""
    ks = list(dict.fromkeys(c.pick(['a', 'b1', 'x_y', 'name', '_q', 'k%d' % c.int(0, 99), 'ifx', 'A']) for _ in range(c.size(1, 6))))
    v = {k: (val(c, 1)) for k in ks}
    t = '{' + ','.join('%s%s%s:%s%s' % (ws(c), k, ws(c), ws(c), json.dumps(v[k], ensure_ascii=c.bool())) for k in ks) + '}'
    s = 'var t=%s;\nemit(JSON.parse(t,false)); emit(JSON.check(t,false)); try { JSON.parse(t); emit("strict ok"); } catch(e) { emit("strict err"); }\nemit(JSON.check(t));\n' % raw(enc(t))
    s += MK + 'var w=JSON.stringify(%s,false); emit(w);\n' % src(v)
    c.rendered = show(t)
    g = x.vals(s)
    if not same(g[0], cv(v)): raise Violation('JSON.parse(text,false) of\n%s\n--- got %r' % (t, g[0]))
    if g[1] is not True: raise Violation('JSON.check(text,false) rejects\n%s' % t)
    bad = any(k[0] not in 'tfn' for k in ks)
    if bad and (g[2] != b'strict err' or g[3] is not False): raise Violation('unquoted names accepted in strict mode (%r, %r)\n%s' % (g[2], g[3], t))
    w = g[4].decode('utf8')
    for k in ks:
        if k + ':' not in w or '"%s":' % k in w.split('"' + k + '" ')[0] and not any(isinstance(q, str) and k in q or isinstance(q, (dict, list)) for q in v.values()):
            raise Violation('stringify(v,false) does not leave %s unquoted: %s' % (k, show(w)))
    c.case(t, len(ks) > 0)
    c.sample(t[:200])


def cyclic(x):
    expect(x, 'var a={x:1}; a.s=[a]; try { JSON.stringify(a); emit("none"); } catch(e) { emit("error"); }\ndelete a.s; emit(JSON.stringify(a));', ['error', '{ "x":1 }'])


def deep(x):
    expect(x, 'for (var n of [100, 1000, 30000]) { try { JSON.parse("[".repeat(n)+"]".repeat(n)); emit(n<=1000); } catch(e) { emit(n>1000); } }\n', [True] * 3)


PROBES = [('cyclic', cyclic), ('deep-nesting', deep)]
PROPS = [('round trip', roundtrip, {'quick': 5000, 'thorough': 120000}), ('parse', parse, {'quick': 2500, 'thorough': 60000}), ('malformed', malformed, {'quick': 3000, 'thorough': 60000}), ('lax', lax, {'quick': 800, 'thorough': 10000})]
CHECK = Check('C10', lambda w: X(w), PROPS, 'round trip: a generated value through stringify (all modes) and parse, the text also read by an independent JSON parser, non-trivial = a container or non-empty string; parse: generated JSON texts in every spelling against the independent parser; malformed: damaged texts, non-trivial = must be rejected; lax: unquoted names', probes=PROBES)
