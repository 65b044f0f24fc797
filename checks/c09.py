"""C09: numbers, their texts and Math."""
import math, struct, re
from vt.core import Check, Violation
from vt.js import X, jsstr, jsnum, UNDEF, same, show, conv, expect

INF, NAN = float('inf'), float('nan')


def f64(c):
    k = c.int(0, 11)
    if k == 0: x = float(c.int(0, 20))
    elif k == 1: x = float(c.int(0, 2 ** 31))
    elif k == 2: x = 2.0 ** c.int(0, 70) + c.pick([0, 1, -1, 0.5])
    elif k == 3: x = 10.0 ** c.int(-20, 30)
    elif k == 4: x = c.int(0, 10 ** c.int(1, 17)) / 10.0 ** c.int(0, 20)
    elif k == 5: x = c.int(0, 1 << 20) + 0.5
    elif k == 6:
        x = struct.unpack('<d', struct.pack('<Q', c.int(0, (1 << 63) - 1)))[0]
        if x != x or x == INF: x = 1.5
    elif k == 7: x = struct.unpack('<d', struct.pack('<Q', c.int(1, (1 << 52) - 1) >> c.int(0, 51)))[0] or 5e-324
    elif k == 8: x = c.pick([2.0 ** 53, 2.0 ** 53 - 1, 2.0 ** 63, 2.0 ** 63 - 1024, 2.0 ** 64, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 1e21, 1e-7, 1e-6, 0.1, 1 / 3, 0.49999999999999994, 4503599627370497.5, 1e15, 1e16, 123456789012345.6, 99999999999999.95])
    elif k == 9: x = float(c.int(1 << 52, (1 << 63) - 1))
    elif k == 10: x = math.ldexp(c.int(1, 1 << 53), c.int(-1074, 971 - 53 + 1))
    else: x = c.int(0, 1000) / 8
    return -x if c.bool(35) else x


def lit(x):
    """a literal of this value, many spellings"""
    s = repr(abs(x))
    if s == 'inf': s = '1e999'
    return '(-%s)' % s if x < 0 or (x == 0 and math.copysign(1, x) < 0) else s


def text(x):
    if x != x: return 'NaN'
    if x == INF: return 'Infinity'
    if x == -INF: return '-Infinity'
    if x == int(x) and -2 ** 63 <= x < 2 ** 63: return str(int(x))
    return '%.15g' % x


def litspell(c):
    k = c.int(0, 9)
    dg = lambda lo, hi, al='0123456789': ''.join(c.pick(al) for _ in range(c.int(lo, hi)))
    if k == 0:
        s = c.pick('123456789') + dg(0, 24)
        return s, float(int(s))
    if k == 1:
        s = '0' + c.pick('xX') + dg(1, 16, '0123456789abcdefABCDEF')
        return s, float(int(s, 16))
    if k == 2:
        s = '0' + dg(1, 20, '01234567')
        return s, float(int(s, 8))
    if k == 3:
        s = '.' + dg(1, 20)
        return s, float(s)
    a = c.pick(['0', c.pick('123456789') + dg(0, 20)])
    s = a
    if c.bool(70): s += '.' + dg(0, 20)
    if c.bool(60): s += c.pick('eE') + c.pick(['', '+', '-']) + str(c.int(0, 330) if c.bool(30) else c.int(0, 25))
    return s, float(s)


def strnum(c):
    """text and its value as Number()"""
    k = c.int(0, 6)
    ws = lambda: ''.join(c.pick(' \t\n') for _ in range(c.int(0, 2))) if c.bool(30) else ''
    if k == 0:
        s = c.pick(['', 'x', '1x', '1 2', '-', '+', '.', 'e5', '1e', '--1', '1..2', 'é', '1,5', '12px', '0x', '0xg', '- 1', '1_000'])
        return s, 0.0 if s == '' else NAN
    if k == 1:
        v = c.int(0, 1 << c.int(1, 62))
        s = '0x%x' % v
        return ws() + s + ws(), float(v)
    s, v = litspell(c)
    if s.startswith('0') and len(s) > 1 and s[1].isdigit(): v = float(s)  # no octal in strings
    if s[:2] in ('0x', '0X'): return s, v
    if c.bool(30):
        s = '-' + s
        v = -v
    elif c.bool(10): s = '+' + s
    return ws() + s + ws(), v


def pint(s, base):
    t = s.lstrip(' \t\n')
    neg = t[:1] == '-'
    if t[:1] in ('-', '+'): t = t[1:]
    b = base or 10
    if t[:2].lower() == '0x' and (base is None or base == 16):
        b = 16
        t = t[2:]
    elif base is None and t[:1] == '0': b = 8
    v, n = 0, 0
    for ch in t:
        d = '0123456789abcdefghijklmnopqrstuvwxyz'.find(ch.lower())
        if d < 0 or d >= b or ch.lower() not in '0123456789abcdefghijklmnopqrstuvwxyz': break
        v = v * b + d
        n += 1
    if not n: return NAN
    return float(-v if neg else v)


FLT = re.compile(r'[ \t\n]*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?')


def rnd(x): return math.floor(x) + 1 if x - math.floor(x) >= 0.5 else math.floor(x)


def jpow(a, b):
    try:
        if a < 0 and b != int(b) and abs(a) != INF: return NAN
        return math.pow(a, b)
    except OverflowError:
        return -INF if a < 0 and b == int(b) and b % 2 == 1 else INF
    except ValueError:
        return -INF if a == 0 and math.copysign(1, a) < 0 and b % 2 == 1 else INF if a == 0 else NAN
    except Exception: return NAN


def wrap(f):
    def g(x):
        try: return f(x)
        except OverflowError: return INF
        except ValueError: return -INF if f is math.log and x == 0 else NAN
    return g


M1 = {'abs': abs, 'acos': wrap(math.acos), 'asin': wrap(math.asin), 'atan': math.atan, 'ceil': lambda x: math.ceil(x) if abs(x) < INF else x, 'cos': wrap(math.cos), 'exp': wrap(math.exp), 'floor': lambda x: math.floor(x) if abs(x) < INF else x, 'log': wrap(math.log),
      'round': lambda x: rnd(x) if abs(x) < INF else x, 'sin': wrap(math.sin), 'sqrt': wrap(math.sqrt), 'tan': wrap(math.tan)}


class Approx(float): pass


def ok(g, w):
    if isinstance(w, Approx):
        if not isinstance(g, float): return False
        if math.isnan(w): return math.isnan(g)
        return g == w or abs(g - w) <= 4e-16 * 2 * abs(w) + 1e-323
    return same(g, conv(w))


def one(c):
    """(expression, expected)"""
    k = c.pick(['lit', 'lit', 'text', 'text', 'text', 'strnum', 'strnum', 'parseInt', 'parseInt', 'parseFloat', 'fixed', 'expo', 'radix', 'prec', 'math', 'math', 'math', 'pow', 'minmax', 'pred', 'key', 'atan2', 'const'])
    if k == 'lit':
        s, v = litspell(c)
        return k, s, v
    x = f64(c)
    if c.bool(4): x = c.pick([INF, -INF, 0.0, -0.0])
    L = lit(x)
    if k == 'text':
        t = text(x)
        f = c.pick(['""+%s', '%s+""', 'String(%s)', '[%s].join(",")', 'new Number(%s)+""', '%s.toString()', '"<"+%s+">"', 'Number(String(%s))', 'n=%s, ""+n'])
        if f == '%s.toString()' and not L.startswith('('): L = '(' + L + ')'
        if f.startswith('Number('): return k, '0+' + f % L, float(t) if 'n' not in t else x
        return k, '(function(){ var n=%s; return ""+n; })()' % L if f[:2] == 'n=' else f % L, '<%s>' % t if '<' in f else t
    if k == 'key':
        if x == 0: x = 0.0
        return k, '(function(){ var o={}, r=[]; o[%s]=1; for (var k in o) { r.push(k); } return r[0]; })()' % lit(x), text(x)
    if k == 'strnum':
        s, v = strnum(c)
        f = c.pick(['0+Number(%s)', '+%s', '%s*1', '%s-0', '0+(new Number(%s))'])
        return k, '(function(){ var s=%s; var v = %s; return v; })()' % (jsstr(s), f % 's'), v
    if k == 'parseInt':
        b = c.pick([None, None, 10, 16, 8, 2, 36, c.int(2, 36)])
        if c.bool(15):
            return k, 'parseInt(%s%s)' % (L, '' if b is None else ', %d' % b), float(math.trunc(x)) if abs(x) < INF else Approx(x)
        s = ''.join(c.pick(' \t') for _ in range(c.int(0, 2))) if c.bool(20) else ''
        s += c.pick(['', '', '', '-', '+'])
        s += ''.join(c.pick(c.pick(['0123456789', '01', '0123456789abcdefABCDEFzZ', '0x'])) for _ in range(c.int(0, c.pick([6, 6, 22]))))
        s += c.pick(['', '', '.5', 'px', ' ', 'e3', ' 7'])
        v = pint(s, b)
        return k, 'parseInt(%s%s)' % (jsstr(s), '' if b is None else ', %d' % b), v if abs(v) < 2 ** 63 else Approx(v)
    if k == 'parseFloat':
        s, _ = strnum(c)
        s += c.pick(['', 'px', ' x', 'e', 'e+', '..', 'é'])
        m = FLT.match(s)
        if s.lstrip(' \t\n-+')[:2].lower() == '0x' or s.lstrip(' \t\n-+')[:1] in 'in': s = '12' + s.strip(); m = FLT.match(s)
        return k, 'parseFloat(%s)' % jsstr(s), float(m.group(0)) if m else NAN
    if k == 'fixed':
        d = c.pick([0, 1, 2, 3, 6, 15, 20, 50, 100])
        if abs(x) == INF: x, L = 1.5, '1.5'
        return k, '(%s).toFixed(%d)' % (L, d), '%.*f' % (d, x)
    if k == 'expo':
        d = c.pick([0, 1, 2, 3, 6, 15, 20, 50, 100])
        if abs(x) == INF: x, L = 1.5, '1.5'
        return k, '(%s).toExponential(%d)' % (L, d), '%.*e' % (d, x)
    if k == 'radix':
        r = c.pick([16, 8, 10])
        if r == 10: return k, '(%s).toString(10)' % L, text(x)
        if not abs(x) < 2 ** 63: x = float(c.int(-70000, 70000))
        x = float(math.trunc(x))
        return k, '(%s).toString(%d)' % (lit(x) if x else '0', r), ('-' if x < 0 else '') + ('%x' if r == 16 else '%o') % abs(int(x))
    if k == 'prec':       # cut, not rounded (finding precision-characters)
        if not abs(x) < 1e40: x = c.int(-10 ** 6, 10 ** 6) / c.pick([1, 2, 4, 7, 10, 1000])
        if c.bool(60): x = c.pick([-1, 1]) * c.int(0, 99999) / 10.0 ** c.int(0, 7)
        n = c.int(1, 60) if c.bool(30) else c.int(1, 9)
        t = '%.*f' % (n, x or 0.0)
        t = t[:n + 1 + (x < 0)]
        if t[-1] == '.': t = t[:-1]
        return k, '(%s).toPrecision(%d)' % (lit(x) if x else '0', n), t
    if k == 'math':
        f = c.pick(sorted(M1))
        if c.bool(5): x = NAN
        L = lit(x) if x == x else 'NaN'
        v = M1[f](x) if x == x else NAN
        return f, 'Math.%s(%s)' % (f, L), float(v) if f in ('abs', 'ceil', 'floor', 'round', 'sqrt') else Approx(v)
    if k == 'atan2':
        y = f64(c)
        return k, 'Math.atan2(%s, %s)' % (lit(x), lit(y)), Approx(math.atan2(x, y))
    if k == 'pow':
        y = c.pick([0.0, 1.0, 2.0, 0.5, -1.0, 3.0, -2.0, float(c.int(-400, 400)), 1074.0, -1074.0, f64(c)])
        if c.bool(40): x = c.pick([2.0, 10.0, 0.5, -2.0, 1.5, 0.0, 0.1])
        return k, 'Math.pow(%s, %s)' % (lit(x), lit(y)), Approx(jpow(x, y))
    if k == 'minmax':
        v = [x] + [f64(c) for _ in range(c.int(1, 6))]
        if c.bool(20): v[c.int(0, len(v) - 1)] = NAN
        f = c.pick(['min', 'max'])
        r = NAN if any(q != q for q in v) else (min if f == 'min' else max)(v)
        return f, 'Math.%s(%s)' % (f, ', '.join(lit(q) if q == q else 'NaN' for q in v)), r
    if k == 'pred':
        if c.bool(10): x = NAN
        p = c.pick(['isNaN', 'isFinite', 'isInteger', 'isSafeInteger', 'gNaN', 'gFinite'])
        r = {'isNaN': x != x, 'gNaN': x != x, 'isFinite': abs(x) < INF, 'gFinite': abs(x) < INF, 'isInteger': abs(x) < INF and x == math.trunc(x),
             'isSafeInteger': abs(x) < 2 ** 53 and x == math.trunc(x)}[p]
        L = lit(x) if x == x else 'NaN'
        if p == 'isInteger' and abs(x) >= 2 ** 63 and abs(x) < INF: x, L, r = 3.0, '3', True
        if p[0] == 'g': return k, p.replace('g', 'is') + '(%s)' % L, r
        return k, c.pick(['Number.%s(%s)', '(function(){ var n=%2$s; return n.%1$s(); })()']).replace('%2$s', L).replace('%1$s', p) if False else ('Number.%s(%s)' % (p, L) if c.bool() else '(new Number(%s)).%s()' % (L, p)), r
    if k == 'const':
        return k, *c.pick([('Math.PI', math.pi), ('Math.E', math.e), ('Math.LN2', math.log(2)), ('Math.LN10', math.log(10)), ('Math.LOG2E', 1 / math.log(2)), ('Math.LOG10E', Approx(1 / math.log(10))), ('Math.SQRT2', 2 ** .5), ('Math.SQRT1_2', Approx(.5 ** .5)), ('Number.MAX_VALUE', 1.7976931348623157e308), ('Infinity', INF), ('Number.NEGATIVE_INFINITY', -INF), ('NaN', NAN), ('Number.NaN', NAN), ('Number.POSITIVE_INFINITY', INF)])


def exprs(c, x):
    L = [one(c) for _ in range(c.size(1, 40))]
    src = 'Interp.conf({noCheck:true});\n' + ''.join('emit(%s);\n' % e for _, e, _ in L)
    c.rendered = src
    g = x.vals(src)
    if len(g) != len(L): raise Violation('%d values for %d expressions\n%s' % (len(g), len(L), src))
    for i, (k, e, w) in enumerate(L):
        if not ok(g[i], w): raise Violation('%s is %r, want %r' % (e, g[i], w))
        c.case(e, k not in ('const',))
        c.label(k)
    c.sample(src)


def rng(c, x):
    """Math.random: in [0,1), reproducible from its seed, spread"""
    seed = c.pick([0, 1, 2, 5, 42, -1, 2 ** 31, 2 ** 31 - 1, c.int(0, 1 << 30)])
    n = c.int(2, 200)
    src = 'function gen(s, n) { Math.srand(s); var r=[]; for (var i=0; i<n; i++) { r.push(Math.random()); } return r; }\nemit(gen(%s, %d), gen(%s, %d), gen(%s, %d));\nfor (var i=0, m=[]; i<100; i++) { m.push(Math.random()); } emit(m);\n' % (lit(float(seed)), n, lit(float(seed)), n, lit(float(seed + 1)), n)
    c.rendered = src
    a, b, d, m = x.vals(src)
    for v in a + b + d + m:
        if not (isinstance(v, float) and 0 <= v < 1): raise Violation('Math.random() gave %r\n%s' % (v, src))
    if a != b: raise Violation('srand(%s) is not reproducible' % seed)
    if a == d or len(set(a)) < len(a) - 1 or len(set(m)) < 99: raise Violation('repeated random numbers')
    c.case(src, True)


P = lambda js, *w: lambda x: expect(x, js, list(w))
PROBES = [('radix-decimal', P('emit((5).toString(2));', '101')), ('precision-characters', P('emit((1234.5).toPrecision(2));', '1.2e+3'))]
PROPS = [('expressions', exprs, {'quick': 9000, 'thorough': 200000}), ('random', rng, {'quick': 300, 'thorough': 3000})]
CHECK = Check('C09', lambda w: X(w), PROPS, 'expressions: conversions, predicates and Math functions over doubles of every magnitude and literal and string spellings of numbers, each against the reference, non-trivial = anything but a constant; random: sequences of Math.random with a seed', probes=PROBES)
