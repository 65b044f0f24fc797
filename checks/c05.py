"""C05: Array.sort."""
from functools import cmp_to_key
from vt.core import Check, Violation
from vt.js import X, jsstr, jsnum, UNDEF, same, show, conv, expect


def P(js, *want):
    return lambda x: expect(x, js, list(want))


def dict_cmp(a, b):
    """Tcl's dictionary order: numbers by value, case and leading zeros as tie-breaks."""
    i = j = 0
    sec = 0
    D = '0123456789'
    while True:
        l, r = a[i:i + 1], b[j:j + 1]
        if l and r and l in D and r in D:
            i0, j0 = i, j
            while i < len(a) and a[i] in D: i += 1
            while j < len(b) and b[j] in D: j += 1
            n, m = a[i0:i], b[j0:j]
            ns, ms = n.lstrip('0') or '0', m.lstrip('0') or '0'
            if sec == 0: sec = (len(n) - len(ns)) - (len(m) - len(ms))
            if len(ns) != len(ms): return len(ns) - len(ms)
            if ns != ms: return -1 if ns < ms else 1
            continue
        if not l or not r:
            if l or r: return 1 if l else -1
            return sec
        if l != r:
            lo = lambda t: t.lower().encode() if t.isascii() else t.encode()
            if lo(l) != lo(r): return -1 if lo(l) < lo(r) else 1
            if sec == 0: sec = -1 if l.isupper() else 1
        i += 1; j += 1


def sgn(x): return (x > 0) - (x < 0)
def cmp(a, b): return (a > b) - (a < b)


def bc(a, b): return cmp(a.encode(), b.encode())
def nc(a, b):
    f = lambda s: bytes(c + 32 if 65 <= c <= 90 else c for c in s.encode())
    return cmp(f(a), f(b))


def gen(c):
    kind = c.weighted([(4, 'num'), (4, 'str'), (3, 'obj'), (1, 'bool')])
    n = c.weighted([(12, c.size(0, 14)), (3, c.size(14, 120)), (1, c.size(100, 3000))])
    if kind == 'num':
        mk = c.pick([lambda: c.int(-5, 5), lambda: c.int(0, 1000), lambda: c.pick([0.5, 0.1, 0.25, -0.75, 1.5, 0.30000000000000004, 0.3, 1e300, -1e300, 1e-300, 2147483648, -2147483649, 4294967296, 3]), lambda: c.int(0, 100) / 100])
    elif kind == 'str':
        al = c.pick(['ab', 'aAbB', 'a10', 'xX019', 'aé日b', 'aBé', 'abc12 -_', 'aA_^Zz1'])
        mk = lambda: ''.join(c.pick(al) for _ in range(c.size(0, 7)))
    elif kind == 'bool':
        mk = lambda: c.bool()
    else:
        m = c.pick([3, 10, 10000])
        mk = lambda: c.int(0, m)
    return kind, [mk() for _ in range(n)]


def sort_prop(c, x):
    kind, vals = gen(c)
    holes = 0
    lit = lambda v: 'true' if v is True else 'false' if v is False else jsstr(v) if isinstance(v, str) else jsnum(v)
    if kind == 'obj':
        ids = list(range(len(vals)))
        el = ['{ k: %d, id: %d }' % (v, i) for v, i in zip(vals, ids)]
    else:
        el = [lit(v) for v in vals]
    pre = ''
    if len(vals) > 400:
        pre = 'var a = [];\n' + ''.join('a.push(%s);\n' % ', '.join(el[i:i + 50]) for i in range(0, len(el), 50))
    else:
        pre = 'var a = [%s];\n' % ', '.join(el)
    # how
    strict = True      # whether the order is a total preorder
    mode = c.weighted([(5, 'default'), (3, 'desc'), (4, 'dict'), (3, 'nocase')])
    uniq = c.bool(30)
    usecmp = kind == 'obj' or c.bool(45)
    F, body, over = None, None, False
    if usecmp:
        if kind == 'obj':
            cs = [('x.k - y.k', lambda p, q: p - q), ('y.k - x.k', lambda p, q: q - p), ('(x.k - y.k) / 8', lambda p, q: p - q), ('(x.k %% 3) - (y.k %% 3)'.replace('%%', '%'), lambda p, q: p % 3 - q % 3), ('0', lambda p, q: 0)]
        elif kind == 'str':
            cs = [('x < y ? -1 : (x > y ? 1 : 0)', bc), ('x.length - y.length', lambda p, q: len(p) - len(q)), ('y.length - x.length', lambda p, q: len(q) - len(p)), ('x < y ? 0.25 : (x > y ? -0.25 : 0)', lambda p, q: bc(q, p))]
        elif kind == 'bool':
            cs = [('(x ? 1 : 0) - (y ? 1 : 0)', lambda p, q: int(p) - int(q))]
        else:
            cs = [('x - y', lambda p, q: p - q), ('y - x', lambda p, q: q - p), ('x < y ? -1e18 : (x > y ? 1e18 : 0)', lambda p, q: p - q), ('x < y ? -0.001 : (x > y ? 0.001 : 0)', lambda p, q: p - q), ('Math.abs(x) - Math.abs(y)', lambda p, q: abs(p) - abs(q)), ('(n++) % 3 - 1', None), ('1', None), ('-1', None)]
        body, F = c.pick(cs)
        if F is None: uniq = False
        extra = ''
        if c.bool(15): extra += 'x = %s; ' % 'x'
        if c.bool(12): extra += 'seen.push(x); '
        if c.bool(10): extra += 'tmp = [3, 1, 2].sort(function(p, q) { return p - q; }); '
        post = ''
        if c.bool(12): post = 'x = 9; y = [1]; '
        thr = c.int(1, 12) if c.bool(10) else 0
        if thr: extra += 'if (++m >= %d) throw "T"; ' % thr
        mut = c.bool(8)
        if not mut and c.bool(8): extra += c.pick(['a[%d] = [1, 2]; ' % (len(vals) + c.int(4, 9)), 'a[%d] = 5; ' % (len(vals) + c.int(100, 300)), 'delete a[%d]; ' % c.int(0, 3), 'a.reverse(); ', 'a = [1]; a = b0; ']); over = True
        if mut: extra += 'try { %s; emit("mutated"); } catch(e) { em = e; } ' % c.pick(['a.push(1)', 'a.pop()', 'a.splice(0, 1)', 'a.shift()', 'a.sort()', 'a.unshift(2)', 'a.length = 0', 'a.fill(1)'])
        fn = 'function(x, y) { %svar r = %s; %sreturn r; }' % (extra, body, post)
        if mode == 'default' and not uniq and c.bool(80):
            call = 'a.sort(%s)' % fn
        else:
            call = 'a.sort({ compare: %s%s%s })' % (fn, ', mode: "%s"' % mode if mode != 'default' else '', ', unique: true' if uniq else '')
        if mode == 'desc' and F:
            f0 = F
            F = lambda p, q: f0(q, p)
    else:
        thr = 0; mut = False
        base = bc if kind == 'str' else lambda p, q: cmp(p, q)
        F = base
        if mode == 'desc': F = lambda p, q: base(q, p)
        elif mode == 'dict' and kind == 'str': F = dict_cmp
        elif mode == 'nocase' and kind == 'str': F = nc
        if mode == 'default' and not uniq: call = c.pick(['a.sort()', 'a.sort({})', 'a.sort({ mode: "default" })'])
        else: call = 'a.sort({ %s })' % ', '.join((['mode: "%s"' % mode] if mode != 'default' else []) + (['unique: true'] if uniq else []))
    hole = []
    if not uniq and len(vals) > 2 and c.bool(12):
        hole = sorted({c.int(0, len(vals) - 1) for _ in range(c.size(1, 4))})
        pre += ''.join('delete a[%d];\n' % h for h in hole)
        if c.bool(40): pre += 'a[%d] = %s;\n' % (len(vals) + 3, el[hole[0]]); grown = True
        else: grown = False
    else: grown = False
    src = 'var n = 0, m = 0, tmp = 0, em = "", seen = [], b0 = 0, same = 0, err = 0, b = 0;\n' + pre
    src += 'b0 = a; try { b = %s; same = (b === a); } catch(e) { err = e; }\nemit(err, same, a.length);\nemit(a);\n' % call
    src += 'a.unshift("start"); a.push("end"); emit(a.length, a[a.length - 1]); emit(a);\n'
    c.rendered = src
    G = x.vals(src)
    def bad(m): raise Violation('%s\n--- script\n%s\n--- got %s' % (m, show(src), show(repr(G))))
    if len(G) != 7: bad('unexpected output (mutation of an array being sorted?)')
    err, sm, ln, res, ln2, last, res2 = G
    n0 = len(vals) + (4 if grown else 0)
    cur = [v for i, v in enumerate(vals) if i not in hole] + ([vals[hole[0]]] if grown else [])
    if kind == 'obj':
        cids = [i for i in range(len(vals)) if i not in hole] + ([hole[0]] if grown else [])
    if len(res) != ln: bad('length differs from the elements')
    h = [v for v in res if v is UNDEF]
    pres = [v for v in res if v is not UNDEF]
    nh = len(hole) + (3 if grown else 0)
    thrown = err == b'T'
    if thr:
        calls_possible = len(cur) >= 2
        if thrown and not calls_possible: bad('exception out of nowhere')
        if not thrown and len(cur) - 1 >= thr: bad('exception of the comparison function lost')
    elif err != 0.0: bad('unexpected error')
    if not thrown and sm is not True: bad('sort does not return its array')
    if len(h) != nh: bad('%d holes became %d' % (nh, len(h)))
    if not thrown and nh:
        part = res[-nh:] if mode == 'desc' else res[:nh]
        if any(v is not UNDEF for v in part): bad('holes are not together at the %s' % ('end' if mode == 'desc' else 'start'))
    if kind == 'obj':
        got = [int(v[b'k']) for v in pres]
        gid = [int(v[b'id']) for v in pres]
        if any(vals[i] != k for i, k in zip(gid, got)): bad('elements damaged')
    else:
        got = [v.decode('utf8') if isinstance(v, bytes) else v for v in pres]
    want = sorted(cur, key=cmp_to_key(lambda p, q: sgn(F(p, q)))) if F else cur
    if uniq:
        u = []
        for v in want:
            if not u or F(u[-1], v) != 0: u.append(v)
        if thrown: u = got
        if len(u) != len(got): bad('%d classes of equal elements, %d left' % (len(u), len(got)))
        for p, q in zip(u, got):
            if F(p, q) != 0: bad('class of %r missing' % (p,))
        pool = list(cur)
        for v in got:
            if v not in pool: bad('%r was not in the array' % (v,))
            pool.remove(v)
        if kind == 'obj' and len(set(gid)) != len(gid): bad('an element occurs twice')
    else:
        key = lambda v: (str(type(v) is str), v)
        if sorted(got, key=key) != sorted(cur, key=key): bad('not a permutation of the elements')
        if kind == 'obj' and sorted(gid) != sorted(cids): bad('not a permutation of the elements')
    if F and not thrown:
        for p, q in zip(got, got[1:]):
            if F(p, q) > 0: bad('%r before %r' % (p, q))
    # the array stays an ordinary array
    if last != b'end' or (ln2 != ln + 2) or len(res2) != ln2 or not (same(res2[1:-1], res) and (res2[0] == b'start')):
        bad('array damaged after sort')
    c.case(src, len(cur) >= 3)
    c.label(kind, mode, 'compare' if usecmp else 'builtin order')
    if uniq: c.label('unique')
    if over: c.label('compare assigns elements')
    if mut: c.label('compare calls methods')
    if thrown: c.label('throwing compare')
    if hole: c.label('holes')
    if len(vals) > 100: c.label('large')
    c.sample(src[:600])


PROBES = [
    ('unique-dangling', P("var a=[3,1,2,3,1]; a.sort({unique:true}); a.push(7); a.push(8); emit(a); a[0]=99; emit(a);", [1, 2, 3, 7, 8], [99, 2, 3, 7, 8])),
    ('fractional-compare', P("emit([0.5,0.1,0.9,0.3].sort(function(a,b){return a-b;}));", [0.1, 0.3, 0.5, 0.9])),
    ('throwing-compare', P("var a=[5,3,9]; try { a.sort(function(a,b){ throw 'X'; }); emit('no'); } catch(e) { emit(e); } a.sort(); emit(a);", 'X', [3, 5, 9])),
]
PROBES.append(('growing-compare', P("var a=[5,3,9,1,7,8]; a.sort(function(x,y){ a[200]=4; return x-y; }); emit(a);", [1, 3, 5, 7, 8, 9])))
PROPS = [('sort', sort_prop, {'quick': 8000, 'thorough': 150000})]
CHECK = Check('C05', lambda w: X(w), PROPS, 'arrays of 0-3000 numbers, strings, booleans or tagged objects with a sort mode, comparison function and unique flag; non-trivial = at least 3 elements', probes=PROBES)
