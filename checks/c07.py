"""C07: strings."""
from vt.core import Check, Violation
from vt.js import X, jsstr, jsnum, UNDEF, same, show, conv, expect


def P(js, *want):
    return lambda x: expect(x, js, list(want))


ALPH = ['ab', 'abcABC', 'aé', 'é日😀a', 'ab \t', 'a,b;', 'aAéÉzZ', '日本語テ', 'xyz019 _-', 'ß€ñ', ' \t\n\ra', 'AbCd', '"\'\\`$&', '\u0080\u07ff\u0800\uffff\U00010000\U0010ffff', 'a%\u00ff']
SIZES = [15, 16, 31, 32, 63, 64, 127, 128, 199, 200, 201, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8192, 20000]
IL = [0, 1, 2, 3, 5, -1, -2, -3, 10, 100, -100, 2147483647, -2147483647, 65536]


def up(s): return ''.join(chr(ord(ch) - 32) if 'a' <= ch <= 'z' else ch for ch in s)
def low(s): return ''.join(chr(ord(ch) + 32) if 'A' <= ch <= 'Z' else ch for ch in s)


def substr(s, a, n=None):
    if a < 0: a = max(0, a + len(s))
    if n is not None and n <= 0: return ''
    return s[a:] if n is None else s[a:a + n]


def slice_(s, a, e=None):
    if a < 0: a = max(0, a + len(s))
    a = min(a, len(s))
    if e is None: return s[a:]
    if e < 0: e += len(s)
    return s[a:max(a, min(e, len(s)))]


def mapf(s, pairs, nocase):
    b = s.encode()
    out = b''
    i = 0
    pr = [(k.encode(), v.encode()) for k, v in pairs]
    lo = lambda q: bytes(ch + 32 if 65 <= ch <= 90 else ch for ch in q)
    while i < len(b):
        for k, v in pr:
            seg = b[i:i + len(k)]
            if seg == k or (nocase and lo(seg) == lo(k)):
                out += v
                i += len(k)
                break
        else:
            out += b[i:i + 1]
            i += 1
    return out.decode()


def hist(c, x):
    al = c.pick(ALPH)
    if c.bool(30): al += c.pick(ALPH)
    asc = all(ord(ch) < 128 for ch in al)

    def txt(lo=0, hi=8):
        return ''.join(c.pick(al) for _ in range(c.size(lo, hi)))

    def big():
        n = c.pick(SIZES) + c.int(-1, 1)
        unit = txt(1, 4) or al[0]
        return (unit * n)[:n], 'gen(%s, %d)' % (jsstr(unit), n)

    S = []
    lines = ['function gen(u, n) { var r = u.repeat(Math.floor(n / u.length) + 1); return r.substr(0, n); }\n']
    for i in range(3):
        if c.bool(12):
            v, ex = big()
        else:
            v = txt(0, 14)
            ex = jsstr(v, c.pick(['"', "'"]))
        S.append(v)
        lines.append('var s%d = %s;\n' % (i, ex))
    want = []
    kinds = []

    def idx(s):
        return c.pick(IL) if c.bool(35) else c.int(-len(s) - 2, len(s) + 2)

    def needle(s):
        if s and c.bool(65):
            a = c.int(0, len(s) - 1)
            return s[a:a + c.int(1, 4)]
        return txt(1, 3) or al[0]

    def start(s):
        return c.pick([None, None]) if c.bool() else idx(s)

    for _ in range(c.size(2, 14)):
        i = c.int(0, 2)
        s, nm = S[i], 's%d' % i
        j = c.int(0, 2)
        t, tm = S[j], 's%d' % j
        if c.bool(15): nm = 'new String(%s)' % nm
        op = c.pick(['length', 'index', 'charAt', 'charCodeAt', 'substr', 'substring', 'slice', 'indexOf', 'lastIndexOf', 'search', 'split', 'splitnull', 'splitempty', 'splitjoin', 'trim', 'trimx', 'case', 'title', 'concat', 'plus', 'repeat', 'replace', 'replacefn', 'map', 'fromcc', 'cmp', 'key', 'append', 'pluseq', 'cut', 'typeof'])
        kinds.append(op)
        arg = lambda *a: ', '.join(jsstr(q) if isinstance(q, str) else jsnum(q) for q in a if q is not None)
        res = ex = None
        if op == 'length': ex, res = '%s.length' % nm, len(s)
        elif op == 'index':
            k = c.int(-1, len(s) + 1)
            ex, res = '%s[%s]' % (nm if not nm.startswith('new') else 's%d' % i, jsnum(k)), s[k] if 0 <= k < len(s) else UNDEF
        elif op == 'charAt':
            k = idx(s)
            ex, res = '%s.charAt(%s)' % (nm, jsnum(k)), s[k] if 0 <= k < len(s) else ''
        elif op == 'charCodeAt':
            k = idx(s)
            ex, res = '%s.charCodeAt(%s)' % (nm, jsnum(k)), ord(s[k]) if 0 <= k < len(s) else float('nan')
        elif op == 'substr':
            a = idx(s)
            n = start(s)
            ex, res = '%s.substr(%s)' % (nm, arg(a, n)), substr(s, a, n)
        elif op == 'substring':
            a = idx(s)
            n = start(s)
            if n is not None and n < max(0, a): n = max(0, a) + c.int(0, 3) if a < 1000 else n
            a0 = max(0, a)
            ex, res = '%s.substring(%s)' % (nm, arg(a, n)), s[a0:] if n is None else s[a0:min(n, len(s)) + 1] if min(n, len(s)) >= a0 else ''
        elif op == 'slice':
            a = idx(s)
            n = None
            if c.bool():
                n = idx(s)
                if min(len(s), a if a >= 0 else max(0, a + len(s))) > 0:
                    c.exclude('slice-end-as-length')
                    a = 0
            ex, res = '%s.slice(%s)' % (nm, arg(a, n)), slice_(s, a, n)
        elif op in ('indexOf', 'lastIndexOf'):
            q = needle(s)
            if len(q) > 3 and c.bool(10): q = ''
            k = start(s)
            if q == '' and k is not None and k > len(s): k = len(s)
            if op == 'indexOf': res = s.find(q, max(0, k or 0))
            else: res = s.rfind(q) if k is None else s.rfind(q, 0, max(0, k) + len(q))
            ex = '%s.%s(%s)' % (nm, op, arg(q, k))
        elif op == 'search':
            q = needle(s)
            ex, res = '%s.search(%s)' % (nm, arg(q)), s.find(q)
        elif op == 'split':
            q = needle(s)
            ex, res = '%s.split(%s)' % (nm, arg(q)), s.split(q)
        elif op == 'splitjoin':
            q, r = needle(s), txt(0, 3)
            ex, res = '%s.split(%s).join(%s)' % (nm, arg(q), arg(r)), s.replace(q, r)
        elif op == 'splitnull':
            if any(ch in '\v\f' for ch in s): continue
            ex, res = '%s.split(null)' % nm, [q for q in s.replace('\t', ' ').replace('\n', ' ').replace('\r', ' ').split(' ') if q]
        elif op == 'splitempty':
            if not s.isascii() or len(s) > 3000: continue
            ex, res = '%s.split("")' % nm, list(s)
        elif op in ('trim', 'trimx'):
            m = c.pick(['trim', 'trimLeft', 'trimRight'])
            if op == 'trim':
                ch = ' \t\n\r'
                ex = '%s.%s()' % (nm, m)
            else:
                ch = ''.join(c.pick([q for q in al if ord(q) < 128] or ['a']) for _ in range(c.int(1, 3)))
                ex = '%s.%s(%s)' % (nm, m, arg(ch))
            res = s
            if m != 'trimRight': res = res.lstrip(ch)
            if m != 'trimLeft': res = res.rstrip(ch)
        elif op == 'case':
            m = c.pick(['toUpperCase', 'toLowerCase', 'toLocaleUpperCase', 'toLocaleLowerCase'])
            ex, res = '%s.%s()' % (nm, m), up(s) if 'Up' in m else low(s)
        elif op == 'title':
            ex, res = '%s.toTitle()' % nm, up(s[:1]) + low(s[1:])
        elif op == 'concat':
            u = txt(0, 4)
            ex, res = '%s.concat(%s, %s)' % (nm, tm, arg(u)), s + t + u
        elif op == 'plus':
            u = txt(0, 4)
            k = c.pick([0, 1, -7, 1.5, 1e21, 123456789])
            ex, res = '%s + %s + %s + %s' % (arg(u), 's%d' % i, jsnum(k), tm), u + s + ('1e+21' if k == 1e21 else str(k)) + t
        elif op == 'repeat':
            k = c.pick([0, 1, 2, 3, 7, 50])
            if len(s) * k > 60000: continue
            ex, res = '%s.repeat(%d)' % (nm, k), s * k
        elif op == 'replace':
            q, r = needle(s), txt(0, 4)
            if c.bool(20): r += '$&$1$$'
            ex, res = '%s.replace(%s)' % (nm, arg(q, r)), s.replace(q, r, 1)
        elif op == 'replacefn':
            q, r = needle(s), txt(0, 4)
            if c.bool():
                ex, res = '%s.replace(%s, function(m) { return %s + m; })' % (nm, arg(q), arg(r)), s.replace(q, r + q, 1)
            else:
                ex, res = '%s.replace(%s, function(m, o, t) { return m + o + %s + t; })' % (nm, arg(q), arg(r)), s.replace(q, '%s%d%s%s' % (q, s.find(q), r, s), 1)
        elif op == 'map':
            pairs = [(needle(s), txt(0, 3)) for _ in range(c.int(1, 4))]
            nc = c.bool(40)
            ex = '%s.map([%s]%s)' % (nm, ', '.join('%s, %s' % (arg(k), arg(v)) for k, v in pairs), ', true' if nc else '')
            res = mapf(s, pairs, nc)
        elif op == 'fromcc':
            u = txt(1, 6) or 'a'
            ex, res = '%s(%s)' % ('String.fromCharCode', ', '.join(str(ord(ch)) for ch in u)), u
        elif op == 'cmp':
            a, b = s.encode(), t.encode()
            sn = 's%d' % i
            ex = '[%s]' % ', '.join('%s %s %s' % (sn, o, tm) for o in ('<', '<=', '>', '>=', '==', '===', '!=', '!=='))
            res = [a < b, a <= b, a > b, a >= b, a == b, a == b, a != b, a != b]
        elif op == 'key':
            if len(s) > 500: continue
            lines.append('var o = {}; o[s%d] = 1; o[s%d + "k"] = 2; L = []; for (var k in o) L.push(k);\n' % (i, i))
            ex, res = '[o[s%d], L[0] === s%d, L]' % (i, i), [1, True, [s, s + 'k']]
        elif op == 'typeof': ex, res = 'typeof %s + (%s ? "t" : "f")' % (nm, 's%d' % i), 'string' + ('t' if s else 'f')
        elif op == 'append':
            if len(s) + len(t) > 60000: continue
            k = c.int(0, 2)
            lines.append('s%d = s%d + s%d;\n' % (k, i, j))
            S[k] = s + t
        elif op == 'pluseq':
            k = c.int(1, 12)
            if len(t) * k + len(s) > 60000: continue
            if i == j: k = 1
            lines.append('for (var q = 0; q < %d; q++) s%d += s%d;\n' % (k, i, j))
            S[i] = s + t * k
        elif op == 'cut':
            k, a, n = c.int(0, 2), idx(s), c.int(0, 9)
            lines.append('s%d = s%d.substr(%s, %d);\n' % (k, i, jsnum(a), n))
            S[k] = substr(s, a, n)
        if ex is not None:
            if isinstance(res, str) and not nm.startswith('new') and c.bool(15) and len(res) < 60000:
                lines.append('s%d = %s; emit(s%d);\n' % (i, ex, i))
                S[i] = res
            else: lines.append('emit(%s);\n' % ex)
            want.append((op, ex, res))
    lines.append('emit(s0, s1, s2, s0.length, s1.length, s2.length);\n')
    want += [('state', 's%d' % k, S[k]) for k in range(3)] + [('state', 's%d.length' % k, len(S[k])) for k in range(3)]
    src = 'var L = [];\n' + ''.join(lines)
    c.rendered = src
    g = x.vals(src)
    for k, (op, ex, w) in enumerate(want):
        if k >= len(g) or not same(g[k], conv(w)):
            raise Violation('%s is %s, want %s\n--- script\n%s' % (show(ex), show(repr(g[k]) if k < len(g) else 'nothing'), show(repr(conv(w))), show(src)))
    if len(g) != len(want): raise Violation('unexpected output\n%s' % show(src))
    c.case(src, any(S) and len(kinds) >= 2)
    for o in set(kinds): c.label(o)
    if not asc: c.label('non-ASCII')
    if any(len(s) > 100 for s in S): c.label('long')
    c.sample(src[:400])


PROBES = [
    ('case-last', P("emit('é'.toUpperCase(), 'aé'.toLowerCase());", 'é', 'aé')),
    ('substr-utf', P("emit('éa日b'.substr(0,1), 'éa日b'.substr(-2,1), 'abcdef'.substr(-9,2), ''.substr(-1));", 'é', '日', 'ab', '')),
    ('slice-start', P("emit('abc'.slice(7), 'éa日b'.slice(-1));", '', 'b')),
    ('index-utf', P("emit('éa日b'.indexOf('b'), 'abcabc'.lastIndexOf('c',3), 'éb'.search('b'), ''.repeat(3));", 3, 2, 1, '')),
    ('slice-end-as-length', P("emit('abcdef'.slice(2,4));", 'cd')),
    ('trim-bytes', P("emit('éa'.trim('ã').length, 'éa'.trim('ã'));", 2, 'éa')),
    ('split-empty-bytes', P("emit('é'.split(''));", ['é'])),
]
PROPS = [('histories', hist, {'quick': 12000, 'thorough': 250000})]
CHECK = Check('C07', lambda w: X(w), PROPS, 'histories of string operations over three variables (0 to 60000 characters); non-trivial = a non-empty string and at least two operations', probes=PROBES)
