"""C08: regular expressions."""
import ctypes
from vt.core import Check, Violation, Discard
from vt.js import X, jsstr, jsnum, UNDEF, same, show, conv, expect

libc = ctypes.CDLL(None)
libc.setlocale(0, b'C')  # as in jsish, which never calls setlocale


class RM(ctypes.Structure):
    _fields_ = [('so', ctypes.c_int), ('eo', ctypes.c_int)]


class Re:
    """a compiled expression of the C library: REG_EXTENDED, i -> REG_ICASE, m -> REG_NEWLINE"""
    def __init__(self, pat, flags):
        self.buf = ctypes.create_string_buffer(512)
        self.ok = libc.regcomp(self.buf, pat, 1 | (2 if 'i' in flags else 0) | (4 if 'm' in flags else 0)) == 0
        self.nsub = ctypes.c_size_t.from_buffer(self.buf, 48).value if self.ok else 0
        self.g = 'g' in flags

    def at(self, s, at):
        """(spans, groups) of the leftmost match at or after byte offset at"""
        pm = (RM * 64)()
        pm[0].so, pm[0].eo = at, len(s)
        r = libc.regexec(self.buf, s, 64, pm, 4)
        one = (RM * 1)()
        one[0].so, one[0].eo = at, len(s)
        r1 = libc.regexec(self.buf, s, 1, one, 4)
        if bool(r) != bool(r1) or (not r and (one[0].so, one[0].eo) != (pm[0].so, pm[0].eo)):
            raise Discard('the C library gives two answers')  # glibc: some repeated groups match only without captures
        if r:
            return None
        return [(m.so, m.eo) for m in pm[:self.nsub + 1]]

    def all(self, s):
        at = 0
        while at <= len(s):
            m = self.at(s, at)
            if not m: return
            yield m
            at = m[0][1]
            if m[0][0] == m[0][1]:
                at += 1
                while at < len(s) and (s[at] & 0xc0) == 0x80: at += 1

    def free(self):
        if self.ok: libc.regfree(self.buf)


def nch(s, o): return len(s[:o].decode())
def txt(s, m): return None if m[0] < 0 else s[m[0]:m[1]].decode()


def expand(rep, s, m):
    o, i = '', 0
    while i < len(rep):
        ch = rep[i]
        if ch == '$' and i + 1 < len(rep):
            i += 1
            d = rep[i]
            if d.isdigit(): o += (txt(s, m[int(d)]) or '') if int(d) < len(m) else ''
            elif d == '&': o += txt(s, m[0])
            elif d == '$': o += '$'
            elif d == "'": o += s[m[0][1]:].decode()
            elif d == '`': o += s[:m[0][0]].decode()
            else: o += '$' + d
        else: o += ch
        i += 1
    return o


def replace(re, s, f):
    out, p = '', 0
    for m in re.all(s):
        out += s[p:m[0][0]].decode() + f(m)
        p = m[0][1]
        if not re.g: break
    return out + s[p:].decode()


def genpat(c, al, uni, d=0, fuel=None):
    """a pattern text"""
    if fuel is None: fuel = [c.int(1, 24)]
    def atom(d):
        fuel[0] -= 1
        k = c.int(0, 12)
        if k <= 3 or d > 3 or fuel[0] < 0: return c.pick(al)
        if k == 4: return c.pick(['a', 'b']) + c.pick(al)
        if k == 5:
            cs = ''.join(c.pick('abcxyzAB019 _,.') for _ in range(c.int(1, 3)))
            r = c.pick(['', 'a-c', '0-9', 'A-Z', '[:alpha:]', '[:digit:]', '[:space:]', '[:upper:]'])
            return '[%s%s%s]' % ('' if uni else c.pick(['', '', '^']), cs, r)
        if k == 6:
            if uni:
                c.exclude('dot-bytes')
                return c.pick(al)
            return '.'
        if k == 7: return c.pick(['\\.', '\\*', '\\(', '\\$', '\\\\', '\\/', '\\[', '\\|'])
        if k == 8: return c.pick(['\\b'] if uni else ['\\w', '\\W', '\\s', '\\S', '\\b', '\\B', '\\<', '\\>'])
        if k == 9: return c.pick(['^', '$'])
        return '(' + genpat(c, al, uni, d + 1, fuel) + ')'

    def piece():
        a = atom(d)
        if c.bool(30) and a[0] not in '^$' and a not in ('\\b', '\\B', '\\<', '\\>'):
            if uni and len(a.encode()) > 1 and a[0] != '(' and a[0] != '[' and a[0] != '\\': a = '(' + a + ')'
            if a[0] == '(' and any(q in a for q in '*+?{^$\\'): a += '?'  # the C library may loop on repeated groups which can be empty
            else: a += c.pick(['*', '+', '?', '*', '{2}', '{1,2}', '{0,1}', '{2,}'])
        return a
    alts = [''.join(piece() for _ in range(c.weighted([(4, 1), (4, 2), (3, 3), (1, 4)] if fuel[0] > 0 else [(1, 1)]))) for _ in range(c.weighted([(7, 1), (3, 2), (1, 3)] if fuel[0] > 0 else [(1, 1)]))]
    return '|'.join(alts)


def hist(c, x):
    uni = c.bool(35)
    al = ['é', '日', 'a', 'b', '😀', 'x'] if uni else ['a', 'b', 'c', 'x', 'A', ' ', '0', '\n', '_', 'B']
    subj = []
    for _ in range(c.int(1, 3)):
        if c.bool(15):
            u = ''.join(c.pick(al) for _ in range(c.int(1, 4)))
            s = u * c.pick([16, 50, 64, 100, 200, 333])
        else:
            s = ''.join(c.pick(al) for _ in range(c.size(0, 16)))
            if c.bool(15): s += c.pick(['.*($\\/[|', 'ab,AB', '12 ab'])
        subj.append(s)
    lines = ['var s%d = %s;\n' % (i, jsstr(s)) for i, s in enumerate(subj)]
    RX = []
    want = []
    al2 = [a for a in al if a != '\n'] if True else al
    for i in range(c.int(1, 3)):
        fl = ''.join(sorted(set(c.pick(['', 'g', 'g', 'i', 'm']) + c.pick(['', 'i', 'm', 'g']))))
        if RX and c.bool(35):
            pat, fl0 = RX[c.int(0, len(RX) - 1)][:2]
            if c.bool(60): fl = fl0
        else:
            pat = genpat(c, al2, uni)
        re = Re(pat.encode(), fl)
        if not re.ok or pat[0] == '*' or re.nsub > 60:
            pat, fl = 'a', fl
            re = Re(pat.encode(), fl)
        k = 0 if pat.startswith('*') or pat.startswith('=') else c.int(0, 1)
        lines.append('var r%d = %s;\n' % (i, '/%s/%s' % (pat.replace('\\/', '/').replace('/', '\\/'), fl) if k == 0 else 'new RegExp(%s%s)' % (jsstr(pat), ', ' + jsstr(fl) if fl or c.bool(20) else '')))
        RX.append([pat, fl, re, 0, 'r%d' % i, False])
    if not RX: return
    kinds = []
    nm = 0
    for _ in range(c.size(1, 10)):
        R = c.pick(RX)
        re, rn = R[2], R[4]
        si = c.int(0, len(subj) - 1)
        st, sn = subj[si], 's%d' % si
        s = st.encode()
        op = c.pick(['exec', 'exec', 'exec', 'test', 'match', 'match', 'search', 'repl', 'repl', 'replf', 'replf', 'setli', 'loop', 'matchstr', 'alias', 'replnest'])
        kinds.append(op)
        if op == 'exec':
            m = None
            if not re.g: m = re.at(s, 0)
            else:
                if R[3] <= len(st): m = re.at(s, len(st[:max(0, R[3])].encode()))
                R[3] = nch(s, m[0][1]) if m else 0
                R[5] = True
            lines.append('emit(%s.exec(%s)%s);\n' % (rn, sn, ', %s.lastIndex' % rn if re.g else ''))
            want.append([txt(s, q) for q in m] if m else None)
            nm += m is not None
            if re.g: want.append(R[3])
        elif op == 'loop':
            if not re.g: continue
            L = []
            li = 0
            while li <= len(st):
                m = re.at(s, len(st[:li].encode()))
                if not m: break
                L.append([txt(s, q) for q in m] + [nch(s, m[0][1])])
                if m[0][1] == m[0][0]: li = nch(s, m[0][1]) + 1
                else: li = nch(s, m[0][1])
            nm += len(L) > 0
            lines.append('%s.lastIndex = 0; var l = [], q; while ((q = %s.exec(%s))) { q.push(%s.lastIndex); l.push(q); if (q[0] === "") { %s.lastIndex++; } }\nemit(l);\n' % (rn, rn, sn, rn, rn))
            want.append(L)
            R[3] = 0
            R[5] = True
        elif op == 'setli':
            if not re.g: continue
            R[3] = c.pick([0, 1, 2, 3, len(st), len(st) + 1, 100, 70000])
            R[5] = True
            lines.append('%s.lastIndex = %d;\n' % (rn, R[3]))
        elif op == 'test':
            lines.append('emit(%s.test(%s));\n' % (rn, sn))
            want.append(re.at(s, 0) is not None)
        elif op == 'match':
            lines.append('emit(%s.match(%s));\n' % (sn, rn))
            if re.g: w = [txt(s, m[0]) for m in re.all(s)] or None
            else:
                m = re.at(s, 0)
                w = [txt(s, q) for q in m] if m else None
            nm += w is not None
            want.append(w)
        elif op == 'matchstr':
            p = genpat(c, al2, uni)
            if p[0] == '*': continue
            q = Re(p.encode(), '')
            if q.ok and q.nsub < 60:
                m = q.at(s, 0)
                lines.append('var ps = %s; emit(%s.match(ps), ps);\n' % (jsstr(p), sn))
                want += [[txt(s, t) for t in m] if m else None, p]
            q.free()
        elif op == 'search':
            m = re.at(s, 0)
            lines.append('emit(%s.search(%s));\n' % (sn, rn))
            want.append(nch(s, m[0][0]) if m else -1)
            nm += m is not None
        elif op == 'repl':
            r = ''.join(c.pick(['$0', '$1', '$2', '$3', '$9', '$&', '$$', '$`', "$'", 'a', 'xyz', '$', '$x', 'é', '\\1', '&', '-', '$ ']) for _ in range(c.size(0, 4)))
            if len(st) > 500 and ('$`' in r or "$'" in r): r = '<$&>'
            lines.append('emit(%s.replace(%s, %s));\n' % (sn, rn, jsstr(r)))
            want.append(replace(re, s, lambda m: expand(r, s, m)))
            nm += re.at(s, 0) is not None
        elif op == 'replf':
            nm += re.at(s, 0) is not None
            if c.bool(40):
                lines.append('emit(%s.replace(%s, function(m) { return "<" + m + ">"; }));\n' % (sn, rn))
                want.append(replace(re, s, lambda m: '<' + txt(s, m[0]) + '>'))
            else:
                n = re.nsub
                ps = ''.join('p%d, ' % k for k in range(n))
                lines.append('emit(%s.replace(%s, function(m, %so, t) { return "<" + [m, %so, t.length].join(",") + ">"; }));\n' % (sn, rn, ps, ps))
                J = lambda v: 'null' if v is None else str(v)
                want.append(replace(re, s, lambda m: '<' + ','.join([J(txt(s, q)) for q in m] + [str(nch(s, m[0][0])), str(len(st))]) + '>'))
        elif op == 'replnest':
            T = c.pick(RX)
            tj = c.int(0, len(subj) - 1)
            tt = subj[tj].encode()
            if len(s) > 60 or len(tt) > 60: continue
            lines.append('emit(%s.replace(%s, function(m) { return "<" + m.replace(%s, "[$&]") + %s.search(%s) + ">"; }));\n' % (sn, rn, T[4], 's%d' % tj, T[4]))
            m2 = T[2].at(tt, 0)
            k = nch(tt, m2[0][0]) if m2 else -1
            def f(m):
                q = txt(s, m[0]).encode()
                return '<' + replace(T[2], q, lambda z: '[' + txt(q, z[0]) + ']') + str(k) + '>'
            want.append(replace(re, s, f))
        elif op == 'alias':
            lines.append('emit((new RegExp(%s)) === %s);\n' % (rn, rn))
            want.append(True)
    for i, s in enumerate(subj):
        lines.append('emit(s%d);\n' % i)
        want.append(s)
    src = ''.join(lines)
    for R in RX: R[2].free()
    c.rendered = src
    c.case(src, nm > 0)
    for k in kinds: c.label(k)
    if uni: c.label('unicode')
    c.sample(src)
    got = x.vals(src)
    w = [conv(v) for v in want]
    if not same(got, w):
        k = next((i for i in range(min(len(got), len(w))) if not same(got[i], w[i])), min(len(got), len(w)))
        raise Violation('regular expression history, value %d\n--- script\n%s\n--- got  %s\n--- want %s' % (k, show(src), got[k:k + 2], w[k:k + 2]))


def bad(c, x):
    """malformed patterns raise an error that can be caught; wellformed ones of any shape do not crash"""
    p = ''.join(c.pick(['(', ')', '[', ']', '{', '}', '*', '+', '?', '|', '^', '$', '.', '\\', 'a', 'b', '1', ',', '-', '[:alpha:]', '[:foo:]', '{1}', '{2,1}', '{3,', '[z-a]', '[[.a.]]', '(?:', '(?=']) for _ in range(c.size(1, 9)))
    fl = c.pick(['', 'g', 'i', 'm', 'gim'])
    re = Re(p.encode(), fl)
    risky = any(q in p for q in (')*', ')+', '){'))
    m = re.at(b'ab1,ab', 0) if re.ok and not risky else None
    re.free()
    src = 'var q = "none", r = null; try { r = new RegExp(%s, %s); } catch (e) { q = "error"; }\nemit(q);\nif (r) { emit(%s); }\nemit(/b/.exec("abc"));\n' % (jsstr(p), jsstr(fl), 'false' if risky else 'r.test("ab1,ab")')
    c.rendered = src
    c.case(src, not re.ok)
    c.sample(src)
    got = x.vals(src)
    w = conv((['none', m is not None] if re.ok else ['error']) + [['b']])
    if not same(got, w):
        raise Violation('pattern %r: got %r want %r' % (p, got, w))


PROBES = [('dot-bytes', lambda x: expect(x, 'emit("é".match(/./));', [['é']]))]
PROPS = [('histories', hist, {'quick': 6000, 'thorough': 120000}), ('malformed', bad, {'quick': 1000, 'thorough': 20000})]
CHECK = Check('C08', lambda w: X(w), PROPS, 'histories of exec, test, match, search and replace over shared expressions and subjects, non-trivial = some operation found a match; malformed patterns, non-trivial = rejected by the C library', probes=PROBES)
