"""C26: typed option records (the option tables behind every builtin's option argument and conf())."""
import ctypes, math, struct, calendar, time, fnmatch, json
from vt.core import Check, Discard, Violation
from vt.js import X, jsstr, jsnum, expect, conv, same, show, UNPRIV, UNDEF, Other


def mk(w): return X(w, user=UNPRIV)


def un(v):
    if isinstance(v, bytes): return v.decode('utf8', 'backslashreplace')
    if isinstance(v, list): return [un(i) for i in v]
    if isinstance(v, dict): return {un(k): un(i) for k, i in v.items()}
    return v


class Err(Exception): pass


SINT = dict(i8=8, i16=16, i32=32, i64=64, i=32, l=64, sh=16, ssz=64, ip=64)
UINT = dict(u8=8, u16=16, u32=32, u64=64, ui=32, ul=64, us=16, sz=64, up=64)
for n in ('ro', 'io', 'lk', 'alpha', 'alphabet', 'alp'): SINT[n] = 32
FLT = ['f', 'd', 'ld', 'num']
EN = dict(en=(['red', 'green', 'redder', 'blue'], 'prefix'), en8=(['onetwo', 'one', 'two'], 'prefix'),
          enx=(['red', 'green', 'redder', 'blue'], 'exact'), enc=(['Alpha', 'beta', 'GAMMA'], 'nocase'))
B = ['b%d' % i for i in range(32)]
BITS = dict(b8=(8, B[:8] + ['c8', 'c9']), b16=(16, B[:12]), b32=(32, B), b64=(64, B + ['d%d' % i for i in range(32, 41)]))
ORDER = ['bool_', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'i', 'ui', 'l', 'ul', 'sh', 'us', 'sz', 'ssz', 'ip', 'up',
         'f', 'd', 'ld', 'num', 'buf', 'key', 'ds', 'str', 'val', 'obj', 'arr', 're', 'fn', 'fn2', 'tw', 'td', 'tt',
         'en', 'en8', 'enx', 'enc', 'b8', 'b16', 'b32', 'b64', 'sub', 'ca', 'ce', 'nul', 'ro', 'io', 'lk', 'alphabet', 'alpha', 'alp']
SUB = ['n', 's', 'v', 'f']
ELT = ['x', 'k']
TYPES = dict(bool_='BOOL', i8='INT8', i16='INT16', i32='INT32', i64='INT64', u8='UINT8', u16='UINT16', u32='UINT32', u64='UINT64', i='INT', ui='UINT',
             l='LONG', ul='ULONG', sh='SHORT', us='USHORT', sz='SIZE_T', ssz='SSIZE_T', ip='INTPTR_T', up='UINTPTR_T', f='FLOAT', d='DOUBLE', ld='LDOUBLE', num='NUMBER',
             buf='STRBUF', key='STRKEY', ds='DSTRING', str='STRING', val='VALUE', obj='OBJ', arr='ARRAY', re='REGEXP', fn='FUNC', fn2='FUNC', tw='TIME_W', td='TIME_D', tt='TIME_T')


# values: (js text, model value); model values: None, bool, float, str, list, dict (str keys), Fn, Re
class Fn:
    def __init__(self, sig): self.sig = sig
class Re: pass


def zero():
    s = {}
    for k in list(SINT) + list(UINT): s[k] = 0
    for k in FLT: s[k] = 0.0
    for k in EN: s[k] = 0
    for k in BITS: s[k] = 0
    s.update(bool_=False, buf='', ds='', key=None, str=None, val=None, obj=None, arr=None, re=None, fn=None, fn2=None, tw=0, td=0.0, tt=0, nul=0)
    s['sub'] = dict(n=0, s='', v=None, f=0.0)
    s['ca'] = [0, 0, 0, 0]
    s['ce'] = [dict(x=0, k=None) for _ in range(3)]
    return s


def find(names, key):
    if key in names: return key
    m = [n for n in names if n.startswith(key)]
    if len(m) != 1 or key == '': raise Err()
    return m[0]


def index(lst, mode, s):
    if s in lst: return lst.index(s)
    if mode == 'exact' or not s: raise Err()
    m = [i for i, n in enumerate(lst) if (n.lower().startswith(s.lower()) if mode == 'nocase' else n.startswith(s))]
    if len(m) != 1: raise Err()
    return m[0]


def intval(v, bits, signed):
    if isinstance(v, bool) or not isinstance(v, float): raise Err()
    if math.isnan(v) or math.isinf(v): raise Err()
    n = int(v)
    if not -2.0**63 <= v < 2.0**63: raise Err()
    lo, hi = (-(1 << bits-1), (1 << bits-1) - 1) if signed else (0, (1 << bits) - 1)
    if not lo <= n <= hi: raise Err()
    return n


def fltval(v):
    if isinstance(v, bool) or not isinstance(v, float) or math.isnan(v): raise Err()
    return v


def strval(v):
    if not isinstance(v, str): raise Err()
    return v


def timeval(v):
    """milliseconds"""
    if isinstance(v, float): return v
    if not isinstance(v, str): raise Err()
    for f in ('%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S', '%Y-%m-%d %H:%M', '%Y-%m-%d'):
        try: return calendar.timegm(time.strptime(v, f)) * 1000.0
        except ValueError: pass
    raise Err()


def clean(v):
    """what a script sees of a stored value"""
    return v


def setone(kind, name, old, v, flags=None):
    """the new value of option `name`, or Err"""
    if name in SINT: return intval(v, SINT[name], True)
    if name in UINT: return intval(v, UINT[name], False)
    if name in FLT:
        x = fltval(v)
        return ctypes.c_float(x).value if name == 'f' else x
    if name in EN: return index(EN[name][0], EN[name][1], strval(v))
    if name in BITS:
        bits, lst = BITS[name]
        def bit(s):
            i = index(lst, 'prefix', s)
            if i >= bits: raise Err()
            return 1 << i
        if isinstance(v, str):
            m = old
            rep = v.startswith('=')
            if rep: v, m = v[1:], 0
            if not v: return m
            for p in v.split(','):
                no = p.startswith('!')
                if no and rep: raise Err()
                b = bit(p[1:] if no else p)
                m = m & ~b if no else m | b
            return m
        if isinstance(v, dict):
            m = old
            for k in sorted(v):
                b = bit(k)
                if not isinstance(v[k], bool): raise Err()
                m = m | b if v[k] else m & ~b
            return m
        if isinstance(v, list):
            m = old
            if v and v[0] == '=': v, m = v[1:], 0
            for p in v:
                p = strval(p)
                no = p.startswith('!')
                b = bit(p[1:] if no else p)
                m = m & ~b if no else m | b
            return m
        raise Err()
    if name == 'bool_':
        if not isinstance(v, bool): raise Err()
        return v
    if name == 'buf':
        if v is None: return ''
        if len(strval(v).encode()) > 9: raise Err()
        return v
    if name == 'ds': return '' if v is None else strval(v)
    if name == 'key': return None if v is None else strval(v)
    if name == 'str': return None if v is None else strval(v)
    if name == 'val': return v
    if name == 'nul': return old
    if name == 'obj':
        if v is None: return None
        if isinstance(v, str): raise Discard()      # a string may be an object
        if not isinstance(v, (dict, list, Fn, Re)): raise Err()
        return v
    if name == 'arr':
        if v is None: return None
        if not isinstance(v, list): raise Err()
        return v
    if name == 're':
        if v is None: return None
        if not isinstance(v, Re): raise Err()
        return v
    if name in ('fn', 'fn2'):
        if v is None: return None
        if not isinstance(v, Fn): raise Err()
        if name == 'fn2' and v.sig != 'ab': raise Err()
        return v
    if name == 'tw': return int(timeval(v))
    if name == 'td': return timeval(v)
    if name == 'tt': return int(v) if isinstance(v, float) else int(timeval(v) // 1000)
    raise AssertionError(name)


def subset(o, name, v):
    if name == 'n': return intval(v, 32, True)
    if name == 's':
        if v is None: return ''
        if len(strval(v).encode()) > 5: raise Err()
        return v
    if name == 'v': return v
    if name == 'f': return fltval(v)
    if name == 'x': return intval(v, 32, True)
    if name == 'k': return None if v is None else strval(v)


class Rec:
    """A model record. loose: options whose value after a failed call may be the old or the new one."""
    def __init__(self):
        self.s = zero()
        self.alts = {}

    def cells(self):
        out = {}
        s = self.s
        for k in ORDER:
            if k == 'sub':
                for n in SUB: out['sub.' + n] = s['sub'][n]
            elif k == 'ca':
                for i in range(4): out['ca[%d]' % i] = s['ca'][i]
            elif k == 'ce':
                for i in range(3):
                    for n in ELT: out['ce[%d].%s' % (i, n)] = s['ce'][i][n]
            else: out[k] = s[k]
        return out

    def setsub(self, names, rec, obj, update, zeros):
        """process an object into a sub record"""
        if obj is None:
            rec.update(zeros)
            return
        if not isinstance(obj, dict): raise Err()
        try:
            for k in sorted(obj, key=lambda q: q.encode()):
                n = find(names, k)
                rec[n] = subset(rec, n, obj[k])
        except Err:
            if not update: rec.update(zeros)
            raise

    def set(self, name, v, update=True):
        if name == 'sub':
            self.setsub(SUB, self.s['sub'], v, update, dict(n=0, s='', v=None, f=0.0))
        elif name == 'ca':
            if not isinstance(v, list) or len(v) != 4: raise Err()
            for i in range(4): self.s['ca'][i] = intval(v[i], 32, True)
        elif name == 'ce':
            if not isinstance(v, list) or len(v) != 3: raise Err()
            for i in range(3): self.setsub(ELT, self.s['ce'][i], v[i], update, dict(x=0, k=None))
        else:
            self.s[name] = setone(None, name, self.s[name], v)

    def process(self, obj, update):
        """returns the names set, or raises Err"""
        done = []
        for k in sorted(obj, key=lambda q: q.encode()):
            n = find(ORDER, k)
            if n == 'ro': raise Err()
            if n == 'io' and update: raise Err()
            self.set(n, obj[k], update)
            done.append(n)
        return done

    def copy(self):
        import copy
        r = Rec()
        r.s = copy.deepcopy(self.s)
        return r


def isodate(ms): return time.strftime('%Y-%m-%dT%H:%M:%S', time.gmtime(math.floor(ms / 1000)))


def getval(s, name):
    """what get gives"""
    v = s[name]
    if name in SINT or name in UINT: return float(v)
    if name in EN: return EN[name][0][v]
    if name in BITS: return [n for i, n in enumerate(BITS[name][1]) if i < BITS[name][0] and v >> i & 1]
    if name == 'sub': return {k: (float(x) if k == 'n' else x) for k, x in v.items()}
    if name == 'ca': return [float(x) for x in v]
    if name == 'ce': return [dict(x=float(e['x']), k=e['k']) for e in v]
    if name == 'tw' or name == 'td': return isodate(v)
    if name == 'tt': return isodate(v * 1000.0).replace('T', ' ')
    if name == 'nul': return None
    return v


def rawtext(name, v):
    if name == 'bool_': return '1' if v else '0'
    if name in FLT or name in ('td', 'sub.f'): return 'F', v
    if isinstance(v, int) and not isinstance(v, bool): return str(v)
    return v


def same_(a, e):
    """a: decoded dump, e: model value"""
    if isinstance(e, tuple) and e[0] == 'F':
        return isinstance(a, str) and float(a) == e[1] and (e[1] != 0 or a.startswith('-') == (math.copysign(1, e[1]) < 0))
    if isinstance(e, Fn): return isinstance(a, Other)
    if isinstance(e, Re): return isinstance(a, Other)
    if isinstance(e, list): return isinstance(a, list) and len(a) == len(e) and all(same_(x, y) for x, y in zip(a, e))
    if isinstance(e, dict): return isinstance(a, dict) and set(a) == set(e) and all(same_(a[k], e[k]) for k in e)
    return type(a) is type(e) and same(a, e)


# --- generators of values
def gnum(c):
    k = c.int(0, 9)
    if k <= 2: return float(c.int(-5, 130))
    if k <= 6:
        b = c.pick([7, 8, 15, 16, 31, 32, 53, 62, 63])
        v = float(2**b + c.pick([-1, 0, 1, -2])) * c.pick([1, 1, -1])
        return v
    if k == 7: return c.int(-2000, 2000) / 8
    if k == 8: return c.pick([0.0, 1e-7, 0.1, 1e15, -3.75, 1234567.875])
    return c.pick([float('nan'), float('inf'), float('-inf'), 1e300, 2.0**64, 1e19])


def gtime(c):
    if c.bool(50): return float(c.int(0, 4000000000) * 1000 + c.pick([0, 0, 7]))
    f = c.pick(['%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S', '%Y-%m-%d %H:%M', '%Y-%m-%d'])
    return time.strftime(f, time.gmtime(c.int(0, 4000000000)))


def gstr(c): return c.pick(['', 'a', 'abc', 'hello', 'x y', 'longer_text', 'é', 'ninechars', 'ten_chars_', '0', 'true', '12', 'null'])


def gplain(c, d=1):
    k = c.int(0, 8 if d else 5)
    if k == 0: return None
    if k == 1: return c.bool(50)
    if k <= 3: return float(c.int(-100, 100)) / c.pick([1, 1, 4])
    if k <= 5: return gstr(c)
    if k == 6: return [gplain(c, d-1) for _ in range(c.int(0, 4))]
    if k == 7: return {n: gplain(c, d-1) for n in c.pick([[], ['a'], ['a', 'b'], ['x', 'n']])}
    return c.pick([Fn('ab'), Fn('a'), Re()])


def gbits(c, name):
    bits, lst = BITS[name]
    def item():
        i = c.int(0, len(lst) - 1)
        s = lst[i]
        if c.bool(2): s = c.pick(['zz', 'b', 'd', '', 'B1'])
        elif len(lst) > bits and i >= bits and c.bool(85): s = lst[0]
        return s
    k = c.int(0, 2)
    if k == 0:
        return c.pick(['', '=', '']) + ','.join(('!' if c.bool(25) else '') + item() for _ in range(c.int(1, 4)))
    if k == 1: return [c.pick(['=', '='])] + [('!' if c.bool(20) else '') + item() for _ in range(c.int(0, 4))] if c.bool(50) else [('!' if c.bool(25) else '') + item() for _ in range(c.int(1, 4))]
    return {item(): c.pick([True, True, False, False, 1.0] if c.bool(10) else [True, True, False]) for _ in range(c.int(1, 4))}


def gval(c, name):
    """a value for an option: mostly suitable"""
    if c.bool(3): return gplain(c)
    if name in SINT or name in UINT: 
        bits = SINT.get(name) or UINT[name]
        if c.bool(50): return float(c.int(0, 100))
        if c.bool(80): return float(2**(bits if name in UINT else bits-1) + c.pick([-1, -1, -2, -2, -3, 0, 1])) if bits < 64 else float(2**53 - c.int(0, 3))
        return gnum(c)
    if name in FLT: return gnum(c)
    if name in EN:
        s = c.pick(EN[name][0])
        r = c.int(0, 9)
        if r < 4: return s
        if r < 7: return s[:c.int(1, len(s))]
        if r < 9 and (name == 'enc' or c.bool(20)): return c.pick([s.upper(), s.lower(), s.title(), s.swapcase()])
        return c.pick(['', 'none', s + 'x', 'g', 'a', s, s, s])
    if name in BITS: return gbits(c, name)
    if name == 'bool_': return c.bool(50)
    if name in ('buf', 'key', 'ds', 'str'): return None if c.bool(15) else gstr(c)
    if name == 'val': return gplain(c, 2)
    if name == 'obj': return c.pick([None, {'a': 1.0, 'b': 's'}, {}, [1.0], Fn('a')])
    if name == 'arr': return [gplain(c, 1) for _ in range(c.int(0, 4))]
    if name == 're': return c.pick([Re(), Re(), None])
    if name in ('fn', 'fn2'): return c.pick([Fn('ab'), Fn('ab'), Fn('a'), Fn(''), None])
    if name in ('tw', 'td', 'tt'): return gtime(c)
    if name == 'sub': return {n: gsub(c, n) for n in pickn(c, SUB)} if c.bool(90) else None
    if name == 'ca': return [float(c.int(-9, 9)) if c.bool(95) else gplain(c, 0) for _ in range(4 if c.bool(90) else c.int(0, 6))]
    if name == 'ce': return [{n: gsub(c, n) for n in pickn(c, ELT)} for _ in range(3 if c.bool(90) else c.int(0, 5))]
    return gplain(c)


def pickn(c, lst): return [n for n in lst if c.bool(50)]


def gsub(c, n):
    if c.bool(2): return gplain(c, 0)
    if n in 'nx': return float(c.int(-1000, 1000))
    if n == 's': return c.pick(['', 'ab', 'five5', 'six666', None])
    if n == 'k': return c.pick(['k1', '', None, 'long key'])
    if n == 'f': return gnum(c)
    return gplain(c, 1)


def js(v):
    if v is None: return 'null'
    if v is True: return 'true'
    if v is False: return 'false'
    if isinstance(v, float): return jsnum(v)
    if isinstance(v, str): return jsstr(v)
    if isinstance(v, list): return '[' + ', '.join(js(x) for x in v) + ']'
    if isinstance(v, dict): return '{' + ', '.join(jsstr(k) + ':' + js(v[k]) for k in v) + '}'
    if isinstance(v, Re): return 'RX'
    if isinstance(v, Fn): return {'ab': 'FAB', 'a': 'FA', '': 'F0'}[v.sig]
    raise AssertionError(v)


PRE = """var RX = /a+b/;
var FAB = function (a:number, b:string) { return 1; };
var FA = function (a:number) { return 1; };
var F0 = function () { return 1; };
function T(f) { try { f(); } catch(e) { return 'E'; } return 'ok'; }
"""


def V(what, src, detail): raise Violation('%s\n%s\n--- script\n%s' % (what, detail, src))


def gkey(c, name):
    """how an option is written: its name, a prefix, or something unknown"""
    if c.bool(88): return name
    if c.bool(70): return name[:c.int(1, len(name))]
    return c.pick(['zz', name + 'x', '', name.upper(), '_', 'a', 'b', name + '.n', name + '[0]'])


def cmp_cells(src, lines, i, want, what):
    """compares the dump of `raw` with model cells; want: name -> list of acceptable values"""
    d = dict(lines[i])
    if d.pop('_guards', None) is None: V('no dump', src, what)
    if set(d) != set(want): V('fields differ', src, str(set(d) ^ set(want)))
    for k in want:
        if not any(same_(d[k], rawtext(k, v)) for v in want[k]):
            V('%s: option %s' % (what, k), src, 'is %s, expected %s' % (repr(d[k])[:200], ' or '.join(repr(v)[:200] for v in want[k])))


def p_hist(c, x):
    """A history of process / conf / set / get / changed / free over two records."""
    n = c.int(2, 10)
    src = PRE + "opt('new', 0); opt('new', 1);\n"
    R = [Rec(), Rec()]
    alt = [None, None]           # other acceptable cells after a failed call
    spec = set()
    specknown = True
    exp = []                     # (kind, data)
    okset = errs = 0
    def cells(h):
        w = {k: [v] for k, v in R[h].cells().items()}
        return w
    for _ in range(n):
        h = c.pick([0, 0, 1])
        r = R[h]
        op = c.weighted([(3, 'process'), (6, 'conf'), (4, 'set'), (2, 'get'), (1, 'dump'), (1, 'changed'), (1, 'clear'), (1, 'free')])
        if op in ('process', 'conf'):
            names = [c.pick(ORDER if op == 'process' or c.bool(5) else [o for o in ORDER if o not in ('ro', 'io')]) for _ in range(c.int(0, 4))]
            if c.bool(95): names = [m for m in names if m != 'ro']
            obj = {}
            for m in names:
                k = gkey(c, m) if c.bool(18) else m
                obj[k] = gval(c, m)
            upd = op == 'conf'
            new = r.copy()
            src += "emit(T(function() { opt('%s', %d, {%s}); }));\n" % (op, h, ', '.join(jsstr(k) + ':' + js(v) for k, v in obj.items()))
            before = r.cells()
            if not upd: spec = set()
            try:
                done = new.process(obj, upd)
                for d in done: spec.add(d)
                R[h] = new
                exp.append(('line', 'ok'))
                okset += len(done)
                want = cells(h)
            except Err:
                errs += 1
                exp.append(('line', 'E'))
                specknown = False
                if not upd:
                    R[h] = Rec()
                    R[h].s['nul'] = 0
                    want = cells(h)
                    # sub-array elements are not cleared: exclude what they hold
                    for k in want:
                        if k.startswith('ca[') or k.startswith('ce['): want[k] = [want[k][0], before[k], new.cells()[k]]
                        if k in EN or k in BITS: want[k] = [want[k][0], before[k], new.cells()[k]]
                else:
                    nc = new.cells()
                    want = {k: [before[k], nc[k]] for k in before}
                src += "emit(opt('raw', %d));\n" % h
                exp.append(('raw', h, want))
                break              # the record may be partly set: stop here
            src += "emit(opt('raw', %d));\n" % h
            exp.append(('raw', h, want))
        elif op == 'set':
            name = c.pick([o for o in ORDER if o not in ('ca', 'ce', 'sub', 'ro', 'io')] + ['sub.', 'sub.', 'ca[', 'ca[', 'ce[', 'ce['])
            r2 = r.copy()
            ok = True
            if name == 'sub.':
                f = c.pick(SUB)
                v = gsub(c, f)
                key = gkey(c, 'sub') + '.' + (f if c.bool(90) else f + 'z')
                try:
                    if find(ORDER, key.split('.')[0]) != 'sub' or '[' in key or key.count('.') > 1: raise Err()
                    q = find(SUB, key.split('.', 1)[1])
                    r2.s['sub'][q] = subset(None, q, v)
                except Err: ok = False
            elif name == 'ca[':
                i = c.int(0, 5)
                v = gval(c, 'i')
                key = 'ca[%s]' % c.weighted([(9, str(i)), (1, 'x'), (1, ''), (1, '-1')])
                try:
                    if key != 'ca[%d]' % i or i > 3: raise Err()
                    r2.s['ca'][i] = intval(v, 32, True)
                except Err: ok = False
            elif name == 'ce[':
                i = c.int(0, 4)
                f = c.pick(ELT)
                v = gsub(c, f)
                key = 'ce[%d].%s' % (i, f if c.bool(95) else 'zz')
                try:
                    if i > 2 or key.endswith('zz'): raise Err()
                    r2.s['ce'][i][f] = subset(None, f, v)
                except Err: ok = False
            else:
                key = gkey(c, name)
                v = gval(c, name)
                if '.' in key or '[' in key: key = name
                try:
                    q = find(ORDER, key)
                    if q in ('ro', 'io'): raise Err() if False else Discard()
                    r2.set(q, v, True)
                    spec.add(q)
                except Err: ok = False
            src += "emit(T(function() { opt('set', %d, %s, %s); }));\n" % (h, jsstr(key), js(v))
            exp.append(('line', 'ok' if ok else 'E'))
            before = r.cells()
            if ok:
                R[h] = r2
                okset += 1
                want = cells(h)
            else:
                errs += 1
                nc = r2.cells()
                want = {k: [before[k], nc[k]] for k in before}
            src += "emit(opt('raw', %d));\n" % h
            exp.append(('raw', h, want))
            if not ok and any(k.startswith(('sub.', 'ca[', 'ce[')) and len({repr(y) for y in want[k]}) > 1 for k in want): break
        elif op == 'get':
            name = c.pick(ORDER + ['sub.n', 'ca[1]', 'ce[2].k', 'ca[4]', 'ce[3].x'])
            key = gkey(c, name) if '.' not in name and '[' not in name else name
            if '.' in key or '[' in key:
                if key not in ('sub.n', 'ca[1]', 'ce[2].k', 'ca[4]', 'ce[3].x'): key = name
            src += "emit(T(function() { emit(opt(%s, %d, %s)); }));\n" % (c.pick(["'get'", "'conf'"]), h, jsstr(key) if key else "'zz'")
            try:
                if key == 'sub.n': e = float(r.s['sub']['n'])
                elif key == 'ca[1]': e = float(r.s['ca'][1])
                elif key == 'ce[2].k': e = r.s['ce'][2]['k']
                elif key in ('ca[4]', 'ce[3].x'): raise Err()
                else: e = getval(r.s, find(ORDER, key))
                exp.append(('val', e))
                exp.append(('line', 'ok'))
            except Err:
                exp.append(('line', 'E'))
        elif op == 'dump':
            src += "emit(opt('conf', %d));\n" % h
            exp.append(('val', {k: getval(r.s, k) for k in ORDER}))
        elif op == 'changed':
            if not specknown: continue
            g = c.pick(['*', 'i*', 'a*', 'b*', c.pick(ORDER), 'alpha', 's?b'])
            src += "emit(opt('changed', %d, %s));\n" % (h, jsstr(g))
            exp.append(('val', float(len([o for o in spec if fnmatch.fnmatchcase(o, g)]))))
        elif op == 'clear':
            src += "emit(T(function() { opt('clear', %d); })); emit(opt('raw', %d));\n" % (h, h)
            exp.append(('line', 'ok'))
            nul = R[h].s['nul']
            R[h] = Rec()
            exp.append(('raw', h, cells(h)))
            spec = set(ORDER)
        elif op == 'free':
            src += "opt('free', %d); emit(opt('raw', %d));\n" % (h, h)
            old = R[h].s
            R[h] = Rec()
            want = cells(h)
            for k in EN: R[h].s[k] = old[k]; want[k] = [old[k]]
            for k in BITS: R[h].s[k] = old[k]; want[k] = [old[k]]
            R[h].s['ca'] = list(old['ca']); R[h].s['ce'] = [dict(e) for e in old['ce']]
            want = cells(h)
            exp.append(('raw', h, want))
    c.rendered = src + "opt('drop', 0); opt('drop', 1);\n"
    c.sample(c.rendered[:600])
    c.case(src, okset >= 1 and n >= 2)
    c.label('error' if errs else 'no error')
    lines = un(x.vals(c.rendered, flags=1))
    i = 0
    for e in exp:
        if i >= len(lines): V('output ends early', c.rendered, repr(e)[:200])
        if e[0] == 'line':
            if lines[i] != e[1]: V('%s where %s was expected' % (repr(lines[i]), e[1]), c.rendered, 'line %d' % i)
        elif e[0] == 'val':
            if not same_(lines[i], e[1]): V('read gives another value', c.rendered, '%s, expected %r' % (repr(lines[i])[:300], e[1]))
        else: cmp_cells(c.rendered, lines, i, e[2], 'stored values')
        i += 1



def p_required(c, x):
    """required and init-only options"""
    names = ['req1', 'req2', 'other', 'io']
    obj = {}
    for n in names:
        if c.bool(80 if n != 'other' else 40):
            obj[n] = c.pick(['k', '', None]) if n == 'req2' else float(c.int(-5, 5))
    if c.bool(8): obj[c.pick(names)] = c.pick([True, [], 'x'])
    up = {}
    for n in names:
        if c.bool(25): up[n] = c.pick(['z', None]) if n == 'req2' else float(c.int(6, 9))
    src = PRE + """opt('newq', 2);
emit(T(function() { opt('process', 2, %s); })); emit(opt('raw', 2));
emit(T(function() { opt('conf', 2, %s); })); emit(opt('raw', 2)); opt('drop', 2);
""" % (js(obj), js(up))
    c.rendered = src
    c.sample(c.rendered[:600])
    def typed(n, v):
        if n == 'req2':
            if v is None: return None
            return strval(v)
        if n == 'io': return 'F', fltval(v)
        return str(intval(v, 32, True))
    z = dict(req1='0', req2=None, other='0', io=('F', 0.0))
    st, l1 = dict(z), 'ok'
    try:
        for n in sorted(obj): st[n] = typed(n, obj[n])
        for n in ('req1', 'req2', 'io'):
            if n not in obj: raise Err()
    except Err: st, l1 = dict(z), 'E'
    alt, l2 = dict(st), 'ok'
    try:
        for n in sorted(up):
            if n == 'io': raise Err()
            alt[n] = typed(n, up[n])
    except Err: l2 = 'E'
    c.case(src, bool(obj))
    c.label('init ' + l1); c.label('update ' + l2)
    L = un(x.vals(src, flags=1))
    if L[0] != l1: V('process gave %r, expected %s' % (L[0], l1), src, '')
    if not all(same_(L[1][k], st[k]) for k in z): V('record after process', src, '%r, expected %r' % (L[1], st))
    if L[2] != l2: V('conf gave %r, expected %s' % (L[2], l2), src, '')
    for k in z:
        ok = same_(L[3][k], alt[k]) or (l2 == 'E' and same_(L[3][k], st[k]))
        if not ok: V('record after conf: ' + k, src, '%r' % L[3])


# --- conf() of script objects
TARGETS = {
    'Interp': ('new Interp()', {'retValue', 'noError', 'noCheck', 'stdoutStr', 'maxArrayList', 'asserts', 'assertMode', 'memDebug', 'scriptFile', 'historyFile', 'busyInterval', 'lockTimeout', 'traceOp', 'jsppChars', 'maxInterpDepth', 'testMode'}),
    'Sqlite': ("new Sqlite(':memory:')", {'lastInsertId', 'changeCnt', 'changeCntAll', 'errCnt', 'errorCode', 'sortCnt', 'stepCnt', 'stmtCacheCnt', 'version', 'load', 'progressSteps', 'stmtCacheMax'}),
    'Socket': ("new Socket({noConfig:false, noAsync:true, udp:true, address:'127.0.0.1'})", {'stats', 'connectCnt', 'startTime', 'port', 'createLast'}),
}
_specs = {}


def specs(x, t):
    if t not in _specs:
        make, skip = TARGETS[t]
        L = un(x.vals("var o = %s; emit(o.conf(''), o.conf());\n" % make))
        _specs[t] = [e for e in L[0]]
        _specs[t + '.init'] = L[1]
    return _specs[t], _specs[t + '.init']


RANGE = dict(INT=(-2**31, 2**31-1), UINT=(0, 2**32-1), INT64=(-2**53, 2**53), UINT64=(0, 2**53))


def confval(c, e):
    """(value, ok) or None"""
    t = e['type']
    bad = c.bool(6)
    if t == 'BOOL': return (c.pick([1.0, 'x', None, []]), False) if bad else (c.bool(50), True)
    if t in RANGE:
        lo, hi = RANGE[t]
        if bad: return c.pick([True, 'x', '12', [], float('nan'), float('inf'), hi + 1.0 if hi < 2**33 else -1e30, lo - 1.0 if hi < 2**33 else 1e30]), False
        return float(c.weighted([(5, c.int(0, 300)), (1, c.pick([lo, hi, hi - 1, lo + 1]))])), True
    if t in ('STRKEY', 'STRING', 'DSTRING'): return (c.pick([1.0, True, []]), False) if bad else (c.pick([None, 'abc', '', 'two words', 'é']), True)
    if t == 'ARRAY': return (c.pick([1.0, True, {}, 's']), False) if bad else (c.pick([None, [], ['a'], ['a', 'b']]), True)
    if t == 'OBJ': return (c.pick([1.0, True]), False) if bad else (c.pick([{}, {'a': 1.0}]), True)
    if t == 'CUSTOM':
        a = e.get('customArg') or {}
        if a.get('name') == 'enum':
            l = a['enumList']
            return (c.pick([1.0, 'nosuchvalue', '', True]), False) if bad else (c.pick(l), True)
        if a.get('name') == 'bitset':
            l = a['bitSet']
            if bad: return c.pick([1.0, 'nosuchvalue', True, ['nosuch'], {l[0]: 1.0}]), False
            sel = [n for n in l if c.bool(30)]
            return ['='] + sel, sel
    return None


def p_conf(c, x):
    """conf() of the builtin objects: what is set is read back, the rest is unchanged"""
    t = c.pick(['Interp', 'Interp', 'Sqlite', 'Socket'])
    sp, init = specs(x, t)
    make, skip = TARGETS[t]
    src = PRE + 'var o = %s; emit(o.conf());\n' % make
    exp = []
    names = [e['name'] for e in sp]
    nset = 0
    stop = False
    for _ in range(c.int(1, 4)):
        obj, want, fail = {}, {}, False
        for _ in range(c.int(1, 3)):
            e = c.pick(sp)
            if e['name'] in skip: continue
            r = confval(c, e)
            if r is None: continue
            v, ok = r
            key = e['name']
            if c.bool(12):
                key = key[:c.int(1, len(key))]
                try:
                    if find(names, key) != e['name']: continue
                except Err: ok = False
            elif c.bool(3): key, ok = key + 'x', False
            if key in ('', 'if', 'in', 'do') or any(find_(names, k) == e['name'] for k in obj): continue
            if e['initOnly'] or e['readOnly']: ok = False
            obj[key] = v
            if ok is False: fail = True
            else:
                if isinstance(ok, list): v = ok
                if isinstance(v, str) and e.get('customArg', {}).get('name') == 'bitset': v = [v]
                want[e['name']] = v if not (e['type'] == 'DSTRING' and v is None) else ''
        if not obj: continue
        src += 'emit(T(function() { o.conf(%s); })); emit(o.conf()); emit(%s);\n' % (js(obj), ', '.join('o.conf(%s)' % jsstr(n) for n in (list(want) or names[:1])))
        exp.append((fail, want, list(want) or names[:1]))
        nset += not fail
        if fail: break
    if not exp: raise Discard()
    c.rendered = src
    c.sample(c.rendered[:600])
    c.case(src, nset > 0)
    c.label(t)
    L = un(x.vals(src))
    cur = L[0]
    if set(cur) - {'retValue'} != set(names) - {'retValue'}: V('conf() lists other options than conf("")', src, str(set(cur) ^ set(names)))
    i = 1
    for fail, want, one in exp:
        if L[i] != ('E' if fail else 'ok'): V('conf(...) gave %r, expected %s' % (L[i], 'E' if fail else 'ok'), src, repr(want))
        new = L[i + 1]
        for k in new:
            if k in ('startTime', 'stats', 'retValue'): continue
            cands = [cur.get(k)] if k not in want else [want[k]] + ([cur[k]] if fail else [])
            if not any(deq(new[k], w) for w in cands): V('option %s of %s' % (k, t), src, 'is %r, expected %r' % (new[k], cands))
        for n, q in zip(one, L[i + 2:]):
            if not deq(q, new[n]): V('conf("%s") and conf() differ' % n, src, '%r %r' % (q, new[n]))
        cur = new
        i += 2 + len(one)


def find_(names, k):
    try: return find(names, k)
    except Err: return None


def deq(a, b):
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(deq(p, q) for p, q in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict): return set(a) == set(b) and all(deq(a[k], b[k]) for k in a)
    if isinstance(a, Other) or isinstance(b, Other): return repr(a) == repr(b)
    return type(a) is type(b) and (a == b or a != a and b != b)


# --- option arguments of builtins: (spec name, call with %s, [(option, value text)...])
CALLS = [
    ('Array.sort', '[3, 1, 2, 10, 1].sort(%s)', [('mode', "'desc'"), ('mode', "'dict'"), ('unique', 'true'), ('compare', 'function(a, b) { return b-a; }')]),
    ('System.strftime', 'strftime(86400123, %s)', [('utc', 'true'), ('fmt', "'%d/%m %H'"), ('secs', 'true'), ('iso', 'true')]),
    ('System.strptime', "strptime('2001-02-03 04:05:06', %s)", [('utc', 'true'), ('secs', 'true'), ('fmt', "'%Y-%m-%d'")]),
    ('Util.hash', "Util.hash('text', %s)", [('type', "'md5'"), ('type', "'sha1'"), ('noHex', 'true'), ('type', "'sha256'"), ('type', "'sha3_384'")]),
    ('Info.cmds', "Info.cmds('Str*', %s)", [('full', 'true'), ('constructor', 'true')]),
    ('System.exec', "exec('echo out', %s)", [('retAll', 'true'), ('trim', 'true'), ('retCode', 'true'), ('noError', 'true')]),
    ('File.glob', "File.glob('*', %s)", [('limit', '2'), ('retCount', 'true'), ('types', "'d'"), ('dir', "'/'"), ('tails', 'true'), ('recurse', 'false')]),
    ('JSON.check', "JSON.check('{a:1}', %s)", []),
    ('Sqlite.query', "DB.query('SELECT 1 AS a, 2 AS b UNION SELECT 3, NULL', %s)", [('mode', "'arrays'"), ('mode', "'json'"), ('mode', "'list'"), ('headers', 'true'), ('limit', '1'), ('separator', "';'"), ('nullvalue', "'NIL'")]),
]


def p_builtin(c, x):
    """option arguments of builtins: an unambiguous prefix means the option, anything else is an error"""
    name, call, opts = c.pick([k for k in CALLS if k[2]])
    if name not in _specs:
        L = un(x.vals("emit(Info.cmds('%s', {full:true}));\n" % name))
        _specs[name] = L[0]['options']
    sp = _specs[name]
    names = [e['name'] for e in sp]
    use = {}
    for o, v in [c.pick(opts) for _ in range(c.int(1, 3))]: use[o] = v
    full = '{%s}' % ', '.join('%s:%s' % kv for kv in use.items())
    bad = False
    abbr = {}
    for o in use:
        k = o[:c.int(1, len(o))] if c.bool(60) else o
        e = [s for s in sp if s['name'] == o][0]
        v = use[o]
        if find_(names, k) != o: bad = True
        r = c.int(0, 99)
        if r < 4: k, bad = c.pick(['nosuch', o + '_', o.upper() + 'Q']), True
        elif r < 9:
            w = {'BOOL': ['1', "'true'"], 'INT': ['true', "'1'", '2147483648'], 'UINT': ['-1', "'1'"], 'STRKEY': ['1', 'true'], 'STRING': ['1', '[]'], 'FUNC': ['1', "'f'"]}.get(e['type'])
            if not w and (e.get('customArg') or {}).get('name') == 'enum': w = ['1', "'nosuch'"]
            if w: v, bad = c.pick(w), True
        elif (e.get('customArg') or {}).get('name') == 'enum' and c.bool(50):
            l, t = e['customArg']['enumList'], v.strip("'")
            a = t[:c.int(1, len(t))]
            m = [q for q in l if q.startswith(a)]
            v = "'%s'" % a
            if len(m) != 1 and a not in l: bad = True
        if k in abbr: raise Discard()
        abbr[k] = v
    short = '{%s}' % ', '.join('%s:%s' % (jsstr(k), v) for k, v in abbr.items())
    src = PRE + "var DB = new Sqlite(':memory:');\nemit(T(function() { emit(%s); }));\nemit(T(function() { emit(%s); }));\n" % (call % full, call % short)
    c.rendered = src
    c.sample(c.rendered[:600])
    c.case(src, short != full)
    c.label(name)
    L = un(x.vals(src))
    if L[0] == 'E': bad = True     # options which exclude each other
    if L[-1] != ('E' if bad else 'ok'):
        V('the second call gave %r, expected %s' % (L[-1], 'an error' if bad else 'no error'), src, '')
    if not bad and (L[1] != 'ok' or not deq(L[0], L[2])): V('an abbreviated option gives another result', src, '%r %r' % (L[0], L[2]))


PROPS = [
    ('a record of every option type', p_hist, {'quick': 3000, 'thorough': 60000}),
    ('required and init-only options', p_required, {'quick': 500, 'thorough': 5000}),
    ('conf of builtin objects', p_conf, {'quick': 1500, 'thorough': 30000}),
    ('option arguments of builtins', p_builtin, {'quick': 1000, 'thorough': 10000}),
]
CHECK = Check('C26', mk, PROPS, 'an option is set successfully (histories: two or more calls; builtins: an abbreviated or replaced option)')
