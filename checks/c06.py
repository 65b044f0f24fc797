"""C06: objects - properties, prototypes, freezing, accessors."""
from vt.core import Check, Violation
from vt.js import X, jsstr, jsnum, UNDEF, same, show, conv, expect


def P(js, *want):
    return lambda x: expect(x, js, list(want))


KEYS = ['a', 'b', 'c', 'x', 'y', 'k1', 'k10', 'k2', '', ' ', 'a b', 'é', '日本', '10', '9', '-1', '1.5', 'A', 'Z', '_', 'true', 'q"q', "it's", 'foo.bar', 'null0', 'new\nline', '\U0001f600']
NUMK = [0, 1, 7, 10, -1, 1.5, 0.1, 2147483648, 4294967296, 123456789012]
IDS = ('a', 'b', 'c', 'x', 'y', 'k1', 'k10', 'k2', 'A', 'Z', '_')


def num2key(n):
    return '%.15g' % n if isinstance(n, float) else str(n)


class Err(Exception):
    pass


class Obj:
    def __init__(self):
        self.own, self.proto = {}, None
        self.fz, self.mod, self.rd = False, True, True

    def chain(self):
        o = self
        while o is not None:
            yield o
            o = o.proto

    def get(self, k):
        for o in self.chain():
            if k in o.own: return o.own[k]
        return None

    def find(self, k):
        return any(k in o.own for o in self.chain())

    def keys(self):
        r = []
        for o in self.chain():
            r += [k for k in sorted(o.own, key=lambda s: s.encode()) if k not in r]
        return r

    def set(self, k, v):
        if self.fz:
            if not self.mod or k not in self.own: raise Err('object freeze: attempted assign')
        self.own[k] = v

    def incr(self, k, d):
        if k not in self.own:
            self.set(k, self.get(k))
        elif self.fz and not self.mod: raise Err('object freeze: attempted modify')
        self.own[k] += d

    def delete(self, k):
        if self.fz: raise Err('object freeze: attempted delete')
        self.own.pop(k, None)

    def read(self, k):
        if not self.find(k):
            if self.fz and self.rd: raise Err('object freeze: read undefined')
            return UNDEF
        return self.get(k)


def dump(o):
    if isinstance(o, Obj):
        return {k.encode(): dump(o.own[k]) if k in o.own else UNDEF for k in o.keys()}
    return conv(o)


def hist(c, x):
    n = c.int(2, 4)
    O = [Obj() for _ in range(n)]
    lines = ['var ' + ', '.join('o%d = {}' % i for i in range(n)) + ', t = {}, al = 0, L = [];\n']
    want = []
    nops = c.size(2, 14) if not c.bool(6) else c.int(20, 60)
    wide = c.bool(8)
    pool = KEYS if c.bool(40) else c.pick([['a', 'b', 'c'], ['k1', 'k10', 'k2', 'x'], ['', ' ', 'é', '日本', 'a'], ['10', '9', '1.5', '-1']])
    wk = lambda: 'w%d' % c.int(0, 1200) if wide and c.bool(70) else c.pick(pool)

    def key():
        """(string, js key expression, dotted)"""
        if c.bool(15):
            k = c.pick(NUMK)
            return num2key(k), '[%s]' % (str(k) if k >= 0 else '(%s)' % k)
        k = wk()
        if k in IDS and c.bool(50): return k, '.' + k
        return k, '[%s]' % jsstr(k)

    def val(i):
        t = c.weighted([(6, 'n'), (3, 's'), (1, 'b'), (1, 'z'), (2, 'o')])
        if t == 'o' and i > 0:
            j = c.int(0, i - 1)
            return O[j], 'o%d' % j
        if t == 'n':
            v = c.pick([0, 1, 2, 5, -3, 0.5, 1e6])
            return v, jsnum(v)
        if t == 's':
            v = c.pick(['', 's', 'Hi', 'é'])
            return v, jsstr(v)
        if t == 'b': return True, 'true'
        if t == 'z': return None, 'null'
        return 1, '1'

    def lit(i):
        kv = {}
        ks = []
        for _ in range(c.size(0, 4)):
            k = wk()
            if k in kv: continue
            v, js = val(i)
            kv[k] = v
            ks.append('%s: %s' % (k if k in IDS and c.bool(50) else jsstr(k), js))
        o = Obj()
        o.own = kv
        return o, '{ %s }' % ', '.join(ks)

    ops = []
    for _ in range(nops):
        i = c.int(0, n - 1)
        o = O[i]
        nm = 'o%d' % i
        op = c.weighted([(8, 'set'), (3, 'incr'), (2, 'opassign'), (4, 'get'), (3, 'del'), (3, 'has'), (2, 'keys'), (2, 'values'), (2, 'forin'), (3, 'assign'), (2, 'merge'), (3, 'create'), (3, 'setproto'), (2, 'getproto'), (3, 'freeze'), (1, 'unfreeze'), (2, 'lit'), (1, 'fordel'), (1, 'with'), (2, 'copyprop'), (1, 'wide')])
        ops.append(op)
        body, ev = '', []
        try:
            if op == 'set':
                (k, kx), (v, vx) = key(), val(i)
                body = '%s%s = %s;' % (nm, kx, vx)
                o.set(k, v)
            elif op in ('incr', 'opassign'):
                ks = [k for q in o.chain() for k, v in q.own.items() if isinstance(v, (int, float)) and not isinstance(v, bool)]
                ks = [k for k in ks if isinstance(o.get(k), (int, float)) and not isinstance(o.get(k), bool)]
                if not ks: continue
                k = c.pick(ks)
                kx = '[%s]' % jsstr(k)
                v0 = o.get(k)
                if op == 'incr':
                    f = c.pick(['post++', 'post--', '++pre', '--pre'])
                    d = 1 if '+' in f else -1
                    body = 'emit(%s);' % ('%s%s%s' % (nm, kx, f[4:]) if f.startswith('post') else '%s%s%s' % (f[:2], nm, kx))
                    o.incr(k, d)
                    ev = [v0 if f.startswith('post') else v0 + d]
                else:
                    body = '%s%s += 3;' % (nm, kx)
                    o.set(k, v0 + 3)
            elif op == 'get':
                k, kx = key()
                body = 'emit(%s%s);' % (nm, kx)
                ev = [dump(o.read(k))]
            elif op == 'del':
                k, kx = key()
                body = 'delete %s%s;' % (nm, kx)
                o.delete(k)
            elif op == 'has':
                k, kx = key()
                inh = o.find(k) and k not in o.own
                if inh: c.exclude('in-own-only')
                body = 'emit(%s, %s.hasOwnProperty(%s), %s.propertyIsEnumerable(%s));' % ('true' if inh else '%s in %s' % (jsstr(k), nm), nm, jsstr(k), nm, jsstr(k))
                own = k in o.own
                ev = [own or inh, own, own]
            elif op == 'keys':
                body = 'emit(Object.keys(%s));' % nm
                ev = [conv(o.keys())]
            elif op == 'values':
                body = 'emit(Object.values(%s));' % nm
                ev = [[dump(o.own[k]) for k in sorted(o.own, key=lambda s: s.encode())]]
            elif op == 'forin':
                body = 'L = []; for (var k in %s) L.push(k); emit(L);' % nm
                ev = [conv(o.keys())]
            elif op == 'fordel':
                if o.fz: continue
                k = wk()
                body = 'L = []; for (var k in %s) { L.push(k); delete %s[%s]; } emit(L);' % (nm, nm, jsstr(k))
                ks = []
                pend = o.keys()
                while pend:
                    q = pend.pop(0)
                    ks.append(q)
                    o.own.pop(k, None)
                    if not o.find(k) and k in pend: pend.remove(k)
                ev = [conv(ks)]
            elif op == 'assign':
                srcs = [c.int(0, i - 1) for _ in range(c.int(1, 3))] if i > 0 and c.bool(70) else None
                if srcs is not None:
                    ss = [O[j] for j in srcs]
                    args = ', '.join('o%d' % j for j in srcs)
                else:
                    q, args = lit(i)
                    ss = [q]
                tgt = c.weighted([(3, 'self'), (2, 'new')])
                if tgt == 'self':
                    body = 'emit(Object.assign(%s, %s) === %s);' % (nm, args, nm)
                    for s in ss:
                        for k in sorted(s.own, key=lambda q: q.encode()): o.set(k, s.own[k])
                    ev = [True]
                else:
                    body = 't = Object.assign({}, %s, %s); t.zz = 1; emit(t);' % (nm, args)
                    r = dict(o.own)
                    for s in ss: r.update(s.own)
                    r['zz'] = 1
                    ev = [{k.encode(): dump(v) for k, v in r.items()}]
            elif op == 'merge':
                q, qx = lit(i)
                r = dict(o.own)
                r.update(q.own)
                body = 't = %s.merge(%s);' % (nm, qx)
                nk = [k for k, v in r.items() if isinstance(v, (int, float)) and not isinstance(v, bool)]
                if nk:
                    k = c.pick(nk)
                    body += ' t[%s]++;' % jsstr(k)
                    r[k] += 1
                body += ' t.zz = 1; emit(t);'
                r['zz'] = 1
                ev = [{k.encode(): dump(v) for k, v in r.items()}]
            elif op == 'create':
                if i == 0: continue
                j = c.int(0, i - 1)
                q = Obj()
                props = ''
                if c.bool(40):
                    q, props = lit(i)
                    props = ', ' + props
                q.proto = O[j]
                body = '%s = Object.create(o%d%s);' % (nm, j, props)
                O[i] = q
            elif op == 'setproto':
                if i == 0: continue
                j = c.int(0, i - 1)
                body = 'Object.setPrototypeOf(%s, o%d);' % (nm, j)
                o.proto = O[j]
            elif op == 'getproto':
                if o.proto is None: continue
                j = c.int(0, n - 1)
                body = 'emit(Object.getPrototypeOf(%s) === o%d, o%d.isPrototypeOf(%s));' % (nm, j, j, nm)
                ev = [o.proto is O[j], any(q is O[j] for q in list(o.chain())[1:])]
            elif op == 'freeze':
                o.fz, o.mod, o.rd = True, c.bool(60), c.bool(50)
                a = ', true, %s, %s' % (str(o.mod).lower(), str(o.rd).lower())
                if o.mod and o.rd and c.bool(): a = c.pick(['', ', true', ', true, true'])
                elif o.rd and c.bool(): a = a.rsplit(',', 1)[0]
                body = 'Object.freeze(%s%s);' % (nm, a)
            elif op == 'unfreeze':
                o.fz, o.mod = False, True
                body = 'Object.freeze(%s, false);' % nm
            elif op == 'lit':
                q, qx = lit(i)
                body = '%s = %s;' % (nm, qx)
                O[i] = q
            elif op == 'with':
                ks = [k for k in o.own if k in IDS]
                if not ks or o.fz: continue
                k = c.pick(ks)
                v, vx = val(i)
                body = 'with (%s) { %s = %s; }' % (nm, k, vx)
                o.set(k, v)
            elif op == 'copyprop':
                ks = [k for k, v in o.own.items() if isinstance(v, (int, float)) and not isinstance(v, bool)]
                if not ks: continue
                k = c.pick(ks)
                h = c.pick(['t = { q: %s }; t.q++; emit(t.q);', 't = [%s]; t[0]++; emit(t[0]);', 'al = %s; al++; emit(al);', 'emit((function(z) { z++; return z; })(%s));', 't = {}; t.q = %s; ++t.q; emit(t.q);', 't = []; t.push(%s); ++t[0]; emit(t[0]);'])
                body = h % ('%s[%s]' % (nm, jsstr(k)))
                ev = [o.own[k] + 1]
            elif op == 'wide':
                if o.fz: continue
                m = c.int(20, 700)
                st = c.int(1, 7)
                body = 'for (var j = 0; j < %d; j++) { %s["w" + (j * %d %% %d)] = j; }' % (m, nm, st, m)
                for j in range(m): o.own['w%d' % (j * st % m)] = j
                if c.bool(50):
                    body += ' for (var j = 0; j < %d; j += 2) { delete %s["w" + j]; }' % (m, nm)
                    for j in range(0, m, 2): o.own.pop('w%d' % j, None)
        except Err as e:
            ev = None
            lines.append('try { %s emit("none"); } catch(e) { emit(e.substr(0, %d)); }\n' % (body, len(str(e))))
            want.append(('values', [conv(str(e))], op))
        if ev is not None:
            lines.append('try { %s } catch(e) { emit("ERR", e); }\n' % body)
            want.append(('values', [conv(v) if not isinstance(v, dict) else v for v in ev], op))
        lines.append('emit(%s);\n' % ', '.join('o%d' % q for q in range(n)))
        want.append(('state', [dump(q) for q in O], op))
    src = ''.join(lines)
    c.rendered = src
    g = x.vals(src)
    i = 0
    for kind, w, op in want:
        for v in w:
            if i >= len(g) or not same(g[i], v) or (isinstance(v, dict) and kind == "state" and list(g[i]) != list(v)):
                raise Violation('%s after %s: got %r, want %r (output %d)\n--- script\n%s' % (kind, op, g[i] if i < len(g) else 'nothing', v, i + 1, show(src)))
            i += 1
    if i != len(g): raise Violation('more output than expected\n--- script\n%s\n%r' % (show(src), g[i:]))
    c.case(src, len(ops) >= 2)
    for o in set(ops): c.label(o)
    c.sample(src[:500])


def accessors(c, x):
    """objects with getters and setters against a model"""
    names = ['p', 'q']
    m = {'_p': c.int(0, 9), '_q': c.int(0, 9), 'n': c.int(0, 9)}
    fn = {}
    decl = ['_p: %d' % m['_p'], '_q: %d' % m['_q'], 'n: %d' % m['n'], 'log: 0']
    for nm in names:
        g, s = c.int(-2, 3), c.int(-2, 3)
        tg, ts = c.bool(8), c.bool(10)
        fn[nm] = (g, s, tg, ts)
        decl.append('get %s() { this.log += 1; %sreturn this._%s + %d; }' % (nm, 'if (this._%s > 6) throw "G"; ' % nm if tg else '', nm, g))
        decl.append('set %s(v) { this.log += 100; %sthis._%s = v + %d; }' % (nm, 'if (v > 8) throw "S"; ' % () if ts else '', nm, s))
    decl = c.perm(decl)
    st = dict(m, log=0)
    lines = ['var o = { %s };\nvar al = o, z = { o: o, arr: [o], n: 5 }, v = 0, a2 = [4, 5];\nfunction geto() { return o; }\n' % ', '.join(decl)]

    class Thr(Exception):
        pass

    def rd(nm):
        if nm == 'n': return st['n']
        g, s, tg, ts = fn[nm]
        st['log'] += 1
        if tg and st['_' + nm] > 6: raise Thr('G')
        return st['_' + nm] + g

    def wr(nm, v):
        if nm == 'n':
            st['n'] = v
            return
        g, s, tg, ts = fn[nm]
        st['log'] += 100
        if ts and v > 8: raise Thr('S')
        st['_' + nm] = v + s

    want = []
    kinds = []
    for _ in range(c.size(1, 9)):
        nm = c.weighted([(3, 'p'), (3, 'q'), (1, 'n')])
        ref = c.pick(['o.%s', 'o["%s"]', 'al.%s', 'z.o.%s', 'z.arr[0].%s', 'geto().%s']) % nm
        lref = ref if not ref.startswith('geto') else 'o.' + nm
        op = c.pick(['get', 'set', 'postinc', 'postdec', 'preinc', 'predec', 'addassign', 'mulassign', 'add', 'other', 'swap', 'assign', 'call', 'typeof'])
        kinds.append(op)
        ev = []
        try:
            if op == 'get':
                b = 'emit(%s);' % ref
                ev.append(rd(nm))
            elif op == 'set':
                k = c.int(0, 9)
                b = '%s = %d;' % (lref, k)
                wr(nm, k)
            elif op in ('postinc', 'postdec', 'preinc', 'predec'):
                d, s = (1, '++') if 'inc' in op else (-1, '--')
                b = '%s;' % (lref + s if op.startswith('post') else s + lref)
                wr(nm, rd(nm) + d)
            elif op == 'addassign':
                b = '%s += 2;' % lref
                wr(nm, rd(nm) + 2)
            elif op == 'mulassign':
                b = '%s *= 2;' % lref
                wr(nm, rd(nm) * 2)
            elif op == 'add':
                b = 'emit(%s + o.n * 2 - %s);' % (ref, ref)
                u = rd(nm)
                u = u + st['n'] * 2 - rd(nm)
                ev.append(u)
            elif op == 'other':
                b = 'v = %s; z.n++; a2[0]++; v++; emit(v); z.n = 5; a2[0] = 4;' % ref
                ev.append(rd(nm) + 1)
            elif op == 'swap':
                b = 'v = o.p; o.p = o.q; o.q = v;'
                u = rd('p')
                wr('p', rd('q'))
                wr('q', u)
            elif op == 'assign':
                k = c.int(0, 9)
                b = 'Object.assign(o, { %s: %d });' % (nm, k)
                wr(nm, k)
            elif op == 'call':
                b = 'emit((function(a, b) { return a * 10 + b; })(%s, o.n));' % ref
                u = rd(nm)
                ev.append(u * 10 + st['n'])
            else:
                b = 'emit(typeof %s);' % ref
                rd(nm)
                ev.append('number')
            lines.append('try { %s } catch(e) { emit("ERR", e); }\n' % b)
        except Thr as e:
            ev = [str(e)]
            lines.append('try { %s emit("none"); } catch(e) { emit(e); }\n' % b)
        want += [(op, conv(v)) for v in ev]
        lines.append('emit(o);\n')
        want.append((op + ': state', {k.encode(): float(v) for k, v in st.items()}))
    src = ''.join(lines)
    c.rendered = src
    g = x.vals(src)
    for i, (op, v) in enumerate(want):
        if i >= len(g) or not same(g[i], v):
            raise Violation('%s: got %r, want %r\n--- script\n%s' % (op, g[i] if i < len(g) else 'nothing', v, show(src)))
    if len(g) != len(want): raise Violation('more output than expected\n--- script\n%s' % show(src))
    c.case(src, any(k in kinds for k in ('postinc', 'preinc', 'postdec', 'predec', 'addassign', 'mulassign', 'swap')))
    for o in set(kinds): c.label(o)
    c.sample(src[:500])


PROBES = [
    ('setproto', P("var p={x:1}, o={}; Object.setPrototypeOf(o,p); p=0; emit(o.x);", 1)),
    ('getter-throw', P("var o={get x(){ throw 'G'; }}; try { emit(o.x); } catch(e) { emit(e); }", 'G')),
    ('incr-this', P("var o={_x:1,get x(){return this._x;},set x(v){this._x=v;}}, z={o:o,n:1}; z.o.x++; emit(o._x); var v=o.x; z.n++; emit(o._x, z.n);", 2, 2, 2)),
    ('values-shared', P("var o={x:1}; var v=Object.values(o); v[0]++; emit(o.x);", 1)),
    ('in-number', P("var o={}; o[1.5]=1; o[4294967296]=2; emit(1.5 in o, 1 in o, 4294967296 in o, 0 in o);", True, False, True, False)),
    ('incr-inherited', P("var p={x:1}, o=Object.create(p); o.x++; emit(p.x, o.x);", 1, 2)),
    ('frozen-copy', P("var p={x:1}; Object.freeze(p,true,false); var z=p.x; z++; emit(z);", 2)),
    ('assign-shared', P("var a={x:1}, b=Object.assign({},a); b.x++; emit(a.x,b.x);", 1, 2)),
    ('assign-setter-this', P("var a={set x(v){this._x=v;}}; Object.assign(a,{x:4}); emit(a._x);", 4)),
    ('in-own-only', P("var p={x:1}, o=Object.create(p); emit('x' in o);", True)),
]
PROPS = [('histories', hist, {'quick': 9000, 'thorough': 150000}), ('accessors', accessors, {'quick': 5000, 'thorough': 60000})]
CHECK = Check('C06', lambda w: X(w), PROPS, 'histories of operations over 2-4 objects, or over an object with accessors; non-trivial = at least two operations (accessors: a compound assignment among them)', probes=PROBES)
