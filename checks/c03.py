"""C03: functions, closures, this, constructors, arguments (differential against an independent engine)."""
from vt.core import Check
from vt.progen import Gen, prelude, DECL_J, DECL_N, EV_J, EV_N, P_ASSIGN
from checks.c01 import XN, compare, P


class FGen:
    """small function-centred programs; jsish text and node text are the same except + - etc. via helpers"""
    def __init__(self, c, strict):
        self.c = c
        self.g = Gen(c, strict=strict)
        self.n = 0
        self.J, self.N = [], []
        self.objs = []
        self.tags = set()

    def nm(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def add(self, j, n=None):
        self.J.append(j + '\n')
        self.N.append((j if n is None else n) + '\n')

    def e(self, t, vs, d=2):
        """expression of type t over own variables vs {name:type} plus globals"""
        g = self.g
        o = g.nv, g.sv, g.bv, g.iv, g.assign_ok
        g.nv = ['n0'] + [v for v in vs if vs[v] == 'n'] * 3
        g.sv = ['s0'] + [v for v in vs if vs[v] == 's'] * 3
        g.bv = ['b0'] + [v for v in vs if vs[v] == 'b'] * 3
        g.assign_ok = False
        r = g.E(t, d)
        g.nv, g.sv, g.bv, g.iv, g.assign_ok = o
        return r

    def lit(self, t):
        c = self.c
        return {'n': lambda: str(c.int(0, 30)) if c.bool(70) else '2.5', 's': lambda: c.pick(['"a"', '"xy"', '""', '"é"', '"7"']), 'b': lambda: c.pick(['true', 'false'])}[t]()

    def T(self): return self.c.pick('nnsb')

    def args(self, ts):
        es = self.g.seq([self.e(t, {}, 1) for t in ts], [t for t in ts])
        return ', '.join(self.g.arg(e) for e in es), ','.join(e[1] for e in es)

    # --- templates
    def t_plain(self):
        c = self.c
        f = self.nm('f')
        ts = [self.T() for _ in range(c.int(0, 6))]
        ps = [self.nm('p') for _ in ts]
        nd = c.int(0, len(ts)) if c.bool(40) else 0
        defs = [self.lit(t) if i >= len(ts) - nd else None for i, t in enumerate(ts)]
        plist = ', '.join(p if d is None else '%s=%s' % (p, d) for p, d in zip(ps, defs))
        vs = dict(zip(ps, ts))
        loc = self.nm('l'); lt = self.T()
        le = self.e(lt, vs)
        vs2 = dict(vs); vs2[loc] = lt
        mods = ''
        modn = ''
        if ps and c.bool(40):
            p = c.pick(ps); e = self.e(vs[p], vs2, 1)
            mods, modn = '%s = %s; ' % (p, self.g.par(e, P_ASSIGN)), '%s=%s; ' % (p, e[1])
            self.tags.add('param-assign')
        rt = self.T(); re_ = self.e(rt, vs2)
        ret = c.pick(['plain', 'plain', 'arr', 'none', 'early'])
        arr = '[%s]' % ', '.join(ps + [loc])
        bj = 'var %s = %s; %s' % (loc, self.g.par(le, P_ASSIGN), mods)
        bn = 'var %s=%s; %s' % (loc, le[1], modn)
        if ret == 'plain': bj += 'return %s;' % re_[0]; bn += 'return %s;' % re_[1]
        elif ret == 'arr': bj += 'return %s;' % arr; bn += 'return %s;' % arr
        elif ret == 'early':
            x = self.e('b', vs2, 1)
            bj += 'if (%s) return %s; return %s;' % (x[0], re_[0], arr); bn += 'if (%s) return %s; return %s;' % (x[1], re_[1], arr)
        form = c.int(0, 2 if not nd else 1)
        if form == 0: self.add('function %s(%s) { %s }' % (f, plist, bj), 'function %s(%s) { %s }' % (f, plist, bn))
        elif form == 1: self.add('var %s = function(%s) { %s };' % (f, plist, bj), 'var %s = function(%s) { %s };' % (f, plist, bn))
        else:
            if len(ps) != 1: plist = '(%s)' % plist      # "(p) =>" is not in the grammar
            self.add('var %s = %s => { %s };' % (f, plist, bj), 'var %s = %s => { %s };' % (f, plist, bn))
        self.tags.add('form%d' % form)
        if nd: self.tags.add('defaults')
        for _ in range(c.int(1, 3)):
            k = len(ts) - (c.int(0, nd) if nd else 0)
            aj, an = self.args(ts[:k])
            how = c.pick(['call', 'call', '.call', '.apply', '.bind'])
            self.tags.add(how)
            sep = ', ' if k else ''
            sp = c.int(0, k)
            if how == 'call': j, n = '%s(%s)' % (f, aj), '%s(%s)' % (f, an)
            elif how == '.call': j, n = '%s.call(null%s%s)' % (f, sep, aj), '%s.call(null%s%s)' % (f, sep, an)
            elif how == '.apply': j, n = '%s.apply(null, [%s])' % (f, aj), '%s.apply(null,[%s])' % (f, an)
            else:
                l = [self.lit(t) for t in ts[:k]]
                j = n = '%s.bind(%s)(%s)' % (f, ', '.join(['null'] + l[:sp]), ', '.join(l[sp:]))
            self.em(j, n)
        if c.bool(30): self.em('%s.length' % f, str(len(ts)))

    def em(self, j, n=None):
        n = j if n is None else n
        self.add('try { emit(%s); } catch(e) { emit(EV(e)); }' % j, 'try { emit(%s); } catch(e) { emit(EV(e)); }' % n)

    def t_closure(self):
        """counter objects sharing or not sharing state"""
        c = self.c
        self.tags.add('closure')
        f, v = self.nm('mk'), self.nm('v')
        step = c.int(1, 5)
        src = ('function %s(%s) { var h = [%s]; return { inc: function() { %s += %d; h.push(%s); return %s; }, dec: function() { %s--; return %s; }, '
               'cur: function() { return %s; }, hist: function() { return h.slice(0); }, nest: function() { return function(q) { %s = q; return %s; }; } }; }'
               ) % (f, v, v, v, step, v, v, v, v, v, v, v)
        self.add(src)
        os_ = []
        for _ in range(c.int(1, 3)):
            o = self.nm('o')
            self.add('var %s = %s(%d);' % (o, f, c.int(0, 9)))
            os_.append(o)
        for _ in range(c.int(2, 8)):
            o = c.pick(os_)
            m = c.pick(['inc()', 'inc()', 'dec()', 'cur()', 'hist()', 'nest()(%d)' % c.int(0, 50)])
            if c.bool(15) and m[-2:] == '()':
                m2 = m[:-2]
                self.em('(function() { var g = %s.%s; return g(); })()' % (o, m2))
            else:
                self.em('%s.%s' % (o, m))

    def t_loopclosure(self):
        c = self.c
        self.tags.add('loop-closure')
        a, i = self.nm('a'), self.nm('i')
        k = c.int(1, 4)
        if c.bool(): self.add('var %s = []; for (var %s = 0; %s < %d; %s++) %s.push(function() { return %s * 10; });' % (a, i, i, k, i, a, i))
        else: self.add('var %s = []; for (var %s = 0; %s < %d; %s++) (function(w) { %s.push(function() { w++; return w * 10; }); })(%s);' % (a, i, i, k, i, a, i))
        for _ in range(c.int(1, 4)):
            self.em('%s[%d]()' % (a, c.int(0, k - 1)))

    def t_ctor(self):
        c = self.c
        self.tags.add('new')
        C = self.nm('C')
        ts = [self.T() for _ in range(c.int(0, 3))]
        ps = [self.nm('p') for _ in ts]
        vs = dict(zip(ps, ts))
        fields = []
        bj = bn = ''
        for p in ps:
            bj += 'this.%s = %s; ' % (p, p); bn += 'this.%s=%s; ' % (p, p)
            fields.append((p, vs[p]))
        e = self.e('n', vs)
        bj += 'this.k = %s; ' % self.g.par(e, P_ASSIGN); bn += 'this.k=%s; ' % e[1]
        own = c.bool(40)
        if own:
            bj += 'this.own = function() { return this.k; }; '; bn += 'this.own=function() { return this.k; }; '
        rv = c.pick(['', '', '', 'return 5; ', 'return { k: 77 }; '])
        if rv: self.tags.add('ctor-return')
        self.add('function %s(%s) { %s%s}' % (C, ', '.join(ps), bj, rv), 'function %s(%s) { %s%s}' % (C, ', '.join(ps), bn, rv))
        self.add('%s.prototype.up = function(d) { this.k += d; return this; };' % C, '%s.prototype.up = function(d) { this.k=add(this.k,d); return this; };' % C)
        self.add('%s.prototype.kind = "%s";' % (C, C))
        self.add('%s.prototype.sh = function() { return typeof this + this.kind; };' % C, '%s.prototype.sh = function() { return add(typeof this,this.kind); };' % C)
        obj = rv.startswith('return {')
        a = self.nm('o'); b = self.nm('o')
        for o in (a, b):
            aj, an = self.args(ts)
            self.add('var %s = {}; try { %s = new %s(%s); } catch(e) { emit(EV(e)); %s = { k: 0 }; }' % (o, o, C, aj, o),
                     'var %s = {}; try { %s = new %s(%s); } catch(e) { emit(EV(e)); %s = { k: 0 }; }' % (o, o, C, an, o))
        for _ in range(c.int(2, 6)):
            o = c.pick([a, b])
            k = c.pick(['k', 'up', 'sh', 'kind', 'inst', 'own', 'shadow', 'delkind', 'late', 'call', 'fields', 'chain'])
            if obj and k in ('up', 'sh', 'own', 'late', 'chain'): k = 'k'
            if k == 'k': self.em('%s.k' % o)
            elif k == 'up': self.em('%s.up(%d).k' % (o, c.int(0, 5)))
            elif k == 'chain': self.em('%s.up(1).up(2).k' % o)
            elif k == 'sh': self.em('%s.sh()' % o)
            elif k == 'kind': self.em('typeof %s.kind' % o)
            elif k == 'inst': self.em('%s instanceof %s' % (o, C))
            elif k == 'own' and own: self.em('%s.own()' % o)
            elif k == 'shadow': self.add('%s.kind = "own";' % o); self.em('[%s.kind, %s.kind]' % (a, b)) if not obj else None
            elif k == 'delkind': self.add('delete %s.kind;' % o); self.em('typeof %s.kind' % o)
            elif k == 'late': self.add('%s.prototype.late%d = function() { return "L" + this.kind; };' % (C, self.n), '%s.prototype.late%d = function() { return add("L",this.kind); };' % (C, self.n)); self.em('%s.late%d()' % (o, self.n))
            elif k == 'call' and not obj: self.em('%s.prototype.sh.call(%s)' % (C, o))
            elif k == 'fields': self.em(('[' + ', '.join('%s.%s' % (o, f) for f, _ in fields) + ']') if not obj else '%s.k' % o)
        if c.bool(40) and not obj:
            self.tags.add('inherit')
            D = self.nm('D')
            ext = self.args(ts)
            self.add('function %s(k) { this.extra = 1; this.k = k; }' % D)
            self.add('Object.setPrototypeOf(%s.prototype, %s.prototype);' % (D, C))
            if c.bool(): self.add('%s.prototype.over = function() { return "D" + this.k; }; %s.prototype.over = function() { return "C"; };' % (D, C))
            d = self.nm('o')
            self.add('var %s = new %s(%d);' % (d, D, c.int(0, 9)))
            self.em('[%s.k, %s.extra, %s.kind, %s instanceof %s, %s instanceof %s, %s instanceof %s]' % (d, d, d, d, D, d, C, a, D))
            self.em('%s.up(3).k' % d)
            self.em('[%s.sh(), typeof %s.over]' % (d, a))
            self.em('typeof %s.over === "function" ? [%s.over(), %s.over()] : 0' % (d, d, a))

    def t_this(self):
        c = self.c
        self.tags.add('this')
        o = self.nm('t')
        self.add('var %s = { v: %d, m: function(x) { return this.v + x; }, inn: { v: %d, m: function(x) { return this.v * x; }, d: { v: %d, g: function() { return this.v; } } }, '
                 's: function() { var self = this; return function() { return self.v; }; }, put: function(x) { this.v = x; return this; } };' % (o, c.int(0, 9), c.int(10, 19), c.int(20, 29)))
        for _ in range(c.int(2, 7)):
            k = c.int(0, 40)
            self.em(c.pick(['%s.m(%d)', '%s.inn.m(%d)', '%s["m"](%d)', '%s.m.call({ v: 100 }, %d)', '%s.m.apply({ v: 200 }, [%d])', '%s.m.bind({ v: 300 })(%d)', '%s.inn.m.call(' + o + ', %d)',
                            '%s.put(%d).v', '%s.inn["d"].g() + %d', '%s.s()() + %d', '%s.inn.d.g.call({ v: 5 }) - %d', '[1, 2].map(function(x) { return this.v + x; }, %s)[1] + %d',
                            '(function(o, x) { return o.m(x); })(%s, %d)']) % (o, k))

    def t_rec(self):
        c = self.c
        self.tags.add('recursion')
        f = self.nm('r')
        k = c.int(0, 5)
        if k == 0: self.add('function %s(n) { return n <= 0 ? 0 : n + %s(n - 1); }' % (f, f)); a = str(c.int(0, 150))
        elif k == 1: self.add('function %s(n) { if (n < 2) return n; return %s(n - 1) + %s(n - 2); }' % (f, f, f)); a = str(c.int(0, 12))
        elif k == 2: self.add('function %s(a, b) { return b ? %s(b, a %% b) : a; }' % (f, f)); a = '%d, %d' % (c.int(0, 9999), c.int(0, 9999))
        elif k == 3:
            self.add('function %s(n) { var r = []; for (var i = 0; i < n; i++) { r.push(i); if (i %% 2) r.push(%s(i - 1)); } return r; }' % (f, f)); a = str(c.int(0, 5))
        elif k == 4:
            self.add('function %sB(n) { return n == 0 ? true : %s(n - 1); }' % (f, f)); self.add('function %s(n) { return n == 0 ? false : %sB(n - 1); }' % (f, f)); a = str(c.int(0, 40))
        else:
            self.add('var %s = function(n, s) { return n == 0 ? s : arguments.callee(n - 1, s + n); };' % f); a = '%d, "x"' % c.int(0, 20)
        self.em('%s(%s)' % (f, a))

    def t_args(self):
        c = self.c
        self.tags.add('arguments')
        f = self.nm('g')
        k = c.int(1, 8)
        ps = ['q%d' % i for i in range(k)]
        m = c.pick(['var t = ""; for (var i = 0; i < arguments.length; i++) t += typeof arguments[i] + ","; return t;', 'return arguments.length;',
                    'return arguments[arguments.length - 1];', 'arguments[0] = "ch"; return [q0, arguments[0]];', 'q0 = "ch"; return [q0, arguments[0]];',
                    'return [].slice ? [arguments[0], q%d] : 0;' % (k - 1), 'return (function(z) { return [arguments.length, z]; })(arguments[0]);'])
        self.add('function %s(%s) { %s }' % (f, ', '.join(ps), m))
        vals = [self.lit(self.T()) for _ in ps]
        self.em('%s(%s)' % (f, ', '.join(vals)))
        if c.bool(): self.em('%s.apply(null, [%s])' % (f, ', '.join(vals)))

    def t_higher(self):
        c = self.c
        self.tags.add('higher-order')
        f = self.nm('h')
        k = c.int(0, 5)
        if k == 0:
            self.add('function %s(f, g) { return function(x) { return f(g(x)); }; }' % f)
            self.em('%s(function(x) { return x + %d; }, function(x) { return x * %d; })(%d)' % (f, c.int(0, 9), c.int(0, 9), c.int(0, 9)))
        elif k == 1:
            self.add('function %s(n) { return n <= 0 ? function(x) { return x; } : function(x) { return %s(n - 1)(x + n); }; }' % (f, f))
            self.em('%s(%d)(%d)' % (f, c.int(0, 6), c.int(0, 9)))
        elif k == 2:
            self.em('(function(a) { return function(b) { return function(c) { return [a, b, c, a + b + c]; }; }; })(%d)(%d)(%d)' % (c.int(0, 9), c.int(0, 9), c.int(0, 9)))
        elif k == 3:
            self.em('(function(x, y) { return x - y; })(%d, %d)' % (c.int(0, 99), c.int(0, 99)))
        elif k == 4:
            self.add('var %s = x => x * %d + 1;' % (f, c.int(1, 9)))
            self.em('[1, 2, 3].map(%s)' % f)
        else:
            self.add('var %s = { v: %d, go: function() { var w = x => this.v + x; return w(%d); } };' % (f, c.int(0, 9), c.int(0, 9)))
            self.em('%s.go()' % f)

    def t_scope(self):
        c = self.c
        self.tags.add('scope')
        f = self.nm('sc')
        k = c.int(0, 5)
        if k == 0: self.add('var g%s = 1; function %s(g%s) { g%s = g%s + 1; return g%s; }' % ((f,) * 6)); self.em('[%s(%d), g%s]' % (f, c.int(0, 9), f))
        elif k == 1: self.add('var g%s = 1; function %s() { var g%s = 2; (function() { g%s += 5; })(); return g%s; }' % ((f,) * 5)); self.em('[%s(), g%s]' % (f, f))
        elif k == 2: self.add('var g%s = 1; function %s() { g%s = g%s + 4; return g%s; }' % ((f,) * 5)); self.em('%s()' % f); self.em('[%s(), g%s]' % (f, f))
        elif k == 3: self.add('function %s(x) { var t = typeof z; if (x) { var z = 5; } return [t, z]; }' % f); self.em('%s(%d)' % (f, c.int(0, 1)))
        elif k == 4: self.add('function %s(o, n) { o.m = 1; n = 99; o = { m: 5 }; return [o.m, n]; }' % f); self.add('var o%s = {}, n%s = 3;' % (f, f)); self.em('[%s(o%s, n%s), o%s, n%s]' % ((f,) * 5))
        else: self.add('function %s(a) { function in1(b) { return a + b; } function in2(a) { return in1(a); } return in2(10) + a; }' % f); self.em('%s(%d)' % (f, c.int(0, 9)))

    def t_throw(self):
        c = self.c
        self.tags.add('unwind')
        f = self.nm('u')
        d = c.int(1, 6)
        self.add('function %s(n) { var l = n * 2; if (n == 0) throw %s; var r = %s(n - 1); return r + l; }' % (f, c.pick(['"T:1"', '5', '{ a: 1 }']), f))
        self.em('(function() { try { %s(%d); } catch(e) { return [EV(e), %d]; } return 0; })()' % (f, d, c.int(0, 9)))
        if c.bool(): self.em('(function(k) { var t = 0; for (var i = 0; i < 3; i++) { try { t += i; %s(i); } catch(e) { t += k; } finally { t *= 2; } } return t; })(%d)' % (f, c.int(0, 9)))

    def t_ctorprop(self):
        c = self.c
        self.tags.add('constructor property')
        f, v = self.nm('C'), self.nm('v')
        self.add('function %s(n) { this.a = n; }' % f)
        if c.bool(): self.add('%s.prototype.m = function() { return this.a; };' % f)
        L = [('[1]', 'Array'), ('[]', 'Array'), ('{}', 'Object'), ('{x: 1}', 'Object'), ('new Number(3)', 'Number'), ('new String("s")', 'String'), ('new Boolean(false)', 'Boolean'), ('new %s(4)' % f, f),
             ('"a b".split(" ")', 'Array'), ('JSON.parse("[1]")', 'Array'), ('JSON.parse("{}")', 'Object'), ('Object.keys({a: 1})', 'Array'), ('new Array()', 'Array'), ('new Object()', 'Object'), ('[1].concat([2])', 'Array')]
        for _ in range(c.int(1, 4)):
            e, k = c.pick(L)
            o = c.pick([k, k, 'Array', 'Object', f, 'String'])
            self.add('var %s = %s;' % (v, c.pick([e, '[%s][0]' % e, '(function(x) { return x; })(%s)' % e])))
            self.em('%s.constructor === %s' % (v, o))
            if c.bool(20): self.em('%s.constructor === %s' % (v, k))
        self.add('var %s = new %s(%d), k%s = %s.constructor;' % (v, f, c.int(0, 9), v, v))
        self.em('(function(K) { var w = new K(%d); return [w.a, w.constructor === %s, w instanceof %s]; })(k%s)' % (c.int(0, 9), f, f, v))

    def run(self, k):
        ts = [self.t_plain] * 5 + [self.t_ctorprop] + [self.t_closure] * 2 + [self.t_loopclosure, self.t_ctor, self.t_ctor, self.t_ctor, self.t_this, self.t_this, self.t_rec, self.t_args, self.t_higher, self.t_higher, self.t_scope, self.t_scope, self.t_throw]
        for _ in range(k):
            self.c.pick(ts)()


def fun_prop(c, x):
    strict = c.bool(60)
    f = FGen(c, strict)
    f.run(c.size(1, 6))
    tail = 'emit(n0,n1,n2,i0,i1,s0,s1,b0,b1,o0,a0,o1);\n'
    J = ('' if strict else 'Interp.conf({noCheck:true});\n') + DECL_J + EV_J + ''.join(f.J) + tail
    N = prelude(strict) + DECL_N + EV_N + ''.join(f.N) + tail
    c.rendered = J
    compare(x, J, N, 'functions')
    c.case(''.join(f.J), len(f.J) >= 3)
    for t in f.tags: c.label(t)
    c.sample(''.join(f.J))


PROBES = [
    ('instanceof-setproto', P("function C(){} function D(){} Object.setPrototypeOf(D.prototype, C.prototype); var d=new D(); emit(d instanceof C, d instanceof D);", True, True)),
]

PROPS = [('fun', fun_prop, {'quick': 8000, 'thorough': 100000})]
CHECK = Check('C03', XN, PROPS, 'programs of 1-6 function scenarios (plain/default/arrow functions, call/apply/bind, closures, constructors and prototypes, this, recursion, arguments, unwinding); non-trivial = at least 3 lines', probes=PROBES)
