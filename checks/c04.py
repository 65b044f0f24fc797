"""C04: arrays (stateful histories of operations compared with an independent engine)."""
from vt.core import Check
from vt.progen import prelude
from vt.js import UNDEF
from checks.c01 import XN, compare, P

SHIM = prelude(True) + r'''
function txt(x){ if(x!==null && typeof x==="object") return "[object Object]"; return str(x); }
(function(A){
  var sl=A.slice, fl=A.fill;
  function D(n,f){ Object.defineProperty(A,n,{value:f,enumerable:false,writable:true}); }
  D('slice',function(s,e){ if(arguments.length<2) return sl.call(this,s); if(e<0) e=this.length+e; if(e<0) return []; return sl.call(this,s,e+1); });
  D('fill',function(v,s,e){ if(arguments.length<3) return fl.call(this,v,s); if(e<0) e=this.length+e; if(e<0) return this; return fl.call(this,v,s,e+1); });
  D('join',function(s){ var r=''; if(s===undefined) s=''; for(var i=0;i<this.length;i++){ if(!(i in this)) continue; if(i) r+=txt(s); this[i]=txt(this[i]); r+=this[i]; } return r; });
  D('find',function(f){ for(var i=0,n=this.length;i<n&&i<this.length;i++) if(i in this){ var v=this[i]; if(f(v,i,this)) return v; } });
  D('findIndex',function(f){ for(var i=0,n=this.length;i<n&&i<this.length;i++) if(i in this) if(f(this[i],i,this)) return i; return -1; });
  D('sizeOf',function(){ return this.length; });
  D('isArray',function(){ return true; });
  D('flat',function(d){ if(d===undefined) d=1; var r=[]; (function g(a,d){ for(var i=0;i<a.length;i++) if(i in a&&a[i]!==undefined){ if(Array.isArray(a[i])&&d>0) g(a[i],d-1); else r.push(a[i]); } })(this,d); return r; });
  var rd=A.reduce, rr=A.reduceRight;
  D('reduce',function(f,i){ if(arguments.length<2){ var k=false; for(var q in this) k=true; if(!k) return undefined; return rd.call(this,f); } return rd.call(this,f,i); });
  D('reduceRight',function(f,i){ if(arguments.length<2){ var k=false; for(var q in this) k=true; if(!k) return undefined; return rr.call(this,f); } return rr.call(this,f,i); });
})(Array.prototype);
'''


class A:
    def __init__(self, c, strict=False):
        self.c = c
        self.strict = strict
        self.J, self.N = [], []
        self.tags = set()
        self.L = 6

    def add(self, j, n=None):
        self.J.append(j); self.N.append(j if n is None else n)

    def num(self):
        return str(self.c.int(0, 9))

    def val(self, d=0):
        c = self.c
        k = c.int(0, 11 if d < 2 else 9)
        if k < 4: return str(c.int(0, 5))
        if k < 6: return c.pick(['"a"', '"b"', '"1"', '""', '"é"', '"xyz"'])
        if k == 6: return c.pick(['true', 'false'])
        if k == 7: return c.pick(['null', 'undefined', 'null']) if not self.strict else 'null'
        if k == 8: return c.pick(['2.5', '-1', '1e20', '0.1'])
        if k == 9: return c.pick(['ob0', 'ob1', 'v0', 'v1'])
        if k == 10: return '[' + ', '.join(self.val(d + 1) for _ in range(c.size(0, 4))) + ']'
        return '{ p: %s }' % self.val(d + 1)

    def arr(self): return self.c.pick(['a0', 'a0', 'a0', 'a1', 'a2', 'r0'])

    def idx(self):
        c = self.c
        k = c.int(0, 9)
        if k < 5: return str(c.int(0, 6))
        if k < 7: return '%s' % c.int(-8, -1)
        if k < 8: return c.pick(['100', '-100', '1.5', '2147483647', '-2147483647', '64', '0'])
        return c.pick(['%s.length', '%s.length - 1', '%s.length + 1', '%s.length / 2', '-%s.length', '-%s.length - 1']) % self.arr()

    def pos(self):
        c = self.c
        return c.weighted([(6, str(c.int(0, 6))), (1, str(c.int(7, 40))), (2, '%s.length' % self.arr())])

    # callbacks: (parameter list, body expression), returns text
    def cb(self, kind):
        c = self.c
        k = c.int(1 if kind != 'reduce' else 2, 3 if kind != 'reduce' else 4)
        names = (['s'] if kind == 'reduce' else []) + ['x', 'i', 'z']
        ps = names[:k]
        pre = ''
        if 'x' in ps and c.bool(25): pre += 'x = %s; ' % self.val(2); self.tags.add('param-assign')
        if 'i' in ps and c.bool(10): pre += 'i = 77; '
        if c.bool(20):
            self.tags.add('mutating-callback')
            t = c.pick(['a0', 'a1', 'z' if 'z' in ps else 'a0'])
            g = 'if (n++ < %d) ' % c.int(1, 5)
            pre += g + c.pick(['%s.push(%s); ' % (t, self.val(2)), '%s.pop(); ' % t, '%s.shift(); ' % t, '%s[%s] = %s; ' % (t, self.pos(), self.val(2)),
                               '%s.length = %d; ' % (t, c.int(0, 4)), '%s.splice(%s, %d); ' % (t, c.int(0, 4), c.int(0, 3)), '%s.unshift(%s); ' % (t, self.val(2)), '%s.reverse(); ' % t, 'delete %s[%d]; ' % (t, c.int(0, 4)), '%s = [5]; ' % t if t != 'z' else ''])
        if c.bool(8): pre += 'if (m++ == %d) throw "T"; ' % c.int(0, 4); self.tags.add('throwing-callback')
        if 'i' in ps and c.bool(20): pre += 'lg.push(i); '
        if c.bool(15): pre += 'lg.push(%s); ' % ps[-1] if ps[-1] != 'z' else ''
        if kind == 'map':
            e = c.pick(['x', 'typeof x == "number" ? x * 2 : x', '[x]', 'typeof x'] + (['i', '[i, x]', 'i * 2'] if 'i' in ps else []) + (['z.length', '[z[0]]', 'z === a0'] if 'z' in ps else []) + ['{ q: x }', 'n++'])
            if c.bool(10): e = 'this.v'
        elif kind == 'pred':
            e = c.pick(['typeof x == "number"', '%s === x' % self.val(2).replace('undefined','null'), 'x', '!x', 'typeof x != "string"', 'true', 'false', 'n++ > %d' % c.int(0, 4), 'n++ < %d' % c.int(0, 4)]
                       + (['i %% 2 == %d' % c.int(0, 1), 'i > %d' % c.int(0, 4), 'x === z0', 'i == %d' % c.int(0, 6)] if 'i' in ps else []) + (['z.length > %d' % c.int(0, 6)] if 'z' in ps else []))
            if c.bool(10): e = 'this.v > 2'
        elif kind == 'reduce':
            e = c.pick(['[s, x]', 'x', 's', 'typeof s + typeof x'] + (['[s, i]'] if 'i' in ps else []))
        else:
            e = '0'
            if c.bool(): pre += 'lg.push(x); '
        j = 'function(%s) { %sreturn %s; }' % (', '.join(ps), pre, e)
        n = j.replace('typeof x == "number" ? x * 2 : x', 'typeof x == "number" ? mul(x,2) : x').replace('typeof s + typeof x', 'jtypeof(s)+jtypeof(x)')
        n = n.replace('typeof x', 'jtypeof(x)').replace('typeof s', 'jtypeof(s)')
        if 'return {' in j: pass
        return j, n

    def op(self):
        c = self.c
        a = self.arr()
        v = self.val
        k = c.int(0, 40)
        ev = None
        if k < 3: ev = '%s.push(%s)' % (a, ', '.join(v() for _ in range(c.size(1, 5)))); t = 'push'
        elif k == 3: ev = '%s.pop()' % a; t = 'pop'
        elif k == 4: ev = '%s.shift()' % a; t = 'shift'
        elif k < 7: ev = '%s.unshift(%s)' % (a, ', '.join(v() for _ in range(c.size(0, 4)))); t = 'unshift'
        elif k < 11:
            t = 'splice'
            args = [self.idx()]
            if c.bool(85): args.append(c.pick([str(c.int(0, 4)), str(c.int(0, 4)), '-1', '50', '%s.length' % a]))
            if len(args) == 2: args += [v() for _ in range(c.size(0, 5))]
            ev = '%s.splice(%s)' % (a, ', '.join(args))
        elif k < 14:
            t = 'slice'
            ev = '%s.slice(%s)' % (a, ', '.join([self.idx()] + ([self.idx()] if c.bool(60) else [])))
            if c.bool(30): ev = '%s = %s' % (c.pick(['a1', 'a2', 'a0']), ev)
        elif k < 16:
            t = 'concat'
            ev = '%s.concat(%s)' % (a, ', '.join(c.pick([self.arr(), v(), v()]) for _ in range(c.size(0, 4))))
            if c.bool(50): ev = '%s = %s' % (c.pick(['a1', 'a2', 'a0']), ev)
        elif k == 16: ev = '%s.reverse()' % a; t = 'reverse'
        elif k == 17: ev = '%s.join(%s)' % (a, c.pick(['', '","', '"-"', '""', '"é"', '", "'])); t = 'join'
        elif k < 20:
            t = c.pick(['indexOf', 'lastIndexOf', 'indexOf'])
            ev = '%s.%s(%s)' % (a, t, ', '.join([v(1)] + ([self.idx()] if c.bool(50) else [])))
        elif k == 20:
            t = 'includes'; w = v(1)
            ev = '%s.includes(%s)' % (a, 'null' if w == 'undefined' else w)
        elif k < 23:
            t = 'fill'
            ev = '%s.fill(%s)' % (a, ', '.join([v()] + ([self.idx()] if c.bool(60) else [])))
            if c.bool(40) and ', ' in ev[ev.index('fill('):] and ev.count('(') == 1 and '[' not in ev and '{' not in ev: ev = ev[:-1] + ', %s)' % self.idx()
        elif k == 23:
            t = 'flat'
            ev = '%s.flat(%s)' % (a, c.pick(['', '0', '1', '2', '5']))
            if c.bool(50): ev = '%s = %s' % (c.pick(['a1', 'a2']), ev)
        elif k < 26:
            t = 'map'
            j, n = self.cb('map')
            th = ', { v: 3 }' if 'this' in j or c.bool(10) else ''
            s = '%s.map(%s%s)'
            if c.bool(40): s = '%s = ' % c.pick(['a1', 'a2', 'a0']) + s
            return self.emit(s % (a, j, th), s % (a, n, th), t)
        elif k < 29:
            t = c.pick(['filter', 'filter', 'some'])
            j, n = self.cb('pred')
            th = ', { v: %d }' % c.int(1, 4) if 'this' in j or c.bool(10) else ''
            s = '%s.%s(%s%s)'
            if t == 'filter' and c.bool(40): s = '%s = ' % c.pick(['a1', 'a2', 'a0']) + s
            return self.emit(s % (a, t, j, th), s % (a, t, n, th), t)
        elif k < 32:
            t = c.pick(['every', 'find', 'findIndex'])
            while True:
                j, n = self.cb('pred')
                if 'this' not in j: break
            return self.emit('%s.%s(%s)' % (a, t, j), '%s.%s(%s)' % (a, t, n), t)
        elif k == 32:
            j, n = self.cb('each')
            return self.emit('%s.forEach(%s%s)' % (a, j, ', { v: 1 }' if c.bool(20) else ''), '%s.forEach(%s)' % (a, n), 'forEach', res=False)
        elif k == 33:
            t = c.pick(['reduce', 'reduceRight'])
            j, n = self.cb('reduce')
            ini = ', ' + v(1) if c.bool(60) else ''
            if ini == ', undefined': ini = ', null'
            return self.emit('%s.%s(%s%s)' % (a, t, j, ini), '%s.%s(%s%s)' % (a, t, n, ini), t)
        elif k < 36:
            t = 'index-assign'
            p = self.pos()
            if c.bool(20): p = '"%s"' % c.int(0, 9); t = 'string-index'
            self.stmt('%s[%s] = %s;' % (a, p, v()), t)
            if t == 'string-index': return self.emit('%s[%s]' % (a, p), None, 'read')
            return
        elif k == 36: return self.stmt('delete %s[%s];' % (a, c.pick([str(c.int(0, 6)), '"%d"' % c.int(0, 4)])), 'delete')
        elif k == 37: return self.stmt('%s.length = %s;' % (a, c.pick([str(c.int(0, 8)), str(c.int(0, 8)), '%s.length' % self.arr(), '40'])), 'length')
        elif k == 38:
            return self.emit('[%s[%s], %s["%d"], %s[1.5], %s["01"], %s.length, %s.sizeOf()]' % (a, self.idx().replace('/ 2', '- 2'), a, c.int(0, 9), a, a, a, a), None, 'read')
        elif k == 39:
            x = c.int(0, 4)
            if x == 0 and not self.strict: return self.stmt('v0 = %s[%d]; v0 = %s;' % (a, c.int(0, 5), self.num()), 'element-copy')
            if x == 1: return self.stmt('lg = []; for (var q in %s) lg.push("" + q);' % a, 'keys')
            if x == 2: return self.stmt('lg = []; for (var w of %s) { lg.push(w); w = 1; }' % a, 'for-of') if False else self.emit('Array.isArray(%s)' % a, None, 'isArray')
            if x == 3 and not self.strict: return self.stmt('a1 = Array.apply(null, [9].concat(%s.filter(function(x) { return true; }), [8]));' % a, 'apply')
            return self.stmt('%s = %s;' % (c.pick(['r0', 'a1', 'a2']), a), 'alias')
        else:
            x = c.int(0, 3)
            if x == 0: return self.stmt('for (var g = 0; g < %d; g++) %s.%s(g);' % (c.int(10, 300), a, c.pick(['push', 'push', 'unshift'])), 'grow')
            if x == 1: return self.stmt('%s = new Array(%d);' % (c.pick(['a1', 'a2']), c.int(0, 20)), 'new-n')
            if x == 2: return self.stmt('%s = new Array(%s, %s);' % (c.pick(['a1', 'a2']), v(), v()), 'new-list')
            return self.stmt('%s[%s.length - 1] = %s; a2 = [%s, %s];' % (a, a, self.num(), a, self.num()) if False else 'a2 = [%s.length, [%s]];' % (a, self.num()), 'nest')
        return self.emit(ev, None, t)

    def st(self):
        return 'emit(a0); emit(a1); emit(a2); emit(v0); emit(ob0); emit(lg); emit(a0.length + a1.length * 1000);'

    def emit(self, j, n=None, t='', res=True):
        self.tags.add(t)
        f = 'n = 0; m = 0; lg = []; res = 0; try { %s } catch(e) { emit(e); } %s%s\n'
        b = 'res = %s; emit(res);' if res else '%s;'
        s = self.st()
        self.add(f % (b % j, s, ' if (typeof res == "array" && res === a0) emit("same");' if res else ''), f % (b % (n or j), s, ' if (Array.isArray(res) && res === a0) emit("same");' if res else ''))

    def stmt(self, j, t):
        self.tags.add(t)
        self.add('%s %s\n' % (j, self.st()))


def hist(c, x):
    strict = c.bool(40)
    g = A(c, strict)
    decl = 'var n = 0, m = 0, g = 0, z0 = 2, res = 0, lg = [], v0 = 7, v1 = "q", ob0 = { k: 1 }, ob1 = { k: 1 };\nvar a0 = [%s];\nvar a1 = [%s];\nvar a2 = [];\nvar r0 = a0;\n' % (
        ', '.join(g.val() for _ in range(c.size(0, 9))), ', '.join(g.val() for _ in range(c.size(0, 5))))
    for _ in range(c.size(1, 12)):
        g.op()
    J = ('' if strict else 'Interp.conf({noCheck:true});\n') + decl + ''.join(g.J)
    N = SHIM + decl + ''.join(g.N)
    c.rendered = J
    compare(x, J, N, 'array history')
    c.case(J, len(g.J) >= 2)
    for t in g.tags: c.label(t)
    c.sample(''.join(g.J)[:800])


PROBES = [
    ('callback-alias', P("var a=[1,2]; a.forEach(function(x){ x=5; }); emit(a); function f(p,q){ p=9; } f.apply(null,a); emit(a);", [1, 2], [1, 2])),
    ('string-index', P("var a=[1,2,3]; a['1']=5; emit(a, a['1'], a[1.5], a['1x']);", [1, 5, 3], 5, UNDEF, UNDEF)),
    ('delete-element', P("var a=[1,2,3]; delete a[1]; emit(typeof a[1], a.length);", 'undefined', 3)),
    ('length-assign', P("var a=[1,2,3]; a.length=1; emit(a, a.length); a.length=2; emit(a.length);", [1], 1, 2)),
    ('shift-hole', P("var a=[1,2]; delete a[0]; a.shift(); emit(a);", [2])),
    ('filter-flat-share', P("var a=[1,2]; var b=a.filter(function(x){return true;}); b[0]=9; var d=a.flat(); d[1]=8; emit(a);", [1, 2])),
    ('flat0-every', P("emit([1,[2]].flat(0), [].every(function(x){return false;}));", [1, [2]], True)),
    ('shrinking-callback', P("var a=[1,2,3]; var r=a.find(function(x){ a.pop(); a.pop(); a.pop(); return true; }); emit(r); a=['a','b']; r=a.reduce(function(s,x){ a.shift(); return s+x; }); emit(r);", 1, 'ab')),
    ('growing-callback', P("var a=[1,2], n=0; a.forEach(function(x){ n++; a.push(x); }); emit(n);", 2)),
    ('lastindexof-start', P("emit([1,2,1].lastIndexOf(1,1), [1,2].indexOf(1,-9));", 0, 0)),
    ('splice-range', P("var a=[1,2]; a.splice(9,1,'x'); emit(a); a.splice(1,-1,'y'); emit(a, a.slice(-9), a.unshift());", [1, 2, 'x'], [1, 'y', 2, 'x'], [1, 'y', 2, 'x'], 4)),
    ('join-converts', P("var a=[1,true]; a.join(','); emit(a);", [1, True])),
]
PROPS = [('history', hist, {'quick': 6000, 'thorough': 80000})]
CHECK = Check('C04', XN, PROPS, 'histories of 1-12 array operations over three arrays with an alias, state compared after each; non-trivial = at least 2 operations', probes=PROBES)
