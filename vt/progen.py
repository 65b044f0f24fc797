"""Typed program generator.  Every construct is produced as a pair of texts: `j` for the interpreter under
test and `n` for the reference (node + helper functions which spell out jsish's documented deviations:
NaN/undefined operand checks and number formatting).  Programs terminate by construction (bounded loops)."""
import re
from .js import jsstr
_id = re.compile(r'"(?:[^"\\]|\\.)*"|[A-Za-z_$][\w$]*')
_wr = re.compile(r'[(,]([A-Za-z_$][\w$]*)(?:\.\w+|\[[^\]]*\])?=(?!=)')

PRELUDE_NODE = r'''
var STRICT=%s;
function err(){throw "\u0001ERR";}
function ck(a,b){ if(STRICT&&(a!==a||b!==b)) err(); }
function add(a,b){ if(STRICT&&(a===undefined||b===undefined)) err();
  if(typeof a==="string"||typeof b==="string") return str(a)+str(b);
  a=Number(a);b=Number(b);ck(a,b);return a+b; }
function sub(a,b){a=Number(a);b=Number(b);ck(a,b);return a-b;}
function mul(a,b){a=Number(a);b=Number(b);ck(a,b);return a*b;}
function div(a,b){a=Number(a);b=Number(b);ck(a,b);return a/b;}
function mod(a,b){a=Number(a);b=Number(b);ck(a,b);return a%%b;}
function neg(a){a=Number(a);ck(a,0);return -a;}
function pos(a){a=Number(a);ck(a,0);return a;}
function cmpck(a,b){ if(STRICT&&(a===undefined||b===undefined)) err();
  if(typeof a!=="string"&&typeof b!=="string"){ a=Number(a);b=Number(b);ck(a,b);} }
function lt(a,b){cmpck(a,b);return a<b;} function gt(a,b){cmpck(a,b);return a>b;}
function le(a,b){cmpck(a,b);return a<=b;} function ge(a,b){cmpck(a,b);return a>=b;}
function inc(a){ a=Number(a); ck(a,0); return a+1;} function dec(a){ a=Number(a); ck(a,0); return a-1;}
function str(x){
  if(typeof x!=="number") return String(x);
  if(x!==x) return "NaN"; if(x===Infinity) return "Infinity"; if(x===-Infinity) return "-Infinity";
  if(x===0) return "0";
  if(x===Math.floor(x)&&Math.abs(x)<9223372036854775807) return BigInt(x).toString();
  var m=x.toExponential(14).split("e"), e;
  var w=x.toExponential(60).split("e"), wd=w[0].replace("-","").replace(".","");     // ties go to even, as in printf
  if(/^50*$/.test(wd.slice(15)) && (wd.charCodeAt(14)-48)%%2===0) m=[(x<0?"-":"")+wd[0]+"."+wd.slice(1,15),w[1]];
  e=parseInt(m[1]);
  if(e<-4||e>=15){ var q=m[0]; if(q.indexOf(".")>=0) q=q.replace(/0+$/,"").replace(/\.$/,"");
    return q+"e"+(e<0?"-":"+")+(Math.abs(e)<10?"0":"")+Math.abs(e); }
  var f=e>=0?m[0].replace(".",""):m[0].replace(".",""), sg=""; if(f[0]==="-"){sg="-";f=f.slice(1);}
  f=sg+(e>=0?f.slice(0,e+1)+"."+f.slice(e+1):"0."+"0".repeat(-e-1)+f); if(f.indexOf(".")>=0) f=f.replace(/0+$/,"").replace(/\.$/,""); return f;
}
function mfloor(a){a=Number(a);return Math.floor(a);} function mceil(a){return Math.ceil(a);} function mabs(a){return Math.abs(a);}
function mround(a){return Math.round(a);} function msqrt(a){return Math.sqrt(a);} function mmin(a,b){return Math.min(a,b);} function mmax(a,b){return Math.max(a,b);}
function jtypeof(x){ return x===null?"null":Array.isArray(x)?"array":typeof x; }
'''


def prelude(strict):
    return PRELUDE_NODE % ('true' if strict else 'false')


# binary operators: text -> (precedence, node helper or None)
BIN = {'*': (12, 'mul'), '/': (12, 'div'), '%': (12, 'mod'), '+': (11, 'add'), '-': (11, 'sub'),
       '<<': (10, None), '>>': (10, None), '>>>': (10, None),
       '<': (9, 'lt'), '>': (9, 'gt'), '<=': (9, 'le'), '>=': (9, 'ge'),
       '==': (8, None), '!=': (8, None), '===': (8, None), '!==': (8, None),
       '&': (7, None), '^': (6, None), '|': (5, None), '&&': (4, None), '||': (3, None)}
P_COMMA, P_ASSIGN, P_COND, P_UN, P_POST, P_CALL, P_PRIM = 0, 1, 2, 13, 14, 15, 16


class Gen:
    def __init__(self, c, depth=3, strict=True):
        self.c = c
        self.strict = strict
        self.nv = ['n0', 'n1', 'n2']          # numbers
        self.iv = ['i0', 'i1']                # int32
        self.sv = ['s0', 's1']
        self.bv = ['b0', 'b1']
        self.mem = [('o0.a', 'o0["a"]', 'o0.a'), ('o0.b', "o0['b']"), ('o0["x y"]',), ('a0[0]',), ('a0[1]', 'a0[0+1]'), ('o1.q.r', 'o1["q"].r', 'o1["q"]["r"]'), ('o1.l[0]',)]
        self.ro = set()                       # not assignable (loop counters)
        self.funcs = []                       # [(name, kind, params types, ret type)]
        self.maxd = depth
        self.nl = 0
        self.labels = []
        self.loopd = 0
        self.tags = set()
        self.assign_ok = True
        self.nfun = 0
        self.inf = 0
        self.intry = 0

    # expression = (jtext, ntext, precedence)
    def par(self, e, p, extra=True):
        j = e[0]
        if e[2] < p or (extra and self.c.bool(8)):
            j = '(' + j + ')'
        return j

    def E(self, t, d):
        return getattr(self, 'E_' + t)(d)

    # ---- numbers
    NUMS = ['0', '1', '2', '3', '7', '10', '0.5', '0.1', '1.5', '2.25', '100', '255', '256', '65535', '1e3', '.5', '1e-7', '12345.678', '0xff',
            '0X1F', '017', '2147483647', '2147483648', '4294967295', '4294967296', '9007199254740991', '1e21', '1e300', '123456789012', '3.14159', '0xFFFFFFFF', '1E+2', '5e-1']
    NODEN = {'017': '15'}

    def lit_n(self):
        c = self.c
        if c.bool(60):
            s = str(c.int(0, 20))
        else:
            s = c.pick(self.NUMS)
        return (s, self.NODEN.get(s, s), P_PRIM)

    def E_n(self, d):
        c = self.c
        if d <= 0:
            k = c.int(0, 3)
            if k <= 1: return self.lit_n()
            v = c.pick(self.nv + self.iv)
            return (v, v, P_PRIM)
        k = c.weighted([(8, 'lit'), (10, 'var'), (30, 'bin'), (6, 'un'), (6, 'cond'), (5, 'assign'), (5, 'op='), (5, 'inc'), (3, 'comma'),
                        (4, 'logic'), (4, 'coerce'), (8, 'int'), (3, 'len'), (5, 'math'), (7, 'call'), (3, 'typeconv'), (2, 'uns'), (6, 'memb'), (5, 'massign')])
        if k == 'lit': return self.lit_n()
        if k == 'var':
            v = c.pick(self.nv + self.iv)
            return (v, v, P_PRIM)
        if k == 'bin':
            op = c.pick(['+', '-', '*', '/', '%'])
            return self.bin(op, self.E_n(d - 1), self.E_n(d - 1))
        if k == 'un':
            return self.un(c.pick(['-', '+']), self.E_n(d - 1))
        if k == 'cond': return self.cond('n', d)
        if k == 'memb':
            m = c.pick(self.mem)
            return (c.pick(m), m[0], P_CALL)
        if k == 'massign':
            if not self.assign_ok: return self.lit_n()
            self.tags.add('member=')
            m = c.pick(self.mem)
            j, n = c.pick(m), m[0]
            q = c.int(0, 3)
            if q == 3: return self.incdec(j, n)
            e = self.E_n(d - 1)
            if re.match(r'\w+', n).group() in self.wr(e): e = self.lit_n()
            if q == 0: return ('%s = %s' % (j, self.par(e, P_ASSIGN)), '(%s=%s)' % (n, e[1]), P_ASSIGN)
            op = c.pick(['+', '-', '*', '/', '%'])
            return ('%s %s= %s' % (j, op, self.par(e, P_ASSIGN)), '(%s=%s(%s,%s))' % (n, BIN[op][1], n, e[1]), P_ASSIGN)
        if k in ('assign', 'op=', 'inc'):
            vs = [v for v in self.nv if v not in self.ro]
            if not vs or not self.assign_ok: return self.lit_n()
            v = c.pick(vs)
            if k == 'assign':
                e = self.E_n(d - 1)
                if v in self.wr(e): e = self.lit_n()
                return ('%s = %s' % (v, self.par(e, P_ASSIGN)), '(%s=%s)' % (v, e[1]), P_ASSIGN)
            if k == 'op=':
                op = c.pick(['+', '-', '*', '/', '%'])
                e = self.E_n(d - 1)
                if v in self.wr(e): e = self.lit_n()
                return ('%s %s= %s' % (v, op, self.par(e, P_ASSIGN)), '(%s=%s(%s,%s))' % (v, BIN[op][1], v, e[1]), P_ASSIGN)
            return self.incdec(v)
        if k == 'comma':
            a, b = self.E_n(d - 1), self.E_n(d - 1)
            if re.match(r'[A-Za-z_$]', a[0]):      # "(name, ..." is taken for arrow-function arguments (recorded finding)
                c.exclude('comma-after-name')
                a = ('(%s)' % a[0], a[1], P_PRIM)
            return ('(%s, %s)' % (a[0], b[0]), '(%s,%s)' % (a[1], b[1]), P_PRIM)
        if k == 'logic':
            op = c.pick(['&&', '||'])
            return self.bin(op, self.E_n(d - 1), self.E_n(d - 1))
        if k == 'coerce':
            op = c.pick(['-', '*', '/'])
            s = c.pick(['"12"', '"0"', '"3.5"', '"1e2"', '"-7"', 'true', 'false', 'null'])
            a = (s, s, P_PRIM)
            b = self.E_n(d - 1)
            return self.bin(op, a, b) if c.bool() else self.bin(op, b, a)
        if k == 'int': return self.E_i(d - 1)
        if k == 'uns':
            return self.bin('>>>', self.E_w(d - 1), self.sh())
        if k == 'len':
            s = self.E_s(d - 1)
            return ('(%s).length' % s[0], '(%s).length' % s[1], P_CALL)
        if k == 'math':
            a = self.E_n(d - 1)
            f = c.pick(['floor', 'ceil', 'abs'])
            if f in ('min', 'max'):
                a, b = self.seq([a, self.E_n(d - 1)])
                return ('Math.%s(%s, %s)' % (f, self.arg(a), self.arg(b)), 'm%s(%s,%s)' % (f, a[1], b[1]), P_CALL)
            return ('Math.%s(%s)' % (f, self.arg(a)), 'm%s(%s)' % (f, a[1]), P_CALL)
        if k == 'typeconv':
            s = c.pick(['"42"', '"0.25"', '"-3"', 'true', 'null', '"1e3"'])
            return self.un('+', (s, s, P_PRIM))
        if k == 'call':
            return self.call('n', d) or self.lit_n()

    def arg(self, e):
        return '(' + e[0] + ')' if e[2] <= P_COMMA else e[0]

    def sh(self):
        c = self.c
        if c.bool(75):
            n = str(c.int(0, 31))
            return (n, n, P_PRIM)
        n = c.pick(['32', '33', '63', '64', '1.9', '31.5', '100', '4294967297', '2147483648', '255'])
        if c.bool(40): return ('-' + n, '(-' + n + ')', P_UN)
        return (n, n, P_PRIM)

    def E_w(self, d):
        """any operand of a shift or ~"""
        c = self.c
        if c.bool(70): return self.E_i(d)
        s = c.pick(['4294967295', '4294967296', '2147483648', '2147483649', '4294967297', '1e20', '3000000000.7', '9007199254740991', '1e15', '0xFFFFFFFF', '0x80000000', '6442450944', '1e300'])
        if c.bool(35): return ('-' + s, '(-' + s + ')', P_UN)
        return (s, s, P_PRIM)

    def E_i(self, d):
        """value whose integer part fits int32"""
        c = self.c
        if d <= 0 or c.bool(25):
            if c.bool(50):
                v = c.pick(self.iv)
                return (v, v, P_PRIM)
            s = c.pick(['0', '1', '2', '5', '31', '255', '65536', '0x7fffffff', '2147483647', '1000000', '3.75'])
            if c.bool(25): return ('-' + s, '(-' + s + ')', P_UN)
            return (s, s, P_PRIM)
        k = c.weighted([(8, 'p'), (4, '~'), (5, '<<'), (5, '>>'), (3, 'mod'), (3, 'assign'), (3, 'cond')])
        if k == '~':
            e = self.E_w(d - 1)
            return ('~' + self.par(e, P_UN), '(~%s)' % e[1], P_UN)
        if k in ('<<', '>>'):
            return self.bin(k, self.E_w(d - 1), self.sh() if c.bool(70) else self.E_p(d - 1))
        if k == 'p': return self.E_p(d - 1)
        if k == 'mod':
            m = str(c.int(1, 999))
            return self.bin('%', self.E_i(d - 1), (m, m, P_PRIM))
        if k == 'assign':
            vs = [v for v in self.iv if v not in self.ro]
            if not vs or not self.assign_ok: return self.E_p(0)
            v = c.pick(vs)
            e = self.E_i(d - 1)
            if v in self.wr(e): e = self.E_p(0)
            if c.bool(40):
                op = c.pick(['<<', '>>'])
                e = self.E_p(d - 1)
                return ('%s %s= %s' % (v, op, self.par(e, P_ASSIGN)), '(%s=%s %s %s)' % (v, v, op, e[1]), P_ASSIGN)
            return ('%s = %s' % (v, self.par(e, P_ASSIGN)), '(%s=%s)' % (v, e[1]), P_ASSIGN)
        return self.cond('i', d)

    def E_p(self, d):
        """non-negative, below 2^31"""
        c = self.c
        if d <= 0 or c.bool(30):
            s = c.pick(['0', '1', '2', '3', '4', '6', '7', '8', '15', '31', '170', '255', '0x55', '65535', '1048575', '0x7fffffff'])
            return (s, s, P_PRIM)
        op = c.pick(['&', '|', '^', '&', '|', '^', '>>', '%'])
        if op == '%':
            m = str(c.int(1, 999))
            return self.bin('%', self.E_p(d - 1), (m, m, P_PRIM))
        return self.bin(op, self.E_p(d - 1), self.E_p(d - 1))

    # ---- strings
    STRS = ['', 'a', 'b', 'abc', 'B', 'x y', '1', '10', '9', "it's", 'q"q', 'tab\t', 'nl\n', 'é', '日本', 'back\\slash', '0', 'null', '`']

    def lit_s(self):
        s = self.c.pick(self.STRS)
        q = self.c.pick(['"', "'", '`'])
        if q == '`' and False:
            q = '"'
        return (jsstr(s, q), jsstr(s, '"'), P_PRIM)

    def E_s(self, d):
        c = self.c
        if d <= 0:
            if c.bool(50): return self.lit_s()
            v = c.pick(self.sv)
            return (v, v, P_PRIM)
        k = c.weighted([(10, 'lit'), (10, 'var'), (20, 'cat'), (10, 'num'), (4, 'cond'), (4, 'typeof'), (3, 'bool'), (3, 'logic'), (4, 'assign'), (5, 'call'), (2, 'null'), (3, 'idx')])
        if k == 'lit': return self.lit_s()
        if k == 'var':
            v = c.pick(self.sv)
            return (v, v, P_PRIM)
        if k == 'cat': return self.bin('+', self.E_s(d - 1), self.E_s(d - 1), 's')
        if k == 'num':
            a, b = self.E_s(d - 1), self.E_n(d - 1)
            return self.bin('+', a, b, 's') if c.bool() else self.bin('+', b, a, 's')
        if k == 'bool':
            a, b = self.E_s(d - 1), self.E_b(d - 1)
            return self.bin('+', a, b, 's') if c.bool() else self.bin('+', b, a, 's')
        if k == 'null':
            a, b = self.E_s(d - 1), ('null', 'null', P_PRIM)
            return self.bin('+', a, b, 's') if c.bool() else self.bin('+', b, a, 's')
        if k == 'cond': return self.cond('s', d)
        if k == 'logic': return self.bin(c.pick(['&&', '||']), self.E_s(d - 1), self.E_s(d - 1), 's')
        if k == 'typeof':
            t = c.pick(['n', 's', 'b', 'nul', 'und', 'arr', 'obj', 'fun'])
            if t in 'nsb': e = self.E(t, d - 1)
            else: e = {'nul': ('null', 'null', P_PRIM), 'und': ('undefined', 'undefined', P_PRIM), 'arr': ('[1]', '[1]', P_PRIM), 'obj': ('{a:1}', '({a:1})', P_PRIM),
                       'fun': ('(function(){})', '(function(){})', P_PRIM)}[t]
            j = self.par(e, P_UN, False)
            return ('typeof ' + j, 'jtypeof(%s)' % e[1], P_UN)
        if k == 'idx':
            s = c.pick(['abc', 'hello', 'x1y2'])
            i = c.int(0, len(s) - 1)
            if c.bool(): return ('"%s".charAt(%d)' % (s, i), '"%s"' % s[i], P_CALL)
            return ('"%s"[%d]' % (s, i), '"%s"' % s[i], P_CALL)
        if k == 'assign':
            vs = [v for v in self.sv if v not in self.ro]
            if not vs or not self.assign_ok: return self.lit_s()
            v = c.pick(vs)
            if c.bool(40):
                e = self.lit_s() if c.bool() else self.E_n(d - 1)
                if v in self.wr(e): e = self.lit_s()
                if self.loopd or self.inf:
                    return ('%s = %s' % (v, e[0]) if e[2] > P_ASSIGN else '%s = (%s)' % (v, e[0]), '(%s=%s)' % (v, e[1]), P_ASSIGN) if e[1][0] in '"' else self.lit_s()
                return ('%s += %s' % (v, self.par(e, P_ASSIGN)), '(%s=add(%s,%s))' % (v, v, e[1]), P_ASSIGN)
            if self.loopd or self.inf:
                e = self.lit_s()
            else:
                e = self.E_s(d - 1)
                if v in self.wr(e): e = self.lit_s()
            return ('%s = %s' % (v, self.par(e, P_ASSIGN)), '(%s=%s)' % (v, e[1]), P_ASSIGN)
        if k == 'call':
            return self.call('s', d) or self.lit_s()

    # ---- booleans
    def E_b(self, d):
        c = self.c
        if d <= 0:
            v = c.pick(['true', 'false'] + self.bv)
            return (v, v, P_PRIM)
        k = c.weighted([(8, 'var'), (20, 'cmpn'), (10, 'cmps'), (10, 'eqn'), (6, 'eqs'), (10, 'logic'), (8, 'not'), (4, 'cond'), (4, 'assign'), (4, 'null'), (3, 'eqb'), (4, 'mixed')])
        if k == 'cmpn': return self.bin(c.pick(['<', '>', '<=', '>=']), self.E_n(d - 1), self.E_n(d - 1))
        if k == 'cmps': return self.bin(c.pick(['<', '>', '<=', '>=']), self.E_s(d - 1), self.E_s(d - 1), 's')
        if k == 'eqn': return self.bin(c.pick(['==', '!=', '===', '!==']), self.E_n(d - 1), self.E_n(d - 1))
        if k == 'eqs': return self.bin(c.pick(['==', '!=', '===', '!==']), self.E_s(d - 1), self.E_s(d - 1), 's')
        if k == 'eqb': return self.bin(c.pick(['==', '!=', '===', '!==']), self.E_b(d - 1), self.E_b(d - 1), 'b')
        if k == 'mixed':
            a = c.pick(['"1"', '"0"', '"2.5"', '"10"', 'true', 'false'])
            b = c.pick(['1', '0', '2.5', '10', '1.5', '0.25'])
            A, B = (a, a, P_PRIM), (b, b, P_PRIM)
            if c.bool(): A, B = B, A
            return self.bin(c.pick(['==', '!=', '===', '!==']), A, B)
        if k == 'logic': return self.bin(c.pick(['&&', '||']), self.E_b(d - 1), self.E_b(d - 1))
        if k == 'not':
            t = c.pick(['b', 'n', 's'])
            e = self.E(t, d - 1)
            return ('!' + self.par(e, P_UN), '(!%s)' % e[1], P_UN)
        if k == 'var':
            v = c.pick(['true', 'false'] + self.bv)
            return (v, v, P_PRIM)
        if k == 'cond': return self.cond('b', d)
        if k == 'null':
            a = c.pick(['null', 'undefined', '0', '""', 'false'])
            b = c.pick(['null', 'undefined'])
            if a == 'undefined' : a, b = b, a
            op = c.pick(['==', '!=', '===', '!=='])
            if a == 'undefined' and op in ('===', '!=='): a, b = '1', 'undefined'
            # null/undefined against false, 0 and "" with == is a recorded finding
            if a in ('0', '""', 'false') and op in ('==', '!='): op += '='
            return self.bin(op, (a, a, P_PRIM), (b, b, P_PRIM))
        vs = [v for v in self.bv if v not in self.ro]
        if not vs or not self.assign_ok: return ('true', 'true', P_PRIM)
        v = c.pick(vs)
        e = self.E_b(d - 1)
        if v in self.wr(e): e = ('false', 'false', P_PRIM)
        return ('%s = %s' % (v, self.par(e, P_ASSIGN)), '(%s=%s)' % (v, e[1]), P_ASSIGN)

    # ---- helpers
    def rd(self, e):
        r = set(w for w in _id.findall(e[1]) if w[0] != '"')
        for f in self.funcs:
            if f[0] in r: r |= f[3] | f[4]
        return r

    def wr(self, e):
        r = set(_wr.findall(e[1]))
        for w in _id.findall(e[1]):
            for f in self.funcs:
                if f[0] == w: r |= f[4]
        r.discard('T')
        return r

    def seq(self, parts, t=None):
        """Operands evaluated one after another.  A later operand that writes what an earlier one reads is left
        out: operand evaluation order for variables is a recorded finding (C01 var-operand-read-late)."""
        out, seen = [], set()
        for i, e in enumerate(parts):
            if self.wr(e) & seen:
                self.c.exclude('var-operand-read-late')
                e = ('1', '1', P_PRIM) if t is None else {'n': ('1', '1', P_PRIM), 'i': ('1', '1', P_PRIM), 's': ('"z"', '"z"', P_PRIM), 'b': ('true', 'true', P_PRIM)}[t[i]]
            seen |= self.rd(e)
            out.append(e)
        return out

    def bin(self, op, a, b, t='n'):
        if op not in ('&&', '||') and self.wr(b) & self.rd(a):
            self.c.exclude('var-operand-read-late')
            b = {'s': ('"2"', '"2"', P_PRIM), 'n': ('2', '2', P_PRIM), 'b': ('true', 'true', P_PRIM)}[t]
        p, h = BIN[op]
        self.tags.add(op)
        l = self.par(a, p)
        r = self.par(b, p + 1)
        sp = ' ' if self.c.bool(85) or op in '+-' or (r[:1] in '+-&|=<>/*!~') else ''
        j = l + sp + op + sp + r
        n = '%s(%s,%s)' % (h, a[1], b[1]) if h else '(%s %s %s)' % (a[1], op, b[1])
        if p == 9 and not self.strict:         # NaN < x is undefined, as the project's own tests pin down
            return ('!!(%s)' % j, n, P_UN)
        return (j, n, p)

    def un(self, op, a):
        t = self.par(a, P_UN)
        if t[:1] == op: t = ' ' + t
        return (op + t, '%s(%s)' % ('neg' if op == '-' else 'pos', a[1]), P_UN)

    def cond(self, t, d):
        x = self.E_b(d - 1)
        a, b = self.E(t, d - 1), self.E(t, d - 1)
        self.tags.add('?:')
        return ('%s ? %s : %s' % (self.par(x, P_COND + 1), self.par(a, P_COND), self.par(b, P_COND)), '(%s?%s:%s)' % (x[1], a[1], b[1]), P_COND)

    def incdec(self, v, n=None):
        c = self.c
        n = n or v
        op = c.pick(['++', '--'])
        f = 'inc' if op == '++' else 'dec'
        self.tags.add(op)
        if c.bool():
            return (op + v, '(%s=%s(%s))' % (n, f, n), P_UN)
        return (v + op, '(T=%s,%s=%s(%s),T)' % (n, n, f, n), P_POST)

    def call(self, t, d):
        """call of a generated function returning type t"""
        fs = [f for f in self.funcs if f[2] == t]
        if not fs or self.loopd > 2: return None
        f = self.c.pick(fs)
        self.tags.add('call')
        args = self.seq([self.E(pt, min(d - 1, 1)) for pt in f[1]], f[1])
        return ('%s(%s)' % (f[0], ', '.join(self.arg(a) if a[2] > P_ASSIGN - 1 else '(%s)' % a[0] for a in args)),
                '%s(%s)' % (f[0], ','.join(a[1] for a in args)), P_CALL)


    # ---- statements: lists of lines (j, n)
    def blk(self, d, nmin=1, nmax=4):
        c = self.c
        sv = {k: list(getattr(self, k)) for k in ('nv', 'iv', 'sv', 'bv', 'funcs')}
        J, N = [], []
        for _ in range(c.size(nmin, nmax)):
            if self.budget <= 0: break
            j, n = self.S(d)
            J.append(j); N.append(n)
        for k, v in sv.items(): setattr(self, k, v)
        if not J:
            J, N = ['i0 = i0;'], ['i0=i0;']
        return ' '.join(J), ' '.join(N)

    def body(self, d):
        """loop or if body: a block, sometimes a single statement"""
        if self.c.bool(15):
            j, n = self.simple(d)
            return j, n
        j, n = self.blk(d)
        return '{ ' + j + ' }', '{ ' + n + ' }'

    def emit(self, d):
        t = self.c.pick(['n', 's', 'b', 'i'])
        e = self.E(t, d)
        return 'emit(%s);' % self.arg(e), 'emit(%s);' % e[1]

    def simple(self, d):
        c = self.c
        k = c.weighted([(5, 'emit'), (5, 'asg'), (2, 'jump')])
        if k == 'jump':
            r = self.jump(d)
            if r: return r
        if k == 'asg':
            return self.asg(d)
        return self.emit(min(d, 2))

    def asg(self, d):
        c = self.c
        t, vs = c.pick([('n', self.nv), ('s', self.sv), ('b', self.bv), ('i', self.iv)])
        vs = [v for v in vs if v not in self.ro]
        if not vs: return self.emit(1)
        v = c.pick(vs)
        if t == 's' and (self.loopd or self.inf):
            e = c.pick([self.lit_s, lambda: ('typeof ' + self.nv[0], 'jtypeof(%s)' % self.nv[0], P_UN)])()
        else:
            e = self.E(t, min(d, 3))
        return '%s = %s;' % (v, self.par(e, P_ASSIGN)), '%s=%s;' % (v, e[1])

    def jump(self, d):
        c = self.c
        ks = []
        if self.loops and not self.nojump: ks += ['break', 'continue']
        if self.inf and not self.intry_ret(): ks += ['return']
        if self.trylev or c.bool(4): ks += ['throw']
        if self.insw and not self.nojump: ks += ['swbreak', 'swbreak']
        if not ks: return None
        k = c.pick(ks)
        self.tags.add(k)
        g = ''
        if c.bool(80):
            e = self.E_b(min(d, 2))
            gj, gn = 'if (%s) ' % e[0], 'if (%s) ' % e[1]
        else: gj = gn = ''
        if k == 'throw':
            t = c.pick(['n', 'b', 'o', 's'])
            if t == 's': e = ('"T:%d"' % c.int(0, 9),) * 2
            elif t == 'o': e = ('{a:%d}' % c.int(0, 9),) * 2
            else:
                e = self.E(t, 1)
            return gj + 'throw %s;' % (e[0] if t != 'o' else e[0]), gn + 'throw %s;' % (e[1] if t != 'o' else '(%s)' % e[1])
        if k == 'return':
            e = self.E(self.rett, min(d, 2))
            # a return inside try or catch leaves at once, without the finally block (the project's tests say so)
            if self.trylev_f: return gj + 'return %s;' % e[0], gn + '{ RV=%s; RT=1; return RV; }' % e[1]
            return gj + 'return %s;' % e[0], gn + 'return %s;' % e[1]
        if k == 'swbreak':
            return gj + 'break;', gn + 'break;'
        cand = list(self.loops)
        l = c.pick(cand)
        if l is self.loops[-1] and not (self.insw and k == 'break') and c.bool(60) or not l:
            if not l and l is not self.loops[-1] or (not l and self.insw and k == 'break'):
                return None
            lab = ''
        else: lab = ' ' + l
        if lab: self.tags.add('labelled')
        return gj + k + lab + ';', gn + k + lab + ';'

    def intry_ret(self):
        return False

    def fresh(self, p):
        self.nl += 1
        return '%s_%d' % (p, self.nl)

    def S(self, d):
        c = self.c
        self.budget -= 1
        if d <= 0: return self.simple(1)
        k = c.weighted([(14, 'emit'), (1, 'empty'), (14, 'asg'), (10, 'if'), (8, 'for'), (5, 'while'), (4, 'do'), (5, 'forin'), (5, 'forof'), (7, 'switch'), (9, 'try'),
                        (7, 'jump'), (6, 'var'), (4 if self.allow_fun else 0, 'fun'), (3, 'expr'), (2, 'block')])
        if k in ('for', 'while', 'do', 'forin', 'forof') and self.loopd >= 3: k = 'emit'
        if k == 'emit': return self.emit(min(d, 3))
        if k == 'asg': return self.asg(d)
        if k == 'empty': return ';', ';'
        if k == 'jump': return self.jump(d) or self.emit(2)
        if k == 'expr':
            e = self.E(c.pick(['n', 'b', 's']), 2)
            return '(%s);' % e[0] if e[0][:1] in '{"\'`' or e[0].startswith('function') else e[0] + ';', '(%s);' % e[1]
        self.tags.add(k)
        if k == 'block':
            j, n = self.blk(d - 1)
            return '{ %s }' % j, '{ %s }' % n
        if k == 'if':
            e = self.E(c.pick(['b', 'b', 'n', 's']), 2)
            j, n = self.body(d - 1)
            J, N = 'if (%s) %s' % (e[0], j), 'if (%s) %s' % (e[1], n)
            while c.bool(30):
                e = self.E_b(2)
                j, n = self.blk(d - 1)
                J += ' else if (%s) { %s }' % (e[0], j)
                N += ' else if (%s) { %s }' % (e[1], n)
            if c.bool(50):
                j, n = self.body(d - 1)
                J += ' else ' + j
                N += ' else ' + n
            if not J.rstrip().endswith('}') or not j.startswith('{'):
                J, N = '{ %s }' % J, '{ %s }' % N      # no dangling else
            return J, N
        if k == 'var':
            t, vs = c.pick([('n', self.nv), ('s', self.sv), ('b', self.bv)])
            v = self.fresh(t)
            if t == 's' and (self.loopd or self.inf): e = self.lit_s()
            else: e = self.E(t, 2)
            vs.append(v)
            kw = c.pick(['var', 'var', 'let'])
            return '%s %s = %s;' % (kw, v, self.par(e, P_ASSIGN)), 'var %s=%s;' % (v, e[1])
        if k == 'fun':
            return self.fundecl(d)
        if k == 'switch':
            t = c.pick(['n', 's', 'p'])
            lits = {'n': ['0', '1', '2', '3', '0.5', '-1'], 'p': ['0', '1', '2', '3'], 's': ['"a"', '"b"', '"ab"', '""', '"1"']}[t]
            lits = c.perm(lits)[:c.int(1, len(lits))]
            if c.bool(60): v = c.pick(lits); e = (v, v)
            elif t == 'n':
                m = str(c.int(2, 4)); e0 = self.E_p(1); e = self.bin('%', e0, (m, m, P_PRIM))
            else:
                e = self.E(t, 1)
            dpos = c.int(0, len(lits)) if c.bool(75) else -1
            lab = self.fresh('W') if c.bool(20) else ''
            oldsw, oldnj = self.insw, self.nojump
            self.insw = True
            J, N = ['switch (%s) {' % e[0]], ['switch (%s) {' % e[1]]
            for i in range(len(lits) + 1):
                if i == dpos:
                    if c.bool(85): b = self.blk(d - 1, 1, 3)
                    else: b = ('', '')
                    br = ' break;' if c.bool(60) else ''
                    J.append('default: %s%s' % (b[0], br)); N.append('default: %s%s' % (b[1], br))
                if i < len(lits):
                    b = self.blk(d - 1, 1, 3) if c.bool(80) else ('', '')
                    br = ' break;' if c.bool(60) else ''
                    J.append('case %s: %s%s' % (lits[i], b[0], br)); N.append('case %s: %s%s' % (lits[i], b[1], br))
            self.insw, self.nojump = oldsw, oldnj
            return ' '.join(J) + ' }', ' '.join(N) + ' }'
        if k == 'try':
            kinds = c.pick(['c', 'c', 'cf', 'f'])
            self.trylev += 1
            self.trylev_f += 1
            b = self.blk(d - 1, 1, 4)
            if c.bool(40):
                th = self.jumpthrow(d)
                b = (b[0] + ' ' + th[0], b[1] + ' ' + th[1])
            self.trylev -= 1
            J, N = 'try { %s }' % b[0], 'try { %s }' % b[1]
            if 'c' in kinds:
                v = self.fresh('e')
                b = self.blk(d - 1, 1, 3)
                J += ' catch(%s) { emit(EV(%s)); %s }' % (v, v, b[0])
                N += ' catch(%s) { emit(EV(%s)); %s }' % (v, v, b[1])
            if 'f' in kinds:
                b = self.blk(d - 1, 1, 2) if not self.loops else self.nojumps(lambda: self.blk(d - 1, 1, 2))
                J += ' finally { %s }' % b[0]
                N += ' finally { if (!RT) { %s } }' % b[1]
                if 'c' not in kinds and not self.trylev:
                    v = self.fresh('e')
                    J = 'try { %s } catch(%s) { emit(EV(%s)); }' % (J, v, v)
                    N = 'try { %s } catch(%s) { emit(EV(%s)); }' % (N, v, v)
            self.trylev_f -= 1
            return J, N
        # loops
        v = self.fresh('k')
        lab = self.fresh('L') if c.bool(35) else ''
        pre = lab + ': ' if lab else ''
        self.loopd += 1
        self.loops.append(lab)
        oldsw, oldnj, self.insw, self.nojump = self.insw, self.nojump, False, False
        lim = c.int(0, 4)
        vars_ = self.iv
        sv = list(self.iv), list(self.sv)
        self.ro.add(v)
        if k in ('for', 'while', 'do'): self.iv.append(v)
        arr = k == 'forin' and c.bool(30)
        if k == 'forin': (self.iv if arr else self.sv).append(v)
        kw = c.pick(['var ', 'var ', 'let ']) if k != 'forin' else 'var '
        if k == 'for':
            b = self.body(d - 1)
            step, cond, init = c.pick([('%s++', '%s < %d', '0'), ('%s += 1', '%s < %d', '0'), ('++%s', '%s != %d', '0')]) if c.bool(70) else ('%s--', '%s > -%d', '0')
            x = cond % (v, lim)
            if c.bool(25):
                e = self.E_b(1)
                x += ' && ' + self.par(e, 5); xn = cond % (v, lim) + '&&' + e[1]
            else: xn = x
            # an infinite loop is impossible: the counter only moves in the step
            J, N = '%sfor (%s%s = %s; %s; %s) %s' % (pre, kw, v, init, x, step % v, b[0]), '%sfor (%s%s = %s; %s; %s) %s' % (pre, 'var ', v, init, xn, step % v, b[1])
        elif k == 'while':
            b = self.blk(d - 1)
            J, N = ['var %s = 0; %swhile (%s++ < %d) { %s }' % (v, pre, v, lim, q) for q in b]
        elif k == 'do':
            b = self.blk(d - 1)
            J, N = ['var %s = 0; %sdo { %s } while (++%s < %d);' % (v, pre, q, v, lim) for q in b]
        elif k == 'forin':
            o = '{' + ', '.join('%s:%d' % (chr(97 + i), i) for i in range(lim)) + '}' if not arr else '[' + ', '.join(str(i * 7) for i in range(lim)) + ']'
            b = self.body(d - 1)
            # array keys are enumerated as numbers
            J, N = '%sfor (%s%s in %s) %s' % (pre, kw, v, o, b[0]), '%sfor (%s%s in %s) { %s %s }' % (pre, 'var ', v, o, v + '=+%s;' % v if arr else '', b[1])
        else:
            vals = [c.pick(['1', '2', '-3', '0.5', '"x"', 'true']) for _ in range(lim)]
            b = self.blk(d - 1)
            J, N = '%sfor (%s%s of [%s]) { emit(%s); %s }' % (pre, kw, v, ', '.join(vals), v, b[0]), '%sfor (%s%s of [%s]) { emit(%s); %s }' % (pre, 'var ', v, ','.join(vals), v, b[1])
        self.iv[:], self.sv[:] = sv
        self.ro.discard(v)
        self.loopd -= 1
        self.loops.pop()
        self.insw, self.nojump = oldsw, oldnj
        return J, N

    def nojumps(self, f):
        o = self.nojump
        self.nojump = True
        r = f()
        self.nojump = o
        return r

    def jumpthrow(self, d):
        sv = self.loops, self.inf, self.insw
        self.loops, self.inf, self.insw = [], 0, False
        self.trylev += 1
        r = self.jump(d)
        self.trylev -= 1
        self.loops, self.inf, self.insw = sv
        return r or self.emit(1)

    # ---- functions
    def fundecl(self, d, name=None):
        c = self.c
        f = name or self.fresh('f')
        rett = c.pick(['n', 's', 'b'])
        pts = [c.pick(['n', 's', 'b', 'i']) for _ in range(c.int(0, 4))]
        ps = [self.fresh('p' + t) for t in pts]
        sv = {k: list(getattr(self, k)) for k in ('nv', 'iv', 'sv', 'bv', 'funcs')}
        st = self.loops, self.trylev, self.trylev_f, self.insw, self.nojump, self.inf, self.loopd
        self.loops, self.trylev_f, self.insw, self.nojump = [], 0, False, False
        self.inf += 1
        svr, self.rett = self.rett, rett
        if c.bool(30):                       # keep only the own parameters: no captured variables
            self.nv, self.sv, self.bv, self.iv = ['n0'], ['s0'], ['b0'], ['i0']
        for t, p in zip(pts, ps): getattr(self, t + 'v').append(p)
        j, n = self.blk(min(d - 1, 2), 0 if d < 2 else 1, 4)
        e = self.E(rett, 2)
        self.rett = svr
        for k, v in sv.items(): setattr(self, k, v)
        self.loops, self.trylev, self.trylev_f, self.insw, self.nojump, self.inf, self.loopd = st
        jb, nb = '%s return %s;' % (j, e[0]), 'var RT=0,RV; %s return %s;' % (n, e[1])
        form = c.int(0, 2)
        J = {0: 'function %s(%s) { %s }', 1: 'var %s = function(%s) { %s };', 2: 'var %s = function(%s) { %s };'}[form] % (f, ', '.join(ps), jb)
        N = {0: 'function %s(%s) { %s }', 1: 'var %s = function(%s) { %s };', 2: 'var %s = function(%s) { %s };'}[form] % (f, ','.join(ps), nb)
        ids = set(w for w in _id.findall(nb) if w[0] != '"')
        r, w = set(ids), set(x for x in re.findall(r'([A-Za-z_$][\w$]*)(?:\.\w+|\[[^\]]*\])?=(?!=)', nb))
        for g in self.funcs:
            if g[0] in ids: r |= g[3]; w |= g[4]
        self.funcs.append((f, pts, rett, r, w))
        return J, N

    def program(self, d=3, nst=(3, 10), budget=40):
        self.budget = budget
        self.allow_fun = True
        self.loops, self.trylev_f, self.trylev, self.insw, self.nojump, self.rett = [], 0, 0, False, False, 'n'
        J, N = [], []
        for _ in range(self.c.size(*nst)):
            j, n = self.S(d)
            m = re.match(r'(var|let) ([nsb])_\d+ ', j)
            if m:
                z = '%s = %s; ' % (m.group(), {'n': '0', 's': '""', 'b': 'true'}[m.group(2)])
                j, n = z + j[4:], z.replace('let', 'var') + n
            if not j.startswith(('function', 'var f_')):
                j, n = 'try { %s } catch(eT) { emit("top", EV(eT)); }' % j, 'try { %s } catch(eT) { emit("top", EV(eT)); }' % n
            J.append(j + '\n')
            N.append(n + '\n')
        return ''.join(J), ''.join(N)


DECL_J = 'var n0 = 1, n1 = 2.5, n2 = -3, i0 = 7, i1 = -9, s0 = "ab", s1 = "", b0 = true, b1 = false;\nvar o0 = {a:3, b:0.5, "x y":8}, a0 = [4, 5], o1 = {q:{r:6}, l:[9]};\n'
DECL_N = DECL_J + 'var T, RT=0, RV;\n'

EV_J = 'function EV(e) { return typeof e === "string" && e.indexOf("T:") !== 0 ? "\\n" : e; }\n'
EV_N = 'function EV(e) { return e === "\\u0001ERR" || e instanceof Error ? "\\n" : e; }\n'
