"""C01: expressions evaluate as ECMAScript 5 says (differential against an independent engine)."""
from vt.core import Check, Violation, Inconclusive
from vt.js import X, parse_dump, same, show, expect
from vt.nodeor import Node
from vt import progen
from vt.progen import Gen, prelude, DECL_J, DECL_N


class XN(X):
    def __init__(self, wid):
        X.__init__(self, wid)
        self.node = Node()
        self.closers.append(self.node.close)


def compare(x, j, n, what, flags=0):
    r = x.js(j, flags)
    ok, L, err = x.node.run(n)
    if not ok:
        raise RuntimeError('oracle program failed: %s\n%s' % (err, n))
    G = r.lines()
    if r.rc != 0 or len(G) != len(L):
        k = next((i for i, (a, b) in enumerate(zip(G, L)) if a != b), min(len(G), len(L)))
        raise Violation('%s: program did not complete as expected (rc=%d, %d of %d values; first difference at %d: got %r want %r)\n--- script\n%s\n--- stderr\n%s' % (
            what, r.rc, len(G), len(L), k, G[k:k + 1], L[k:k + 1], show(j), r.err[:1500].decode('utf8', 'replace')))
    for i, (a, b) in enumerate(zip(G, L)):
        if a != b and not same(parse_dump(a), parse_dump(b)):
            raise Violation('%s: value %d differs: got %s want %s\n--- script\n%s' % (what, i, a.decode(), b.decode(), show(j)))
    return G


def expr_prop(c, x):
    strict = c.bool(60)
    J, N = [], []
    if not strict:
        J.append('Interp.conf({noCheck:true});\n')
    J.append(DECL_J)
    N.append(prelude(strict) + DECL_N)
    k = c.int(1, 12)
    es = []
    for _ in range(k):
        g = Gen(c, strict=strict)
        t = c.pick(['n', 's', 'b', 'n', 'i'])
        e = g.E(t, c.int(1, 5))
        es.append((e, frozenset(g.tags)))
        J.append('try { emit(%s); } catch(e) { emit("\\n"); }\n' % g.arg(e))
        N.append('try { emit(%s); } catch(e) { if (e!=="\\u0001ERR") throw e; emit("\\n"); }\n' % e[1])
    tail = 'emit(n0,n1,n2,i0,i1,s0,s1,b0,b1,o0,a0,o1);\n'
    j, n = ''.join(J) + tail, ''.join(N) + tail
    c.rendered = j
    G = compare(x, j, n, 'expression')
    for e, tags in es:
        c.case(e[0], len(tags) >= 2)
        for t in tags: c.label(t)
    c.label('strict' if strict else 'nocheck')
    c.sample(es[0][0][0])


def P(js, *want):
    return lambda x: expect(x, js, list(want))


PROBES = [
    # repaired defects
    ('mixed-eq-fraction', P("emit('1'==1.5, true=='1.5', 1.5==1, '2.5'==2.5);", False, False, False, True)),
    ('prop-named-new', P("var o={new:3}; emit(o['new']);", 3)),
    ('ne-bool', P("emit((1 != 5) == true, ('a' != 'b') === true);", True, True)),
    ('postinc-fraction', P("var a=0.1, b=9007199254740992, c=1e300; emit(a++, b++, c--);", 0.1, 9007199254740992, 1e300)),
    ('member-op-assign-depth', P("var o={a:3}; emit(1+(2+(o.a+=1)));", 7)),
    # recorded findings
    ('var-operand-read-late', P("var n=1; emit(n + (n=5));", 6)),
    ('comma-after-name', P("var n=1; emit(eval('(n, 7)'));", 7)),
    ('negative-bitops', P("emit(-1 & 255, -1 | 0, -2 ^ 1);", 255, -1, -1)),
    ('mixed-less', P("emit('10' < 9, 10 < '9', '9' > 10);", False, False, False)),
    ('obj-eq-undef', P("Interp.conf({noCheck:true}); var o={}, f=function(){}; emit(o==undefined, o==null, f==undefined, o!=null);", False, False, False, True)),
    ('null-loose-eq', P("emit(null==0, null==false, null=='');", False, False, False)),
]

PROPS = [('expr', expr_prop, {'quick': 6000, 'thorough': 60000})]
CHECK = Check('C01', XN, PROPS, 'typed random expressions (1-12 per script, depth<=5) over 9 variables; non-trivial = at least two different operators', probes=PROBES)
