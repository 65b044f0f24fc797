"""C02: statements transfer control as ECMAScript 5 says (differential against an independent engine)."""
from vt.core import Check
from vt.progen import Gen, prelude, DECL_J, DECL_N, EV_J, EV_N
from checks.c01 import XN, compare, P


def prog(c, x, **kw):
    strict = c.bool(50)
    g = Gen(c, strict=strict)
    j, n = g.program(**kw)
    tail = 'emit(n0,n1,n2,i0,i1,s0,s1,b0,b1,o0,a0,o1);\n'
    J = ('' if strict else 'Interp.conf({noCheck:true});\n') + DECL_J + EV_J + j + tail
    N = prelude(strict) + DECL_N + EV_N + n + tail
    c.rendered = J
    G = compare(x, J, N, 'program')
    c.case(j, len(g.tags & {'for', 'while', 'do', 'forin', 'forof', 'switch', 'try', 'if'}) >= 2)
    for t in g.tags: c.label(t)
    c.sample(j)


def prog_prop(c, x):
    prog(c, x, d=c.int(1, 4), budget=c.pick([12, 30, 60]))


PROBES = [
    ('finally-pending', P("try { try { throw 5; } finally { try { throw 6; } catch(e) { emit(e); } } } catch(e) { emit(e); }", 6, 5)),
    ('stale-exception', P("function f(){try{throw 1;}finally{return 2;}} emit(f()); try{ ({}).foo(); }catch(e){emit(e!==1);}", 2, True)),
]

PROPS = [('prog', prog_prop, {'quick': 8000, 'thorough': 120000})]
CHECK = Check('C02', XN, PROPS, 'random statement programs (if/loops/labels/switch/try/functions, nesting <= 4, <= 60 statements); non-trivial = at least two different control statements', probes=PROBES)
