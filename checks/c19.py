"""C19: limits and deep recursion: errors that can be caught, never a crash, never lost data."""
import json, os
from vt.core import Check, Violation
from vt.js import parse_dump, X, jsstr, show, same, conv, raw


def mk(w): return X(w)


# recursion of depth n; factor: levels of depth a step may take (3 with reserve)
SHAPES = [
    ('direct', 'function f(n) { if (n <= 0) { return 0; } return 1 + f(n-1); }', 'f(%d)', 1),
    ('var', 'var f = function(n) { return n <= 0 ? 0 : 1 + f(n-1); };', 'f(%d)', 1),
    ('mutual', 'function g(n) { return n <= 0 ? 0 : 1 + f(n-1); } function f(n) { return n <= 0 ? 0 : 1 + g(n-1); }', 'f(%d)', 1),
    ('method', 'var o = {f:function(n) { return n <= 0 ? 0 : 1 + this.f(n-1); }};', 'o.f(%d)', 1),
    ('args', 'function f(n) { return n <= 0 ? 0 : 1 + arguments.callee(n-1); }', 'f(%d)', 1),
    ('eval', 'function f(n) { return n <= 0 ? 0 : 1 + eval("f(n-1)"); }', 'f(%d)', 3),
    ('evalonly', 'var m = 0; var s = "m--; (m > 0 ? 1 + eval(s) : 0)"; function f(n) { m = n+1; return eval(s); }', 'f(%d)', 3),
    ('map', 'function f(n) { return n <= 0 ? 0 : [n].map(function(m) { return 1 + f(m-1); })[0]; }', 'f(%d)', 4),
    ('forEach', 'function f(n) { var r = 0; if (n > 0) { [n].forEach(function(m) { r = 1 + f(m-1); }); } return r; }', 'f(%d)', 4),
    ('reduce', 'function f(n) { return n <= 0 ? 0 : [1].reduce(function(a,b) { return 1 + f(n-1); }, 0); }', 'f(%d)', 99),
    ('sort', 'function f(n) { var r = -1; if (n > 0) { [2,1].sort(function(a,b) { if (r < 0) { r = 1 + f(n-1); } return 0; }); return r; } return 0; }', 'f(%d)', 99),
    ('replace', 'function f(n) { var r = 0; if (n > 0) { "b".replace("b", function(m) { r = 1 + f(n-1); return "x"; }); } return r; }', 'f(%d)', 99),
    ('call', 'function f(n) { return n <= 0 ? 0 : 1 + f.call(null, n-1); }', 'f(%d)', 4),
    ('apply', 'function f(n) { return n <= 0 ? 0 : 1 + f.apply(null, [n-1]); }', 'f(%d)', 4),
    ('bind', 'function f(n) { return n <= 0 ? 0 : 1 + (f.bind(null, n-1))(); }', 'f(%d)', 4),
    ('new', 'function K(n) { this.v = 0; if (n > 0) { var k = new K(n-1); this.v = 1 + k.v; } }  function f(n) { var k = new K(n); return k.v; }', 'f(%d)', 3),
    ('try', 'function f(n) { var r = 0; try { if (n > 0) { r = 1 + f(n-1); } } catch(e) { throw e; } return r; }', 'f(%d)', 1),
    ('finally', 'var fin = 0; function f(n) { var r = 0; try { if (n > 0) { r = 1 + f(n-1); } } finally { fin++; } return r; }', 'f(%d)', 1),
    ('with', 'function f(n) { var r = 0; with ({m:n}) { if (m > 0) { r = 1 + f(m-1); } } return r; }', 'f(%d)', 1),
    ('forin', 'function f(n) { var r = 0; for (var k in {a:1}) { if (n > 0) { r = 1 + f(n-1); } } return r; }', 'f(%d)', 1),
    ('switch', 'function f(n) { switch (n) { case 0: return 0; default: return 1 + f(n-1); } }', 'f(%d)', 1),
    ('closure', 'function f(n) { var g = function() { return n <= 0 ? 0 : 1 + f(n-1); }; return g(); }', 'f(%d)', 2),
    ('alias', 'var i = new Interp(); function f(n) { return n <= 0 ? 0 : 1 + i.eval("up("+(n-1)+")"); } i.alias("up", f, []);', 'f(%d)', 6),
]


def p_depth(c, x):
    """recursion through every kind of call: correct up to the limit, then an error; works again after it"""
    name, pre, call, fac = c.pick(SHAPES)
    m = c.pick([None, 200, 200, 100, 60, 30, 25, c.int(20, 200)])
    lim = m or 200
    ns = [c.pick([0, 1, 2, 5, 10, lim // 10, lim // 4, lim // 2, lim - 10, lim - 3, lim - 1, lim, lim + 1, lim + 2, lim + 5, 2 * lim, 5 * lim, 1000, 3000, c.int(0, 2 * lim)]) for _ in range(c.int(2, 6))]
    sub = m is not None and m != 200 or c.bool(30)
    code = ['var out = [];', pre]
    for n in ns:
        code.append('try { out.push(%s); } catch(ex) { out.push("<error>"); }' % (call % n))
    src = '\n'.join(code)
    if sub: src = 'var j = new Interp(%s);\nj.eval(%s);\nemit(j.eval("out"));' % ('{maxDepth:%d}' % m if m else '', jsstr(src))
    else: src += '\nemit(out);'
    c.case(src, any(n > lim for n in ns) and len(ns) > 1)
    c.rendered = src
    c.label(name)
    v = x.vals(src, flags=1)[0]
    if len(v) != len(ns): raise Violation('%d results for %d calls\n%s' % (len(v), len(ns), src))
    ok = sorted(n for n, r in zip(ns, v) if r != b'<error>')
    bad = sorted(n for n, r in zip(ns, v) if r == b'<error>')
    for n, r in zip(ns, v):
        if r != b'<error>' and r != n: raise Violation('depth %d gives %r\n%s' % (n, r, src))
        if r == b'<error>' and n * fac + 8 <= lim: raise Violation('depth %d of limit %d fails\n%s' % (n, lim, src))
        if r != b'<error>' and n > lim and name != 'alias': raise Violation('depth %d exceeds the limit %d\n%s' % (n, lim, src))
        if r != b'<error>' and n > 2000: raise Violation('depth %d is not limited\n%s' % (n, src))
    if ok and bad and ok[-1] >= bad[0] : raise Violation('depth %d fails, %d succeeds\n%s' % (bad[0], ok[-1], src))


LOOPS = ['while (1) { n++; }', 'for (;;) { n++; }', 'do { n++; } while (1);', 'function f() { n++; } while (1) { f(); }', 'while (1) { [1,2].map(function(q) { n++; return 1; }); }', 'while (1) { eval("n++;"); }',
         'while (1) { try { n++; } catch(e) { n=0; } }', 'while (1) { try { n++; throw 1; } catch(e) { n++; } }', 'while (1) { "ab".replace("a", function(q) { n++; return ""; }); }',
         'while (1) { for (var k in {a:1,b:2}) { n++; } }', 'while (1) { n++; with ({a:1}) { a; } }', 'while (1) { n++; if (n % 2) { continue; } }', 'while (1) { new (function() { n++; })(); }', 'function g(d) { n++; if (d > 0) { g(d-1); } } while (1) { g(5); }',
         'while (1) { try { n++; } finally { n++; } }', 'var s = ""; while (1) { n++; s = "" + n; }', 'L: while (1) { while (1) { n++; continue L; } }', 'while (1) { switch (n) { default: n++; } }']


def p_opcnt(c, x):
    """maxOpCnt: no loop runs longer; shorter programs are not affected"""
    N = c.pick([100, 500, 1000, 5000, 20000, c.int(50, 30000), c.int(50, 3000), c.int(50, 1000)])
    L = c.pick(LOOPS)
    if c.bool(30): L = L.replace('while (1)', 'while (true)')
    wrapd = c.pick(['%s', '%s', 'try { %s } catch(e) { n = n; }', 'function run() { %s } run();', 'try { %s } finally { n = n; }', 'eval(%s);'])
    body = wrapd % (jsstr(L) if 'eval' in wrapd else L)
    if 'function f()' in body and 'run()' in body: body = L
    src = 'var i = new Interp({maxOpCnt:%d});\ntry { i.eval(%s); } catch(ex) { 1; };\n' % (N, jsstr('var n = 0; ' + body))
    src += 'emit(i.value("n") <= %d);\nvar q = 0; for (var k = 0; k < %d; k++) { q++; }; emit(q);\n' % (N // 2, N)
    k = N // 40
    src += 'var j = new Interp({maxOpCnt:%d}); emit(j.eval(%s));\n' % (N, jsstr('var n = 0; for (var k = 0; k < %d; k++) { n += 2; }; n' % k))
    c.case(src)
    c.rendered = src
    r = x.js(src)
    got = [parse_dump(g) for g in r.lines() if g != b'EXEC CAP EXCEED']
    if got != [True, N, 2 * k]: raise Violation('got %r, expected %r\n%s' % (got, [True, N, 2 * k], src))


LISTS = ['for (var k = 0; k < %d; k++) { a.push(k); }', 'for (var k = 0; k < %d; k++) { a[k] = k; }', 'for (var k = %d-1; k >= 0; k--) { a.unshift(k); }', 'a = JSON.parse(JS(%d));', 'a = JSON.parse("{\\"q\\":[" + JS(%d) + "]}").q[0];',
         'a = eval("[" + LI(%d) + "]");', 'a = Object.values(OB(%d)); a.sort(function(p,q) { return p-q; });', 'a = OV(%d); a = a.map(function(q) { return 0+q; });', 'a = ("x").repeat(%d).split(""); for (var k = 0; k < a.length; k++) { a[k] = k; }',
         'a = ("x").repeat(%d).match(/x/g) || []; for (var k = 0; k < a.length; k++) { a[k] = k; }', 'a.length = %d; for (var k = 0; k < a.length; k++) { a[k] = k; }', 'a = new Array(%d); for (var k = 0; k < a.length; k++) { a[k] = k; }',
         'var h = LH(%d); a = h[0].concat(h[1]);', 'a = SQ(%d, "array1d");', 'a = SQ(%d, "arrays").map(function(r) { return r[0]; });', 'a = SQ(%d, "rows").map(function(r) { return r.a; });', 'var m = LH(%d); a = m[0]; for (var k = 0; k < m[1].length; k++) { a.splice(a.length, 0, m[1][k]); }',
         'a = LH(%d)[2]; a = a.map(function(q) { return q; });', 'a = LH(%d)[2]; a = a.filter(function(q) { return true; });', 'a = LH(%d)[2].slice(0);', 'a = IT(%d);']
HELP = '''function JS(n) { var s = "["; for (var k = 0; k < n; k++) { s += (k ? "," : "") + k; } return s + "]"; }
function LI(n) { var s = ""; for (var k = 0; k < n; k++) { s += (k ? "," : "") + k; } return s; }
function OB(n) { var o = {}; for (var k = 0; k < n; k++) { o["k" + k] = k; } return o; }
function OV(n) { var o = {}; for (var k = 0; k < n; k++) { o[format("%06d", k)] = 1; } return Object.keys(o).map(function(s) { return 0 + Number(s.replace(/^0*/, "") || "0"); }); }
function LH(n) { var h = n >> 1; var a = []; var b = []; var d = []; for (var k = 0; k < n; k++) { if (k < h) { a.push(k); } else { b.push(k); } } for (var k2 = 0; k2 < n; k2++) { d.push(k2); } return [a, b, d]; }
function SQ(n, m) { var db = new Sqlite(":memory:"); db.eval("create table t(a);"); db.eval("with recursive c(x) as (select 0 union all select x+1 from c where x < " + (n-1) + ") insert into t select x from c" + (n ? ";" : " where 0;")); return db.query("select a from t order by a", {mode:m}); }
function IT(n) { var a = []; for (var k in LH(n)[2]) { a.push(k); } return a; }
'''


def p_list(c, x):
    """maxArrayList: an array has all its elements or there is an error"""
    M = c.pick([64, 100, 128, 500, 1000, 2000, c.int(50, 3000)])
    f = c.pick(LISTS)
    n = c.pick([0, 1, M // 2, M - 30, M - 20, M - 17, M - 16, M - 9, M - 8, M - 3, M - 2, M - 1, M, M + 1, M + 2, M + 8, M + 16, 2 * M, 3 * M, c.int(0, 2 * M)])
    if n < 0: n = 0
    if 'JSON.parse' in f and n == 0: n = 1
    if 'sort' in f or 'OV' in f: n = min(n, 2 * M)
    src = 'Interp.conf({noCheck:true, maxArrayList:%d});\n%s\nfunction go() { var a = [];\n%s\n return a; }\nvar r = "<error>"; try { r = go(); } catch(ex) { r = "<error>"; };\n' % (M, HELP, f % n)
    if f == LISTS[1] and n > M: return
    src += 'Interp.conf({maxArrayList:100000});\nif (r === "<error>") { emit(r); } else { var okk = true; for (var k = 0; k < r.length; k++) { if (r[k] !== k) { okk = k; break; } }; emit([r.length, okk]); }; emit(LH(%d)[2].length);' % (M + 5)
    c.case(src, n > M - 20)
    c.rendered = src
    c.label('beyond' if n > M else 'near' if n > M - 20 else 'below')
    got = x.vals(src)
    if len(got) != 2 or got[1] != M + 5: raise Violation('%r\n%s' % (got, src))
    if got[0] == b'<error>':
        if n < M - 20: raise Violation('%d elements of limit %d: error\n%s' % (n, M, src))
    else:
        if got[0] != [n, True]: raise Violation('limit %d: %d elements wanted, the array has %r\n%s' % (M, n, got[0], src))
        if n > M: raise Violation('%d elements, limit %d\n%s' % (n, M, src))


def p_nestlim(c, x):
    """maxInterpDepth, maxIncDepth, maxUserObjs, busyCallback"""
    k = c.int(0, 4)
    if k == 0:
        m, d = c.int(1, 8), c.int(1, 11)
        code = '9'
        for _ in range(d): code = 'var i=new Interp(); i.eval(%s)' % jsstr(code)
        src = 'Interp.conf({maxInterpDepth:%d});\nvar r="<error>"; try { r=eval(%s); } catch(ex) { r="<error>"; };\nemit(r); var z = new Interp(); emit(z.eval("5"));' % (m, jsstr(code))
        want = [9 if d <= m else b'<error>', 5]
        c.case(src, d > m)
    elif k == 1:
        m, n = c.int(2, 30), c.int(1, 40)
        f = os.path.join(x.tmp, 'inc.jsi')
        with open(f, 'w') as h: h.write('n++; if (n < lim) { %s(%s); }' % ('source', jsstr(f)))
        src = 'Interp.conf({maxIncDepth:%d});\nvar n = 0; var lim = %d; var r = "ok"; try { source(%s); } catch(ex) { r = "<error>"; };\nemit(r, n); n = 0; lim = 1; source(%s); emit(n);' % (m, n, jsstr(f), jsstr(f))
        want = [b'ok', n, 1] if n <= m else [b'<error>', m, 1]
        c.case(src, n > m)
    elif k == 2:
        m, n = c.int(1, 20), c.int(1, 30)
        what = c.pick(['new Interp()', 'new Channel("/dev/null")', 'new Sqlite(":memory:")'])
        src = 'var i = new Interp({maxUserObjs:%d});\nvar r = "ok"; try { i.eval("var L = []; for (var k = 0; k < %d; k++) { L.push(%s); }"); } catch(ex) { r = "<error>"; };\nemit(r, i.eval("L.length"));' % (m, n, what.replace('"', '\\"'))
        # the limit may be overrun by one
        c.case(src, n > m)
        got = x.vals(src)
        if n <= m and got != [b'ok', n] or n > m + 1 and (got[0] != b'<error>' or got[1] not in (m, m + 1)) or got[1] > m + 1: raise Violation('got %r\n%s' % (got, src))
        return
    elif k == 3:
        iv, stop = c.pick([1, 2, 7, 10, 20, 50, 100, 1000]), c.int(1, 12)
        loop = c.pick(LOOPS)
        src = 'var L = []; function bc(nm, op) { L.push(op); if (L.length >= %d) { throw "stop"; } return true; }\nvar i = new Interp({busyCallback:"bc", busyInterval:%d, maxOpCnt:3000000});\nvar r = "ok"; try { i.eval(%s); } catch(ex) { r = "<error>"; };\nemit(r, L);' % (stop, iv, jsstr('var n = 0; ' + loop))
        if 'catch' in loop or 'finally' in loop: return
        want = [b'<error>', [iv * (q + 1) for q in range(stop)]]
        c.case(src)
    else:
        iv, n = c.pick([10, 50, 100]), c.int(1, 200)
        src = 'var L = []; function bc(nm, op) { L.push(op); return true; }\nvar i = new Interp({busyCallback:"bc", busyInterval:%d});\nemit(i.eval("var n = 0; for (var k = 0; k < %d; k++) { n += k; }; n"));\nvar ok = true; for (var k = 0; k < L.length; k++) { if (L[k] !== %d*(k+1)) { ok = [k, L[k]]; break; } }; emit(ok, L.length >= %d);' % (iv, n, iv, n * 3 // iv)
        want = [n * (n - 1) // 2, True, True]
        c.case(src)
    c.rendered = src
    c.label(['interp depth', 'source depth', 'user objects', 'busy stop', 'busy'][k])
    got = x.vals(src)
    if got != want: raise Violation('got %r expected %r\n%s' % (got, want, src))


def p_struct(c, x):
    """values nested to any depth are made, walked and freed without a crash"""
    d = c.pick([10, 100, 150, 190, 250, 1000, 5000, 20000, 60000, c.int(1, 3000)])
    kind = c.pick(['{n:l}', '[l]', '{n:l,m:[1,{}]}', '[[],l]', '{a:[l]}', 'cl(l)', '[cl(l)]', 'mk(l)', '{n:l,f:cl(l)}', '[1,l,"x"]', 'pr(l)', 'new K(l)'])
    src = 'function cl(q) { return function() { return q; }; } function mk(q) { var o = {}; o.q = 1; o["x"] = [q]; return o; } function pr(q) { return {"":q}; } function K(q) { this.q = q; }\nvar l = null; for (var k = 0; k < %d; k++) { l = %s; }\nemit(1);\n' % (d, kind)
    ops = ['JSON.stringify(l).length', 'l.toString().length', '("" + l).length', '(l == l)', 'JSON.parse(JSON.stringify(l)) ? 1 : 0', '[l,l].sort().length', '[l].join().length', '[l].indexOf(l)', 'Object.merge({}, l) ? 1 : 0', 'Object.freeze([l]) ? 1 : 0',
           'format("%s", l).length', 'typeof l', '[l].concat([l]).length', 'new Interp() ? 1 : 0', 'ip(l)', 'Info.obj(l) ? 1 : 0', 'printf("", l)', '(function(a) { return a; })(l) ? 1 : 0', 'th(l)', 'eval("l") ? 1 : 0', '[l].slice(0).length', '[l].map(function(a) { return a; }).length', 'Object.keys([l]).length', '[l].reverse().length', 'Util.hash("" + l).length']
    src += 'function ip(q) { var i = new Interp(); i.eval("function f(x) { return 1; }"); return i.call("f", [q], true); } function th(q) { try { throw q; } catch(ex) { return typeof ex; } return 0; }\n'
    for _ in range(c.int(0, 4)):
        src += 'try { %s; } catch(ex) { typeof ex; };\n' % c.pick(ops)
    src += c.pick(['', 'l = null;', 'l = {l:l}; l = 5;', 'l = [l,l]; l = 0;'])
    src += '\nvar a = [1,2,{q:3}]; emit(JSON.stringify(a)); emit(2);'
    c.case(src, d > 190)
    c.rendered = src
    got = x.vals(src, flags=1)
    if got != [1, b'[ 1, 2, { "q":3 } ]', 2]: raise Violation('got %r\n%s' % (got, src))


def p_text(c, x):
    """nesting and repetition in the program text and in JSON: the right result or an error"""
    d = c.pick([1, 5, 20, 50, 100, 150, 190, 500, 2000, 6000, c.int(1, 500)])
    k = c.int(0, 13)
    small = min(d, 2000)
    pre, post, w = '', '', None
    if k == 0: e, w = '(' * d + '7' + ')' * d, 7
    elif k == 1: e, w, post = '[' * small + '7' + ']' * small, 7, 'while (typeof r == "array") { r = r[0]; }'
    elif k == 2: e, w, post = '({a:' * 1 + '{a:' * (small - 1) + '7' + '}' * small + ')', 7, 'while (typeof r == "object") { r = r.a; }'
    elif k == 3: e, w = '+'.join(['1'] * min(d, 3000)), min(d, 3000)
    elif k == 4: e, w = '-' * 0 + '!' * d + 'true', d % 2 == 0
    elif k == 5: e, w = '1?' * small + '7' + ':0' * small, 7
    elif k == 6: e, w, pre = 'z', 7, 'var z = 0; ' + 'if (1) {' * small + 'z = 7;' + '}' * small
    elif k == 7: e, w, pre = 'z', small, 'var z = 0; ' + 'z++; ' * small
    elif k == 8: e, w, post = 'JSON.parse(%s)' % jsstr('[' * d + '7' + ']' * d), 7, 'while (typeof r == "array") { r = r[0]; }'
    elif k == 9: e, w, post = 'JSON.parse(%s)' % jsstr('{"a":' * d + '7' + '}' * d), 7, 'while (typeof r == "object") { r = r.a; }'
    elif k == 10: e, w = '[%s].length' % ','.join(['1'] * min(d, 5000)), min(d, 5000)
    elif k == 11: e, w, pre = 'f(%s)' % ','.join(['1'] * min(d, 1000)), min(d, 1000), 'function f() { return arguments.length; }'
    elif k == 12: e, w, pre = 'z', 7, 'var z = 0; ' + 'while (1) {' * small + 'z = 7; ' + 'break; }' * small
    else:
        e, w, post = 'x' + '', 7, ''
        pre = 'var x = ' + 'function() { return ' * min(d, 300) + '7;' + '};' * min(d, 300)
        post = 'while (typeof r == "function") { r = r(); }'
    src = 'Interp.conf({noCheck:true});\nvar r = "<error>"; try { r = eval(%s); %s } catch(ex) { r = "<error>"; };\nemit(r);\nemit(eval("[1,(2+3)]"));' % (jsstr(pre + ' ' + e), post)
    c.case(src[:300] + str(d) + str(k), d >= 50)
    c.rendered = src[:6000]
    c.label('text %d' % k)
    got = x.vals(src)
    ok = got[-1] == [1, 5] and len(got) == 2 and (got[0] == w or got[0] == b'<error>' and d > 100)
    if not ok: raise Violation('depth %d: got %r expected %r\n%s' % (d, got, w, src[:4000]))


CHECK = Check('C19', mk, [
    ('call depth', p_depth, {'quick': 260, 'thorough': 3000}),
    ('operation count', p_opcnt, {'quick': 600, 'thorough': 2000}),
    ('array size', p_list, {'quick': 350, 'thorough': 4000}),
    ('nesting limits', p_nestlim, {'quick': 250, 'thorough': 2500}),
    ('deep values', p_struct, {'quick': 110, 'thorough': 1200}),
    ('deep text', p_text, {'quick': 150, 'thorough': 1500}),
], 'non-trivial: beyond or near the limit')
