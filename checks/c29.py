"""C29: program text.  Oracle: no crash or hang for any text; metamorphic relations for layout, long tokens and Util.complete."""
import glob, os, re
from vt.core import Check, Violation
from vt.js import X, jsstr, raw, same, conv, UNDEF, show, UNPRIV
from vt.progen import Gen, DECL_J, EV_J


def mk(w): return X(w, user=UNPRIV)


TOK = ('{ } ( ) [ ] ; , : ? . = == === != !== < > <= >= + - * / % ++ -- & | ^ ~ ! && || << >> >>> += -= *= /= %= &= |= ^= <<= >>= >>>= => ... ** '
       'var let const function return if else for while do break continue switch case default throw try catch finally with in of instanceof typeof delete new this null true false undefined void '
       'NaN Infinity arguments import export class get set static debugger #! // /* */ # @ $ \\ ` \' " '
       'a b c x y z i f o p n s obj arr foo Math String Array Object JSON eval parseInt puts prototype length constructor __proto__ '
       '0 1 2 10 0x1f 1.5 1e3 .5 017 1e400 0x 1e 09 9007199254740993 "str" \'s\' "" "\\n" "\\u0041" `tpl` `a${b}c` /re/ /a[b/]c/g /(/ /x/gimsuy '
       'a.b a[0] a["k"] f() f(1,2) {a:1} [1,2] x=1 x++ (1) "a"+1 function(){} function(x){return x} new_ var_').split(' ')
SNIP = ['var a = 1;', 'function f(a,b) { return a+b; }', 'for (var i=0; i<3; i++) { a+=i; }', 'for (var k in {a:1,b:2}) { x = k; }', 'for (k of [1,2]) { x = k; }', 'while (i < 5) { i++; if (i == 3) { break; } }',
        'do { i++; } while (i < 9);', 'switch (a) { case 1: x = 2; break; case "b": default: x = 3; }', 'try { throw {a:1}; } catch(e) { x = e; } finally { y = 1; }', 'with ({q:1}) { q++; }', 'L1: for (;;) { for (;;) { break L1; } }',
        'var o = {a:1, "b":[1,2,{c:3}], d:function(x) { return this.a; }};', 'o.d(1); o["a"] = 2; delete o.a;', 'var g = (x) => x+1;', 'var h = function(n) { return n<=0 ? 0 : h(n-1); }; h(5);', 'new f(1,2);', 'x = a ? b : c ? 1 : 2;',
        'a = [1,2,3].map(function(x) { return x*2; });', '"abc".replace(/b/g, "x");', 'function v(a:number, b:string="q", ...):void { }', 'if (a) x=1; else if (b) { x=2; } else x=3;', 'var s = "a\\tb\\u00e9"; s.length;', 'let z = 5;',
        'x = typeof a == "number" && !b || c;', 'JSON.parse("[1,2]");', 'eval("1+1");', 'a = b = c = 5;', 'x = -a + +b - ~c;', '(function() { return arguments.length; })(1,2);', 'f.call(null, 1, 2); f.apply(null, [1,2]);', 'x = a in o; x = o instanceof f;',
        '/* comment */ // line\n', 'var {a,b} = o;', 'x = a, b;', ';;;', '{ a; { b; } }', 'o = {get x() { return 1; }, set x(v) { a = v; }};', 'format("%d %s", 1, "x");', 'x = [,1,,2,];', 'return 5;', 'break;', 'x = /[a-z]+/i.test("ABC");', 'provide("x", 1);', 'assert(true);']
_corp = []


def corpus():
    if not _corp:
        for f in sorted(glob.glob('/repo/tests/*.jsi') + glob.glob('/repo/lib/*.jsi')):
            try: b = open(f, 'rb').read()
            except OSError: continue
            if len(b) < 30000: _corp.append(b)
        _corp.append('\n'.join(SNIP).encode())
    return _corp


LEX = re.compile(rb'/\*.*?\*/|//[^\n]*|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|`(?:[^`\\]|\\.)*`|[A-Za-z_$][\w$]*|\.?\d(?:[eE][+-]\d|[\w.])*|\s+|>>>=|===|!==|>>>|<<=|>>=|&&|\|\||[-+*/%&|^=!<>]=|\+\+|--|<<|>>|=>|\.\.\.|.', re.S)


NOWAIT = re.compile(rb'\b(update|sleep|alarm|kill|vwait|exec|setInterval|setTimeout|callback|gets|accept)\b')


def text(c):
    k = c.int(0, 9)
    if k <= 2: return ' '.join(c.pick(TOK) for _ in range(c.size(1, 60))).encode(), 'tokens'
    if k == 3: return bytes(c.weighted([(6, c.int(32, 126)), (1, 10), (1, c.int(0, 255))]) for _ in range(c.size(1, 200))), 'bytes'
    if k <= 6:
        b, kind = '\n'.join(c.pick(SNIP) for _ in range(c.size(1, 8))).encode(), 'snippets'
    else:
        b, kind = c.pick(corpus()), 'file'
        if c.bool(70):
            # a part of lines
            L = b.split(b'\n')
            i = c.int(0, len(L) - 1)
            b = b'\n'.join(L[i:i + c.int(1, 40)])
    T = LEX.findall(b)
    for _ in range(c.int(1, 6)):
        if not T: break
        i = c.int(0, len(T) - 1)
        m = c.int(0, 9)
        if m <= 1: del T[i]
        elif m == 2: T.insert(i, c.pick(TOK).encode())
        elif m == 3: T[i] = c.pick(TOK).encode()
        elif m == 4:
            j = c.int(0, len(T) - 1)
            T[i], T[j] = T[j], T[i]
        elif m == 5: T[i:i] = T[i:i + c.int(1, 8)]
        elif m == 6: del T[i:]
        elif m == 7: T[i] = T[i][:c.int(0, len(T[i]))]
        elif m == 8 and T[i]:
            w = bytearray(T[i])
            w[c.int(0, len(w) - 1)] = c.int(0, 255)
            T[i] = bytes(w)
        else: T.insert(i, b" " + c.pick(SNIP).encode())
    return NOWAIT.sub(b'zz', b''.join(T)), kind


def p_any(c, x):
    """any text: a value or an error, and everything works afterwards"""
    b, kind = text(c)
    x.fresh()
    how = c.pick(['eval', 'eval', 'func', 'noeval'])
    body = b if how != 'func' else b'function zz() {\n' + b + b'\n}'
    src = 'var j = new Interp({isSafe:true, maxOpCnt:20000, maxDepth:60, maxArrayList:20000});\n'
    if how == 'noeval': src = 'var F = File.tempfile("/tmp/vtp_XXXXXX"); File.write(F, %s); try { source(F, {noEval:true}); } catch(ex) { 0; } File.remove(F);' % raw(b)
    else: src += 'try { j.eval(%s); } catch(ex) { 0; }' % raw(body)
    src += '\nemit(eval("1+2")); emit((function(x) { return x*2; })(21));'
    c.case(b.hex()[:2000] + how, len(b) > 3)
    c.rendered = src + '\n/* text:\n' + b.decode('utf8', 'backslashreplace') + '\n*/'
    c.label(kind)
    r = x.run(src, flags=1)
    if r.crashed or r.killed: raise Violation('crash or hang: %s\n%s\n%s' % (r.how, b.decode('utf8', 'backslashreplace'), show(r.err)))
    if not r.out.endswith(b'#3\n#42\n'): raise Violation('the interpreter is not usable afterwards: %r\n%s' % (r.summary()[-500:], c.rendered))


# ---- layout
def filler(c, nl=True, big=False):
    out = []
    for _ in range(c.weighted([(4, 0), (5, 1), (2, 2), (1, 4)])):
        k = c.int(0, 5)
        if k <= 1: out.append(c.pick([' ', '  ', '\t', ' \t ']))
        elif k == 2: out.append(c.pick(['\n', '\r\n', '\n\n']))
        else:
            t = ''.join(c.pick(['a', 'x1', ' ', '"', "'", '`', '{', '}', '(', ')', ';', '*', '**', '/', '//', '\\', '#', 'é', '=', 'function', '\t', 'var'] + (['\n'] if k == 3 else [])) for _ in range(c.size(0, 12)))
            if c.bool(3): t += c.pick(['x', '* ', '"']) * c.int(1000, 70000)
            if k == 3:
                t = t.replace('*/', '* ')
                out.append('/*' + t + ('' if not t.endswith('*') else ' ') + c.pick(['*/', '**/', '***/']))
            else: out.append('//' + t + '\n')
    return ''.join(out)


OPJ = set(re.findall(r'\S+', '+ - & | = < > ! * / % ^ ~ ? : . , ; ( ) [ ] { }'))


def relayout(c, j, dens):
    toks = [t.decode() for t in LEX.findall(j.encode())]
    out = []
    for t in toks:
        if not t.strip():
            # white space between two tokens
            if out and c.bool(30): t = c.pick([' ', '\n', '\t', '\r\n', '  \n '])
            out.append(t)
            if c.bool(dens): out.append(filler(c))
        else:
            if c.bool(dens):
                z = filler(c)
                out.append(' ' + z if z[:1] == '/' and out and out[-1][-1:] == '/' else z)
            out.append(t)
    return ''.join(out)


def p_layout(c, x):
    """white space, newlines and comments between tokens, and how the text is run, do not matter"""
    g = Gen(c, strict=True)
    j, _n = g.program(d=c.int(1, 4), budget=c.pick([12, 30, 60]))
    body = DECL_J + EV_J + j + 'emit(n0,n1,n2,i0,i1,s0,s1,b0,b1,o0,a0,o1);\n'
    lay = relayout(c, body, c.pick([5, 15, 40]))
    how = c.pick(['plain', 'plain', 'eval', 'source', 'func', 'bang', 'trail', 'newinterp'])
    wrap = {'plain': lambda t: t, 'eval': lambda t: 'eval(%s);' % raw(t.encode()), 'trail': lambda t: t.rstrip() + c.pick(['', ' ', '\n', '// end', '/* end */', '\n;;\n', '\t']),
            'source': lambda t: 'File.write("%s", %s); source("%s");' % (f, raw(t.encode()), f), 'bang': lambda t: 'File.write("%s", %s); source("%s");' % (f, raw(b'#!/usr/bin/env jsish -x "a\n' + t.encode()), f),
            'func': lambda t: '(function() {' + t + '\n})();', 'newinterp': lambda t: t}[how if how != 'func' or 'var f_' not in j and 'function' not in j else 'plain']
    f = x.tmp + '/lay.jsi'
    a = x.run(body, flags=0)
    b = x.run(wrap(lay), flags=0)
    c.case(lay, lay.count('/*') + lay.count('//') >= 1)
    c.label(how)
    c.rendered = '/* original */\n' + body + '\n/* laid out (' + how + ') */\n' + lay
    if b.crashed or b.killed or a.crashed or a.killed: raise Violation('crash or hang\n' + c.rendered)
    if a.out != b.out:
        la, lb = a.out.split(b'\n'), b.out.split(b'\n')
        k = next((i for i, (p, q) in enumerate(zip(la, lb)) if p != q), min(len(la), len(lb)))
        raise Violation('results depend on layout (%s): value %d is %r and was %r\nstderr %s\n%s' % (how, k, lb[k:k + 1], la[k:k + 1], show(b.err[:600]), show(lay)))


# ---- long tokens
def p_long(c, x):
    """identifiers, strings, numbers, comments, regular expressions, lists of any length"""
    x.fresh()
    k = c.pick(['ident', 'string', 'string', 'number', 'comment', 'regex', 'argl', 'chain', 'key', 'cat', 'switch', 'nl', 'vars', 'stmts', 'elseif', 'objlit', 'esc'])
    n = c.weighted([(2, c.int(1, 100)), (3, c.pick([255, 256, 1000, 1022, 1023, 1024, 4090, 4091, 4092, 4093, 4095, 4096, 4097, 8186, 8187, 8188, 8191, 8192, 8193]) + c.int(-2, 2)), (3, c.int(100, 20000)), (1, c.int(20000, 300000))])
    J = []
    if k == 'ident':
        n = min(n, 1000)
        v = 'a' + ''.join(c.pick('abcXYZ_$019') for _ in range(min(n, 8))) * (n // 8) + '_' * (n % 8)
        v = v[:1000]
        J.append('var %s = 5; %s += 2; var O_ = {%s:1}; O_.%s = %s; function f%s(%s) { return %s * 2; }; emit(%s, O_, f%s(21), typeof %sq);' % (v, v, v, v, v, v[1:], v, v, v, v[1:], v))
        want = [7, {v: 7}, 42, 'undefined']
    elif k in ('string', 'esc'):
        ch = 'abc"\'\\\n\té€😀\0 /*//' if k == 'esc' else 'abcdefé '
        base = ''.join(c.pick(ch) for _ in range(c.int(1, 12)))
        s = (base * (n // len(base) + 1))[:n]
        q = c.pick('"\'`')
        e = {'\\': '\\\\', '\n': '\\n', '\t': '\\t', '\0': '\\0', q: '\\' + q}
        lit = q + ''.join(e.get(z, z) for z in s) + q
        J.append('var s = %s; emit(s, s.length, %s === s); var o = {}; o[s] = 3; emit(o[%s]);' % (lit, lit, lit))
        want = [s, len(s), True, 3]
        if '\0' in s: J, want = ['var s = %s; emit(s.length, s);' % lit], [len(s), s]
    elif k == 'number':
        n = min(n, 480)
        s = ''.join(c.pick('0123456789') for _ in range(n))
        s = c.pick(['1', '7']) + s
        if c.bool(): s = s[:c.int(1, len(s))] + '.' + s[c.int(1, len(s)):] + '5'
        if c.bool(30): s += c.pick(['e5', 'E-7', 'e+10'])
        J.append('emit(%s);' % s)
        try: want = [float(s)]
        except OverflowError: want = [float('inf')]
    elif k == 'comment':
        t = c.pick(['x', '*', '/ ', '"', "'", '{', '\n', '**', '\\', 'é']) * n
        J.append('var a = 1;/*%s*/ a += 2;//%s\na *= 5; emit(a);' % (t.replace('*/', '* /').replace('/*', '/ *'), t.replace('\n', 'n')))
        want = [15]
    elif k == 'regex':
        n = min(n, 3000)
        J.append('var r = /^%s$/; emit(r.test("%s"), r.test("%s"));' % ('ab' * n, 'ab' * n, 'ab' * n + 'a'))
        want = [True, False]
    elif k == 'argl':
        n = min(n, 900)
        J.append('function f(...) { return arguments.length + arguments[%d]; }; emit(f(%s), [%s].length);' % (n - 1, ','.join(map(str, range(n))), ', '.join(['"a"'] * n)))
        want = [n + n - 1, n]
    elif k == 'chain':
        n = min(n, 3000)
        J.append('var x = 1; emit(x%s); emit(1%s); var o = {}; o.o = o; o.v = 9; emit(o%s.v);' % ('+1' * n, '&&2' * min(n, 1500), '.o' * n))
        want = [n + 1, 2, 9]
    elif k == 'key':
        s = ''.join(c.pick('abcé ') for _ in range(6)) * (n // 6) + 'z'
        J.append('var o = {%s:[1]}; emit(Object.keys(o)[0].length, o[%s][0], o);' % (jsstr(s), jsstr(s)))
        want = [len(s), 1, {s: [1]}]
    elif k == 'cat':
        n = min(n, 3000)
        J.append('var q = "z"; emit(%s);' % '+'.join(['q'] * n))
        want = ['z' * n]
    elif k == 'switch':
        n = min(n, 2000)
        w = c.int(0, n)
        J.append('var r = -1; switch (%d) { %s default: r = "d"; } emit(r);' % (w, ' '.join('case %d: r = %d; break;' % (i, i * 3) for i in range(n))))
        want = [w * 3 if w < n else 'd']
    elif k == 'nl':
        J.append('%svar a = 1;%semit(a);' % ('\n' * n, '\r\n' * n))
        want = [1]
    elif k == 'vars':
        n = min(n, 2000)
        J.append('%s\nemit(%s);' % ('\n'.join('var v%d = %d;' % (i, i) for i in range(n)), '+'.join('v%d' % i for i in range(n))))
        want = [n * (n - 1) // 2]
    elif k == 'stmts':
        n = min(n, 2500)
        J.append('var a = 0;%s emit(a); function f() { var b = 0; %s return b; } emit(f());' % ('a++;' * n, 'b += 2;' * n))
        want = [n, 2 * n]
    elif k == 'elseif':
        n = min(n, 800)
        w = c.int(0, n)
        J.append('var x = %d, r; %s { r = "e"; } emit(r);' % (w, ''.join('if (x == %d) { r = %d; } else ' % (i, i + 5) for i in range(n))))
        want = [w + 5 if w < n else 'e']
    else:
        n = min(n, 2000)
        J.append('var o = {%s}; emit(Object.keys(o).length, o.k%d);' % (','.join('k%d:%d' % (i, i) for i in range(n)), n - 1))
        want = [n, n - 1]
    src = J[0]
    c.case(src[:3000] + str(len(src)), len(src) > 300)
    c.rendered = src if len(src) < 20000 else src[:3000] + '...'
    c.label(k)
    how = c.int(0, 3)
    if how == 1: src = 'eval(%s);' % raw(src.encode())
    elif how == 2: src = 'var F = %s; File.write(F, %s); source(F);' % (jsstr(x.tmp + '/long.jsi'), raw(src.encode()))
    got = x.vals(src)
    if len(got) != len(want) or not all(same(a, conv(b)) for a, b in zip(got, want)):
        raise Violation('%s of length %d: got %s want %s\n%s' % (k, n, repr(got)[:600], repr(want)[:600], c.rendered[:2000]))


# ---- positions of errors
FILL = ['var v%d = %d ;', 'var v%d = [%d ] ;', 'function f%d ( x ) { return x+%d ; }', '// line %d of %d', '/* a%d\n\n%d */ ;', '', ' ', 'var v%d = "a\nb%d" ;', 'for ( var i%d=0 ; i%d<2 ; i%d++ ) { 1 ; }', 'if ( %d < 0 ) { 1 ; }\n', 'var v%d = `x\n\ny%d` ;', 'var v%d = {a:1, \n b:%d } ;', 'try { throw %d ; } catch ( e ) { 1 ; }', '\r', 'Math.abs( %d ) ;']
ERRS = [('throw "boom" ;', 'boom'), ('nosuch_fn ( 1 ) ;', 'nosuch_fn'), ('UU.q.r = 5 ;', 'non-exist'), ('"x".substr ( { } ) ;', 'type mismatch'), ('parseInt ( 1, 2, 3 ) ;', 'parseInt'), ('JSON.parse ( "{" ) ;', ''), ('new UU ( ) ;', ''), ('String.nosuch ( ) ;', '')]


def p_lines(c, x):
    """an error names the file and the line where it was raised"""
    x.fresh()
    L = ['var UU = { } ;']
    cnt = [0]

    def fill(n):
        for _ in range(n):
            s = c.pick(FILL)
            cnt[0] += 1
            L.extend((s % ((cnt[0],) * s.count('%d'))).split('\n'))
    fill(c.size(0, 12))
    err, word = c.pick(ERRS)
    depth = c.int(0, 4)
    where = None
    calls = []
    kind = c.pick(['plain', 'if', 'for', 'method', 'inner'])
    if depth:
        for d in range(depth):
            if kind == 'method' and d == 0: L.append('var mm0 = {g:function ( x ) {')
            else: L.append('function gg%d ( x ) {' % d)
            fill(c.size(0, 4))
            if kind == 'if': L.append('if ( x ) {')
            elif kind == 'for': L.append('for ( var j=0 ; j<1 ; j++ ) {')
            if d == 0:
                where = len(L) + 1
                L.append('  ' + err)
            else:
                calls.append((len(L) + 1, d - 1))
                L.append('  mm0.g ( %d ) ;' % d if kind == 'method' and d == 1 else '  gg%d ( %d ) ;' % (d - 1, d))
            if kind in ('if', 'for'): L.append('}')
            fill(c.size(0, 3))
            L.append('} } ;' if kind == 'method' and d == 0 else '} ;')
            fill(c.size(0, 3))
        calls.append((len(L) + 1, depth - 1))
        L.append('mm0.g ( 9 ) ;' if kind == 'method' and depth == 1 else 'gg%d ( 9 ) ;' % (depth - 1))
    else:
        where = len(L) + 1
        L.append(err)
    fill(c.size(0, 5))
    txt = '\n'.join(L) + '\n'
    F = x.tmp + '/ln%d.jsi' % c.int(0, 3)
    how = c.pick(['catch', 'catch', 'main', 'source', 'include'])
    c.case(txt, where > 3)
    c.label(how, kind, depth and 'in function' or 'top')
    c.rendered = '// %s line %d\n%s' % (how, where, txt)
    open(F, 'w').write(txt)
    os.chmod(F, 0o644)
    if how == 'catch':
        got = x.vals('try { source(%s); emit("none"); } catch(e) { var E = Info.error(); emit(E.file, E.line, e); }' % jsstr(F))
        if len(got) != 3 or not same(got[0], conv(F)) or got[1] != where or word.encode() not in got[2]: raise Violation('error position: got %r want %r line %d\n%s' % (got, F, where, c.rendered))
        return
    if how == 'main': r = x.cli([F])
    else:
        G = x.tmp + '/lnmain.jsi'
        open(G, 'w').write('\n\nvar q = 1 ;\n%s\n' % ('source(%s) ;' % jsstr(F) if how == 'source' else 'function inc(f) {\n source(f) ;\n} ;\ninc(%s) ;' % jsstr(F)))
        os.chmod(G, 0o644)
        r = x.cli([G])
    e = r.stderr.decode("utf8", "replace")
    b = os.path.basename(F)
    m = re.findall(r'(?:^|/)%s:(\d+): error:(.*)' % re.escape(b), e, re.M)
    if r.returncode != 1 or not m or int(m[0][0]) != where or word not in m[0][1]:
        raise Violation("uncaught error: rc %d, positions %r, want line %d with %r\n%s\n%s" % (r.returncode, m, where, word, e, c.rendered))
    if depth:
        bt = re.findall(r'^#\d+: (\S+?):(\d+): (.*)$', e, re.M)
        mine = [int(l) for f, l, _ in bt if f == b]
        want = [l for l, _ in reversed(calls)] + [where]
        if mine != want: raise Violation('call backtrace of %s: lines %r want %r\n%s\n%s' % (b, mine, want, e, c.rendered))


# ---- completeness of a line
def balanced(s):
    i, n, cnt, q = 0, len(s), 0, ''
    while i < n:
        ch = s[i]
        if ch == '\\': i += 1
        elif q:
            if ch == q: q = ''
        elif ch in '([{': cnt += 1
        elif ch in ')]}': cnt -= 1
        elif ch in '"\'': q = ch
        elif s.startswith('//', i):
            while i < n and s[i] != '\n': i += 1
        elif s.startswith('/*', i):
            i = s.find('*/', i + 2) + 1
            if not i: return False
        i += 1
    return not q and cnt <= 0


def p_complete(c, x):
    """Util.complete: text of balanced brackets and quotes is complete, an unfinished one is not"""
    def bal(d):
        out = ''
        for _ in range(c.size(0, 4)):
            k = c.int(0, 6)
            if k <= 1: out += c.pick(['a', ' ', ';', '1+2', '\n', 'é', '/', '.b', '\\(', "\\'", '\\"', '\\\\', '\\]'])
            elif k <= 4 and d > 0:
                p = c.pick(['()', '[]', '{}'])
                out += p[0] + bal(d - 1) + p[1]
            else: out += c.pick(['"a b"', "'x'", '""', '"\\""', "'\\''"])
        return out
    s = bal(c.int(0, 5))
    full = balanced(s)
    if c.bool():
        full = False
        i = c.int(0, len(s))
        while i and s[i - 1] == '\\': i -= 1
        s = s[:i] + c.pick(['(', '[', '{', '"', "'", '/*', '//', '/* ) */', '//"\n', '"(']) + s[i:]
        full = balanced(s)
        c.label('complete' if full else 'incomplete')
    c.case(s, len(s) > 2)
    c.rendered = 'emit(Util.complete(%s));' % jsstr(s)
    if x.vals(c.rendered) != [full]: raise Violation('Util.complete(%r) is not %r' % (s, full))


CHECK = Check('C29', mk, [
    ('any text', p_any, {'quick': 6000, 'thorough': 90000}),
    ('layout', p_layout, {'quick': 2000, 'thorough': 30000}),
    ('long tokens', p_long, {'quick': 600, 'thorough': 8000}),
    ('error lines', p_lines, {'quick': 2000, 'thorough': 10000}),
    ('complete', p_complete, {'quick': 300, 'thorough': 4000}),
], 'token soup, mutated snippets and source files, random bytes (non-trivial: longer than 3 bytes); programs laid out anew (at least one comment); tokens and lists up to 300000 (text longer than 300); errors at known lines (beyond line 3); bracketed text')
