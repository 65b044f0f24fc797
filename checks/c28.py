"""C28: the jsish program: running scripts, tests (-t, -update, --T), interactive input, exit status."""
import os, re
from vt.core import Check, Discard, Violation
from vt.js import X, jsstr, expect, show, UNPRIV


def mk(w): return X(w, user=UNPRIV)


WORDS = ['alpha', 'x', 'a-b', '42', 'hello world', '%s', 'é♥', "it's", 'tab\there', '==>', '[PASS]', ' lead', 'q' * 300, '', '0', '<b>', '&', '\\', '# x', '100%', '%d %%']
EXPRS = [('1+2', '3'), ('"a"+"b"', 'ab'), ('"é♥"', 'é♥'), ('[1,2]', '[ 1, 2 ]'), ('null', 'null'), ('undefined', 'undefined'), ('true', 'true'), ('1.5*2', '3'), ('"abc".length', '3'), ('"q".repeat(3)', 'qqq'),
         ('{a:1}', '{ a:1 }'), ('[]', '[]'), ('NaN', 'NaN'), ('F(4)', '5'), ('G.k', 'v'), ('typeof F', 'function'), ('/b/.test("abc")', 'true'), ('"a%db"', 'a%db'), ('(1,2)', '1 2'[2:]), ('5 > 3 && "yes"', 'true'), ('-7 % 4', '-3'), ('String(12)', '12')]
EXPRS = [(e, r) for e, r in EXPRS if e not in ('(1,2)', '5 > 3 && "yes"')]
THROWS = [("throw 'e1'", 'e1'), ('throw "e 2"', 'e 2'), ('throw 5', '5'), ('T("q")', 'T:q'), ("T('w z')", 'T:w z')]
HEAD = 'function F(n) { return n+1; }\nvar G = {k:"v"};\nfunction T(s) { throw "T:"+s; }\n'


def item(c, throws=True):
    """(source lines, output)"""
    k = c.weighted([(4, 'puts'), (5, 'expr'), (2, 'note'), (2, 'printf'), (2 * throws, 'throw'), (2, 'loop'), (1, 'comment'), (1, 'plain'), (1, 'try'), (1, 'nothrow'), (1, 'func'), (1, 'assert'), (1, 'blank')])
    if k == 'puts':
        t = c.pick(WORDS)
        return 'puts(%s);\n' % jsstr(t), t + '\n'
    if k == 'expr':
        e, r = c.pick(EXPRS)
        if c.bool(8): e, r = '"%s"' % ('z' * c.pick([100, 400, 900])), None
        if r is None: r = e[1:-1]
        return ';%s%s;\n' % (c.pick(['', '', ' ', '  ']), e), '%s ==> %s\n' % (e, r)
    if k == 'note':
        t = c.pick(['a comment', 'x', 'with "quotes"', '%s %d', 'é'])
        return ';%s\'%s\';\n' % (c.pick(['', ' ']), t), "'%s'\n" % t
    if k == 'printf':
        t = c.pick(WORDS).replace('%', '')
        return 'printf(%s);puts("");\n' % jsstr(t), t + '\n'
    if k == 'throw':
        e, r = c.pick(THROWS)
        return ';//%s%s;\n' % (c.pick(['', ' ']), e), '%s ==>\n[PASS]!: err = %s\n' % (e, r)
    if k == 'loop':
        n = c.int(1, 5)
        v = 'i%d' % c.int(0, 10**6)
        return 'for (var %s=0; %s<%d; %s++) {\n  puts("n"+%s);\n}\n' % (v, v, n, v, v), ''.join('n%d\n' % i for i in range(n))
    if k == 'comment': return c.pick(['// a line\n', '/* block\n two */\n', '/* x */ // y\n']), ''
    if k == 'plain': return c.pick(['G.z = 1;\n', 'F(2);\n', '1+1;\n']), ''
    if k == 'try': return 'try {\n  throw "in";\n} catch(e) {\n  puts("caught "+e);\n}\n', 'caught in\n'
    if k == 'nothrow': return 'puts("");\n', '\n'
    if k == 'func': return 'puts((function(a) {\n;"inner"+a;\nreturn a*2; })(4));\n', '"inner"+a ==> inner4\n8\n'
    if k == 'assert': return 'assert(true);\nassert(1<2, "bad");\n', ''
    return '\n', ''


def body(c, throws=True):
    src, out = HEAD, ''
    if c.bool(20): src = '#!/usr/bin/env jsish\n' + src
    for _ in range(c.size(1, 10)):
        s, o = item(c, throws)
        src += s
        out += o
    return src, out


def put(x, D, name, s):
    p = os.path.join(D, name)
    open(p, 'w').write(s)
    os.chown(p, UNPRIV, UNPRIV)
    return p


def block(s): return '\n/*\n=!EXPECTSTART!=\n' + s + '=!EXPECTEND!=\n*/\n'


def strip(b): return re.sub(r'[ \t]*\([\d.]+ ms\)', '', b.decode('utf8', 'replace'))


def want_rc(p, rc, what, src):
    if p.returncode != rc: raise Violation('%s: exit status %d, want %d\nstdout: %s\nstderr: %s\n%s' % (what, p.returncode, rc, show(p.stdout), show(p.stderr), src))


def mutate(c, out):
    """a different expected text"""
    L = out.split('\n')[:-1]
    k = c.int(0, 5)
    if k == 0 or not L: L.insert(c.int(0, len(L)), 'extra')
    elif k == 1: del L[c.int(0, len(L) - 1)]
    elif k == 2:
        i = c.int(0, len(L) - 1)
        L[i] += c.pick(['x', ' ', '.'])
    elif k == 3:
        i = c.int(0, len(L) - 1)
        L[i] = L[i][:-1] if L[i] else 'y'
    elif k == 4: L.append('')
    else:
        i = c.int(0, len(L) - 1)
        L[i] = L[i].swapcase() if L[i].swapcase() != L[i] else 'Q' + L[i]
    r = ''.join(l + '\n' for l in L)
    return r if r != out else 'first\n' + out


def one(c, x):
    """one test file: PASS exactly if the output is the expected text; -update writes it"""
    D = x.fresh('t')
    mode = c.pick(['pass', 'fail', 'none', 'update', 'reupdate', 'error', 'T', 'input'])
    src, out = body(c, throws=mode != 'none')
    name = c.pick(['a.jsi', 't est.jsi', 'b.js', 'é.jsi'])
    if ' ' in name: name = 'tt.jsi'
    rel = c.pick([name, './' + name, os.path.join(D, name)])
    c.rendered = src
    c.label(mode)

    def t(*a): return x.cli(['-t'] + list(a) + [rel], cwd=D)
    if mode in ('pass', 'fail'):
        e = out if mode == 'pass' else mutate(c, out)
        full = c.pick([lambda: src + block(e), lambda: block(e).lstrip() + src])()
        if src.startswith('#!'): full = src + block(e)
        put(x, D, name, full)
        c.rendered = full
        p = t()
        want_rc(p, 0 if mode == 'pass' else 1, '-t', full)
        L = strip(p.stdout)
        w = '[PASS] ' + rel if mode == 'pass' else '[FAIL] ' + rel
        if w not in L or ('[FAIL] ' + rel in L) != (mode == 'fail'): raise Violation('-t printed %r\n%s' % (L, full))
        if open(os.path.join(D, name)).read() != full: raise Violation('-t changed the file\n' + full)
        if mode == 'fail' and e and out:
            eo, oo = e.split('\n'), out.split('\n')
            i = next((i for i in range(min(len(eo), len(oo))) if eo[i] != oo[i]), None)
            m = re.search(r'at line (\d+) of output:', L)
            if m and i is not None and int(m.group(1)) != i + 1: raise Violation('-t names line %s, the first difference is at %d\n%s\n%s' % (m.group(1), i + 1, L, full))
            if len(eo) == len(oo) and not m: raise Violation('-t names no line\n%s\n%s' % (L, full))
    elif mode == 'none':
        put(x, D, name, src)
        p = t()
        want_rc(p, 0, '-t of a script without expected text', src)
        if '[PASS]' not in strip(p.stdout): raise Violation('-t printed %r\n%s' % (p.stdout, src))
    elif mode == 'error':
        i = c.int(0, 2)
        bad = src + c.pick(['throw "up";\n', 'nosuch.x.y = 1;\n', 'F(1;\n', 'T("deep");\n', 'G.nosuch();\n'])
        put(x, D, name, bad + (block(out) if c.bool() else ''))
        p = t()
        want_rc(p, 1, '-t of a script with an error', bad)
        if '[FAIL]' not in strip(p.stdout) or '[PASS] ' + rel in strip(p.stdout): raise Violation('-t printed %r\n%s' % (p.stdout, bad))
    elif mode in ('update', 'reupdate'):
        if '*/' in out: raise Discard()
        full = src if mode == 'update' else src + block(mutate(c, out)) + c.pick(['', '// tail\n', 'G.y = 2;\n'])
        put(x, D, name, full)
        p = t('-update', c.pick(['1', 'true']))
        want_rc(p, 0, '-update', full)
        new = open(os.path.join(D, name)).read()
        if mode == 'update': w = src + block(out)
        else:
            a = full.index('=!EXPECTSTART!=')
            b = full.index('=!EXPECTEND!=')
            w = full[:a] + '=!EXPECTSTART!=\n' + out + full[b:]
        if new != w: raise Violation('-update wrote\n%s\nwant\n%s' % (new, w))
        p = t()
        want_rc(p, 0, '-t after -update', new)
        if '[PASS]' not in strip(p.stdout): raise Violation('after -update: %r\n%s' % (p.stdout, new))
        p = t('-update', '1')
        want_rc(p, 0, 'second -update', new)
        if open(os.path.join(D, name)).read() != new: raise Violation('the second -update changed the file again\n' + new)
    elif mode == 'input':
        L = [c.pick(['45', ' a b', '', 'x y', 'é', '%s', 'z' * 200]) for _ in range(c.int(1, 5))]
        inp = ''.join(l + '\n' for l in L)
        s2 = 'var l;\nwhile ((l=console.input())!==undefined) { puts("<"+l+">"); }\nputs("end");\n'
        e = ''.join('<%s>\n' % l for l in L) + 'end\n'
        full = s2 + '\n/*\n=!INPUTSTART!=\n' + inp + '=!INPUTEND!=\n*/\n' + block(e)
        put(x, D, name, full)
        c.rendered = full
        p = t()
        want_rc(p, 0, '-t with input', full)
        p = x.cli([rel], cwd=D, input=inp.encode())
        want_rc(p, 0, 'script with input', full)
        if p.stdout.decode() != e: raise Violation('with input %r the script printed %r, want %r' % (inp, p.stdout, e))
    else:
        put(x, D, name, src)
        p = x.cli(c.pick([['--T'], ['--I', 'testMode=1'], ['--T', '--I', 'noES6=false'], ['--I', 'maxDepth=900', '--T']]) + ['--I', 'asserts', rel][2 if 'assert' not in src else 0:], cwd=D)
        want_rc(p, 0, '--T', src)
        if p.stdout.decode('utf8', 'replace') != out: raise Violation('--T printed %r, want %r\n%s' % (p.stdout.decode('utf8', 'replace'), out, src))
    c.case(mode + src, len(out) > 10)
    c.sample('%s\n%s' % (mode, src))


def many(c, x):
    """several test files or a directory: the exit status is the number of failures"""
    D = x.fresh('m')
    os.mkdir(D + '/d')
    n = c.int(2, 6)
    fs = []
    for i in range(n):
        src, out = body(c)
        k = c.pick(['pass', 'pass', 'fail', 'error'])
        s = src + block(mutate(c, out) if k == 'fail' else out)
        if k == 'error': s = src + 'throw "up";\n' + block(out)
        nm = '%s%d.%s' % (c.pick('abz'), i, c.pick(['jsi', 'jsi', 'js']))
        put(x, D + '/d', nm, s)
        fs.append((nm, k))
    if c.bool(40): put(x, D + '/d', 'readme.txt', 'not a test')
    isdir = c.bool()
    order = sorted(fs) if isdir else fs
    if not isdir and c.bool(): order = c.perm(fs)
    args = ['-t']
    fmax = 0
    if c.bool(25):
        fmax = c.int(1, 3)
        args += ['-failMax', str(fmax)]
    args += [c.pick(['d', './d', D + '/d', 'd/'])] if isdir else ['d/' + f for f, _ in order]
    run, fails = [], 0
    for f, k in order:
        run.append((f, k))
        fails += k != 'pass'
        if fmax and fails >= fmax: break
    c.rendered = '%r\n%r' % (args, order)
    p = x.cli(args, cwd=D)
    want_rc(p, fails, repr(args), c.rendered)
    L = strip(p.stdout)
    got = re.findall(r'^(?:Test \S+ )?\r?\[(PASS|FAIL)\] \S*?([^/\s]+)\s*$', L.replace('\r', '\n'), re.M)
    w = [('PASS' if k == 'pass' else 'FAIL', f) for f, k in run]
    if got != w: raise Violation('%r reported %r, want %r\n%s' % (args, got, w, L))
    m = re.search(r'^(\d+) FAIL, (\d+) PASS', L, re.M)
    if len(run) > 1 and (not m or (int(m.group(1)), int(m.group(2))) != (fails, len(run) - fails)): raise Violation('summary %r, want %d fail %d pass\n%s' % (m and m.group(0), fails, len(run) - fails, L))
    c.case(c.rendered, 0 < fails < len(run))
    c.label('directory' if isdir else 'files')
    c.sample(c.rendered)


ARGS = ['a', '', ' ', 'b c', '-x', '--y', '-e', '--E', '"q"', "'", '\\', 'é♥', '*', '$HOME', 'a\nb', '%s', '-', '0', 'q' * 500, '-t', '--I']


def runs(c, x):
    """arguments, output and exit status of a script"""
    D = x.fresh('r')
    args = c.list(0, 6, lambda: c.pick(ARGS))
    out, err, rc = '', False, 0
    src = ''
    pre = []
    z = None
    for _ in range(c.int(0, 3)):
        k = c.int(0, 3)
        if k == 0 and z is None: z = c.int(1, 99); pre += ['--E', 'var Z=%d;' % z]
        elif k == 1: pre += ['--I', c.pick(['maxDepth=800', 'noCheck', 'noCheck=true', 'maxDepth:900'])]
        elif k == 2: t = c.pick(['pre', 'é']); pre += ['--E', 'puts(%s);' % jsstr(t)]; out += t + '\n'
        elif k == 3: pre += ['--T']
    if c.bool(80):
        src += 'puts(console.args.length);\nfor (var k=0; k<console.args.length; k++) { puts("<"+console.args[k]+">"); }\n'
        out += '%d\n' % len(args) + ''.join('<%s>\n' % a for a in args)
    if z is not None: src += 'puts(Z);\n'; out += '%d\n' % z
    big = c.pick([0, 0, 1, 100, 3000, 20000])
    if big: src += 'for (var i=0; i<%d; i++) { puts("line "+i); }\n' % big; out += ''.join('line %d\n' % i for i in range(big))
    if c.bool(30): src += 'printf("no newline");\n'; out += 'no newline'
    fin = c.weighted([(3, 'none'), (4, 'exit'), (2, 'exitf'), (1, 'exitcb'), (1, 'exittimer'), (2, 'throw'), (1, 'throwf'), (1, 'parse'), (1, 'undef'), (2, 'value'), (1, 'exittry'), (1, 'exitsub')])
    code = c.weighted([(2, 0), (5, c.int(1, 127)), (1, c.pick([128, 255, 256, 300, -1, -5]))])
    erc = 127 if code < 0 or code > 127 else code
    after = 'puts("AFTER");\n'
    if fin == 'exit': src += 'exit(%s);\n' % ('' if code == 0 and c.bool() else code) + after; rc = erc
    elif fin == 'exitf': src += 'function q(n) { if (n<1) exit(%d); q(n-1); puts("IN"); }\nq(%d);\n' % (code, c.int(0, 5)) + after; rc = erc
    elif fin == 'exitcb': src += '[1,2,3].forEach(function(e) { puts("cb"+e); if (e==2) exit(%d); });\n' % code + after; rc = erc; out += 'cb1\ncb2\n'
    elif fin == 'exittimer': src += 'setTimeout(function() { puts("t"); exit(%d); }, 5);\nupdate(500);\n' % code + after; rc = erc; out += 't\n'
    elif fin == 'exittry': src += 'try { exit(%d); } catch(e) { puts("C"); }\n' % code + after; rc = erc
    elif fin == 'exitsub': src += 'var I=new Interp(); I.eval("exit(%d);"); puts("still");\n' % code; out += 'still\n'
    elif fin == 'throw': src += 'throw %s;\n' % c.pick(['"up"', '5', '{a:1}']) + after; rc = 1; err = True
    elif fin == 'throwf': src += 'function w(n) { if (n<1) { throw "deep"; } w(n-1); }\nw(%d);\n' % c.int(0, 4) + after; rc = 1; err = True
    elif fin == 'undef': src += 'nosuchf();\n' + after; rc = 1; err = True
    elif fin == 'parse': src = src + 'var = 5;\n'; rc = 1; err = True; out = ''.join(l for l in [o + '\n' for o in out.split('\n')] if False)
    if fin == 'parse': out = ''.join(jsout(p) for p in pairs(pre))
    how = c.pick(['file', 'file', 'e', 'path', 'bang'])
    val = None
    if fin == 'value':
        v, t = c.pick([('5', '5'), ('"s"', '"s"'), ('[1,"a"]', '[ 1, "a" ]'), ('{a:1}', '{ a:1 }'), ('null', 'null'), ('true', 'true'), ('"é"', '"é"')])
        src += 'return %s;\n' % v
        if out and not out.endswith('\n'): src = src.replace('printf("no newline");\n', 'puts("no newline");\n'); out = out + '\n'
        out += t + '\n'
    if how == 'e':
        if '--T' in pre: pre = [p for p in pre if p != '--T']
        argv = pre + ['-e', src]
        if not src.strip(): raise Discard()
    else:
        nm = c.pick(['s.jsi', 'sub.js', 'noext', 'é.jsi'])
        if how == 'bang': src = '#!/usr/bin/env jsish -x\n' + src
        put(x, D, nm, src)
        argv = pre + [os.path.join(D, nm) if how == 'path' else nm]
    c.rendered = '%r\n%s' % (argv + args, src)
    p = x.cli(argv + args, cwd=D)
    g = p.stdout.decode('utf8', 'replace')
    if g != out: raise Violation('output %s\nwant %s\nstderr %s\n%s' % (show(g), show(out), show(p.stderr), c.rendered))
    want_rc(p, rc, 'script', c.rendered)
    if err != bool(p.stderr.strip()): raise Violation('standard error %r\n%s' % (p.stderr, c.rendered))
    if err and how in ('file', 'path', 'bang') and (fin in ('undef', 'parse', 'throwf') or 'throw "up"' in src):
        # file and line of the error
        L = src.split('\n')
        pat = {'throw': 'throw ', 'undef': 'nosuchf', 'parse': 'var = 5', 'throwf': 'throw "deep"'}[fin]
        i = [k for k, l in enumerate(L) if pat in l and 'puts' not in l][-1] + 1
        if ('%s:%d' % (nm, i)).encode() not in p.stderr: raise Violation('standard error does not name %s:%d: %s\n%s' % (nm, i, show(p.stderr), c.rendered))
    c.case(c.rendered, rc != 0 or bool(args))
    c.label(fin)
    c.label(how)
    c.sample(c.rendered[:2000])


def pairs(pre):
    r, i = [], 0
    while i < len(pre):
        if pre[i] == '--T': i += 1; continue
        r.append((pre[i], pre[i + 1]))
        i += 2
    return r


def jsout(p):
    m = re.match(r'puts\("(.*)"\);$', p[1]) if p[0] == '--E' else None
    if not m: return ''
    return ('é' if m.group(1) != 'pre' else 'pre') + '\n'


def interactive(c, x):
    """lines of standard input: each complete statement is evaluated, its value shown; errors do not end the session"""
    src, out, errs, rc = '', '', 0, 0
    vs = {}
    for _ in range(c.size(1, 12)):
        k = c.weighted([(3, 'expr'), (3, 'var'), (2, 'use'), (2, 'puts'), (2, 'func'), (2, 'err'), (1, 'blank'), (1, 'multi'), (1, 'exit'), (1, 'undef'), (1, 'long'), (3, 'quote')])
        if k == 'expr':
            e, r = c.pick([('1+1', '2'), ('"abc"', '"abc"'), ('[1,"q"]', '[ 1, "q" ]'), ('{a:1}', '{ a:1 }'), ('null', 'null'), ('true', 'true'), ('1.5', '1.5'), ('"é".length', '1'), ("'%s%d'", '"%s%d"'), ('"a\\tb".length', '3'), ('NaN', 'NaN'), ('(1,2)'[1:2], '1')])
            src += e + '\n'; out += r + '\n'
        elif k == 'var':
            n = c.pick('abcd')
            v = c.int(0, 99)
            src += 'var %s = %d%s\n' % (n, v, c.pick([';', ''])); vs[n] = v
            out += 'variable\n'
        elif k == 'use' and vs:
            n = c.pick(sorted(vs))
            src += '%s*2\n' % n; out += '%d\n' % (vs[n] * 2)
        elif k == 'puts':
            t = c.pick(WORDS)
            src += 'puts(%s);\n' % jsstr(t); out += t + '\n'
        elif k == 'func':
            n = c.int(0, 9)
            src += c.pick(['function f%d(a) {\n  return a+%d;\n}\n', 'function f%d(a) { return a+%d; }\n', 'function f%d(a)\n{\n\nreturn (a+\n%d); }\n'][:2]) % (n, n) + 'f%d(5)\n' % n
            out += '%d\n' % (5 + n)
        elif k == 'err':
            src += c.pick(['throw "zz";\n', 'nosuch();\n', 'var = 4;\n', '1 +* 2;\n']); errs += 1
        elif k == 'blank': src += c.pick(['\n', '  \n', '\n\n'])
        elif k == 'multi':
            src += 'for (var i=0; i<3; i++) {\n puts("i"+i);\n}\n'; out += 'i0\ni1\ni2\n'
        elif k == 'undef': src += 'undefined\n'
        elif k == 'quote':
            d = c.pick('"\'')
            t = ''.join(c.pick('"\'{}[]()\\/*ab;') for _ in range(c.int(0, 8)))
            lit = d + ''.join('\\' + ch if ch in (d, '\\') else ch for ch in t) + d
            cm = c.weighted([(3, ''), (1, ' // ' + t.replace('\\', '')), (1, ' /* ' + t.replace('*', '').replace('/', '').replace('\\', '') + ' */')])
            src += c.pick(['', '/* ( */ ']) + '%s.length%s\n' % (lit, cm); out += '%d\n' % len(t)
        elif k == 'long':
            n = c.pick([500, 1000, 1012, 1013, 1014, 1015, 1023, 1024, 1025, 2048, 5000, 8180, 8181, 8182, 8183, 8184, 8191, 8192, 9000, 20000])
            src += '"%s".length\n' % ('y' * n); out += '%d\n' % n
        elif k == 'exit':
            code = c.pick([0, 1, 3, 77, 127, 128, 300, -1])
            src += 'exit(%d);\n' % code
            rc = 127 if code < 0 or code > 127 else code
            src += 'puts("after exit");\n'
            break
    if c.bool(25): src = src.rstrip('\n')
    c.rendered = src
    p = x.cli([], input=src.encode())
    g = p.stdout.decode('utf8', 'replace')
    g = g.split('\n', 1)[1] if g.startswith('Jsish interactive') else g
    ig = re.compile('^variable\n', re.M)
    if ig.sub('', g) != ig.sub('', out): raise Violation('interactive input\n%s\nprinted %s\nwant %s\nstderr %s' % (src, show(g), show(out), show(p.stderr)))
    want_rc(p, rc, 'interactive', src)
    n = len(re.findall('^ERROR', p.stderr.decode('utf8', 'replace'), re.M))
    if n != errs: raise Violation('%d errors reported, want %d\n%s\n%s' % (n, errs, show(p.stderr), src))
    c.case(src, src.count('\n') > 1)
    c.label('errors' if errs else 'no errors')
    c.sample(src[:1500])


def badopts(c, x):
    """options that do not exist: an error, nothing is run"""
    D = x.fresh('b')
    put(x, D, 's.jsi', 'puts("RUN");\n')
    k = c.int(0, 6)
    good = ['--I', 'noCheck'] if c.bool() else []
    argv = good + [['--I', 'nosuchopt', 's.jsi'], ['--I', 'nosuch=5', 's.jsi'], ['--I', 'maxDepth=abc', 's.jsi'], ['--E', 'var = 5;', 's.jsi'], ['--E', 'throw "x";', 's.jsi'], ['nofile.jsi'], ['-Q', 's.jsi']][k] + c.list(0, 2, lambda: c.pick(ARGS[:4]))
    p = x.cli(argv, cwd=D)
    if p.returncode == 0 or b'RUN' in p.stdout: raise Violation('%r: exit status %d, output %r' % (argv, p.returncode, p.stdout))
    code = c.int(0, 127)
    p = x.cli(['--E', 'puts("q"); exit(%d);' % code, 's.jsi'], cwd=D)
    if (p.returncode, p.stdout) != (code, b'q\n'): raise Violation('exit(%d) in --E: %r %r' % (code, p.returncode, p.stdout))
    c.case(repr(argv) + str(code), True)
    c.sample(repr(argv))


def pr(f): return f
PROBES = []
PROPS = [('test files', one, {'quick': 400, 'thorough': 8000}), ('directories', many, {'quick': 60, 'thorough': 1500}), ('scripts', runs, {'quick': 500, 'thorough': 10000}),
         ('interactive', interactive, {'quick': 300, 'thorough': 8000}), ('bad options', badopts, {'quick': 30, 'thorough': 300})]
CHECK = Check('C28', mk, PROPS, 'test files: generated scripts with known output run with -t (expected text right, wrong, absent), -update, --T, with input, non-trivial = more than 10 bytes of output; directories: 2-6 files, non-trivial = both passes and failures; scripts: arguments, --E/--I/--T, output, errors and exit status, non-trivial = arguments or a status other than 0; interactive: statements on standard input, non-trivial = more than one line; bad options: all', probes=PROBES)
