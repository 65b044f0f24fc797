"""C33: the bundled tools: Zip (-z), Archive (-a), Csspp, Jspp (-J), Htmlpp, Safe (-s).
Oracles: Python's zipfile, the substitution done in Python, and (for Jspp) the converted program run by node
against the original run by jsish."""
import ast, os, re, zipfile, zlib
from vt.core import Check, Violation
from vt.js import X, jsstr, show, UNPRIV
from vt.nodeor import Node
from checks.c22 import data


def mk(w):
    x = X(w, user=UNPRIV)
    x.node = Node()
    return x


NAMES = ['a', 'b.txt', 'c.jsi', 'long' * 20, 'with space', 'd-e_f', 'ü', 'x.y.z', 'q%41', '1', 'README', 'main.js', 'a~', 'a+b', '(p)']


def tree(c, nmax=9, empty=True):
    t, dirs = {}, ['']
    for _ in range(c.size(1, nmax)):
        p = c.pick(dirs) + c.pick(NAMES) + (str(c.int(0, 20)) if c.bool(30) else '')
        if p in t or p + '/' in t: continue
        if c.bool(30):
            t[p + '/'] = None
            dirs.append(p + '/')
        else: t[p] = data(c)
    if not any(v is not None for v in t.values()): t['z'] = b'zz'
    return t


def lay(x, D, t):
    os.makedirs(D, exist_ok=True)
    os.chown(D, UNPRIV, UNPRIV)
    for p in sorted(t):
        q = os.path.join(D, p)
        if t[p] is None: os.makedirs(q, exist_ok=True)
        else: open(q, 'wb').write(t[p])
        os.chown(q, UNPRIV, UNPRIV)


def look(D):
    r = {}
    for d, ds, fs in os.walk(D):
        for n in ds: r[os.path.relpath(os.path.join(d, n), D) + '/'] = None
        for n in fs: r[os.path.relpath(os.path.join(d, n), D)] = open(os.path.join(d, n), 'rb').read()
    return r


def files(t): return {p: v for p, v in t.items() if v is not None}


def brief(t): return {p: None if v is None else (len(v), v[:20]) for p, v in sorted(t.items())}


def ok(p, what, rc=0):
    if p.returncode != rc: raise Violation('%s: exit status %d, want %d\nstdout %s\nstderr %s' % (what, p.returncode, rc, show(p.stdout[-2000:]), show(p.stderr[-3000:])))
    return p


def same(g, w, what):
    if g != w:
        d = sorted(p for p in set(g) | set(w) if p not in g or p not in w or g[p] != w[p])
        raise Violation('%s: %s differ: got %s want %s' % (what, d[:9], brief({p: g[p] for p in d if p in g}), brief({p: w[p] for p in d if p in w})))


def name(i):
    # the names are written as they are, in UTF-8
    return i.filename if i.flag_bits & 0x800 else i.filename.encode('cp437').decode('utf8', 'replace')


def pyread(fn, what):
    try:
        with zipfile.ZipFile(fn) as z:
            if z.testzip(): raise Violation('%s: %s is damaged' % (what, z.testzip()))
            return {name(i): None if i.filename.endswith('/') else z.read(i) for i in z.infolist()}
    except (zipfile.BadZipFile, OSError, zlib.error) as e: raise Violation('%s: %s is not a zip file: %r' % (what, fn, e))


def pywrite(c, fn, t):
    with zipfile.ZipFile(fn, 'w') as z:
        for p in t:
            if t[p] is None: z.writestr(p, b'')
            else: z.writestr(p, t[p], c.pick([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]))
    os.chown(fn, UNPRIV, UNPRIV)


def zips(c, x):
    """jsish -z zip/list/unzip/create/trunc"""
    D = x.fresh('z')
    t = tree(c)
    k = c.weighted([(4, 'zip'), (3, 'unzip'), (3, 'create'), (1, 'sub')])
    c.rendered = k + ' ' + repr(brief(t))
    c.label(k)
    fn = os.path.join(D, 'x.zip')
    if k in ('zip', 'create'):
        lay(x, os.path.join(D, 'd'), t)
    if k == 'zip':
        if c.bool(30):
            pywrite(c, fn, {'old': b'old'})
        ok(x.cli(['-z', 'zip', 'x.zip', 'd'], cwd=D), 'zip')
        same(pyread(fn, 'zip'), t, 'zip')
        p = ok(x.cli(['-z', c.pick(['list', 'l']), 'x.zip'], cwd=D), 'list')
        g = re.findall(r'"((?:[^"\\]|\\.)*)"', p.stdout.decode('utf8', 'replace'))
        if sorted(g) != sorted(q.rstrip('/') for q in t): raise Violation('list: %s, want %s' % (g, sorted(t)))
        ok(x.cli(['-z', 'unzip', 'x.zip', 'out'], cwd=D), 'unzip')
        same(files(look(os.path.join(D, 'out'))), files(t), 'zip, unzip')
    elif k == 'unzip':
        pywrite(c, fn, t)
        to = c.pick(['out', 'o/p/q', 'out/'])
        p = ok(x.cli(['-z', 'unzip', 'x.zip', to], cwd=D), 'unzip')
        same(files(look(os.path.join(D, to))), files(t), 'unzip')
    elif k == 'sub':
        pywrite(c, fn, dict([('sub/', None)] + [('sub/' + p, v) for p, v in t.items()] + [('other', b'x'), ('subq/', None), ('subq/y', b'y')]))
        p = ok(x.cli(['-z', '-startDir', 'sub', 'unzip', 'x.zip', 'out'], cwd=D), 'unzip -startDir')
        same(files(look(os.path.join(D, 'out'))), files(t), 'unzip -startDir')
    else:
        pre = c.pick([b'', b'#!/bin/sh\nexit 3\n', data(c), b'PK', b'x' * 5000])
        f = os.path.join(D, 'prog')
        open(f, 'wb').write(pre)
        os.chown(f, UNPRIV, UNPRIV)
        w = dict(t)
        extra = []
        if c.bool(40):
            e = tree(c, 4)
            lay(x, os.path.join(D, 'ex'), e)
            w.update({'ex/' + p: v for p, v in e.items()})
            w['ex/'] = None
            extra = ['ex']
        ok(x.cli(['-z', 'create', 'prog', 'd'] + extra, cwd=D), 'create')
        g = open(f, 'rb').read()
        if not g.startswith(pre): raise Violation('create changed the first %d bytes of the file' % len(pre))
        same(pyread(f, 'create'), w, 'create')
        ok(x.cli(['-z', 'trunc', 'prog'], cwd=D), 'trunc')
        g = open(f, 'rb').read()
        if g != pre: raise Violation('create and trunc leave %d bytes %r, the file had %d %r' % (len(g), g[:40], len(pre), pre[:40]))
    left = [n for n in os.listdir(D) if n.startswith('DIR_')]
    if left: raise Violation('left behind: %s' % left)
    c.case(c.rendered, len(files(t)) > 1)
    c.sample(c.rendered)


ARGS = ['a', 'b c', '-x', '1', 'é', '--', 'k=v']


def archive(c, x):
    """jsish -a: the main file of an archive, or a module of it, is run with its arguments"""
    D = x.fresh('a')
    where = c.pick(['', 'lib/', 'ARC/', 'ARC/lib/'])
    msg = c.pick(['hi', 'é', 'x y'])
    t = {'readme': b'r'}
    mod = c.bool()
    main = c.pick(['main.jsi', 'main.jsi', 'go.jsi'])
    n = c.int(0, 99)
    args = c.list(0, 3, lambda: c.pick(ARGS[1:2] + ARGS[3:5]))
    t[where + 'Lib1.jsi'] = b'function Lib1(n) { return n*2+%d; }\nprovide("Lib1", 1);\n' % n
    body = 'require("Lib1"); puts(%s, Lib1(4));\n' % jsstr(msg)
    want = '%s %d\n' % (msg, 8 + n)
    t['Mod1.jsi' if where in ('', 'ARC/') and c.bool() else where + 'Mod1.jsi'] = ('require("Lib1");\nfunction Mod1(args, conf) { puts("M", args, %s, Lib1(4)); }\nprovide("Mod1", 2);\n' % jsstr(msg)).encode()
    t[('ARC/' if where.startswith('ARC') and c.bool() else '') + main] = (body + ('puts(console.args);\n' if main == 'main.jsi' else '')).encode()
    items = []
    for p in c.perm(sorted(t)):
        # directories come before what is in them
        for i in range(len(p)):
            if p[i] == '/' and p[:i + 1] not in dict(items): items.append((p[:i + 1], None))
        items.append((p, t[p]))
    pywrite(c, os.path.join(D, 'ARC.zip'), dict(items))
    argv = ['-a'] + (['-mainFile', main] if main != 'main.jsi' else [])
    if mod:
        argv += ['ARC.zip', 'Mod1'] + args
        w = 'M %s %s' % (arr(args), want)
    else:
        argv += ['ARC.zip']
        w = want + ('[]\n' if main == 'main.jsi' else '')
    c.rendered = '%r\n%r' % (argv, sorted(t))
    p = ok(x.cli(argv, cwd=D), repr(argv))
    g = p.stdout.decode('utf8', 'replace')
    if g != w: raise Violation('%s\nprinted %s\nwant %s\nstderr %s' % (c.rendered, show(g), show(w), show(p.stderr[-2000:])))
    c.case(c.rendered + repr(t), True)
    c.label('module' if mod else 'main')
    c.sample(c.rendered)


def arr(a): return '[ ' + ', '.join('"%s"' % s for s in a) + ' ]' if a else '[]'


VALS = ['blue', '14pt', '#fff', '#top ul li > a', ' 1px solid  red ', 'a:b', 'color:red;\n  margin:0', '', "url('x.png')", 'q\n', '\n x', 'é', '100%', 'a b c', '"s"', '!important', '\\']


def css(c, x):
    """Csspp: definitions are removed and their names replaced"""
    D = x.fresh('c')
    names, vals, out, src = [], {}, '', ''
    trim = c.pick([True, True, False])
    pool = c.perm(['$a', '$bb', '$my_color', '$Size2', '$x9', '$q'])
    nfile = c.int(1, 2)
    fns = []
    total = ''
    for f in range(nfile):
        src = out = ''
        if c.bool(60): src = out = c.pick(['\n', '/* top */\n', '  \n'])
        for _ in range(c.size(0, 8)):
            if pool and c.bool(50):
                nm = pool.pop()
                v = c.pick(VALS)
                if names and c.bool(35): v += c.pick([' ', '', ';']) + c.pick(names) + c.pick([' ', ';'])
                src += nm + c.pick([' = ', '=', ' =', '\t= ']) + '{' + v + '}'
                vals[nm] = v.strip() if trim else v
                for m in sorted(names, key=len, reverse=True): vals[nm] = vals[nm].replace(m, vals[m])
                names.append(nm)
                t = '\n'
            else:
                t = c.pick(['b { c:d }', '#x {', '}', 'p q > r', '', ' color: ', '/* c */', '.é { m:0 }', 'a { x:y;\n z:w }'])
                if names:
                    for _ in range(c.int(0, 3)): t += c.pick([' ', ';', ':', '{']) + c.pick(names) + c.pick([' ', ';', '}', ')', ''])
                t += '\n'
            src += t
            out += t
        fn = 'f%d.cssi' % f
        open(os.path.join(D, fn), 'w').write(src)
        fns.append(fn)
        for m in sorted(names, key=len, reverse=True): out = out.replace(m, vals[m])
        total += out
    ta = c.pick([True, True, False])
    if ta: total = total.strip()
    opts = '{trimDef:%s,trimAll:%s}' % (str(trim).lower(), str(ta).lower())
    meth = c.pick(['Csspp(%s, %s)', 'Csspp(null, %s).parse(%s)'])
    fl = '[' + ','.join(map(jsstr, fns)) + ']' if nfile > 1 or c.bool() else jsstr(fns[0])
    call = meth % ((fl, opts) if meth[6] == '%' else (opts, fl))
    open(os.path.join(D, 't.jsi'), 'w').write('require("Csspp");\nFile.write("out", %s);\n' % call)
    c.rendered = call + '\n' + src
    p = ok(x.cli(['t.jsi'], cwd=D), c.rendered)
    g = open(os.path.join(D, 'out'), encoding='utf8', errors='replace').read()
    if g != total or p.stdout: raise Violation('%s\ngave %s\nwant %s\n%s' % (c.rendered, show(g), show(total), show(p.stdout)))
    c.case(c.rendered, bool(names))
    c.sample(c.rendered[:1000])


EX = [('1+2', '3'), ('"a"+x', 'av'), ('x', 'v'), ('[1,2].join("-")', '1-2'), ('inc(4)', '5'), ('"<b>"', '<b>'), ('"é"', 'é'), ('x.length', '1'), ('1>0', 'true'), ('"a?b"', 'a?b'), ('1?"y":"n"', 'y'), ('x.toUpperCase()', 'V')]


def html(c, x):
    """Htmlpp: text is kept, <? ?> is replaced by what its code outputs, included files are put in place"""
    D = x.fresh('h')
    files = {}
    mark = c.bool(15)

    def gen(depth, name, setup):
        src = out = ''
        if setup:
            src += '<? var x = "v"; function inc(n) { return n+1; } ?>'
        for _ in range(c.size(0, 7)):
            k = c.weighted([(4, 'text'), (4, 'out'), (1, 'loop'), (1, 'none'), (2 * (depth < 2), 'inc'), (1, 'multi'), (1, 'var'), (1, 'js')])
            if k == 'text': s = o = c.pick(['<p>', 'text\n', '<a href="x">é</a>', ' ', '</p>\n', '? >', '< ?', 'a?b', '$x', '<!-- c -->', '\n\n', '%s', '\\n', '<?xml'[:1], '?'])
            elif k == 'out':
                e, o = c.pick(EX)
                s = '<?' + c.pick([' ', '', '\n']) + c.pick(['output', 'output', 'echo']) + '(""+(%s));' % e + c.pick([' ', '', '\n']) + '?>'
            elif k == 'loop':
                n = c.int(0, 5)
                v = 'i%d' % c.int(0, 10**6)
                s, o = '<? for (var %s=0; %s<%d; %s++) { output("["+%s+"]"); } ?>' % (v, v, n, v, v), ''.join('[%d]' % i for i in range(n))
            elif k == 'none': s, o = c.pick(['<? ?>', '<??>', '<? 1+1; ?>', '<? /* c */ ?>']), ''
            elif k == 'multi': s, o = '<? output("a");\noutput("b"); ?>', 'ab'
            elif k == 'var':
                v, n = 'v%d' % c.int(0, 10**6), c.int(0, 99)
                s, o = '<? var %s = %d; ?>mid<? output(%s+""); ?>' % (v, n, v), 'mid%d' % n
            elif k == 'js':
                inl = c.bool()
                fn = 'j%d%s' % (len(files), c.pick(['.js', '.css']))
                files[fn] = body = c.pick(['var a = 1;\n', 'p { q:r }\n', '// x\n'])
                s = '<? include("%s"%s); ?>' % (fn, ', {inline:true}' if inl else '')
                if inl: o = ('<script>%s</script>\n' if fn.endswith('.js') else '<style>%s\n</style>\n') % (('\n/*:BEGIN: %s : %s */\n' % (fn, D) if mark else '') + body + ('\n/*:END: %s : %s */\n' % (fn, D) if mark else ''))
                else: o = ('<script src="%s"></script>\n' if fn.endswith('.js') else '<link rel="stylesheet" type="text/css" href="%s">\n') % fn
            else:
                fn = 'inc%d.html' % len(files)
                files[fn] = ''
                o = gen(depth + 1, fn, False)
                s = '<? include("%s"); ?>' % fn
            if src.endswith('<') and s.startswith('?'): continue
            src += s
            out += o
        if not src: src = out = 'e'
        files[name] = src
        if mark: out = '\n<!-- :BEGIN: %s : %s -->\n%s\n<!-- :END: %s : %s -->\n' % (name, D, out, name, D)
        return out
    D = os.path.realpath(D)
    w = gen(0, 'index.html', True)
    for f, s in files.items(): open(os.path.join(D, f), 'w').write(s)
    opts = '{noMark:%s}' % str(not mark).lower()
    call = c.pick(['Htmlpp("index.html", %s)' % opts, 'Htmlpp(["index.html"], %s)' % opts, 'Htmlpp(null, %s).parse("index.html")' % opts])
    open(os.path.join(D, 't.jsi'), 'w').write('require("Htmlpp");\nFile.write("out", %s);\n' % call)
    c.rendered = call + '\n' + '\n'.join('%s: %s' % (f, show(s)) for f, s in files.items())
    p = ok(x.cli(['t.jsi'], cwd=D), c.rendered)
    g = open(os.path.join(D, 'out'), encoding='utf8', errors='replace').read()
    if g != w or p.stdout: raise Violation('%s\ngave %s\nwant %s\n%s %s' % (c.rendered, show(g), show(w), show(p.stdout), show(p.stderr[-1000:])))
    c.case(c.rendered, '<?' in files['index.html'][60:])
    c.label('includes' if len(files) > 1 else 'one file')
    c.sample(c.rendered[:1000])


TY = {'number': ['0', '5', '-3', '2.5'], 'string': ["'x'", '"a b"', "''", '"é"'], 'boolean': ['true', 'false']}


def jspp(c, x):
    """Jspp: the converted program does in a browser engine what the original does here"""
    D = x.fresh('j')
    src, fs, tests = '', [], []
    for i in range(c.size(1, 5)):
        nm = c.pick(['f', 'g_', 'Foo', 'bar9']) + str(i)
        n = c.int(0, 4)
        ps, ptypes, dflt = [], [], False
        ndef = 0
        for j in range(n):
            ty = c.pick(list(TY))
            d = dflt or c.bool(35)
            dflt = d
            s = 'a%d' % j
            tt = ty if not c.bool(25) else ty + '|' + c.pick([t for t in TY if t != ty])
            if d and c.bool(25): s += '=' + c.pick(TY[ty])
            else:
                if d or c.bool(80): s += ':' + tt
                if d: s += '=' + (c.pick(TY[ty]))
            ndef += d
            ptypes.append(ty)
            ps.append(s)
        body = 'return [%s].join("|")+"#"+arguments.length;' % ', '.join(['"%s"' % nm] + ['typeof a%d' % j for j in range(n)] + ['a%d' % j for j in range(n)])
        ret = c.pick(['', '', ':string', ':any'])
        sep = c.pick([', ', ',', ' , '])
        sig = '(' + sep.join(ps) + ')' + ret + c.pick([' ', '', '\n'])
        if c.bool(70): src += 'function %s%s{ %s }\n' % (nm, sig, body)
        else: src += 'var %s = function %s{ %s };\n' % (nm, sig, body)
        fs.append(nm)
        for _ in range(2):
            k = n - (c.int(0, ndef) if ndef else 0)
            tests.append('%s(%s)' % (nm, ', '.join(c.pick(TY[t]) for t in ptypes[:k])))
    lst = c.bool(15)
    open(os.path.join(D, 's.jsi'), 'w').write(src)
    open(os.path.join(D, 't.jsi'), 'w').write(src + ''.join('puts(%s);\n' % t for t in tests))
    open(os.path.join(D, 'p.jsi'), 'w').write('require("Jspp");\nFile.write("out", %s);\n' % ('Jspp("s.jsi")' if not lst else 'Jspp("s.jsi", {listFuncs:true})'))
    c.rendered = src + '\n'.join(tests)
    p = ok(x.cli(['p.jsi'], cwd=D), c.rendered)
    g = open(os.path.join(D, 'out'), encoding='utf8', errors='replace').read()
    if lst:
        named = sorted(re.findall(r'^function (\w+)', src, re.M))
        w = ''.join('%s:%s%s\n' % (f, f, ',' if i + 1 < len(named) else '') for i, f in enumerate(named)) + '\n<!--JSIG GEN-->'
        if g != w: raise Violation('%s\nlistFuncs gave %s\nwant %s' % (src, show(g), show(w)))
    else:
        w = ok(x.cli(['t.jsi'], cwd=D), c.rendered).stdout.decode('utf8', 'replace')
        js = 'var $jsig = function(s, a) { return function() {}; };\n' + g.replace('<!--JSIG GEN-->', '') + ''.join('emit(String(%s));\n' % t for t in tests)
        good, L, err = x.node.run(js)
        r = ''.join(ast.literal_eval('b' + l.decode()).decode('utf8', 'replace') + '\n' for l in L)
        if not good or r != w: raise Violation('%s\nconverted to\n%s\nprints in node %s %s\noriginal prints %s' % (c.rendered, g, show(r), err, show(w)))
    c.case(c.rendered, '=' in src)
    c.label('listFuncs' if lst else 'run')
    c.sample(c.rendered[:1000])


def safe(c, x):
    """jsish -s: the script runs with its arguments, its directory is all it can read, nothing can be written"""
    D = x.fresh('s')
    os.makedirs(os.path.join(D, 'd'))
    secret = os.path.join(D, 'secret')
    for f, s in ((secret, 'SECRET'), (os.path.join(D, 'd/near'), 'NEAR'), (os.path.join(D, 'd/own'), 'OWN')):
        open(f, 'w').write(s)
        os.chown(f, UNPRIV, UNPRIV)
    os.chown(os.path.join(D, 'd'), UNPRIV, UNPRIV)
    src, out = '', ''
    dd = os.path.join(D, 'd')
    write = c.bool(25)
    for _ in range(c.int(1, 5)):
        k = c.pick(['calc', 'near', 'far', 'farrel', 'write', 'wfar', 'args', 'exec', 'rm'])
        def guard(e): return 'try { puts(%s); } catch(e) { puts("refused"); }\n' % e
        if k == 'calc': src += 'puts(2+3);\n'; out += '5\n'
        elif k == 'near': src += guard('File.read("%s/near")' % dd); out += 'NEAR\n'
        elif k == 'far': src += guard('File.read("%s")' % secret); out += 'refused\n'
        elif k == 'farrel': src += guard('File.read("%s/../secret")' % dd); out += 'refused\n'
        elif k == 'write': src += guard('File.write("%s/own", "new")' % dd); out += '3\n' if write else 'refused\n'
        elif k == 'wfar': src += guard('File.write("%s", "new")' % secret); out += 'refused\n'
        elif k == 'args': src += 'puts(console.args.join("|"));\n'; out += 'ARGS\n'
        elif k == 'exec': src += guard('exec("echo ran > %s/ran")' % D); out += 'refused\n'
        else: src += guard('File.remove("%s/near")' % (dd if not write else D)); out += 'refused\n'
    args = c.list(0, 3, lambda: c.pick(['a', 'b c', '1', 'é']))
    out = out.replace('ARGS', '|'.join(args))
    open(os.path.join(dd, 's.jsi'), 'w').write(src)
    argv = ['-s', '-quiet', 'true'] + (['-write', 'true'] if write else []) + ['d/s.jsi'] + args
    c.rendered = '%r\n%s' % (argv, src)
    p = x.cli(argv, cwd=D)
    g = p.stdout.decode('utf8', 'replace')
    if g != out: raise Violation('%s\nprinted %s\nwant %s\nstderr %s' % (c.rendered, show(g), show(out), show(p.stderr[-1500:])))
    st = {f: open(os.path.join(D, f)).read() for f in ('secret', 'd/near')}
    if st != {'secret': 'SECRET', 'd/near': 'NEAR'} or os.path.exists(os.path.join(D, 'ran')): raise Violation('%s\nleft %s %s' % (c.rendered, st, os.listdir(D)))
    if not write and open(os.path.join(dd, 'own')).read() != 'OWN': raise Violation('%s\nwrote d/own' % c.rendered)
    c.case(c.rendered, 'File' in src)
    c.sample(c.rendered[:800])


PROPS = [('zip files', zips, {'quick': 300, 'thorough': 4000}), ('archives', archive, {'quick': 200, 'thorough': 2500}), ('css', css, {'quick': 300, 'thorough': 4000}),
         ('html', html, {'quick': 300, 'thorough': 4000}), ('typed functions', jspp, {'quick': 300, 'thorough': 3500}), ('safe', safe, {'quick': 200, 'thorough': 2500})]
CHECK = Check('C33', mk, PROPS, 'zip files: generated trees packed, listed, unpacked, appended to a program and cut off again, non-trivial = more than one file; archives: main file or module, all; css: definitions and text, non-trivial = something is defined; html: code, text and included files, non-trivial = code after the first block; typed functions: converted and original program, non-trivial = default values; safe: operations inside and outside of the directory, non-trivial = a file operation')
