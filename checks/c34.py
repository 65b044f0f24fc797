"""C34: packages: require, provide, versions, Jsi_Auto loading, against a model of which file is loaded when."""
import os, re
from vt.core import Check, Discard, Violation
from vt.js import X, jsstr, expect, same, conv, UNPRIV


def mk(w): return X(w, user=UNPRIV)


NAMES = ['pa', 'pb', 'Pc', 'p_d', 'p5', 'longer_package_name', 'Q', 'mod']


def ver(c):
    """(literal, number, string)"""
    a, b, d = c.pick([0, 1, 2, 9, 10, 50, 99]), c.pick([0, 1, 2, 9, 10, 20, 99]), c.pick([0, 0, 1, 5, 10, 99])
    if a + b + d == 0: a = 1
    n = round(a + b / 100 + d / 10000, 4)
    s = '%d.%d.%d' % (a, b, d)
    lit = c.pick([repr(n), jsstr(s), jsstr(s) if d else jsstr('%d.%d' % (a, b)), jsstr(s) if b or d else jsstr('%d' % a)])
    return lit, n, s


def setf(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, 'w').write(text)
    d = os.path.dirname(path)
    os.chmod(d, 0o755)
    os.chmod(path, 0o644)


class Err(Exception): pass


class Model:
    def __init__(self, dirs, files):
        self.dirs, self.files = dirs, files
        self.depth = 0
        self.have, self.out, self.vals, self.fn = {}, [], {}, {}

    def find(self, name):
        for d in self.dirs:
            for f in ('%s/%s.jsi' % (d, name), '%s/%s/%s.jsi' % (d, name, name)):
                if f in self.files: return f
        return None

    def require(self, name):
        if name in self.have: return self.have[name]['n']
        f = self.find(name)
        if not f: raise Err()
        self.depth += 1
        if self.depth > 30: raise Discard()
        try: self.load(f)
        finally: self.depth -= 1
        if name not in self.have: raise Err()
        self.have[name]['file'] = f
        return self.have[name]['n']

    def provide(self, name, n, s, f, info=None):
        if name in self.have:
            if self.have[name]['file'] != f: raise Err()
            return
        self.have[name] = {'n': n, 's': s, 'file': f, 'info': info, 'last': 0}

    def load(self, f):
        for st in self.files[f]:
            if st[0] == 'log': self.out.append(('load', st[1]))
            elif st[0] == 'provide': self.provide(st[1], st[2][1], st[2][2], f, st[4])
            elif st[0] == 'require':
                try: self.out.append(('inner', self.require(st[1])))
                except Err:
                    if not st[2]: raise
                    self.out.append('missing')
            elif st[0] == 'var': self.vals[st[1]] = st[2]
            elif st[0] == 'func': self.fn[st[1]] = st[2]
            elif st[0] == 'throw': raise Err()
            elif st[0] == 'main': self.out.append(('main', False))
            elif st[0] == 'return': return


def text(sts, emit='emit'):
    o = []
    for st in sts:
        if st[0] == 'log': o.append('%s("load", %s);' % (emit, jsstr(st[1])))
        elif st[0] == 'provide': o.append('provide(%s, %s%s);' % (st[1] if st[3] else jsstr(st[1]), st[2][0], ', {info:{rel:%s}}' % jsstr(st[4]) if st[4] else ''))
        elif st[0] == 'require':
            r = '%s("inner", require(%s));' % (emit, jsstr(st[1]))
            o.append('try { %s } catch(e) { %s("missing"); }' % (r, emit) if st[2] else r)
        elif st[0] == 'var': o.append('var %s = %d;' % (st[1], st[2]))
        elif st[0] == 'func': o.append('function %s(args, conf) { return %s; }' % (st[1], jsstr(st[2])))
        elif st[0] == 'throw': o.append(st[1])
        elif st[0] == 'main': o.append('%s("main", Info.isMain());' % emit)
        elif st[0] == 'return': o.append('return;')
    return '\n'.join(o) + '\n'


def package(c, name, tag, names, done):
    sts = [('log', tag), ('var', 'G_' + name, c.int(0, 99))]
    isf = c.bool()
    if isf: sts.append(('func', name, 'F' + tag))
    pv = ('provide', name, ver(c), isf and c.bool(), c.pick(['a', 'prod', 'x y']) if c.bool(20) else None)
    k = c.weighted([(12, 'ok'), (1, 'none'), (1, 'other'), (1, 'throw'), (1, 'throw0'), (1, 'syntax')])
    deps = [('require', c.pick(names), c.bool(40)) for _ in range(c.weighted([(5, 0), (3, 1), (1, 2), (1, 3)]))]
    if c.bool(30): sts.append(('main',))
    if k == 'none': return sts + deps
    if k == 'other':
        o = c.pick(NAMES)
        return sts + [pv[:1] + (o, pv[2], False, None)] + deps
    if k == 'throw0': return sts + [('throw', c.pick(['throw "x";', 'nosuchfunc();', 'var q9 = undefined.x;']))]
    if k == 'syntax': return [('throw', 'var = ;')]
    sts = sts + [pv] + deps
    if c.bool(10): sts.append(pv[:2] + (ver(c), pv[3], None))
    if k == 'throw': sts.append(('throw', 'throw "late";'))
    elif c.bool(10): sts += [('return',), ('log', 'never')]
    if c.bool(10): sts.append(('log', tag + ' end'))
    return sts


def p_require(c, x):
    """histories of require and provide over directories with packages"""
    top = x.fresh('r')
    names = c.perm(NAMES)[:c.int(2, 6)]
    dirs = ['%s/%s' % (top, d) for d in ('d1', 'd2', 'd 3')][:c.int(1, 3)]
    for d in dirs: os.makedirs(d, exist_ok=True)
    files = {}
    for nm in names:
        for k in range(c.weighted([(1, 0), (7, 1), (3, 2), (1, 3)])):
            f = c.pick(['%s/%s.jsi', '%s/' + nm + '/%s.jsi']) % (c.pick(dirs), nm)
            if f not in files: files[f] = package(c, nm, nm + str(k), names, files)
    for f, sts in files.items(): setf(f, text(sts))
    use = c.perm(dirs)[:c.int(1, len(dirs))]
    m = Model(use, files)
    s = 'Interp.conf({pkgDirs:[%s]});\n' % ', '.join(map(jsstr, use))
    pr = []
    for _ in range(c.size(1, 12)):
        op = c.weighted([(8, 'req'), (3, 'reqv'), (2, 'det'), (1, 'list'), (1, 'prov'), (1, 'info'), (1, 'opts'), (2, 'val'), (1, 'fn'), (1, 'bad'), (1, 'inf')])
        nm = c.pick(names)
        t0 = len(m.out)
        if op in ('req', 'inf'):
            s += 'try { %s } catch(e) { emit("ERR"); }\n' % ('emit("v", require(%s));' % jsstr(nm) if op == 'req' else '(function() { emit("v", require(%s)); })();' % jsstr(nm))
            try: m.out.append(('v', m.require(nm)))
            except Err: m.out.append('ERR')
        elif op in ('reqv', 'det'):
            lit, n, _s = ver(c) if op == 'reqv' else ('0', 0, '')
            s += 'try { var d = require(%s, %s); emit("d", d.name, d.version, d.verStr, d.loadFile, d.lastReq, typeof d.func, d.conf.info ? d.conf.info.rel : "-"); } catch(e) { emit("ERR"); }\n' % (jsstr(nm), lit)
            try:
                was = nm in m.have
                m.require(nm)
                h = m.have[nm]
                if was and n: h['last'] = n
                if h['n'] < n: m.out.append('ERR')
                else:
                    if n: h['last'] = n
                    m.out.append(('d', nm, h['n'], h['s'], h['file'], h['last'], 'function' if nm in m.fn else 'null', h['info'] or '-'))
            except Err: m.out.append('ERR')
        elif op == 'list':
            s += 'emit("l", require().filter(function(z) { return [%s].indexOf(z) >= 0; }).sort());\n' % ', '.join(map(jsstr, NAMES))
            m.out.append(('l', sorted(m.have, key=lambda z: z.encode())))
        elif op == 'prov':
            v = ver(c)
            if nm in m.have and m.have[nm]['file'] == '': continue
            if nm in m.have:
                s += 'try { provide(%s, %s); emit("P"); } catch(e) { emit("ERR"); }\n' % (jsstr(nm), v[0])
                m.out.append('ERR')
                continue
            if c.bool(70): continue
            s += 'try { provide(%s, %s); emit("P"); } catch(e) { emit("ERR"); }\n' % (jsstr(nm), v[0])
            m.provide(nm, v[1], v[2], '')
            m.out.append('P')
        elif op == 'info':
            s += 'var d = Info.package(%s); emit("i", d ? [d.name, d.verStr] : null);\n' % jsstr(nm)
            m.out.append(('i', [nm, m.have[nm]['s']] if nm in m.have else None))
        elif op == 'opts':
            s += 'try { emit("v", require(%s, 1, {log:"debug", udata:{q:5}})); emit(require(%s, 0).conf.log, require(%s, 0).conf.udata); } catch(e) { emit("ERR"); }\n' % ((jsstr(nm),) * 3)
            try:
                was = nm in m.have
                v = m.require(nm)
                if was: m.have[nm]['last'] = 1
                m.out.append(('v', v))
                m.out.append((['debug'], {'q': 5}))
            except Err: m.out.append('ERR')
        elif op == 'val':
            g = 'G_' + nm
            if g in m.vals:
                s += 'emit("g", %s);\n' % g
                m.out.append(('g', m.vals[g]))
            else:
                s += 'emit("g", typeof %s);\n' % g
                m.out.append(('g', 'undefined'))
        elif op == 'fn':
            if nm in m.fn:
                s += 'emit("f", %s([], {}));\n' % nm
                m.out.append(('f', m.fn[nm]))
        else:
            s += 'try { %s; emit("BAD"); } catch(e) { emit("ERR"); }\n' % c.pick(['require("a-b")', 'require("a/b")', 'require("")', 'require("../x")', 'require("%s", -1)' % nm, 'require("%s", "1.x")' % nm, 'require("%s", 100)' % nm, 'require("%s", "1.100")' % nm, 'provide("a.b")', 'provide("zz", 0)', 'provide("zz", -1)', 'provide("zz", "0.0.0")', 'provide("zz", "x")', 'require("nosuchpkg")', 'require("nosuchpkg", 0)', 'provide("zz", 1, {nosuch:1})'])
            m.out.append('ERR')
    want = []
    for o in m.out:
        want += list(o) if isinstance(o, tuple) else [o]
    c.case(s + repr(sorted((f.replace(top, ''), v) for f, v in files.items())), len(m.have) > 1)
    c.rendered = s + ''.join('\n// FILE %s\n%s' % (f, text(v)) for f, v in sorted(files.items()))
    c.sample(c.rendered)
    c.label('packages:%d' % len(m.have))
    got = x.vals(s)
    if len(got) != len(want) or not all(same(a, conv(b)) for a, b in zip(got, want)): raise Violation('got  %r\nwant %r\n%s' % (got, want, c.rendered))


def p_version(c, x):
    """versions: text and number"""
    s, want = '', []
    for _ in range(c.size(1, 10)):
        a, b, d = [c.int(0, 99) if c.bool() else c.pick([0, 0, 1, 9, 10, 99, 90]) for _ in range(3)]
        n = round(a + b / 100 + d / 10000, 4)
        st = '%d.%d.%d' % (a, b, d)
        k = c.int(0, 6)
        if k == 0:
            s += 'emit(Util.verConvert(%r));\n' % n
            want.append(st)
        elif k == 1:
            z = c.int(0, 2)
            s += 'emit(Util.verConvert(%r, %d));\n' % (n, z)
            t = st
            for _ in range(z):
                if t.count('.') and t.endswith('.0'): t = t[:-2]
            want.append(t)
        elif k == 2:
            f = c.pick(['%d.%d.%d' % (a, b, d), '%02d.%02d.%02d' % (a, b, d)])
            s += 'emit(Util.verConvert("%s"));\n' % f
            want.append(n)
        elif k == 3:
            s += 'emit(Util.verConvert("%d.%d"), Util.verConvert("%d"));\n' % (a, b, a)
            want += [round(a + b / 100, 4), a]
        elif k == 4:
            s += 'emit(Util.verConvert(Util.verConvert(%r)) == %r, Util.verConvert(Util.verConvert("%s")));\n' % (n, n, st)
            want += [True, st]
        elif k == 5:
            s += 'emit(Util.verConvert("%s"));\n' % c.pick(['', '.', 'x', '1.x', '%d.%d.%dx' % (a, b, d), '100.0.0', '1.100', '1.0.100', '-1.2', ' 1.2', '1 .2', '1.2-3'])
            want.append(None)
        else:
            s += 'var i = Info.version(true, %s); emit(i.major, i.minor, i.release, i.verStr, i.version, Info.version(%s));\n' % ((c.pick([repr(n), '"%s"' % st]),) * 2)
            want += [a, b, d, st, n, n]
    c.case(s, len(want) > 3)
    c.rendered = s
    c.sample(s)
    got = x.vals(s)
    if len(got) != len(want) or not all(same(g, conv(w)) if not isinstance(w, float) else isinstance(g, float) and abs(g - w) < 1e-9 for g, w in zip(got, want)): raise Violation('got  %r\nwant %r\n%s' % (got, want, s))


def p_auto(c, x):
    """functions loaded at their first call by Jsi_Auto"""
    top = x.fresh('a')
    fns = ['fa', 'fb', 'Fc', 'f_d', 'f5', 'name_of_function'][:c.int(1, 6)]
    nf = c.int(1, 3)
    where = {f: c.int(0, nf - 1) for f in fns}
    ghost = c.bool(20)
    kind = {f: c.pick(['source', 'eval', 'require']) for f in fns}
    auto = ''
    for i in range(nf):
        setf('%s/lib%d.jsi' % (top, i), 'emit("load", %d);\n' % i + ''.join('function %s(a) { return ["%s", a]; }\n' % (f, f) for f in fns if where[f] == i and kind[f] != 'eval') + ('provide("lib%d");\n' % i))
    for f in fns:
        p = '%s/lib%d.jsi' % (top, where[f])
        auto += 'Jsi_Auto.%s = %s;\n' % (f, jsstr('source(%s);' % jsstr(p)) if kind[f] == 'source' else jsstr('require("lib%d");' % where[f]) if kind[f] == 'require' else jsstr('emit("ev"); function %s(a) { return ["%s", a]; }' % (f, f)))
    if ghost: auto += 'Jsi_Auto.ghost = %s;\n' % jsstr('emit("ghost");')
    s = 'Interp.conf({pkgDirs:[%s]});\n' % jsstr(top)
    out = []
    inline = c.bool()
    if inline: s += auto
    else:
        setf(top + '/auto.jsi', 'emit("index");\n' + auto)
        s += 'Interp.conf({autoFiles:[%s]});\n' % jsstr(top + '/auto.jsi')
    idx = inline
    have, loaded, prov = set(), [], set()
    seen = 0
    for _ in range(c.size(1, 10)):
        f = c.pick(fns + ['ghost', 'nosuch1'] if c.bool(30) else fns)
        n = c.int(0, 99)
        s += c.pick(['try { emit(%s(%d)); } catch(e) { emit("ERR"); }\n', 'try { (function() { emit(%s(%d)); })(); } catch(e) { emit("ERR"); }\n']) % (f, n)
        if f not in have:
            if not idx:
                out.append('index')
                idx = True
            if f in fns:
                if kind[f] == 'eval':
                    out.append('ev')
                    have.add(f)
                else:
                    i = where[f]
                    if kind[f] == 'source' or i not in prov:
                        out += ['load', i]
                        prov.add(i)
                        have |= {g for g in fns if where[g] == i and kind[g] != 'eval'}
            elif f == 'ghost' and ghost: out.append('ghost')
        if f in have:
            out.append([f, n])
            seen += 1
        else: out.append('ERR')
    c.case(s, seen > 1)
    c.rendered = s + '\n// auto\n' + auto
    c.sample(c.rendered)
    got = x.vals(s)
    if len(got) != len(out) or not all(same(g, conv(w)) for g, w in zip(got, out)): raise Violation('got  %r\nwant %r\n%s' % (got, out, c.rendered))


def p_script(c, x):
    """a script, its directory, packages with module() and isMain"""
    top = x.fresh('s')
    names = c.perm(NAMES)[:c.int(1, 4)]
    files, out = {}, []
    hasv = {}
    for nm in names:
        lit, n, st = ver(c)
        how = c.pick(['provide', 'module', 'modulename'])
        f = c.pick(['%s/%s.jsi' % (top, nm), '%s/%s/%s.jsi' % (top, nm, nm)])
        t = 'puts("load %s", Info.isMain());\nfunction %s(args, conf) { puts("run %s", args.join("|")); return; }\n' % (nm, nm, nm)
        t += {'provide': 'provide(%s, %s);\n', 'module': 'module(%s, %s);\n', 'modulename': 'module("%s", %s);\n'}[how] % (nm, lit)
        t += 'puts("path", Info.script() == %s, Info.scriptDir() == %s);\n' % (jsstr(f), jsstr(os.path.dirname(f)))
        setf(f, t)
        hasv[nm] = n
    args = [c.pick(['a', 'b c', '', 'é', '5']) for _ in range(c.int(0, 3))]
    s = 'puts("main", Info.isMain(), console.args.length, Info.script() == %s);\nfunction main1(args, conf) { puts("RUN", args.join("|"));\n' % jsstr(top + '/main1.jsi')
    out.append('main true %d true' % len(args))
    body, bout = '', []
    have = set()
    for _ in range(c.size(1, 6)):
        nm = c.pick(names)
        k = c.int(0, 3)
        body += 'puts("v", require("%s"), Info.isMain());\n' % nm
        if nm not in have: bout += ['load %s false' % nm, 'path true true']
        have.add(nm)
        bout.append('v %s true' % ('%.15g' % hasv[nm]))
        if k == 1:
            body += '%s(["q", %d], {});\n' % (nm, len(have))
            bout.append('run %s q|%d' % (nm, len(have)))
        elif k == 2:
            body += 'moduleRun("%s", ["w"]);\n' % nm
            bout += ['run %s w' % nm]
    infn = c.bool()
    s = s + (body.replace('Info.isMain()', 'true') if infn else '') + 'return; }\n' + ('' if infn else body) + c.pick(['module(main1);', 'module("main1");']) + '\nputs("END");\n'
    run = ['RUN ' + "|".join(args)]
    out += (run + bout if infn else bout + run) + ['END']
    setf(top + '/main1.jsi', s)
    c.case(s, len(have) > 1)
    c.rendered = s
    c.sample(s)
    r = x.cli([top + '/main1.jsi'] + args)
    got = r.stdout.decode('utf8', 'replace').split('\n')[:-1]
    if len(got) != len(out) or r.returncode or not all(w is None or g == w for g, w in zip(got, out)): raise Violation('exit %d\ngot  %r\nwant %r\n%s\n%s' % (r.returncode, got, out, r.stderr.decode('utf8', 'replace')[:600], s))


def P(s, *want): return lambda x: expect(x, s, list(want))


PROBES = [
    ('trim-patch', P('emit(Util.verConvert(1.0005, 2));', '1.0.5')),
]
CHECK = Check('C34', mk, [
    ('require', p_require, {'quick': 5000, 'thorough': 60000}),
    ('version', p_version, {'quick': 2000, 'thorough': 20000}),
    ('auto', p_auto, {'quick': 2500, 'thorough': 30000}),
    ('script', p_script, {'quick': 1500, 'thorough': 15000}),
], 'directories of packages and histories of require (at least two packages provided; two calls of loaded functions; two packages loaded by a script); versions (four values)', probes=PROBES)
