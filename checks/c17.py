"""C17: safe mode.  Everything runs as an unprivileged user in a scratch directory.  Oracle: which accesses the
directory lists allow is decided by Python (realpath); the denied ones must raise an error, all others must give what
the same operations give without safe mode, and nothing outside the writable directories may change."""
import json, os, shutil, stat
from vt.core import Check, Violation, Inconclusive
from vt.js import X, UNPRIV, jsstr, show

SECRET = 'S3CRET'


def mk(w):
    return X(w, user=UNPRIV)


def own(d):
    for a, ds, fs in os.walk(d):
        for n in ds + fs + ['.']:
            os.lchown(os.path.join(a, n), UNPRIV, UNPRIV)


def build(D):
    for d in ('in/d', 'in/l', 'in-x', 'ro/d', 'wo', 'out/d', 'inout'):
        os.makedirs(D + '/' + d)
    for f in ('in/a', 'in/b', 'in/d/c', 'in-x/a', 'ro/a', 'ro/d/b', 'wo/a', 'out/sec', 'out/d/t', 'one', 'one1', 'inout/a', 'in/e.txt'):
        with open(D + '/' + f, 'w') as h: h.write('text of %s %s\n' % (f, SECRET))
    for f in ('in/s.jsi', 'ro/s.jsi', 'out/s.jsi'):
        with open(D + '/' + f, 'w') as h: h.write('var Q = "%s";\n' % SECRET)
    for l, t in (('in/l/out', '../../out'), ('in/l/sec', '../../out/sec'), ('in/l/dang', '../../out/new'), ('in/l/dang2', '../../in/new2'),
                 ('in/l/ro', '../../ro'), ('in/l/a', '../a'), ('in/l/two', 'sec'), ('in/l/up', '..'), ('in/l/top', '../..'),
                 ('out/back', '../in'), ('ro/toin', '../in/d'), ('ro/toout', '../out')):
        os.symlink(t, D + '/' + l)
    os.symlink(D + '/out', D + '/in/l/abs')
    own(D)


def snap(D, skip=()):
    r = {}
    for a, ds, fs in os.walk(D):
        for n in ds + fs:
            p = os.path.join(a, n)
            rel = os.path.relpath(p, D)
            if any(rel == s or rel.startswith(s + '/') for s in skip): continue
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode): r[rel] = ('link', os.readlink(p))
            elif stat.S_ISDIR(st.st_mode): r[rel] = ('dir', st.st_mode)
            elif stat.S_ISREG(st.st_mode): r[rel] = ('file', st.st_mode, open(p, 'rb').read())
            else: r[rel] = ('special', st.st_mode)
    return r


FIRST = ['in', 'in', 'in', 'in/l', 'in/l', 'in/l', 'in/d', 'ro', 'ro/d', 'wo', 'out', 'out/d', 'in-x', 'inout', '.']
NAME = ['a', 'b', 'c', 'e', 'z', 'new', 'sec', 's.jsi', 't', 'out', 'dang', 'dang2', 'two', 'n1', 'n2/x', 'd', '', '.', 'l/a', 'one', 'one1', 'abs/sec', 'out/sec', 'out/new3', 'ro/a', 'up/a', 'up/l/out/sec', 'top/one1', 'toin/c', 'toout/sec', 'out/d/t', 'back/a']


def inside(path, dirs):
    return any(path == d.rstrip('/') or path.startswith(d.rstrip('/') + '/') for d in dirs)


READ = ['File.read(%s)', 'File.read(%s)', 'File.stat(%s).size', 'File.lstat(%s).size', 'File.size(%s)', 'File.readlink(%s)', 'new Channel(%s).read()', 'new Channel(%s,"rb").gets()',
        'source(%s)', 'Util.hash("",{file:%s})', 'File.glob("*",{dir:%s})', 'File.glob("*",{dir:%s,recurse:true}).length', 'File.chdir(%s)',
        'new Sqlite(%s,{readonly:true}).onecolumn("select count(*) from sqlite_master")', 'new Sqlite(":memory:").restore(%s)', 'Zvfs.mount(%s, "/zz")',
        'sqimp(%s)']
WRITE = ['File.write(%s,"new text")', 'File.write(%s,"more","a")', 'File.truncate(%s,3)', 'File.chmod(%s,448)', 'File.remove(%s)', 'File.remove(%s,true)', 'File.mkdir(%s)', 'File.mkdir(%s,true)',
         'File.mknod(%s, 4532, 0)',
         'chw(%s,"w")', 'chw(%s,"a")', 'chw(%s,"r+")', 'chw(%s,"w+")', 'chw(%s,"a+")', 'chw(%s,"wb")', 'new Sqlite(%s).eval("create table t(a)")',
         'new Sqlite(":memory:").query("attach \'"+%s+"\' as y; create table y.t(a)")', 'new Sqlite(":memory:").query("vacuum into \'"+%s+"\'")', 'new Sqlite(":memory:").backup(%s)', 'Zvfs.create(%s, [])']
BOTH = ['File.copy(%s,%s)', 'File.copy(%s,%s,true)', 'File.rename(%s,%s)', 'File.rename(%s,%s,true)', 'File.link(%s,%s)', 'File.link(%s,%s,true)']
NEVER = ['exec("touch $OUT/ex")', 'System.exec("touch $OUT/ex")', 'System.runMain', 'System.getenv("HOME")', 'System.setenv("HOME","/")', 'load("$OUT/x.so")', 'load("/lib/x86_64-linux-gnu/libz.so.1")',
         'Interp.conf({safeReadDirs:["$OUT"]})', 'Interp.conf({safeWriteDirs:["$OUT"]})', 'Interp.conf({isSafe:false})', 'Interp.conf({safeMode:"none"})', 'Interp.conf({lockDown:"$OUT"})', 'Interp.conf({safeExecPattern:"."})',
         'Interp.conf({maxDepth:100000})', 'Interp.conf({noCheck:true})', 'Interp.conf({confFile:"$OUT/cf"})', 'Interp.conf({historyFile:"$OUT/hf"})',
         'sub({}, "File.read(\'$OUT/sec\');")', 'sub({isSafe:false}, "File.read(\'$OUT/sec\');")', 'sub({safeReadDirs:["$OUT"]}, "File.read(\'$OUT/sec\');")', 'sub({safeReadDirs:["$OUT"]}, "source(\'$OUT/s.jsi\');")',
         'sub({safeWriteDirs:["$OUT"]}, "File.write(\'$OUT/new\',\'x\');")', 'sub({lockDown:"$OUT"}, "source(\'$OUT/s.jsi\');")', 'sub({lockDown:"$OUT"}, "var c=new Channel(\'$OUT/sec\',\'r+\'); c.write(\'x\');")', 'sub({lockDown:"$OUT"}, "new Sqlite(\'$OUT/sec\');")',
         'sub({safeMode:"none"}, "source(\'$OUT/s.jsi\');")', 'sub({safeMode:"read",scriptFile:"$OUT/s.jsi"}, "source(\'$OUT/s.jsi\');")', 'sub({scriptFile:"$OUT/s.jsi"}, "Q;")', 'sub({safeExecPattern:"."}, "exec(\'touch $OUT/ex\');")',
         'sub({subthread:true,scriptStr:"1;"}, "1;")', 'sub({confFile:"$IN/cf"}, "source(\'$OUT/s.jsi\');")', 'Util.hash("",{file:"$OUT/sec"})', 'require("outpkg")']
PRE = 'Interp.conf("noCheck"); function chw(p,m) { var c=new Channel(p,m); c.write("chw"); c.close(); return 1; } function sub(o,s) { var j=new Interp(o); return j.eval(s); } function sqimp(p) { var db=new Sqlite(":memory:"); db.eval("create table t(a)"); return db.import("t",p); } var R=[];'
LOCKED_OFF = ('File.write', 'File.truncate', 'File.chmod', 'File.remove', 'File.mkdir', 'File.mknod', 'File.copy', 'File.rename')
CONF = '{"isSafe":false,"safeReadDirs":["/"],"safeWriteDirs":["/"]}'


def p_sub(c, x):
    D, M = x.fresh('d'), x.fresh('m')
    for t in (D, M):
        build(t)
        for f in ('in/cf', 'out/cf'):
            with open(t + '/' + f, 'w') as h: h.write(CONF)
        with open(t + '/out/outpkg.jsi', 'w') as h: h.write('provide("outpkg");\n')
        own(t)
    sl = lambda d: d + c.pick(['', '', '/'])
    kind = c.weighted([(6, 'both'), (2, 'read'), (2, 'lockdown'), (1, 'lockDown'), (1, 'none'), (1, 'write')])
    rd = [sl(D + '/' + d) for d in ['in'] + (['ro'] if c.bool(70) else []) + (['one'] if c.bool(40) else [])]
    wr = [sl(D + '/' + d) for d in ['in'] + (['wo'] if c.bool(60) else []) + (['one'] if c.bool(30) else [])]
    rd = [d.rstrip('/') if d.rstrip('/').endswith('one') else d for d in rd]
    wr = [d.rstrip('/') if d.rstrip('/').endswith('one') else d for d in wr]
    lock = False
    if kind == 'read': wr = []
    elif kind == 'write': rd = []
    elif kind == 'none': rd, wr = [], []
    o = {'isSafe': True}
    if kind == 'lockdown':
        o['safeMode'] = 'lockdown'
        lock = True
    if kind == 'lockDown':
        lk = c.pick(['in', 'in', 'in/a', 'wo', 'in/l/ro', 'in/l/a'])
        o = {'lockDown': D + '/' + lk}
        wr = [os.path.realpath(D + '/' + lk)]
        if c.bool(50): rd = wr
        else: o['safeReadDirs'] = rd
        lock = True
    elif kind != 'none':
        if rd: o['safeReadDirs'] = rd
        if wr: o['safeWriteDirs'] = wr
    if c.bool(10) and not lock: o['safeMode'] = c.pick(['read', 'write', 'writeRead', 'none'])
    cwd = c.pick(['', 'in', 'in/d', 'in/l', 'out'])
    cur = [D + '/' + cwd]

    def path():
        f, n = c.pick(FIRST), c.pick(NAME)
        if c.bool(6): f = f + '/..'
        p = f + ('/' + n if n else '')
        if c.bool(10): p = p.replace('/', '//', 1)
        if c.bool(10): p = './' + p
        if c.bool(60): return D + '/' + p
        r = os.path.relpath(D + '/' + f, os.path.realpath(cur[0])) + ('/' + n if n else '')
        return r[2:] if len(r) > 2 and r.startswith('./') and c.bool(70) else r

    real = lambda p: os.path.realpath(os.path.join(cur[0], p))
    can = lambda p, z: inside(real(p), z)
    exists = lambda p: os.path.exists(os.path.join(cur[0], p))
    linkdir = lambda p: real(os.path.dirname(os.path.join(cur[0], p)) or '.') == real(D + '/in/l')

    ops, deny, nd = [], [], 0
    cwds = [D + '/' + cwd]
    for _ in range(c.size(1, 16)):
        k = c.int(0, 9)
        if k <= 3:
            f, p = c.pick(READ), path()
            ok = can(p, rd)
            if f.startswith('source') and not p.endswith('.jsi'): continue
            if f.startswith('Zvfs'): f, ok = f, ok
            if 'chdir' in f:
                if not ok or not os.path.isdir(os.path.join(cur[0], p)): pass
                else: cur[0] = os.path.join(cur[0], p)
            # links lead a recursive listing in circles, or out of the readable directories
            if 'recurse' in f and ok: continue
            ops.append(f % jsstr(p))
        elif k <= 6:
            f, p = c.pick(WRITE), path()
            ok = can(p, wr)
            if f.startswith('File.remove') and (linkdir(p) or real(p) == real(D) or real(p) in (D + '/in', D + '/in/l', D + '/in/d') or os.path.islink(os.path.join(cur[0], p))): continue
            if '..' in p.split('/') and ('mkdir' in f or not exists(os.path.dirname(p) or '.')): continue
            if f.startswith('File.mkdir') and lock: ok = False
            if f.startswith('File.chmod') and os.path.isdir(real(p)): continue
            if 'Zvfs' in f or 'mknod' in f:
                if ok: continue
            if lock:
                if f.startswith(LOCKED_OFF): ok = False
                # what earlier operations of this history created is not known here: only files which are there from the start
                elif not exists(p): ok = False
            ops.append(f % jsstr(p))
        elif k == 7:
            f, p, q = c.pick(BOTH), path(), path()
            if linkdir(q) or linkdir(p) and ('rename' in f) or os.path.islink(os.path.join(cur[0], p)) or os.path.islink(os.path.join(cur[0], q)): continue
            if os.path.isdir(real(p)) or os.path.isdir(real(q)): continue
            if not os.path.basename(q) or os.path.basename(q) in NAME: q = os.path.join(os.path.dirname(q), 'z%d' % len(ops)) if 'link' in f else q
            if 'link' in f and ('/' in p[1:] and not p.startswith('/')): p = os.path.join(cur[0], p)
            if 'link' in f and not f.endswith('true)') and os.path.relpath(D, D + '/in') and not inside(real(p), wr): pass
            ok = can(p, rd if 'copy' in f else wr) and can(q, wr)
            if '..' in q.split('/') or '..' in p.split('/'): continue
            if lock: ok = False
            ops.append(f % (jsstr(p), jsstr(q)))
        elif k == 8:
            f = c.pick(NEVER)
            pre = 'Interp.conf({pkgDirs:["%s/out"]});' % D if 'outpkg' in f else ''
            ops.append(('(%s)' if not pre else '%s') % f.replace('$OUT', D + '/out').replace('$IN', D + '/in'))
            ok = None
            if pre: ops[-1] = ('PRE', pre, ops[-1])
            if 'System.runMain' in f:
                ops.pop()
                continue
        else:
            p = path()
            if exists(p) and os.path.isdir(real(p)) is False: continue
            f = 'File.tempfile(%s).length'
            p = p + '/tmpXXXXXX'
            if '..' in p.split('/'): continue
            ok = can(p, wr) and not lock
            ops.append(f % jsstr(p))
            if ok: continue_ = True
        deny.append(ok)
        nd += not ok

    def script(opts, sel, root):
        s = ['File.chdir(%s); var i=new Interp(%s);' % (jsstr(root + '/' + cwd), opts), 'i.eval(%s);' % jsstr(PRE)]
        for op, ok in zip(ops, deny):
            if not sel(ok): continue
            pre = ''
            if isinstance(op, tuple): pre, op = op[1], op[2]
            op = op.replace(D, root)
            s.append('i.eval(%s);' % jsstr('%stry { R.push("" + JSON.stringify([%s])); } catch(ex) { R.push("<error>"); }' % (pre, op)))
        s.append('emit(i.eval("JSON.stringify(R)"));')
        return '\n'.join(s)

    if not ops: return
    a = script(json.dumps(o), lambda ok: True, D)
    b = script('{}', lambda ok: ok, M)
    c.case(a, 0 < nd)
    c.rendered = a
    c.label(kind, 'allowed' if any(deny) else 'all denied', *(['cwd inside'] if cwd.startswith('in') else []))
    before = snap(D, [os.path.relpath(w.rstrip('/'), D) for w in wr])
    ra = x.vals(a)
    rb = x.vals(b) if any(deny) else [b'[]']
    after = snap(D, [os.path.relpath(w.rstrip('/'), D) for w in wr])
    ctx = '\n--- options %s\n--- script\n%s' % (json.dumps(o), show(a))
    if after != before:
        df = [(p, before.get(p), after.get(p)) for p in sorted(set(before) | set(after)) if before.get(p) != after.get(p)]
        raise Violation('a safe interp changed what it may not write: %s%s' % (str(df)[:600], ctx))
    try:
        va, vb = json.loads(ra[-1]), json.loads(rb[-1])
    except Exception:
        raise Violation('no result: %s\n%s%s' % (show(repr(ra)), show(repr(rb)), ctx))
    if len(va) != len(ops): raise Violation('%d results of %d operations%s' % (len(va), len(ops), ctx))
    vb = iter(vb)
    for op, ok, v in zip(ops, deny, va):
        if not ok:
            if v != '<error>': raise Violation('%s must be refused, gives %r%s' % (op, v[:300], ctx))
        else:
            w = next(vb)
            if v.replace(D, M) != w: raise Violation('%s is allowed: gives %r, without safe mode %r%s' % (op, v[:300], w[:300], ctx))
    ta, tb = snap(D), snap(M)
    for p in sorted(set(ta) | set(tb)):
        u, w = ta.get(p), tb.get(p)
        if u != w and 'tmp' not in p and not (u and w and u[0] == w[0] == 'link' and u[1].replace(D, M) == w[1]):
            raise Violation('the allowed operations left %s as %r, without safe mode %r%s' % (p, u, w, ctx))


def p_main(c, x):
    """the main script in safe mode: -s, --I safeMode=, --I lockDown="""
    D = x.fresh('d')
    build(D)
    for d in ('sd', 'sd/d', 'cw'): os.mkdir(D + '/' + d)
    for f in ('sd/a', 'sd/d/b', 'cw/a'):
        with open(D + '/' + f, 'w') as h: h.write('text of %s\n' % f)
    mode = c.pick(['-s', 'read', 'write', 'writeRead', 'lockdown', 'lockDown', 'isSafe'])
    sd, cw = D + '/sd', D + '/cw'
    rd, wr = {'-s': ([sd], []), 'isSafe': ([], []), 'read': ([sd, cw], []), 'write': ([sd, cw], [cw]), 'writeRead': ([sd, cw], [sd, cw]), 'lockdown': ([sd, cw], [sd, cw]),
              'lockDown': ([sd], [sd])}[mode]
    lock = mode.startswith('lock')
    args = ['-s'] if mode == '-s' else ['--I', 'isSafe'] if mode == 'isSafe' else ['--I', 'lockDown=' + sd] if mode == 'lockDown' else ['--I', 'safeMode=' + mode]
    ops = []
    P = ['sd/a', 'sd/d/b', 'cw/a', 'sd/new', 'cw/new', 'in/a', 'in/new', 'out/sec', 'out/new', 'in/l/sec', 'sd/../out/sec', 'sd-x', 'cwx/a']
    for _ in range(c.size(1, 8)):
        p = D + '/' + c.pick(P)
        if c.bool(30): p = os.path.relpath(p, cw)
        rp = os.path.realpath(os.path.join(cw, p))
        k = c.int(0, 5)
        if k <= 2:
            f = c.pick(['File.read(%s)', 'File.size(%s)', 'new Channel(%s).read().length', 'Util.hash("",{file:%s}).length', 'File.stat(%s).size'])
            ok = inside(rp, rd) and os.path.isfile(rp)
        elif k <= 4:
            f = c.pick(['chw(%s,"a")', 'chw(%s,"r+")', 'File.chmod(%s,448)', 'File.truncate(%s,2)'])
            ok = inside(rp, wr) and os.path.isfile(rp) and not (lock and 'File' in f)
            if 'chw(%s,"a")' == f and not lock: ok = inside(rp, wr) and os.path.isdir(os.path.dirname(rp))
        else:
            f = c.pick(['exec("touch %s/out/ex")' % D, 'load(%s)', 'System.getenv("HOME")', 'Interp.conf({safeReadDirs:["/"]})', 'Interp.conf({isSafe:false})', 'Interp.conf({noCheck:true})'])
            ok = False
        if 'new' in p and k > 2 and ok: continue
        ops.append((f % jsstr(p) if '%s' in f else f, ok))
    if not ops: return
    src = 'function chw(p,m) { var c=new Channel(p,m); c.write("chw"); c.close(); return 1; }\n' + '\n'.join('try { %s; puts("OK"); } catch(ex) { puts("DENIED"); };' % f for f, _ in ops)
    with open(sd + '/m.jsi', 'w') as h: h.write(src)
    own(D)
    skip = [os.path.relpath(w, D) for w in wr]
    before = snap(D, skip)
    c.case(repr((args, src)), not all(ok for _, ok in ops))
    c.rendered = ' '.join(args) + '\n' + src
    c.label(mode)
    r = x.cli(args + [sd + '/m.jsi'], cwd=cw)
    got = [l for l in r.stdout.decode('latin1').split('\n') if l in ('OK', 'DENIED')]
    ctx = '\njsish %s\n%s\n--- %s\n%s' % (args, src, r.stdout.decode('latin1')[:1000], r.stderr.decode('latin1')[:1000])
    if snap(D, skip) != before: raise Violation('a file outside the writable directories was changed' + ctx)
    if len(got) != len(ops): raise Violation('%d results of %d operations%s' % (len(got), len(ops), ctx))
    for (f, ok), g in zip(ops, got):
        if g != ('OK' if ok else 'DENIED'): raise Violation('%s: %s, expected %s%s' % (f, g, 'OK' if ok else 'DENIED', ctx))


LIMITS = ['maxDepth', 'maxArrayList', 'maxIncDepth', 'maxInterpDepth', 'maxUserObjs', 'maxOpCnt']
LOCKED = LIMITS + ['noAutoLoad', 'noCheck', 'noError', 'noInput', 'noLoad', 'noNetwork', 'noStderr', 'noSubInterps', 'historyFile', 'confFile', 'maxDumpStack', 'maxDumpArgs', 'isSafe', 'safeMode', 'safeReadDirs', 'safeWriteDirs', 'safeExecPattern', 'lockDown', 'subthread', 'scriptStr']


def p_conf(c, x):
    """locked options: no change from inside, nothing gained by a sub-interp"""
    o = {'isSafe': 'true'}
    vals = {}
    for n in LIMITS:
        if c.bool(40):
            vals[n] = c.int(20000, 90000) if n in ('maxOpCnt', 'maxArrayList') else c.int(5, 60)
            o[n] = str(vals[n])
    for n in ('noLoad', 'noNetwork', 'noStderr'):
        if c.bool(30): o[n] = 'true'
    subs = c.size(0, 3) if vals.get('maxInterpDepth', 10) >= 5 else 0
    L = ['var i=new Interp({%s});' % ', '.join('%s:%s' % p for p in o.items())]
    inner = ['var out=[];']
    att = []
    for _ in range(c.size(1, 6)):
        n = c.pick(LOCKED)
        v = str(c.int(1, 10**6)) if n.startswith('max') else '"/"' if n in ('historyFile', 'confFile', 'lockDown', 'safeExecPattern', 'scriptStr') else '["/"]' if 'Dirs' in n else '"none"' if n == 'safeMode' else c.pick(['true', 'false'])
        att.append(n)
        other = c.bool(40)
        inner.append('try { %sInterp.conf({%s%s:%s}); out.push("set"); } catch(ex) { out.push("no"); }' % ('', 'name:"q", ' if other else '', n, v))
    show_ = 'JSON.stringify([%s, %s])' % (', '.join('Interp.conf("%s")' % n for n in LIMITS), ', '.join('Interp.conf("%s")' % n for n in ('isSafe', 'noLoad', 'noNetwork', 'noStderr')))
    inner.append('out.push(%s);' % show_)
    so = []
    for n in LIMITS:
        if c.bool(40): so.append('%s:%d' % (n, c.int(100, 500000)))
    for n in ('isSafe', 'noLoad', 'noNetwork', 'noStderr'):
        if c.bool(40): so.append('%s:false' % n)
    code = show_
    for _ in range(subs): code = 'var j=new Interp({%s}); j.eval(%s)' % (', '.join(so), jsstr(code))
    inner.append('out.push(eval(%s));' % jsstr(code))
    L.append('i.eval(%s);' % jsstr(' '.join(inner)))
    L.append('emit(i.eval("JSON.stringify(out)"));')
    src = '\n'.join(L)
    c.case(src)
    c.rendered = src
    c.label('%d sub' % min(subs, 2))
    v = json.loads(x.vals(src)[-1])
    for n, r in zip(att, v):
        if r != 'no': raise Violation('the option %s was changed from within a safe interp\n%s' % (n, src))
    a, b = json.loads(v[-2]), json.loads(v[-1])
    for n, q in zip(LIMITS, a):
        if n in vals and q != vals[n]: raise Violation('%s is %r, was created with %r\n%s' % (n, q, vals[n], src))
    if a[6] is not True: raise Violation('isSafe lost\n' + src)
    for n, q in zip(('noLoad', 'noNetwork', 'noStderr'), a[7:]):
        if n in o and q is not True: raise Violation('%s lost\n%s' % (n, src))
    for n, q, r in zip(LIMITS, a, b):
        if q != r: raise Violation('%s is %r in a safe interp and %r in its sub-interp\n%s' % (n, q, r, src))
    for n, q, r in zip(('isSafe', 'noLoad', 'noNetwork', 'noStderr'), a[6:], b[6:]):
        if q and not r: raise Violation('%s is off in the sub-interp of a safe interp\n%s' % (n, src))


PAY = [';touch $X', '\ntouch $X', '&& touch $X', '| touch $X', '|| touch $X', '& touch $X', '`touch $X`', '$(touch $X)', '> $X', '>> $X', ' 2> $X', ' < $X', '\n$X', ' A=1', '; $X', '\n\ntouch $X\n', '&\ntouch $X']


def p_exec(c, x):
    """safeExecPattern"""
    D = x.fresh('d')
    mark = D + '/mark'
    pat, good = c.pick([('^echo ', 'echo '), ('^echo [a-z0-9 ]*$', 'echo '), ('^(echo|printf) ', 'printf '), ('echo', 'echo '), ('^/bin/echo', '/bin/echo ')])
    word = ' '.join(c.pick(['a', 'bc', 'x1', 'z9']) for _ in range(c.int(1, 3)))
    cmd, bad = good + word, False
    k = c.int(0, 3)
    if k == 1:
        p = c.pick(PAY)
        at = c.pick([len(good), len(cmd)])
        cmd = cmd[:at] + p.replace('$X', mark) + cmd[at:]
        bad = True
    elif k == 2:
        cmd = c.pick(['touch %s', 'env touch %s', ' touch %s', 'touch %s #']) % mark
        bad = 'echo' not in cmd
    elif k == 3 and pat[0] == '^':
        cmd = c.pick(['', ' ', 'x']) + 'sh -c true;' + cmd
        bad = True
    call = c.pick(['exec(%s)', 'exec(%s,{})', 'exec(%s,{retAll:true}).data', 'exec(%s)', 'System.exec(%s)']) % jsstr(cmd)
    src = 'var i=new Interp({isSafe:true, safeExecPattern:%s});\ni.eval(%s);\nemit(i.eval("r"));' % (jsstr(pat), jsstr('var r="none"; try { r="OK:"+%s; } catch(ex) { r="<error>"; }' % call))
    c.case(src, bad)
    c.rendered = src
    c.label('payload' if bad else 'allowed')
    v = x.vals(src)[-1]
    if os.path.exists(mark): raise Violation('a command besides the allowed one was executed\n' + src)
    if bad and v != b'<error>': raise Violation('%r must be refused, gives %r\n%s' % (cmd, v, src))
    if not bad and v.rstrip(b'\n') != b'OK:' + word.replace(' ', ' ').encode() and good != 'printf ':
        raise Violation('%r is allowed, gives %r\n%s' % (cmd, v, src))
    if not bad and good == 'printf ' and not v.startswith(b'OK:'): raise Violation('%r is allowed, gives %r\n%s' % (cmd, v, src))


CHECK = Check('C17', mk, [
    ('directories', p_sub, {'quick': 700, 'thorough': 9000}),
    ('main script', p_main, {'quick': 150, 'thorough': 1500}),
    ('locked options', p_conf, {'quick': 250, 'thorough': 2500}),
    ('exec pattern', p_exec, {'quick': 200, 'thorough': 2000}),
], 'non-trivial: at least one operation which must be refused')
