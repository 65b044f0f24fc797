"""C22: zip archives as file systems (Zvfs), compressed channels, deflate.  Oracle: Python's zipfile, gzip and zlib."""
import gzip, io, os, stat, time, zipfile, zlib
from vt.core import Check, Violation
from vt.js import X, jsstr, raw, same, conv, UNDEF, show


def mk(w): return X(w)


ERR = b'<error>'


def data(c, nul=True):
    k = c.int(0, 11)
    if k == 0: return b''
    if k == 1: return bytes([c.int(0 if nul else 1, 255)])
    n = c.pick([c.int(1, 60), c.int(1, 60), c.int(100, 3000), 4096, 8190, 8191, 8192, 8193, 16384, 20000, c.int(8000, 40000), 70000])
    if c.bool(3): n = 300000
    seed = c.int(0, 2**31)
    if k <= 4:
        # cannot be compressed
        out, s = bytearray(), seed | 1
        while len(out) < n:
            s = (s * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
            out += (s >> 16).to_bytes(6, 'little')
        b = bytes(out[:n])
    elif k <= 6: b = bytes([seed % 255 + 1]) * n
    elif k <= 8:
        # lines
        out, s = bytearray(), seed
        while len(out) < n:
            s = (s * 1103515245 + 12345) & 0x7fffffff
            out += b'%d' % s if s & 64 else b'word' * ((s >> 8) % 9)
            if s & 1024: out += b'\n'
        b = bytes(out[:n])
        if c.bool(30): b += b'\n'
    else:
        b = (c.pick([b'line one\n', b'ab\ncd\n\n', b'x\xff\xfe\n', b'0123456789', b'\r\n', b'\n']) * n)[:n]
    return b if nul else b.replace(b'\0', b'\1')


NAMES = ['a', 'b.txt', 'c.jsi', 'long' * 30, 'with space', 'd-e_f', 'ü', '.hid', 'x.y.z', 'q%41', "it's", '1', 'README', 'a~', '[x]', 'a\\b']


def tree(c, nmax=9):
    """files of a tree: {path: bytes}; dirs end in /"""
    t, dirs = {}, ['']
    for _ in range(c.size(1, nmax)):
        d, n = c.pick(dirs), c.pick(NAMES)
        if c.bool(30): n += str(c.int(0, 20))
        p = d + n
        if p in t or p + '/' in t: continue
        if c.bool(25):
            t[p + '/'] = None
            dirs.append(p + '/')
        else: t[p] = data(c)
    if c.bool(3):
        for i in range(c.pick([60, 150, 400])): t['many%d' % i] = b'%d' % i
    return t


def write(D, t, c=None):
    os.makedirs(D, exist_ok=True)
    for p, b in t.items():
        if b is None: os.makedirs(D + '/' + p, exist_ok=True)
    for p, b in t.items():
        if b is not None:
            with open(D + '/' + p, 'wb') as f: f.write(b)
            if c and c.bool(20): os.chmod(D + '/' + p, c.pick([0o755, 0o600, 0o444, 0o640, 0o777]))
            if c and c.bool(30):
                tm = c.int(315619200, 4000000000)
                os.utime(D + '/' + p, (tm, tm))


def jl(l): return '[' + ','.join(raw(p.encode()) for p in l) + ']'


def mounted(mp, t, c, src, want):
    """what is seen below the mount point"""
    def q(e, w, what): src.append('try { emit(%s); } catch(ex) { emit("<error>"); }' % e); want.append((w, what))
    def P(p): return raw((mp + '/' + p).encode())
    for p, b in t.items():
        if b is None:
            d = p[:-1]
            q('File.isdir(%s)' % P(d), True, 'isdir of %s' % p)
            q('File.exists(%s)' % P(d), True, 'exists of %s' % p)
            q('File.isfile(%s)' % P(d), False, 'isfile of %s' % p)
        else:
            q('File.read(%s)' % P(p), b, 'read of %s' % p)
            q('[File.size(%s), File.exists(%s), File.isfile(%s), File.isdir(%s), Zvfs.stat(%s).size]' % ((P(p),) * 5), [len(b), True, True, False, len(b)], 'stat of %s' % p)
    for d in [''] + [p for p, b in t.items() if b is None]:
        kids = sorted(p[len(d):].rstrip('/') for p in t if p.startswith(d) and p != d and '/' not in p[len(d):].rstrip('/') and not p[len(d):].startswith('.'))
        q('File.glob("*", {dir:%s}).sort()' % (P(d[:-1]) if d else raw(mp.encode())), [k for k in kids], 'glob of %r' % d) if len(kids) else None
    for n in ('nope', 'a/b/nope', 'README/x', 'a.'):
        if n not in t and n + '/' not in t: q('[File.exists(%s), typeof Zvfs.stat(%s)]' % (P(n), P(n)), [False, 'undefined'], 'missing file')
    q('File.read(%s)' % P('nosuch.file'), ERR, 'read of a missing file')
    q('File.write(%s, "x")' % P(c.pick([p for p in t] + ['new'])), ERR, 'write into a mounted archive')


def sortk(l): return sorted(k.encode() for k in l)


def judge(x, src, want, flags=1):
    got = x.vals('\n'.join(src), flags=flags)
    if len(got) != len(want): raise Violation('%d results for %d\n%s' % (len(got), len(want), show('\n'.join(src))))
    for g, (w, what) in zip(got, want):
        w = conv(w)
        if what.startswith('glob') and isinstance(g, list): g, w = sorted(g), sorted(w)
        if not same(g, w): raise Violation('%s: got %s expected %s\n%s' % (what, show(repr(g)[:500]), show(repr(w)[:500]), show('\n'.join(src))))


def checkzip(fn, ents, base, D, app):
    """what Python reads from an archive; ents: (name, bytes or None) in order"""
    with open(fn, 'rb') as f: whole = f.read()
    if whole[:len(base)] != base: raise Violation('the bytes before the archive changed')
    z = zipfile.ZipFile(fn)
    uname = lambda i: i.filename if i.flag_bits & 0x800 else i.filename.encode('cp437').decode('utf8')
    got = [uname(i) for i in z.infolist()]
    exp = [n for n, b in ents]
    if got != exp: raise Violation('names in the archive: %r expected %r' % (got, exp))
    bad = z.testzip()
    if bad: raise Violation('zipfile.testzip fails on %r' % bad)
    for i, (n, b) in zip(z.infolist(), ents):
        if i.is_dir() != (b is None): raise Violation('%s is_dir %r' % (n, i.is_dir()))
        if b is not None and z.read(i) != b: raise Violation('content of %s differs' % n)
        st = os.stat(D + '/' + n)
        if i.external_attr >> 16 != st.st_mode: raise Violation('mode of %s is %o not %o' % (n, i.external_attr >> 16, st.st_mode))
        if i.date_time != zt(st.st_mtime): raise Violation('time of %s is %r not %r' % (n, i.date_time, zt(st.st_mtime)))
    z.close()


def zt(t):
    t = time.localtime(t)
    return (t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec // 2 * 2)


def p_create(c, x):
    """create and append, read by Python and through a mount, truncate"""
    D = x.fresh()
    t = tree(c)
    write(D + '/s', t, c)
    base = data(c) if c.bool(35) else b''
    fn = D + '/' + c.pick(['o.zip', 'prog', 'x y'])
    if base or c.bool(10):
        with open(fn, 'wb') as f: f.write(base)
    names = list(t)
    # in batches
    batches, rest = [], [n for n in names]
    k = c.pick([1, 1, 2, 3])
    for i in range(k):
        m = len(rest) if i == k - 1 else c.int(min(1, len(rest)), len(rest))
        batches.append(rest[:m])
        rest = rest[m:]
    two = c.bool(30)
    src, want = [], []
    ents = []
    for i, b in enumerate(batches):
        src.append('Zvfs.%s(%s, %s, %s);' % ('append' if i else 'create', jsstr(fn), jl(n.rstrip('/') for n in b), jsstr(D + '/s')))
        ents += [(n, t[n]) for n in b]
    if two:
        # a second list with another prefix
        write(D + '/s2', {'z2': b'second', 'z3/': None})
        write(D + '/s', {'z2': b'second', 'z3/': None})
        for p in ('z2', 'z3'): os.utime(D + '/s2/' + p, (1e9, 1e9)), os.utime(D + '/s/' + p, (1e9, 1e9))
        src[-1] = src[-1][:-2] + ', %s, %s);' % (jl(['z2', 'z3']), jsstr(D + '/s2'))
        ents += [('z2', b'second'), ('z3/', None)]
        t = dict(t, **{'z2': b'second', 'z3/': None})
    src.append('try { Zvfs.create(%s, [], null); emit("created"); } catch(ex) { emit("<error>"); }' % jsstr(fn))
    want.append((ERR, 'create over an archive'))
    src.append('emit(Zvfs.offset(%s));' % jsstr(fn))
    if any(ents): want.append((len(base), 'offset'))
    src.append('emit(Zvfs.list(%s).slice(1).map(function(e) { return [e[0], e[4]]; }).reverse());' % jsstr(fn))
    want.append(([[n, len(b or b'')] for n, b in ents], 'list'))
    mp = c.pick([D + '/m', '', '/zz/y', None])
    src.append('var M = Zvfs.mount(%s%s); emit(M);' % (jsstr(fn), '' if mp is None else ', ' + jsstr(mp)))
    real = '/zvfs1' if mp is None else fn if mp == '' else mp
    want.append((real, 'mount'))
    if mp != '': mounted(real, t, c, src, want)
    src.append('emit(Zvfs.names()); emit(Zvfs.names(%s));' % jsstr(real))
    want += [([real], 'names'), (fn, 'archive of the mount')]
    src.append('Zvfs.unmount(M); emit(Zvfs.names());')
    want.append(([], 'names after unmount'))
    f0 = [n for n in t if t[n] is not None]
    if f0 and mp != '':
        src.append('emit(File.exists(%s));' % raw((real + '/' + f0[0]).encode()))
        want.append((False, 'a file after unmount'))
    if not ents: want = [w for w in want]
    c.case(repr([(n, len(b or b''), (b or b'')[:20]) for n, b in ents]) + str(len(base)), len(t) > 1)
    c.rendered = '\n'.join(src)
    c.label('%d batches' % k)
    if base: c.label('appended to a file')
    judge(x, src, want)
    checkzip(fn, ents, base, D + '/s', k > 1)
    src, want = ['emit(Zvfs.truncate(%s));' % jsstr(fn)], [(len(base), 'truncate')]
    judge(x, src, want)
    with open(fn, 'rb') as f:
        if f.read() != base: raise Violation('truncate does not give back the bytes before the archive\n' + c.rendered)
    if base or c.bool(20):
        r = ['try { Zvfs.truncate(%s); emit("ok"); } catch(ex) { emit("<error>"); } emit(Zvfs.truncate(%s, true));' % (jsstr(fn), jsstr(fn))]
        judge(x, r, [(ERR, 'truncate without archive'), (0, 'truncate without archive, noerror')])


def foreign(c, t):
    f = io.BytesIO()
    z = zipfile.ZipFile(f, 'w')
    for n, b in t.items():
        i = zipfile.ZipInfo(n, date_time=(c.int(1980, 2100), c.int(1, 12), c.int(1, 28), c.int(0, 23), c.int(0, 59), c.int(0, 29) * 2))
        i.compress_type = zipfile.ZIP_DEFLATED if b is not None and c.bool(70) else zipfile.ZIP_STORED
        if c.bool(30): i.extra = b'\x55\x54' + c.pick([b'\x05\0\x03abcd', b'\0\0', b'\x20\0' + b'q' * 32])
        if c.bool(20): i.comment = c.pick([b'a comment', b'x' * 300])
        i.external_attr = (0o40755 if b is None else c.pick([0o100644, 0o100755, 0o100600])) << 16
        z.writestr(i, b or b'', compresslevel=c.int(1, 9))
    infos = z.infolist()
    z.close()
    return f.getvalue(), infos


def p_foreign(c, x):
    """archives written by Python, mounted"""
    D = x.fresh()
    t = tree(c)
    b, infos = foreign(c, t)
    with open(D + '/f.zip', 'wb') as f: f.write(b)
    src, want = [], []
    src.append('emit(Zvfs.mount(%s, "/mm"));' % jsstr(D + '/f.zip'))
    want.append(('/mm', 'mount'))
    mounted('/mm', t, c, src, want)
    for i in infos:
        if t[i.filename] is None: continue
        tm = time.mktime(i.date_time + (0, 0, -1))
        src.append('emit([File.mtime(%s), File.stat(%s).perms||0, Zvfs.stat(%s).compressedSize]);' % ((raw(('/mm/' + i.filename).encode()),) * 3))
        want.append(([tm, 0, i.compress_size], 'times of %s' % i.filename))
    # appended to by Zvfs
    if c.bool(40):
        write(D + '/s', {'new file': b'new content'})
        src.append('Zvfs.unmount("/mm"); Zvfs.append(%s, ["new file"], %s);' % (jsstr(D + '/f.zip'), jsstr(D + '/s')))
        src.append('emit(Zvfs.mount(%s, "/m2"));' % jsstr(D + '/f.zip'))
        want.append(('/m2', 'mount'))
        t2 = dict(t, **{'new file': b'new content'})
        mounted('/m2', t2, c, src, want)
    else: t2 = t
    c.case(repr([(n, len(b or b''), (b or b'')[:20]) for n, b in t.items()]), len(t) > 1)
    c.rendered = '\n'.join(src)
    got = x.vals('\n'.join(src), flags=1)
    want = [(w, what) for w, what in want]
    for g, (w, what) in zip(got, want):
        if what.startswith('times') and isinstance(g, list): g[1] = 0.0
        w = conv(w)
        if what.startswith('glob') and isinstance(g, list): g, w = sorted(g), sorted(w)
        if not same(g, w): raise Violation('%s: got %s expected %s\n%s' % (what, show(repr(g)[:500]), show(repr(w)[:500]), c.rendered))
    if len(got) != len(want): raise Violation('%d results for %d' % (len(got), len(want)))
    if t2 is not t:
        z = zipfile.ZipFile(D + '/f.zip')
        if z.testzip(): raise Violation('append damaged %r\n%s' % (z.testzip(), c.rendered))
        for n, b in t2.items():
            if z.read(n) != (b or b''): raise Violation('append damaged %r\n%s' % (n, c.rendered))
        for i in infos:
            j = z.getinfo(i.filename)
            if (j.external_attr, j.date_time, j.compress_type) != (i.external_attr, i.date_time, i.compress_type): raise Violation('append changed the attributes of %s: %r to %r\n%s' % (i.filename, (i.external_attr, i.date_time, i.compress_type), (j.external_attr, j.date_time, j.compress_type), c.rendered))


def lines_gets(b, pos):
    """next line from pos: (text, new pos)"""
    if pos >= len(b): return UNDEF, pos
    e = b.find(b'\n', pos)
    if e < 0: return b[pos:], len(b)
    return b[pos:e], e + 1


def reads(c, f, b, seekable, src, want, n, pos=0):
    """a step of reading channel f with content b; returns the new position"""
    def q(e, w): src.append('emit(%s);' % e); want.append((w, e))
    k = c.int(0, 9)
    if k <= 3:
        m = c.pick([1, 2, c.int(1, 50), c.int(1, 9000), 4096, 8191, 8192, 8193, 16384, 30000, max(1, len(b) - pos), len(b) + 1])
        r = b[pos:pos + m]
        q('%s.read(%d)' % (f, m), r if r else UNDEF)
        pos += len(r)
    elif k <= 6:
        r, pos = lines_gets(b, pos)
        q('%s.gets()' % f, r)
    elif k == 7:
        if seekable and c.bool(75):
            t = c.pick([0, c.int(0, len(b)), len(b), max(0, len(b) - 1), max(0, pos - c.int(0, 20)), min(len(b), pos + c.int(0, 20)), min(len(b), pos + c.int(0, 9000)), c.int(0, len(b))])
            wh = c.pick(['set', 'cur', 'end'])
            base = {'set': 0, 'cur': pos, 'end': len(b)}[wh]
            src.append('%s.seek(%d, "%s");' % (f, t - base, wh))
            pos = t
        q('%s.tell()' % f, pos)
    elif k == 8:
        if pos < len(b): q('%s.eof()' % f, False)
        else:
            q('%s.read(1)' % f, UNDEF)
            q('%s.eof()' % f, True)
    elif c.bool(25):
        r = b[pos:]
        q('%s.read()' % f, r if r else UNDEF)
        pos = len(b)
    return pos


def p_chan(c, x):
    """reading files of an archive by channels, several at once"""
    D = x.fresh()
    t = {'f%d' % i: data(c, nul=False) for i in range(c.int(1, 3))}
    if c.bool(50):
        b, _ = foreign(c, t)
        with open(D + '/f.zip', 'wb') as f: f.write(b)
        src = []
    else:
        write(D + '/s', t)
        src = ['Zvfs.create(%s, %s, %s);' % (jsstr(D + '/f.zip'), jl(t), jsstr(D + '/s'))]
    src.append('Zvfs.mount(%s, "/mm");' % jsstr(D + '/f.zip'))
    want, st = [], {}
    for _ in range(c.size(3, 30)):
        if not st or (len(st) < 3 and c.bool(15)):
            n, v = c.pick(list(t)), 'c%d' % len(st)
            src.append('var %s = new Channel("/mm/%s", "%s");' % (v, n, c.pick(['r', 'rb', 'r'])))
            st[v] = [t[n], 0]
        v = c.pick(sorted(st))
        st[v][1] = reads(c, v, st[v][0], True, src, want, 1, st[v][1])
    for v in st: src.append('%s.close();' % v)
    c.case(repr(src[-20:]) + repr([(len(b), b[:20]) for b in t.values()]), len(want) > 2 and any(len(b) > 10 for b in t.values()))
    c.rendered = '\n'.join(src)
    c.label('%d channels' % len(st))
    judge(x, src, want)


def p_gz(c, x):
    """compressed channels: what is written is read by Python, and the other way round"""
    D = x.fresh()
    fmt = c.pick('zzZ')
    if fmt == 'z': unz, mz = gzip.decompress, lambda b: gzip.compress(b, c.int(1, 9))
    else: unz, mz = zlib.decompress, lambda b: zlib.compress(b, c.int(1, 9))
    lvl = c.pick(['', '', '1', '2', '5', '6', '9'])
    src, want = ['var F = %s;' % jsstr(D + '/f.gz')], []
    total = b''
    full = b''
    base = b''
    if fmt == 'z' and c.bool(20):
        base = data(c, nul=False)
        if base: c.label('appended to')
        with open(D + '/f.gz', 'wb') as f: f.write(mz(base))
        mode = 'az'
    else: mode = 'w' + fmt
    src.append('var w = new Channel(F, "%s%s");' % (mode, lvl))
    for _ in range(c.size(0, 12)):
        b = data(c, nul=False)
        k = c.int(0, 8)
        if k <= 4:
            src.append('emit(w.write(%s));' % raw(b))
            want.append((len(b), 'write'))
            total += b
        elif k <= 6:
            b = b[:c.pick([10, 500, 9000])]
            src.append('emit(w.puts(%s));' % raw(b))
            want.append((True, 'puts'))
            total += b + b'\n'
        elif k == 7: src.append('w.flush();')
        else:
            src.append('emit(w.tell());')
            want.append((len(total), 'tell'))
    src.append('w.close();')
    full = base + total
    r = ['var F = %s; var r = new Channel(F, "r%s");' % (jsstr(D + '/f.gz'), fmt)]
    rw, pos = [], 0
    if c.bool(50):
        for _ in range(c.size(1, 15)): pos = reads(c, 'r', full, False, r, rw, 1, pos)
    r.append('emit(r.read());')
    rw.append((full[pos:] or UNDEF, 'read of the rest'))
    r.append('emit(r.read(5)); emit(r.gets()); emit(r.eof()); r.close();')
    rw += [(UNDEF, 'read at the end'), (UNDEF, 'gets at the end'), (True, 'eof at the end')]
    c.case(repr(src) + repr(r), len(total) > 10)
    c.rendered = '\n'.join(src + r)
    c.label(mode + lvl)
    judge(x, src, want)
    with open(D + '/f.gz', 'rb') as f: z = f.read()
    try: got = unz(z)
    except Exception as e: raise Violation('Python cannot read what was written: %s\n%s' % (e, show(c.rendered)))
    if got != full: raise Violation('Python reads %d bytes, %d were written\n%s' % (len(got), len(full), show(c.rendered)))
    if mode != 'az': judge(x, r, rw)      # members after the first: finding gz-members
    # the same content compressed by Python
    if fmt == 'z':
        o = io.BytesIO()
        with gzip.GzipFile(c.pick(['', 'some name.txt']), 'wb', c.int(1, 9), o) as g: g.write(full)
        z = o.getvalue()
        if c.bool(20): z = z[:3] + bytes([z[3] | 4]) + z[4:10] + b'\x05\x00extra' + z[10:]
    else: z = mz(full)
    with open(D + '/f.gz', 'wb') as f: f.write(z)
    judge(x, r, rw)
    # truncated: a prefix of the content, and no crash
    if len(z) > 12:
        with open(D + '/f.gz', 'wb') as f: f.write(z[:c.int(1, len(z) - 1)])
        g = x.run('var r = new Channel(%s, "r%s"); try { emit(r.read()); } catch(ex) { emit("<error>"); }' % (jsstr(D + '/f.gz'), fmt), flags=1)
        if g.status != 0: raise Violation('crash on a truncated file\n%s' % show(g.err))


def p_deflate(c, x):
    b = data(c)
    lvl = c.int(0, 9)
    z = zlib.compress(b, lvl)
    src = ['emit(Zvfs.deflate(%s));' % raw(b), 'emit(Zvfs.inflate(Zvfs.deflate(%s)));' % raw(b), 'emit(Zvfs.inflate(%s));' % raw(z)]
    cut = c.int(0, len(z) - 1)
    bad = bytearray(z)
    i = c.int(0, len(z) - 1)
    bad[i] ^= c.int(1, 255)
    junk = c.pick([bytes(bad), z[:cut], b'\0' * c.int(1, 20), b'garbage', b + b'x'])
    src.append('try { emit(Zvfs.inflate(%s)); } catch(ex) { emit("<error>"); }' % raw(junk))
    c.case(repr((b[:40], len(b), lvl, junk[:30])), len(b) > 2)
    c.rendered = '\n'.join(src)
    got = x.vals('\n'.join(src), flags=1)
    try:
        if zlib.decompress(got[0]) != b: raise Violation('deflate: other data\n' + show(c.rendered))
    except zlib.error as e: raise Violation('deflate: %s\n%s' % (e, show(c.rendered)))
    if got[1] != b or got[2] != b: raise Violation('inflate: other data\n' + show(c.rendered))
    try: w = zlib.decompress(junk)
    except zlib.error: w = ERR
    # data after the end is ignored
    if w is ERR:
        d = zlib.decompressobj()
        try:
            o = d.decompress(junk)
            if d.eof: w = o
        except zlib.error: pass
    if got[3] != w: raise Violation('inflate of damaged data: got %r expected %r\n%s' % (got[3][:100], w[:100], show(c.rendered)))


def p_corrupt(c, x):
    """damaged archives: errors or data, never a crash; the interpreter works on"""
    D = x.fresh()
    t = tree(c, 5)
    b, _ = foreign(c, t)
    b = bytearray((data(c) if c.bool(20) else b'') + b)
    cd = b.rfind(b'PK\5\6')
    for _ in range(c.int(1, 4)):
        k = c.int(0, 6)
        if k == 0: i = c.int(0, len(b) - 1)
        elif k <= 2: i = cd + c.int(4, 21)
        elif k <= 4: i = c.int(max(0, cd - 100), cd)
        else: i = c.int(0, min(60, len(b) - 1))
        if c.bool(85): b[min(i, len(b) - 1)] = c.pick([0, 0xff, 0x7f, 0x80, c.int(0, 255)])
        elif c.bool(50): del b[i:i + c.int(1, 30)]
        else: b[i:i] = b'\0' * c.int(1, 30)
        if not b: b = bytearray(b'P')
    if c.bool(15): b = b[:c.int(0, len(b))]
    if c.bool(15): b += b'\0' * c.int(1, 40)
    fn = D + '/c.zip'
    with open(fn, 'wb') as f: f.write(bytes(b))
    ops = ['Zvfs.list(F)', 'Zvfs.offset(F)', 'Zvfs.mount(F, "/mm")']
    ops += ['File.read(%s)' % raw(('/mm/' + n).encode()) for n in t][:6] + ['File.glob("*", {dir:"/mm", recurse:true})', 'File.glob("*", {dir:"/mm"}).forEach(function(f) { File.read("/mm/"+f); })']
    n0 = [n for n in t if t[n]]
    if n0: ops += ['var ch = new Channel(%s); ch.gets(); ch.seek(3,"set"); ch.read(100); ch.seek(0,"end"); ch.gets(); ch.seek(-5,"cur"); ch.read(); ch.close()' % raw(('/mm/' + n0[0]).encode())]
    ops += ['Zvfs.unmount("/mm")', 'Zvfs.names()', 'Zvfs.append(F, ["good"], %s)' % jsstr(D + '/s'), 'Zvfs.mount(F)', 'Zvfs.truncate(F, true)']
    src = ['var F = %s;' % jsstr(fn)] + ['try { %s; } catch(ex) { 0; };' % o for o in ops]
    write(D + '/s', {'good': b'good content'})
    src.append('Zvfs.create(%s, ["good"], %s); emit(File.read(Zvfs.mount(%s, "/gg")+"/good"));' % (jsstr(D + '/g.zip'), jsstr(D + '/s'), jsstr(D + '/g.zip')))
    c.case(bytes(b[:200] + b[-200:]).hex(), True)
    c.rendered = '\n'.join(src) + '\n// archive: ' + bytes(b).hex()[:3000]
    got = x.vals('\n'.join(src), flags=1)
    if got[-1] != b'good content': raise Violation('a good archive cannot be read after a bad one: %r\n%s' % (got, c.rendered))



def probe_members(x):
    """an appended gzip member"""
    D = x.fresh()
    x.js('var f = new Channel(%s, "wz"); f.write("one"); f.close(); f = new Channel(%s, "az"); f.write("two"); f.close();' % ((jsstr(D + '/f.gz'),) * 2))
    if gzip.decompress(open(D + '/f.gz', 'rb').read()) != b'onetwo': raise Violation('what was appended with mode az is damaged')
    if x.vals('var f = new Channel(%s, "rz"); emit(f.read());' % jsstr(D + '/f.gz')) != [b'onetwo']: raise Violation('data appended with mode az cannot be read back with mode rz')


CHECK = Check('C22', mk, [
    ('create and append', p_create, {'quick': 160, 'thorough': 2500}),
    ('archives of others', p_foreign, {'quick': 140, 'thorough': 2200}),
    ('channels in archives', p_chan, {'quick': 220, 'thorough': 3500}),
    ('compressed channels', p_gz, {'quick': 160, 'thorough': 2500}),
    ('deflate and inflate', p_deflate, {'quick': 250, 'thorough': 4000}),
    ('damaged archives', p_corrupt, {'quick': 300, 'thorough': 6000}),
], 'non-trivial: more than one entry, data of more than ten bytes or more than two reads',
    probes=[('gz-members', probe_members)])
