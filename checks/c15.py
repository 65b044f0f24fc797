"""C15: files and channels.  File commands run as an unprivileged user inside a scratch directory; the oracle for
them is the same operations done by Python on a twin tree, for channels a model of bytes and position."""
import os, shutil, stat, string
from vt.core import Check, Violation
from vt.js import X, UNPRIV, UNDEF, raw, jsstr, show, same

ERR = b'<error>'


def mk(w):
    return X(w, user=UNPRIV)


def data(c, nul=True):
    k = c.int(0, 9)
    if k == 0: return b''
    if k < 6: b = bytes(c.pick(b'ab\ncdef\n') for _ in range(c.size(1, 30)))
    elif k < 8:
        n = c.pick([4095, 4096, 8190, 8191, 8192, 8193, 16383, 16384, 20000])
        b = (b'0123456789abcde' * 1400)[c.int(0, 14):][:n]
        if c.bool(60): b = b[:-1] + b'\n'
        if c.bool(50): b = b[:c.int(0, n - 1)] + b'\n' + b[:9]
    else: b = bytes(c.int(0, 255) for _ in range(c.size(1, 20)))
    if not nul: b = b.replace(b'\0', b'.')
    return b


# ------------------------------------------------------------------------------- channels
class Chan:
    """a channel on one of the files fs[name] (bytearray)"""
    def __init__(s, fs, name, mode):
        s.fs, s.name, s.mode = fs, name, mode
        m = mode.replace('b', '')
        s.r = m[0] == 'r' or '+' in m
        s.w = m[0] != 'r' or '+' in m
        s.app = m[0] == 'a'
        if m[0] == 'w': fs[name] = bytearray()
        elif m[0] == 'a': fs.setdefault(name, bytearray())
        s.pos = 0
        s.eof = False
        s.last = None
        s.fresh = s.app       # where an append channel reads or tells first is up to the C library

    @property
    def d(s): return s.fs[s.name]

    def write(s, b):
        if not b: return
        if s.app: s.pos = len(s.d)
        if s.pos > len(s.d): s.d.extend(bytes(s.pos - len(s.d)))
        s.d[s.pos:s.pos + len(b)] = b
        s.pos += len(b)

    def read(s, n=-1):
        rest = bytes(s.d[s.pos:])
        if n < 0 or n > len(rest):
            s.eof = True
            b = rest
        else: b = rest[:n]
        s.pos += len(b)
        return b

    def gets(s):
        rest = bytes(s.d[s.pos:])
        if not rest:
            s.eof = True
            return UNDEF
        i = rest.find(b'\n')
        if i < 0:
            s.eof = True
            s.pos += len(rest)
            return rest
        s.pos += i + 1
        return rest[:i]


MODES = ['r', 'w', 'a', 'r+', 'w+', 'a+', 'rb', 'wb', 'rb+', 'wb+', 'ab', 'ab+']


def p_chan(c, x):
    D = x.fresh()
    fs = {}
    for nm in ('f0', 'f1'):
        if c.bool(75):
            fs[nm] = bytearray(data(c, nul=False))
            with open(D + '/' + nm, 'wb') as f: f.write(fs[nm])
            os.chown(D + '/' + nm, UNPRIV, UNPRIV)
    src = ['var D=%s;' % jsstr(D)]
    want, what = [], []
    m = None
    nops = c.size(2, 26)

    def q(expr, v):
        want.append(v)
        what.append(expr)
        src.append('try { emit(%s); } catch(ex) { emit("<error>"); }' % expr)

    def op_open(first):
        nonlocal m
        nm, mode = c.pick(['f0', 'f1']), c.pick(MODES)
        if c.bool(6): nm = 'nodir/f'
        bad = nm not in fs and (mode[0] == 'r' or '/' in nm)
        if first:
            src.append('var c = null;')
            q('(c = new Channel(D+"/%s"%s)) ? 1 : 0' % (nm, '' if mode == 'r' and c.bool(50) else ', "%s"' % mode), ERR if bad else 1.0)
        else:
            q('c.open(D+"/%s", "%s")' % (nm, mode), not bad)
        if bad:
            m = None
            return
        m = Chan(fs, nm, mode)

    def seek():
        wh = c.pick(['set', 'cur', 'end'])
        if wh == 'cur' and m.fresh: wh = 'set'
        base = {'set': 0, 'cur': m.pos, 'end': len(m.d)}[wh]
        k = c.int(0, 5)
        if k == 0: t = c.int(0, max(0, len(m.d)))
        elif k == 1: t = c.pick([0, len(m.d), len(m.d) + c.int(1, 9), 1, len(m.d) - 1, len(m.d) + 5000])
        elif k == 2: t = base
        elif k == 3: t = c.int(0, 30)
        else: t = c.int(0, max(0, len(m.d)))
        if t < 0: t = 0
        q('c.seek(%d,"%s")' % (t - base, wh), 0.0)
        m.pos, m.eof, m.last, m.fresh = t, False, None, False

    def turn(kind):
        """a switch between reading and writing needs a seek"""
        if m.last and m.last != kind: seek()
        if kind == 'r' and m.fresh: seek()
        m.last = kind

    op_open(True)
    for _ in range(nops):
        if m is None:
            if all(w is ERR for w in want):      # only failed constructors so far: no object
                op_open(True)
                continue
            k = c.int(0, 8)
            if k == 0: q('c.read(%d)' % c.int(1, 5), UNDEF)
            elif k == 1: q('c.gets()', UNDEF)
            elif k == 2: q('c.write("zz")', 0.0)
            elif k == 3: q('c.puts("zz")', False)
            elif k == 4: q('c.' + c.pick(['tell()', 'eof()', 'flush()', 'mode()', 'truncate(3)', 'seek(0,"set")', 'stat()', 'lstat()']), ERR)
            elif k == 5: q('c.close()', True)
            else: op_open(False)
            continue
        k = c.int(0, 15)
        if k <= 2:
            b = data(c)
            if m.w:
                turn('w')
                q('c.write(%s)' % raw(b), float(len(b)))
                m.write(b)
                if b: m.fresh = False
            elif b:
                q('c.write(%s)' % raw(b), 0.0)
        elif k <= 4:
            b = data(c, nul=False)
            if m.w:
                turn('w')
                q('c.puts(%s)' % raw(b), True)
                m.write(b + b'\n')
                m.fresh = False
            else: q('c.puts(%s)' % raw(b), False)
        elif k <= 7:
            n = c.pick([-1, None, 1, 2, c.int(1, 40), 4096, 8191, 8192, 8193, 16384, 30000, len(m.d), max(1, len(m.d) - m.pos)])
            if n == 0: n = 1
            if m.r:
                turn('r')
                b = m.read(-1 if n is None else n)
                q('c.read(%s)' % ('' if n is None else n), b if b else UNDEF)
            else:
                q('c.flush()', 0.0)
                q('c.read(%s)' % ('' if n is None else n), UNDEF)
        elif k <= 9:
            if m.r:
                turn('r')
                if b'\0' in m.d[m.pos:]:
                    seek()
                    continue
                q('c.gets()', m.gets())
                m.last = 'r'
            else:
                q('c.flush()', 0.0)
                q('c.gets()', UNDEF)
        elif k == 10: seek()
        elif k == 11:
            if not m.fresh: q('c.tell()', float(m.pos))
        elif k == 12:
            if m.last == 'r' or m.last is None: q('c.eof()', m.eof)
        elif k == 13:
            if m.w:
                n = c.pick([0, len(m.d), c.int(0, len(m.d) + 10), len(m.d) + 10000, 1])
                q('c.truncate(%d)' % n, 0.0)
                del m.d[n:]
                m.d.extend(bytes(max(0, n - len(m.d))))
                seek()
            else: q('c.truncate(%d)' % c.int(0, 9), -1.0)
        elif k == 14:
            if m.w and m.last != 'r': q('c.flush()', 0.0)
            else: continue
            j = c.int(0, 3)
            if j == 0: q('c.stat().size', float(len(m.d)))
            elif j == 1: q('c.lstat().size', float(len(m.d)))
            elif j == 2: q('File.read(c.filename())', bytes(m.d))
            else: q('File.size(D+"/%s")' % m.name, float(len(m.d)))
        else:
            j = c.int(0, 5)
            if j == 0: q('c.mode()', m.mode.encode())
            elif j == 1: q('c.filename()', ('%s/%s' % (D, m.name)).encode())
            elif j <= 3:
                q('c.close()', True)
                nm = m.name
                m = None
                q('File.read(D+"/%s")' % nm, bytes(fs[nm]))
            else: op_open(False)
    if m is not None: q('c.close()', True)
    src = '\n'.join(src) + '\n'
    c.rendered = src
    c.case(src.replace(D, 'D'), sum(w.startswith(('c.write', 'c.puts', 'c.read', 'c.gets', 'c.trunc')) for w in what) > 1)
    c.sample(src[:900])
    got = x.vals(src)
    compare(src, what, want, got)
    for nm in ('f0', 'f1'):
        p = D + '/' + nm
        g = open(p, 'rb').read() if os.path.exists(p) else None
        w = bytes(fs[nm]) if nm in fs else None
        if g != w:
            raise Violation('file %s holds %r instead of %r\n--- script\n%s' % (nm, cut(g), cut(w), show(src)))


def cut(b):
    return b if b is None or not isinstance(b, bytes) or len(b) < 300 else b[:140] + b'...[%d]...' % len(b) + b[-140:]


def compare(src, what, want, got):
    if len(got) != len(want):
        raise Violation('%d results instead of %d\n--- script\n%s' % (len(got), len(want), show(src)))
    for i, (w, g) in enumerate(zip(want, got)):
        if not same(g, w):
            raise Violation('%s: step %d gives %r instead of %r\n--- script\n%s' % (what[i][:200], i, cut(g), cut(w), show(src)))


# ------------------------------------------------------------------------------- file commands
NAMES = ['a', 'b', 'cc', 'x.txt', 'my file', 'ü', '.h', '-f', 'a~', 'x*', 'LongerName_0123456789', '..c', "q'q"]


class Twin:
    """the oracle: the operation done by Python below root m; permissions of the unprivileged owner considered"""
    def __init__(s, m): s.m = m

    def p(s, rel): return os.path.join(s.m, rel)

    def readable(s, p): return os.stat(p).st_mode & 0o400 != 0
    def writable(s, p): return os.stat(p).st_mode & 0o200 != 0

    def opn(s, p, mode):
        e = os.path.exists(p)
        if e and os.path.isdir(p): raise OSError
        if e and ((mode[0] == 'r' or '+' in mode) and not s.readable(p) or (mode[0] != 'r' or '+' in mode) and not s.writable(p)): raise OSError
        mode = mode.replace('b', '')
        if not e and mode[0] == 'r': raise OSError
        return open(p, mode[0] + 'b' + mode[1:], buffering=0)

    def write(s, rel, b, mode='wb+'):
        with s.opn(s.p(rel), mode) as f:
            if mode in ('r', 'rb'): return 0.0
            f.write(b)
        return float(len(b))

    def read(s, rel, mode='rb'):
        with s.opn(s.p(rel), mode) as f: return f.read()

    def exists(s, rel): return os.path.exists(s.p(rel))

    def copy(s, a, b, force=False):
        a, b = s.p(a), s.p(b)
        if not force and os.path.exists(b): raise OSError
        f = s.opn(a, 'rb')
        mode = os.stat(a).st_mode
        with f:
            if force and os.path.exists(b):
                try: os.remove(b) if os.path.islink(b) or not os.path.isdir(b) else os.rmdir(b)
                except OSError: pass
            with s.opn(b, 'wb+') as g: g.write(f.read())
        if os.path.exists(a): mode = os.stat(a).st_mode
        os.chmod(b, stat.S_IMODE(mode))
        return UNDEF

    def rename(s, a, b, force=False):
        a, b = s.p(a), s.p(b)
        if not force and os.path.exists(b): raise OSError
        os.rename(a, b)
        return UNDEF

    def remove(s, rel, force=False):
        p = s.p(rel)
        if not os.path.lexists(p):
            if force: return UNDEF
            raise OSError
        if os.path.isdir(p) and not os.path.islink(p):
            if force: shutil.rmtree(p)
            else: os.rmdir(p)
        else: os.remove(p)
        return UNDEF

    def mkdir(s, rel, force=False):
        if force: os.makedirs(s.p(rel), 0o755, exist_ok=True)
        else: os.mkdir(s.p(rel), 0o755)
        return UNDEF

    def truncate(s, rel, n):
        with s.opn(s.p(rel), 'rb+') as f: f.truncate(n)
        return UNDEF

    def chmod(s, rel, m):
        os.chmod(s.p(rel), m)
        return UNDEF

    def symlink(s, target, rel):
        os.symlink(target, s.p(rel))
        return UNDEF

    def link(s, a, b):
        os.link(s.p(a), s.p(b))
        return UNDEF

    def readlink(s, rel): return os.fsencode(os.readlink(s.p(rel)))

    def isdir(s, rel): return os.path.isdir(s.p(rel))
    def isfile(s, rel): return os.path.isfile(s.p(rel))
    def size(s, rel): return float(os.stat(s.p(rel)).st_size)
    def acc(s, rel, bit): return os.path.exists(s.p(rel)) and bool(os.stat(s.p(rel)).st_mode & bit)
    def perms(s, rel):
        return stat.filemode(os.stat(s.p(rel)).st_mode).encode() if os.path.exists(s.p(rel)) else b'----------'
    def lperms(s, rel): return stat.filemode(os.lstat(s.p(rel)).st_mode).encode()
    def nlink(s, rel): return float(os.stat(s.p(rel)).st_nlink)
    def owned(s, rel): return os.path.exists(s.p(rel))


def walk(root):
    """{relative path: description}; hard links are described by the first path of the same inode"""
    r, ino = {}, {}
    for d, ds, fs in os.walk(root):
        for n in sorted(ds + fs):
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode): r[rel] = ('link', os.readlink(p))
            elif stat.S_ISDIR(st.st_mode): r[rel] = ('dir', oct(st.st_mode & 0o7777))
            else: r[rel] = ('file', oct(st.st_mode & 0o7777), open(p, 'rb').read())
            if stat.S_ISREG(st.st_mode): ino.setdefault(st.st_ino, []).append(rel)
    for l in ino.values():
        if len(l) > 1:
            for rel in l: r[rel] += (tuple(sorted(l)),)
    return r


def tree(c, x, n):
    """script, expectations and twin after n random operations"""
    D, M = x.fresh('d'), x.fresh('m')
    os.umask(0o22)
    t = Twin(M)
    src, want, what = [], [], []
    known = ['a', 'b', 'cc']

    def path(new=False):
        k = c.int(0, 9)
        if not new and k < 6 and known: return c.pick(known)
        p = ''
        if k >= 4 and known: p = c.pick(known) + '/'
        if p.count('/') > 3: p = ''
        p += c.pick(NAMES)
        if c.bool(8): p += '/' + c.pick(NAMES)
        if p not in known: known.append(p)
        return p

    def P(rel):
        if c.bool(60): return jsstr(D + '/' + rel)
        if c.bool(20): return jsstr(D + '/./' + rel)
        return jsstr(rel)

    def q(expr, f, *a):
        try: w = f(*a)
        except (OSError, shutil.Error): w = ERR
        want.append(w)
        what.append(expr)
        src.append('try { emit(%s); } catch(ex) { emit("<error>"); }' % expr)
        return w

    src.append('File.chdir(%s);' % jsstr(D))
    q('File.pwd()', lambda: os.path.realpath(D).encode())
    fds = 'File.glob("/proc/self/fd/*").length' if c.bool(30) else None
    if fds: src.append('var nfd=%s;' % fds)
    for i in range(n):
        k = c.int(0, 27)
        if k <= 3:
            p, b = path(True), data(c)
            mode = c.pick([None, None, 'w', 'wb', 'a', 'ab', 'a+', 'r+', 'rb+', 'w+'])
            q('File.write(%s,%s%s)' % (P(p), raw(b), '' if not mode else ',"%s"' % mode), t.write, p, b, *([mode] if mode else []))
        elif k <= 5:
            p = path()
            mode = c.pick([None, None, 'r', 'rb', 'r+'])
            q('File.read(%s%s)' % (P(p), ',"%s"' % mode if mode else ''), t.read, p, *([mode] if mode else []))
        elif k <= 7:
            p, f = path(True), c.bool(40)
            q('File.mkdir(%s%s)' % (P(p), ',true' if f else c.pick(['', ',false'])), t.mkdir, p, f)
        elif k <= 9:
            a, b, f = path(), path(True), c.bool(50)
            q('File.copy(%s,%s%s)' % (P(a), P(b), ',true' if f else c.pick(['', ',false'])), t.copy, a, b, f)
        elif k <= 11:
            a, b, f = path(), path(True), c.bool(50)
            q('File.rename(%s,%s%s)' % (P(a), P(b), ',true' if f else c.pick(['', ',false'])), t.rename, a, b, f)
        elif k <= 14:
            p, f = path(), c.bool(50)
            q('File.remove(%s%s)' % (P(p), ',true' if f else c.pick(['', ',false'])), t.remove, p, f)
        elif k == 15:
            p, m = path(), c.pick([0, 2, 4, 6, 7]) * 64 + c.int(0, 63)
            if t.isdir(p): m |= 0o700
            q('File.chmod(%s,%d)' % (P(p), m), t.chmod, p, m)
        elif k == 16:
            p, z = path(), c.pick([0, 1, c.int(0, 100), 8192, 100000])
            q('File.truncate(%s,%d)' % (P(p), z), t.truncate, p, z)
        elif k <= 18:
            # a relative link; only downwards or to a sibling of an ancestor inside the tree
            p = path(True)
            up = c.int(0, p.count('/'))
            tg = '../' * up + c.pick(NAMES + known)
            q('File.link(%s,%s%s)' % (jsstr(tg), P(p), c.pick(['', ',false'])), t.symlink, tg, p)
        elif k == 19:
            a, b = path(), path(True)
            q('File.link(%s,%s,true)' % (P(a), P(b)), t.link, a, b)
        elif k == 20:
            p = path()
            q('File.readlink(%s)' % P(p), t.readlink, p)
        elif k == 21:
            p = path()
            q('File.exists(%s)' % P(p), t.exists, p)
        elif k == 22:
            p = path()
            if c.bool(50): q('File.isdir(%s)' % P(p), t.isdir, p)
            else: q('File.isfile(%s)' % P(p), t.isfile, p)
        elif k == 23:
            p = path()
            nm, bit = c.pick([('readable', 0o400), ('writable', 0o200), ('executable', 0o100)])
            q('File.%s(%s)' % (nm, P(p)), t.acc, p, bit)
        elif k == 24:
            p = path()
            if c.bool(50): q('File.perms(%s)' % P(p), t.perms, p)
            else: q('File.lstat(%s).perms' % P(p), t.lperms, p)
        elif k == 25:
            p = path()
            if not t.isdir(p): q(c.pick(['File.size(%s)', 'File.stat(%s).size']) % P(p), t.size, p)
        elif k == 26:
            p = path()
            if c.bool(50): q('File.stat(%s).nlink' % P(p), t.nlink, p)
            else: q('File.owned(%s)' % P(p), t.owned, p)
        else:
            p = path()
            if '..' not in p:
                q('File.chdir(%s)' % jsstr(D + '/' + p), lambda: UNDEF if os.path.isdir(t.p(p)) else 1 / 0 if 0 else _raise())
                if want[-1] is not ERR:
                    q('File.pwd()', lambda: os.path.join(os.path.realpath(D), os.path.relpath(os.path.realpath(t.p(p)), os.path.realpath(M))).rstrip('.').rstrip('/').encode()
                      if os.path.realpath(t.p(p)) == os.path.realpath(M) else
                      os.path.join(os.path.realpath(D), os.path.relpath(os.path.realpath(t.p(p)), os.path.realpath(M))).encode())
                    src.append('File.chdir(%s);' % jsstr(D))
    if fds: q('%s-nfd' % fds, lambda: 0.0)
    return D, M, t, src, want, what, known


def _raise(): raise OSError


def p_tree(c, x):
    D, M, t, src, want, what, known = tree(c, x, c.size(3, 40))
    src = '\n'.join(src) + '\n'
    c.rendered = src
    c.case(src.replace(D, 'D'), sum(w is not ERR for w in want) > 3)
    c.label('errors' if any(w is ERR for w in want) else 'no errors')
    c.sample(src[:900])
    got = x.vals(src)
    compare(src, what, want, got)
    a, b = walk(D), walk(M)
    if a != b:
        d = [(k, show_(a.get(k)), show_(b.get(k))) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
        raise Violation('the tree differs: (path, is, should be) %r\n--- script\n%s' % (d[:6], show(src)))
    # status commands against the system's answers on the same tree
    s2, w2, q2 = [], [], []
    for rel in sorted(a)[:25]:
        p = os.path.join(D, rel)
        J = jsstr(p)
        ls = os.lstat(p)
        try: st = os.stat(p)
        except OSError: st = None
        for nm, z in (('stat', st), ('lstat', ls)):
            if z is None: e = ERR
            else: e = {b'mtime': float(int(z.st_mtime)), b'size': float(z.st_size), b'uid': float(z.st_uid), b'gid': float(z.st_gid), b'perms': stat.filemode(z.st_mode).encode(),
                       b'mode': float(z.st_mode), b'dev': float(z.st_dev), b'ino': float(z.st_ino), b'nlink': float(z.st_nlink), b'rdev': float(z.st_rdev), b'blksize': float(z.st_blksize),
                       b'blocks': float(z.st_blocks), b'ctime': float(int(z.st_ctime)), b'atime': float(int(z.st_atime))}
            s2.append('try { emit(File.%s(%s)); } catch(ex) { emit("<error>"); }' % (nm, J))
            w2.append(e)
            q2.append('File.%s(%s)' % (nm, rel))
        if st:
            s2.append('emit([File.mtime(%s),File.atime(%s),File.size(%s)]);' % (J, J, J))
            w2.append([float(int(st.st_mtime)), float(int(st.st_atime)), float(st.st_size)])
            q2.append('mtime, atime, size of ' + rel)
    if s2:
        s2 = '\n'.join(s2) + '\n'
        compare(s2, q2, w2, x.vals(s2))


def show_(v):
    return v if v is None or v[0] != 'file' else v[:2] + (cut(v[2]),) + v[3:]


def p_temp(c, x):
    """temporary files are new, empty and private; copies of large files are exact; many failing operations leak nothing"""
    D = x.fresh('d')
    n = c.int(1, 8)
    pre = c.pick(['t', 'jsi-', 'ä b', '.x'])
    big = bytes(bytearray((i * 7 + i // 251) & 255 for i in range(c.pick([0, 1, 8191, 8192, 8193, 65536, 100001]))))
    with open(D + '/src', 'wb') as f: f.write(big)
    os.chmod(D + '/src', c.pick([0o644, 0o600, 0o755, 0o400]) if c else 0)
    os.chown(D + '/src', UNPRIV, UNPRIV)
    mode = os.stat(D + '/src').st_mode
    k = c.int(1, 60)
    src = '''File.chdir(%s); var r=[], i;
for (i=0;i<%d;i++) { r.push(File.tempfile(%s+'XXXXXX')); }
emit(r);
File.copy('src','dst'); emit(File.read('dst'));
var bad=0;
for (i=0;i<%d;i++) {
  try { File.copy('src','no/dst'); } catch(e1) { bad++; }
  try { File.copy('nosrc','dst2'); } catch(e2) { bad++; }
  try { File.read('nosrc'); } catch(e3) { bad++; }
  try { new Channel('nosrc'); } catch(e4) { bad++; }
  try { File.write('no/x','y'); } catch(e5) { bad++; }
  File.read('dst'); File.stat('dst'); File.glob('*');
}
emit(bad); emit(File.glob('/proc/self/fd/*').length);
''' % (jsstr(D), n, jsstr(pre), k)
    c.rendered = src
    c.case(src.replace(D, 'D'), True)
    v = x.vals(src)
    base = x.vals("File.chdir(%s); emit(File.glob('/proc/self/fd/*').length);\n" % jsstr(D))[0]
    t = v[0]
    if len(set(t)) != n or any(not z.startswith(pre.encode()) or len(z) != len(pre.encode()) + 6 for z in t):
        raise Violation('temporary names %r' % t)
    for z in t:
        st = os.stat(os.path.join(os.fsencode(D), z))
        if st.st_size or stat.S_IMODE(st.st_mode) != 0o600 or not stat.S_ISREG(st.st_mode):
            raise Violation('temporary file %r: size %d mode %o' % (z, st.st_size, st.st_mode))
    if v[1] != big: raise Violation('the copy differs: %r' % cut(v[1]))
    if os.stat(D + '/dst').st_mode != mode: raise Violation('mode of the copy %o instead of %o' % (os.stat(D + '/dst').st_mode, mode))
    if v[2] != 5 * k: raise Violation('%r errors instead of %d\n%s' % (v[2], 5 * k, src))
    if v[3] != base: raise Violation('%r open files instead of %r after failing operations\n%s' % (v[3], base, src))
    if sorted(os.listdir(D)) != sorted(['src', 'dst'] + [os.fsdecode(z) for z in t]): raise Violation('files left: %r' % os.listdir(D))


PROPS = [('channel', p_chan, {'quick': 4000, 'thorough': 80000}), ('tree', p_tree, {'quick': 2500, 'thorough': 40000}), ('temp', p_temp, {'quick': 60, 'thorough': 1000})]
CHECK = Check('C15', mk, PROPS, 'a channel history with more than one transfer of data, or more than three successful file operations')
