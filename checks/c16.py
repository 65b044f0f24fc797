"""C16: path functions and File.glob."""
import os, re, string
from vt.core import Check, Violation
from vt.js import X, jsstr, UNDEF, same, show

PARTS = ['a', 'b', 'sub', 'x.txt', 'y.tar.gz', '.h', '..', '.', '...', 'a.', 'ü', 'my dir', 'nox', '-', 'lnf', 'lnd', 'dang', 'c.d', '~', '..x', '']


def mktree(c, D, links=True):
    """random tree; returns nothing"""
    dirs = [D]
    files = []
    for i in range(c.size(2, 14)):
        d = c.pick(dirs)
        n = c.pick(['a', 'b', 'sub', 'x.txt', 'y.tar.gz', '.h', 'ü', 'my dir', 'c.d', 'q[1]', 'b2', 'ab', 'abc.js', 'B', 'a-b', 'zz.txt', '.hd', 'deep', 'x.c', 'w~'])
        p = d + '/' + n
        if os.path.lexists(p): continue
        if c.bool(40) and d.count('/') - D.count('/') < 4:
            os.mkdir(p)
            dirs.append(p)
        else:
            with open(p, 'w') as f: f.write('x' * c.int(0, 9))
            files.append(p)
    if links:
        for n, k in (('lnf', 'f'), ('lnd', 'd'), ('dang', '?'), ('zl', 'd'), ('lup', 'd')):
            if not c.bool(50): continue
            d = c.pick(dirs)
            p = d + '/' + n
            if os.path.lexists(p): continue
            if k == '?': os.symlink(c.pick(['none', '../none', 'nodir/none', D + '/gone']), p)
            elif k == 'f' and files:
                t = c.pick(files)
                os.symlink(t if c.bool(40) else os.path.relpath(t, d), p)
            elif k == 'd':
                # never to an ancestor of a link
                t = [q for q in dirs[1:] if not any(os.path.islink(os.path.join(r, e)) for r, ds, fs in os.walk(q) for e in ds + fs) and not (p + '/').startswith(q + '/')]
                if t:
                    t = c.pick(t)
                    os.symlink(t if c.bool(40) else os.path.relpath(t, d), p)


def rpath(c, D):
    """random path text"""
    k = c.int(0, 9)
    if k == 0: s = '/' + '/'.join(c.pick(PARTS) for _ in range(c.size(0, 5)))
    elif k <= 3: s = D + '/' + '/'.join(c.pick(PARTS) for _ in range(c.size(1, 6)))
    elif k <= 8: s = '/'.join(c.pick(PARTS) for _ in range(c.size(1, 6)))
    else: s = '/'.join(c.pick(PARTS) * c.int(1, 30) for _ in range(c.size(1, 90)))[:3000]
    if not s or s[0] == '~': s = 'a' + s
    return s


def strip(p):
    p = p.rstrip(b'/') if isinstance(p, bytes) else p.rstrip('/')
    return p


def p_path(c, x):
    D = x.fresh()
    D = os.path.realpath(D)
    mktree(c, D)
    src = 'File.chdir(%s);\n' % jsstr(D)
    want, what = [], []

    def q(e, v):
        nonlocal src
        src += 'emit(%s);\n' % e
        want.append(v if not isinstance(v, str) else v.encode())
        what.append(e)

    for _ in range(c.int(4, 14)):
        p = rpath(c, D)
        j = jsstr(p)
        i = p.rfind('/')
        tail = p[i + 1:]
        d = tail.rfind('.')
        q('File.tail(%s)' % j, tail)
        q('File.dirname(%s)' % j, '/' if i == 0 else p[:i] if i > 0 else '..' if p == '..' else '.')
        q('File.extension(%s)' % j, tail[d:] if d >= 0 else '')
        q('File.rootname(%s)' % j, p[:i + 1] + tail[:d] if d >= 0 else p)
        q('File.isrelative(%s)' % j, p[0] != '/')
        full = os.path.join(D, p)
        q('File.normalize(%s)' % j, norm(full))
        if len(full) < 3500:
            if plain(full):
                q('File.realpath(%s)' % j, norm(os.path.realpath(full)))
                b = rpath(c, D)
                if len(b) + len(full) < 3500:
                    t = os.path.join(full, b) if b[0] == '/' else full + '/' + b
                    if plain(t): q('File.join(%s,%s)' % (j, jsstr(b)), norm(os.path.realpath(t)))
    c.rendered = src
    c.case(src.replace(D, 'D'), True)
    c.sample(src[:700])
    got = x.vals(src)
    for e, w, g in zip(what, want, got):
        if e.startswith(('File.norm', 'File.real', 'File.join')) and isinstance(g, bytes): g = strip(g) or b'/'
        if not same(g, w):
            raise Violation('%s gives %r instead of %r\n%s\n--- script\n%s' % (e[:300], g, w, listing(D), show(src)))


def plain(p):
    """no .. after something that does not exist or is no directory: the system has no answer for that"""
    cs = p.split('/')
    for i in range(len(cs), 0, -1):
        if os.path.exists('/'.join(cs[:i]) or '/'): return '..' not in cs[i:]
    return '..' not in cs


def norm(p):
    p = os.path.normpath(p)
    return p[1:] if p.startswith('//') else p


def listing(D):
    r = []
    for d, ds, fs in os.walk(D):
        for n in sorted(ds + fs):
            p = os.path.join(d, n)
            r.append(os.path.relpath(p, D) + (' -> ' + os.readlink(p) if os.path.islink(p) else '/' if os.path.isdir(p) else ''))
    return 'tree: ' + ', '.join(r[:60])


# ------------------------------------------------------------------------------------- glob
def gmatch(pat, s):
    """pat: list of tokens ('*',) ('?',) ('c',ch) ('[',[(lo,hi)...])"""
    if not pat: return not s
    t = pat[0]
    if t[0] == '*': return any(gmatch(pat[1:], s[i:]) for i in range(len(s) + 1))
    if not s: return False
    if t[0] == '?' or t[0] == 'c' and t[1] == s[0] or t[0] == '[' and any(lo <= s[0] <= hi for lo, hi in t[1]): return gmatch(pat[1:], s[1:])
    return False


def gpattern(c, names):
    """-> (text, tokens)"""
    base = c.pick(names) if names and c.bool(70) else c.pick(['a', 'x.txt', 'zzz', '.h'])
    toks = []
    k = c.int(0, 5)
    if k == 0: return '*', [('*',)]
    for ch in base:
        r = c.int(0, 9)
        if r == 0: toks.append(('?',))
        elif r == 1: toks.append(('*',))
        elif r == 2 and ch.isalnum() and ch.isascii():
            toks.append(('[', [(ch, ch), ('q', 's')] if c.bool(50) else [(chr(ord(ch) - 1), chr(ord(ch) + 1))] if ch not in 'az09AZ' else [(ch, ch)]))
        else: toks.append(('c', ch))
    if k == 1: toks = toks[:c.int(0, len(toks))] + [('*',)]
    elif k == 2: toks = [('*',)] + toks[c.int(0, len(toks)):]
    elif k == 3: toks = [('c', ch) for ch in base]
    if not toks: toks = [('*',)]
    t = ''
    for z in toks:
        if z[0] in '*?': t += z[0]
        elif z[0] == 'c': t += '\\' + z[1] if z[1] in '*?[\\' else z[1]
        else: t += '[' + ''.join(a if a == b else a + '-' + b for a, b in z[1]) + ']'
    return t, toks


def kind(p):
    """type letter used by glob, or None for a link to nothing"""
    if os.path.islink(p):
        if not os.path.exists(p): return None
        return 'd' if os.path.isdir(p) else 'l'
    return 'd' if os.path.isdir(p) else 'f'


def p_glob(c, x):
    D = os.path.realpath(x.fresh())
    os.mkdir(D + '/t')
    notypes = c.bool(10)
    mktree(c, D + '/t', links=not notypes)
    cwd = D + '/t'
    alld = [cwd]
    names = []
    for d, ds, fs in os.walk(cwd):
        names += ds + fs
        alld += [os.path.join(d, e) for e in ds if not e.startswith('.') and not os.path.islink(os.path.join(d, e))]
    src = ''
    jobs = []
    for _ in range(c.int(3, 10)):
        if c.bool(30): cwd = c.pick(alld)
        src += 'File.chdir(%s);\n' % jsstr(cwd)
        o = {}
        r = {}
        root = cwd
        if c.bool(55):
            root = c.pick(alld)
            rel = os.path.relpath(root, cwd)
            t = c.pick([root, rel, root + '/', './' + rel if rel[0] != '.' else rel])
            if '[' in t: t, root = D + '/t', D + '/t'
            o['dir'] = jsstr(t)
        rec = c.bool(45)
        if rec: o['recurse'] = 'true'
        depth = 99
        if rec and c.bool(30):
            depth = c.int(1, 3)
            o['maxDepth'] = str(depth)
        tails = c.bool(20)
        if tails: o['tails'] = 'true'
        pre = ''
        if c.bool(20):
            pre = c.pick(['P/', 'x/y/', '/'])
            o['prefix'] = jsstr(pre)
        types = None
        if notypes:
            if c.bool(60): o['noTypes'] = '"d"'; types = 'f'
        elif c.bool(25):
            types = c.pick(['f', 'l', 'fl', 'lf'] + ([] if rec else ['d', 'df', 'dl', 'dlf']))
            o['types'] = jsstr(types)
        limit = None
        if c.bool(15):
            limit = c.int(1, 4)
            o['limit'] = str(limit)
        cnt = c.bool(15)
        if cnt: o['retCount'] = 'true'
        info = not cnt and not pre and c.bool(15)
        if info: o['retInfo'] = 'true'
        filt = dfilt = None
        if c.bool(20):
            filt = c.pick(['b', '.', 'x', 'd'])
            o['filter'] = 'function(f) { return f.indexOf(%s)<0; }' % jsstr(filt)
        if rec and c.bool(20):
            dfilt = c.pick(['b', '.', 'u', 'd'])
            o['dirFilter'] = 'function(f) { return File.tail(f).indexOf(%s)<0; }' % jsstr(dfilt)
        # the pattern
        k = c.int(0, 9)
        sub = None            # directory part of the pattern: token lists
        absroot = None
        if k == 0: pat, test = None, lambda n: True
        elif k <= 2:
            ch = c.pick(['a', 'x', 't', 'b', 'ü'])
            re_, test = c.pick([('/%s/' % ch, lambda n: ch in n), ('/^%s/' % ch, lambda n: n.startswith(ch)), ('/%s$/' % ch, lambda n: n.endswith(ch)), ('/^.*[.]txt$/', lambda n: n.endswith('.txt'))])
            pat = re_
        else:
            t, toks = gpattern(c, names)
            test = lambda n, toks=toks: gmatch(toks, n)
            if k >= 7 and not rec and not pre and not tails:
                sub = []
                txt = ''
                # directories, then the name; * must be in the name when no directory has one
                for _i in range(c.int(1, 2)):
                    if c.bool(60):
                        z = c.pick([n for n in names if n[0] != '.' and '[' not in n] or ['a'])
                        if any(s[0] for s in sub): break     # only literal directories before the first wildcard one
                        sub.append((False, z))
                        txt += z + '/'
                    else:
                        w, wt = c.pick([('*', [('*',)]), ('*b*', [('*',), ('c', 'b'), ('*',)]), ('s*', [('c', 's'), ('*',)])])
                        sub.append((True, wt))
                        txt += w + '/'
                if '*' not in t: t, toks = '*', [('*',)]
                test = lambda n, toks=toks: gmatch(toks, n)
                t = txt + t
                if c.bool(30) and 'dir' not in o:
                    other = c.pick(alld)
                    if not (other + '/').startswith(cwd + '/') and '[' not in other:
                        absroot = other
                        t = other + '/' + t
                        root = other
            elif '*' not in t and not rec and ('[' in (o.get('dir') or '')): continue
            pat = jsstr(t)
        if info and ('dir' not in o or rec) and False: continue
        # model
        res = []
        err = False

        def visit(d, rel, lvl):
            for n in sorted(os.listdir(d)):
                if n[0] == '.': continue
                p = d + '/' + n
                ty = kind(p)
                if ty is None: continue
                if ty == 'd' and rec and lvl + 1 <= depth:
                    if dfilt and dfilt in n: continue
                    visit(p, rel + n + '/', lvl + 1)
                if types and ty not in types: continue
                if not test(n): continue
                if filt and filt in n: continue
                res.append((rel + n, n, p))

        def descend(d, rel, sub):
            nonlocal err
            if not sub:
                if not os.path.isdir(d):
                    err = True
                    return
                return visit(d, rel, 0)
            w, z = sub[0]
            if not w: return descend(d + '/' + z, rel + z + '/', sub[1:])
            if not os.path.isdir(d):
                err = True
                return
            for n in sorted(os.listdir(d)):
                if n[0] != '.' and kind(d + '/' + n) == 'd' and gmatch(z, n): descend(d + '/' + n, rel + n + '/', sub[1:])

        descend(root, '', sub or [])
        if absroot: res = [(p, n, p) for r_, n, p in res]
        if err and any(w for w, z in sub): continue
        call = 'File.glob(%s%s)' % (pat or 'null', ',{%s}' % ','.join('%s:%s' % kv for kv in o.items()) if o else c.pick(['', ',null']))
        if pat is None and not o and c.bool(50): call = 'File.glob()'
        if list(o) == ['filter'] and c.bool(70): call = 'File.glob(%s,%s)' % (pat or 'null', o['filter'])
        src += 'try { emit(%s); } catch(ex) { emit("<error>"); }\n' % call
        if err: exp = 'error'
        elif cnt: exp = float(min(len(res), limit) if limit else len(res))
        elif info: exp = {}
        jobs.append((call, cwd, err, res, cnt, info, limit, tails, pre, absroot))
        c.label('recurse' if rec else 'one directory', 'matches' if res else 'no matches')
    c.rendered = src
    if not jobs: return
    c.case(src.replace(D, 'D') + listing(D), any(j[3] for j in jobs))
    c.sample(src[:900])
    got = x.vals(src)
    assert len(got) == len(jobs)
    for (call, cwd, err, res, cnt, info, limit, tails, pre, absroot), g in zip(jobs, got):
        def bad(w):
            raise Violation('in %s: %s\ngives %s\ninstead of %s%s\n%s\n--- script\n%s' % (cwd, call, g, '%d of ' % limit if limit else '', w, listing(D), show(src)))
        if err:
            if g != b'<error>': bad('an error')
            continue
        names = [tidy(pre + (n if tails else r)) for r, n, p in res]
        if cnt:
            if g != float(min(len(res), limit) if limit else len(res)): bad(len(res))
            continue
        if not isinstance(g, list): bad(names)
        if info:
            rows = {}
            for (r, n, p) in res:
                st = os.stat(p)
                e = {b'size': float(st.st_size), b'uid': float(st.st_uid), b'gid': float(st.st_gid), b'mtime': float(int(st.st_mtime)), b'name': tidy(n if tails else r)}
                rows.setdefault(tidy(n if tails else r), []).append(e)
            got_n = []
            for e in g:
                if not isinstance(e, dict) or b'name' not in e: bad(names)
                nm = tidy_b(e[b'name'])
                if absroot: nm = os.path.join(cwd, nm)
                if nm not in rows: bad(names)
                if not any(all(k == b'name' or same(e.get(k), v) for k, v in row.items()) for row in rows[nm]): bad(rows[nm])
                got_n.append(nm)
            names = [tidy(n if tails else r) for r, n, p in res]
        else:
            got_n = [tidy_b(e) for e in g]
        if absroot: got_n = [os.path.join(cwd, n) for n in got_n]     # those below the current directory are given relative to it
        if limit:
            rest = list(names)
            for n in got_n:
                if n not in rest: bad(names)
                rest.remove(n)
            if len(got_n) != min(limit, len(names)): bad(names)
        elif sorted(got_n) != sorted(names): bad(names)


def tidy_b(b): return tidy(b.decode('utf8', 'surrogateescape'))


def tidy(s):
    s = re.sub('/+', '/', s)
    return s[2:] if s.startswith('./') else s


PROPS = [('path', p_path, {'quick': 2000, 'thorough': 40000}), ('glob', p_glob, {'quick': 4000, 'thorough': 80000})]
CHECK = Check('C16', lambda w: X(w), PROPS, 'every batch of paths; a batch of glob calls at least one of which has matches')
