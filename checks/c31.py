"""C31: what Info says about the program against what the program declares."""
import fnmatch, re
from vt.core import Check, Discard, Violation
from vt.js import X, jsstr, expect, same, conv, show, UNPRIV, UNDEF

_cmds = {}


def mk(w): return X(w, user=UNPRIV)


def texts(v): return [s.decode('utf8', 'replace') if isinstance(s, bytes) else s for s in v]


NAMEC = 'abxy_12'
VALS = [('number', '5'), ('number', '-1.5'), ('string', '"s"'), ('string', '""'), ('boolean', 'true'), ('null', 'null'), ('array', '[1,2]'), ('array', '[]'), ('object', '{q:1}'), ('object', '{}'), ('regexp', '/x/g'), ('number', 'NaN')]


def name(c, pre='q'): return pre + ''.join(c.pick(NAMEC) for _ in range(c.int(0, 4)))


def glob(c, names, pre='q'):
    n = c.pick(names) if names and c.bool(75) else name(c, pre)
    s = pre
    for ch in n[len(pre):]:
        k = c.int(0, 9)
        if k <= 1: s += '?'
        elif k == 2: s += '[%s]' % c.pick([ch, ch + 'a', 'a-' + max(ch, 'a'), 'a-z', '0-9'])
        elif k == 3: s += '*'
        elif k == 4: s += '*'; break
        else: s += ch
    if '*' not in s and '[' not in s: s += '*'
    return s


def regex(c, names, pre='q'):
    n = c.pick(names) if names and c.bool(75) else name(c, pre)
    s = '^' + pre
    for ch in n[len(pre):]:
        k = c.int(0, 9)
        if k <= 1: s += '.'
        elif k == 2: s += '[%s]' % c.pick([ch, ch + 'a', 'a-z', '^a', '0-9'])
        elif k == 3: s += ch + c.pick('*+?')
        elif k == 4: s += '(%s|%s)' % (ch, c.pick(NAMEC))
        else: s += ch
    return s + c.pick(['$', '', '$'])


def gmatch(g, n): return re.match('(?s:' + ''.join('.*' if t == '*' else '.' if t == '?' else t if t[0] == '[' else re.escape(t) for t in re.findall(r'\[[^]]*\]|.', g)) + r')\Z', n) is not None


def globals_(c, x):
    """declared variables, functions and objects against Info.vars, data, funcs, lookup, completions"""
    D, F, O = {}, {}, {}     # name -> (type, text); function name -> (params, locals); object -> keys
    src = []
    for _ in range(c.size(1, 12)):
        n = name(c)
        if n in D or n in F: continue
        k = c.weighted([(5, 'var'), (4, 'func'), (2, 'obj'), (1, 'undef')])
        if k == 'var':
            t, v = c.pick(VALS)
            src.append(c.pick(['var %s = %s;', 'var %s=%s;']) % (n, v))
            D[n] = (t, v)
        elif k == 'undef':
            src.append('var %s;' % n)
            D[n] = ('undefined', 'undefined')
        elif k == 'func':
            ps = []
            for _ in range(c.int(0, 4)):
                p = name(c, 'p')
                if p not in ps: ps.append(p)
            ls = []
            for _ in range(c.int(0, 4)):
                p = name(c, 'l')
                if p not in ls: ls.append(p)
            body = ''.join(c.pick(['var %s=1; ', 'var %s; ', 'for (var %s=0; false; ) { }\n', 'if (false) { var %s=2; } ']) % p for p in ls)
            va = c.bool(15)
            src.append('function %s(%s) { %s%s}' % (n, ', '.join(ps + ['...'] * va), body, c.pick(['', 'return 1; ', 'emit(1); '])))
            F[n] = (ps, ls, va)
        else:
            ks = {}
            for _ in range(c.int(1, 5)):
                q = name(c, 'k')
                if q not in ks: ks[q] = c.pick(['number', 'string', 'function', 'object'])
            src.append('var %s = {%s};' % (n, ', '.join(q + ':' + {'number': '7', 'string': '"t"', 'function': 'function(z) { return z; }', 'object': '{ka:1, kb:function() { return 2; }}'}[t] for q, t in ks.items())))
            D[n] = ('object', None)
            O[n] = ks
    # later changes that keep the kind data / function
    for _ in range(c.int(0, 3)):
        if not D: break
        n = c.pick(sorted(D))
        if n in O:
            q = name(c, 'k')
            m = c.int(0, 2)
            if m == 0: src.append('%s.%s = 3;' % (n, q)); O[n][q] = 'number'
            elif m == 1 and O[n]: q = c.pick(sorted(O[n])); src.append('delete %s.%s;' % (n, q)); del O[n][q]
            else: src.append('%s[%s] = function(w) { return w; };' % (n, jsstr(q))); O[n][q] = 'function'
        else:
            t, v = c.pick(VALS)
            src.append('%s = %s;' % (n, v))
            D[n] = (t, v)
    want = []
    allq = sorted(set(D) | set(F))

    def q(e, w, srt=True): src.append('emit(%s);' % e); want.append((w, e, srt))
    inside = c.bool(25)
    if inside: src.append('function zz() { var nodata=1;')
    for _ in range(c.int(2, 8)):
        k = c.weighted([(3, 'glob'), (3, 're'), (3, 'name'), (2, 'lookup'), (2, 'obj'), (2, 'objglob'), (2, 'func'), (2, 'comp'), (1, 'meth'), (1, 'none')])
        if k == 'glob':
            g = glob(c, allq)
            f = c.pick(['data', 'funcs'])
            q('Info.%s(%s)' % (f, jsstr(g)), [n for n in (D if f == 'data' else F) if gmatch(g, n)])
        elif k == 're':
            r = regex(c, allq)
            f = c.pick(['data', 'funcs', 'vars'])
            q('Info.%s(/%s/)' % (f, r), [n for n in (F if f == 'funcs' else D) if re.search(r, n)])
        elif k == 'none':
            f = c.pick(['data', 'funcs', 'vars'])
            q('Info.%s().filter(function(s) { return s[0]=="q"; })' % f, list(F if f == 'funcs' else D))
        elif k == 'name':
            n = c.pick(allq) if c.bool(80) and allq else name(c)
            f = c.pick(['vars', 'data'])
            if f == 'vars': q('Info.vars(%s)' % jsstr(n), {'type': D[n][0]} if n in D else {}, False)
            elif n in D or n in F: q('Info.data(%s)' % jsstr(n), {'name': n, 'type': D[n][0] if n in D else 'function'}, False)
            else: q('Info.data(%s)' % jsstr(n), [], False)
        elif k == 'lookup':
            n = c.pick(allq) if c.bool(80) and allq else name(c)
            if n in O and O[n] and c.bool(60):
                p = c.pick(sorted(O[n]))
                q('Info.lookup(%s)===%s.%s' % (jsstr(n + '.' + p), n, p), True, False)
                q('Info.data(%s).type' % jsstr(n + '.' + p), O[n][p], False)
            elif n in D or n in F:
                if n in D and D[n][1] == 'NaN': q('isNaN(Info.lookup(%s))' % jsstr(n), True, False)
                else: q('Info.lookup(%s)===%s' % (jsstr(n), n), True, False)
            else: q('Info.lookup(%s)===undefined' % jsstr(n), True, False)
        elif k in ('obj', 'objglob') and O:
            n = c.pick(sorted(O))
            f = c.pick(['data', 'funcs'] + ['vars'] * (k == 'obj'))
            ks = [p for p, t in O[n].items() if (t == 'function') == (f == 'funcs')]
            if k == 'obj': q('Info.%s(%s)' % (f, n), ks)
            else:
                g = glob(c, sorted(O[n]), 'k')
                q('Info.%s(%s)' % (f, jsstr(n + '.' + g)), [p for p in ks if gmatch(g, p)])
        elif k == 'func' and F:
            n = c.pick(sorted(F))
            ps, ls, va = F[n]
            a = c.pick([n, jsstr(n)])
            q('Info.funcs(%s).argList' % a, ps, False)
            q('Info.funcs(%s).locals' % a, ls, False)
            q('Info.funcs(%s).args' % a, ', '.join(ps), False)
            q('Info.funcs(%s).ftype' % a, 'script', False)
        elif k == 'comp':
            if O and c.bool(40):
                n = c.pick(sorted(O))
                p = name(c, 'k')[:c.int(1, 4)] if c.bool() else ''
                w = [n + '.' + t for t in O[n] if t.startswith(p)]
                st = n + '.' + p
            else:
                st = (c.pick(sorted(F)) if F and c.bool(70) else name(c))
                st = st[:c.int(2, max(2, len(st)))]
                if len(st) < 2: continue      # built-in names start with q
                w = [n for n in F if n.startswith(st)]
            pre, post = c.pick(['', 'x ', 'a=(']), c.pick(['', ' ', 'zz'])
            if len(pre) or len(post): e = 'Info.completions(%s, %d, %d)' % (jsstr(pre + st + post), len(pre), len(pre) + len(st) - 1)
            else: e = 'Info.completions(%s)' % jsstr(st)
            q(e, w)
        elif k == 'meth':
            g = glob(c, sorted(F))
            q('Info.methods(%s).filter(function(s) { return s!="quote"; })' % jsstr(g), [n for n in F if gmatch(g, n)])
    if not want: raise Discard()
    if inside: src.append('}\nzz();')
    s = '\n'.join(src) + '\n'
    c.rendered = s
    g = x.vals(s)
    if len(g) != len(want): raise Violation('%d values, want %d\n%s' % (len(g), len(want), s))
    for (w, what, srt), v in zip(want, g):
        if srt and isinstance(v, list): v, w = sorted(texts(v), key=str), sorted(w, key=str)
        if not same(conv(v), conv(w)): raise Violation('%s: got %r, want %r\n%s' % (what, v, w, s))
    c.case(s, len(allq) > 2 and any(w for w, _, _ in want))
    for _, e, _ in want: c.label(re.sub(r'\(.*', '', e))
    c.sample(s)


def stack(c, x):
    """nested calls: Info.level, Info.locals against the call history"""
    nf = c.int(1, 6)
    src, want = [], []
    loc = []
    for i in range(nf):
        ps = ['p%d%s' % (i, c.pick('ab'))] + ['r%d' % i] * c.bool(40)
        ls = [('l%d%d' % (i, j), c.pick([1, 'x', True, 2.5])) for j in range(c.int(0, 3))]
        loc.append((ps, ls, c.bool(25)))
    # the chain: f0 calls f1 in some manner ...
    how = [c.weighted([(5, 'call'), (2, 'method'), (1, 'call()'), (1, 'apply'), (1, 'map'), (1, 'try'), (1, 'rec')]) for i in range(nf)]
    names, args = [], []
    frames = []     # function names in order of depth
    for i in range(nf):
        ps, ls, inner = loc[i]
        nxt = ''
        if i + 1 < nf:
            a = [c.pick([1, 2, 'v', True]) for _ in loc[i + 1][0]]
            args.append(a)
            A = ', '.join(show_js(v) for v in a)
            n = 'f%d' % (i + 1)
            h = how[i]
            nxt = {'call': '%s(%s);' % (n, A), 'method': 'var o=O; o.%s(%s);' % (n, A), 'call()': '%s.call(null, %s);' % (n, A), 'apply': '%s.apply(null, [%s]);' % (n, A),
                   'map': '%s(%s);' % (n, A), 'try': 'try { %s(%s); } catch(e) { emit(e); }' % (n, A), 'rec': '%s(%s);' % (n, A)}[h]
        body = ''.join('var %s = %s; ' % (n, show_js(v)) for n, v in ls)
        if inner: body += 'var g%d = function() { return 1; }; ' % i
        rep = 'emit(Info.level()); '
        src.append('function f%d(%s) { %s%s %s emit(Info.level()); }' % (i, ', '.join(ps), body, '/*HERE%d*/' % i, nxt))
    head = [c.pick([1, 2, 'v', True]) for _ in loc[0][0]]
    args.insert(0, head)
    # what each function reports before the next call
    for i in range(nf):
        ps, ls, inner = loc[i]
        vals = {p: a for p, a in zip(ps, args[i])}
        vals.update(dict(ls))
        if how[i] == 'method' and i + 1 < nf: vals['o'] = None
        rep = ['emit(Info.level());']
        w = [(i + 2.0, 'level in f%d' % i)]
        for _ in range(c.int(1, 4)):
            k = c.pick(['abs', 'rel', 'cur', 'bad', 'locals', 'data', 'funs'])
            nm = lambda d: '' if d <= 1 else 'f%d' % (d - 2)
            if k == 'abs':
                d = c.int(1, i + 2)
                rep.append('emit([Info.level(%d).funcName, Info.level(%d).level]);' % (d, d)); w.append(([nm(d), float(d)], 'level(%d) in f%d' % (d, i)))
            elif k == 'rel':
                d = c.int(0, i + 1)
                rep.append('emit([Info.level(-%d).funcName, Info.level(-%d).level]);' % (d, d)); w.append(([nm(i + 2 - d), i + 2.0 - d], 'level(-%d) in f%d' % (d, i)))
            elif k == 'cur': rep.append('emit(Info.level(0).locals);'); w.append(([n for n, _ in ls] + (['g%d' % i] if inner else []) + (['o'] if 'o' in vals else []), 'locals of level(0) in f%d' % i))
            elif k == 'bad':
                d = c.pick([i + 3, i + 10, -(i + 2), -50])
                rep.append('try { Info.level(%d); emit("no"); } catch(e) { emit("ERR"); }' % d); w.append(('ERR', 'level(%d) in f%d' % (d, i)))
            elif k == 'locals':
                rep.append('emit(Object.keys(Info.locals()));')
                w.append((sorted(list(vals) + ['g%d' % i] * inner), 'locals() in f%d' % i))
            elif k == 'data':
                if 'o' in vals: continue
                rep.append('emit(Info.locals(false));')
                w.append((vals, 'locals(false) in f%d' % i))
            else:
                rep.append('emit(Object.keys(Info.locals(true)));'); w.append((['g%d' % i] if inner else [], 'locals(true) in f%d' % i))
        src[i] = src[i].replace('/*HERE%d*/' % i, ' '.join(rep))
        want += w
    want += [(i + 2.0, 'level after the calls in f%d' % i) for i in range(nf - 1, -1, -1)]
    src.append('var O = {%s};' % ', '.join('f%d:f%d' % (i, i) for i in range(nf)))
    src.append('emit(Info.level()); f0(%s); emit(Info.level());' % ', '.join(show_js(v) for v in head))
    want = [(1.0, 'top level')] + want + [(1.0, 'top level')]
    s = '\n'.join(src) + '\n'
    c.rendered = s
    g = x.vals(s)
    if len(g) != len(want): raise Violation('%d values, want %d\n%s' % (len(g), len(want), s))
    for (w, what), v in zip(want, g):
        if what.startswith('locals() ') or what.startswith('locals of'): v, w = sorted(texts(v)), sorted(w)
        if not same(conv(v), conv(w)): raise Violation('%s: got %r, want %r\n%s' % (what, v, w, s))
    c.case(s, nf > 1)
    c.label('depth %d' % nf)
    c.sample(s)


def show_js(v): return 'true' if v is True else jsstr(v) if isinstance(v, str) else repr(v)


def builtins(x):
    """{name: details} of every builtin function"""
    if not _cmds:
        g = x.vals('''var A=Info.cmds('*');
for (var i in A) { emit([A[i], Info.cmds(A[i])]); var B=Info.cmds(A[i]+'.*', {full:true}); for (var j in B) { emit([B[j], Info.cmds(B[j])]); } }
''')
        for n, d in g:
            if isinstance(d, dict) and d.get(b'type') == b'command': _cmds[n.decode()] = {k.decode(): v for k, v in d.items()}
        if len(_cmds) < 200: raise Violation('Info.cmds lists %d commands' % len(_cmds))
    return _cmds


TYPES = {'number': '5', 'string': '"x"', 'boolean': 'true', 'array': '[1]', 'object': '{a:1}', 'function': 'function(a) { return a; }', 'regexp': '/x/', 'null': 'null'}
# commands that end the script, block, or read the terminal when called validly
HAZ = re.compile(r'^(exit|sleep|update|vwait|quit|Signal\..*|console\.input|System\..*|File\..*|Socket.*|exec|source|load|.*(conf|Constructor))$')


def globlists(c, x):
    """Info.cmds with a glob or a regexp lists the commands that match"""
    B = builtins(x)
    src, want = '', []
    top = sorted({n for n in B if '.' not in n})
    pk = sorted({n.split('.')[0] for n in B if n.count('.') == 1})
    for _ in range(c.int(1, 6)):
        full = c.bool(30)
        P = c.pick(pk)
        names = sorted(n.split('.')[1] for n in B if n.count('.') == 1 and n.split('.')[0] == P)
        n = c.pick(names)
        pat = ''
        for ch in n:
            k = c.int(0, 11)
            if k == 0: pat += '?'
            elif k == 1: pat += '[%s-%s]' % (min(ch, 'a'), max(ch, 'm'))
            elif k == 2: pat += '*'
            elif k == 3: pat += '*'; break
            else: pat += ch
        if '*' not in pat and '[' not in pat and '?' not in pat: pat += '*'
        if '*' not in pat and '[' not in pat: pat += '*'
        src += 'emit(Info.cmds(%s%s));\n' % (jsstr(P + '.' + pat), ', {full:true}' if full else '')
        want.append(([(P + '.' if full else '') + m for m in names if gmatch(pat, m)], P + '.' + pat))
    c.rendered = src
    for (w, what), v in zip(want, x.vals(src)):
        if not isinstance(v, list) or sorted(texts(v)) != sorted(w): raise Violation('Info.cmds(%s): got %r, want %r' % (what, v, w))
    c.case(src, any(w for w, _ in want))
    c.sample(src)


def arity(c, x):
    """a call of a builtin with a number or type of arguments outside its declaration is an error"""
    B = builtins(x)
    src, want = '', []
    names = sorted(n for n in B if n.count('.') <= 1 and not n.split('.')[-1].endswith('Constructor'))
    for _ in range(c.int(1, 8)):
        n = c.pick(names)
        d = B[n]
        mn, mx = int(d['minArgs']), int(d['maxArgs'])
        P, m = n.split('.') if '.' in n else ('', n)
        if re.match('Log|assert', m): continue      # not called at all when switched off
        recv = {'Array': '[1,2]', 'String': '"abc"', 'Number': '(5)', 'Boolean': '(true)', 'RegExp': 'RX', 'Function': 'FN', 'Object': 'OB'}
        stat = P in ('', 'Math', 'JSON', 'Info', 'File', 'Util', 'Vfs', 'System', 'Signal', 'Zvfs', 'Event', 'console')
        if not stat and P not in recv: continue
        if P == 'Object' or P == 'Number' and m.startswith('is'): continue
        call = (P + '.' if P else '') + m if stat else recv[P] + '.' + m
        ok = False
        if c.bool(50):
            # wrong number
            ks = list(range(0, mn)) + ([mx + 1, mx + 2, mx + 5] if mx >= 0 else [])
            if not ks: continue
            k = c.pick(ks)
            A = spec(d, k)
            what = '%d arguments' % k
        else:
            ps = params(d)
            if mx < 0: continue      # not checked with variable arguments
            cand = [i for i, (pn, ts, opt) in enumerate(ps) if ts and not ('any' in ts) and i < max(mn, 1)]
            if not cand: continue
            i = c.pick(cand)
            ts = ps[i][1]
            bad = [t for t in TYPES if t not in ts and not (t in ('array', 'function', 'regexp') and 'object' in ts) and t != 'null']
            if 'userobj' in ts: bad = [t for t in bad if t in ('number', 'string', 'boolean')]
            if not bad: continue
            t = c.pick(bad)
            k = max(mn, i + 1)
            A = spec(d, k)
            A[i] = TYPES[t]
            what = 'a %s as argument %d (%s)' % (t, i + 1, '|'.join(sorted(ts)))
        src += 'try { %s(%s); emit("called"); } catch(e) { emit("ERR"); }\n' % (call, ', '.join(A))
        want.append('%s(%s): %s' % (n, d.get('args', b'').decode(), what))
    if not want: raise Discard()
    s = 'var RX=/a/, FN=function(a) { return a; }, OB={a:1};\n' + src
    c.rendered = s
    g = x.vals(s)
    for w, v in zip(want, g):
        if v != b'ERR': raise Violation('%s was accepted\n%s' % (w, s))
    if len(g) != len(want): raise Violation('%d values, want %d\n%s' % (len(g), len(want), s))
    c.case(s, True)
    for w in want: c.label('number' if w.endswith('arguments') else 'type')
    c.sample(s)


def params(d):
    """[(name, {types}, optional)] of a builtin's declaration"""
    r = []
    t = d.get('args', b'').decode()
    for p in re.split(r',\s*(?![^{\[]*[}\]])', t):
        p = p.strip()
        if not p or p == '...': continue
        m = re.match(r'(\w+)(?::([\w|]+))?\s*(=.*)?$', p)
        if not m: return r
        r.append((m.group(1), set((m.group(2) or 'any').split('|')), m.group(3) is not None))
    return r


def spec(d, k):
    ps = params(d)
    A = []
    for i in range(k):
        ts = ps[i][1] if i < len(ps) else {'number'}
        for t in ('string', 'number', 'object', 'array', 'function', 'boolean', 'regexp'):
            if t in ts: A.append(TYPES[t]); break
        else: A.append('1')
    return A


def keywords(c, x):
    """Info.keywords: a name is a keyword exactly if it is listed"""
    if 'kw' not in _cmds:
        k, s = x.vals('emit(Info.keywords()); emit(Info.keywords(true));')
        _kw.update({False: texts(k), True: texts(s)})
    src, want = '', []
    for _ in range(c.int(1, 20)):
        sql = c.bool()
        L = _kw[sql]
        w = c.pick(L)
        m = c.int(0, 8)
        if m == 1: w = w.upper()
        elif m == 2: w = w.lower()
        elif m == 3: w = ''.join(c.pick([ch.lower(), ch.upper()]) for ch in w)
        elif m == 4: w = w[:-1]
        elif m == 5: w = w[1:]
        elif m == 6: w += c.pick(['s', '_', ' ', ',', 'x' * 30])
        elif m == 7: w = c.pick(L) + c.pick(['', ',', '_']) + c.pick(L)
        elif m == 8: w = c.pick(_kw[not sql])
        r = (w.upper() if sql else w) in L
        src += 'emit(Info.keywords(%s, %s));\n' % ('true' if sql else 'false', jsstr(w))
        want.append((r, sql, w))
    c.rendered = src
    for (r, sql, w), v in zip(want, x.vals(src)):
        if v is not r: raise Violation('Info.keywords(%s, %r): got %r, want %r' % (sql, w, v, r))
    for k in ('while', 'function', 'var', 'return', 'typeof', 'in'):
        if k not in _kw[False]: raise Violation('%s is not listed' % k)
    for k in ('SELECT', 'WHERE', 'CURRENT_DATE', 'WITHOUT'):
        if k not in _kw[True]: raise Violation('%s is not listed' % k)
    c.case(src, len({r for r, _, _ in want}) > 1)
    c.sample(src)


_kw = {}


def files(c, x):
    """sourced files: Info.files, Info.script, Info.scriptDir"""
    import os
    D = x.fresh('src')
    os.mkdir(D + '/sub')
    src, want, pend = 'File.chdir(%s);\n' % jsstr(D), [], []
    n = c.int(1, 5)
    ps = []
    for i in range(n):
        p = c.pick(['', 'sub/']) + c.pick(['f%d.jsi', 'g %d.jsi', 'é%d.jsi', 'h%d']) % i
        ps.append(p)
    t = {}
    src2 = ''
    order = list(range(n))
    nest = {}
    for i in range(1, n):
        if c.bool(40): nest.setdefault(c.int(0, i - 1), []).append(i)
    nested = {j for v in nest.values() for j in v}

    def run(i, w):
        w.append(([D + '/' + ps[i], os.path.dirname(D + '/' + ps[i])], 'script of file %d' % i))
        for j in nest.get(i, []):
            run(j, w)
            w.append(([D + '/' + ps[i], os.path.dirname(D + '/' + ps[i])], 'script of file %d after a source' % i))
    for i in range(n):
        t = 'function fn%d(a) { return Info.script(); }\nvar dummy%d;\nemit([Info.script(), Info.scriptDir()]);\n' % (i, i)
        for j in nest.get(i, []): t += 'source(%s);\nemit([Info.script(), Info.scriptDir()]);\n' % jsstr(D + '/' + ps[j])
        open(D + '/' + ps[i], 'w').write(t)
    for i in range(n):
        if i in nested: continue
        src += 'source(%s);\n' % jsstr(D + '/' + ps[i])
        run(i, want)
    for i in range(n):
        src += 'emit([Info.script(fn%d), fn%d(1)]);\n' % (i, i)
        want.append(([D + '/' + ps[i]] * 2, 'file of function %d' % i))
    src += 'emit(Info.files().sort());\n'
    want.append((sorted(D + '/' + p for p in ps), 'files'))
    r = c.pick(['f[0-9]', 'sub', 'jsi$', 'g ', 'h'])
    src += 'emit(Info.script(/%s/).sort());\n' % r
    want.append((sorted(D + '/' + p for p in ps if re.search(r, D + '/' + p)), 'script(/%s/)' % r))
    c.rendered = src
    g = x.vals(src)
    if len(g) != len(want): raise Violation('%d values, want %d\n%s' % (len(g), len(want), src))
    for (w, what), v in zip(want, g):
        if what == 'files' or 'script(/' in what: v, w = sorted(texts(v)), sorted(w)
        if not same(conv(v), conv(w)): raise Violation('%s: got %r, want %r\n%s' % (what, v, w, src))
    c.case(src, n > 1)
    c.sample(src)


def named(c, x):
    """Info.named lists the live objects of a builtin class"""
    src, want, live = '', [], {'Interp': [], 'Sqlite': [], 'Channel': []}
    k = 0
    for _ in range(c.size(1, 12)):
        cl = c.pick(sorted(live))
        if c.bool(60) or not live[cl]:
            k += 1
            src += 'var v%d = new %s;\n' % (k, {'Interp': 'Interp()', 'Sqlite': 'Sqlite(":memory:")', 'Channel': 'Channel("/dev/null", "r")'}[cl])
            live[cl].append(k)
        else:
            j = live[cl].pop(c.int(0, len(live[cl]) - 1))
            src += c.pick(['delete v%d;\n', 'v%d = null;\n']) % j
        src += 'emit(Info.named(%s).length);\n' % jsstr(cl)
        want.append((float(len(live[cl])), 'number of %ss' % cl))
        if live[cl]:
            j = c.pick(live[cl])
            src += 'emit(Info.named(""+v%d)===v%d);\n' % (j, j)
            want.append((True, 'object by name'))
    c.rendered = src
    g = x.vals(src)
    if len(g) != len(want): raise Violation('%d values, want %d\n%s' % (len(g), len(want), src))
    for (w, what), v in zip(want, g):
        if not same(v, w): raise Violation('%s: got %r, want %r\n%s' % (what, v, w, src))
    c.case(src, len(want) > 2)
    c.sample(src)


PROBES = [
    ('data-functions', lambda x: expect(x, "function qa() {} var qb=1; emit(Info.data('q*'));", [['qb']])),
    ('funcs-locals', lambda x: expect(x, "function qa(a,b) { var x=1; return 1; } emit(Info.funcs('qa').locals);", [['x']])),
    ('sql-underscore', lambda x: expect(x, "emit(Info.keywords(true,'CURRENT_DATE'));", [True])),
]
PROPS = [('globals', globals_, {'quick': 1500, 'thorough': 40000}), ('stack', stack, {'quick': 600, 'thorough': 15000}), ('commands', globlists, {'quick': 300, 'thorough': 5000}),
         ('arity', arity, {'quick': 1000, 'thorough': 20000}), ('keywords', keywords, {'quick': 300, 'thorough': 5000}), ('files', files, {'quick': 200, 'thorough': 4000}), ('named', named, {'quick': 300, 'thorough': 5000})]
CHECK = Check('C31', mk, PROPS, 'globals: declared variables, functions and objects with Info.vars/data/funcs/lookup/methods/completions by name, glob and regexp, non-trivial = at least three names and one non-empty answer; stack: call chains, non-trivial = at least two frames; commands, arity, keywords: builtin commands and keywords, non-trivial = a match / a wrong call / both answers; files: sourced files, non-trivial = at least two; named: live objects, non-trivial = more than two queries', probes=PROBES)
