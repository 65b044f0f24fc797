"""C25: the containers of the C API (hash, tree, map, list, stack, dynamic string, split) against Python models."""
import math
from vt.core import Check, Violation
from vt.js import X


def mk(w): return X(w)


STRING, STRINGKEY, ONEWORD = 0, 1, 2


def W(c, l): return c.weighted([(w, v) for v, w in l])


def hx(b): return b.hex() or '-'


def run(x, ops):
    r = x.js('\n'.join(ops) + '\n', flags=4)
    return r.out.decode('latin1').splitlines()


def go(c, x, ops, exps):
    """exps: one function of (result text, freed values) or None or a text"""
    lines = run(x, ops)
    for i, o in enumerate(ops):
        if i >= len(lines): raise Violation('no result of operation %d: %s\n%s' % (i, o[:100], '\n'.join(ops)[:4000]))
        res, _, fr = lines[i].partition(' |')
        fr = [int(v) for v in fr.split()]
        e = exps[i]
        bad = None
        if callable(e): bad = e(res, fr)
        elif e is not None and (res != e or fr): bad = 'expected %s' % e
        if bad: raise Violation('operation %d (%s) gave %s, freed %s: %s\n%s' % (i, o[:100], res[:300], fr[:50], bad[:600], '\n'.join(ops)[:6000]))


class Map:
    """model of one container"""
    def __init__(s, slot, kind, kt, free): s.slot, s.kind, s.kt, s.free, s.d = slot, kind, kt, free, {}

    def tree(s): return s.kind in 'Tt'

    def key(s, c, pool):
        return c.pick(pool)

    def show(s, k): return str(k) if s.kt == ONEWORD else hx(k)


LET = b'abcdefgh'


def pool_of(c, kt, n, ordered):
    ks = set()
    base = c.pick([0, 1, 2, 3])
    for _ in range(n):
        if kt == ONEWORD:
            b = [lambda: c.int(1, 40), lambda: c.int(1, 40) * 2 ** c.int(0, 5), lambda: c.int(1, 40) << 32, lambda: c.int(1, 3) * 2 ** c.int(0, 62) + c.int(0, 2)][base if c.bool(70) else c.int(0, 3)]()
            ks.add(b % 2 ** 64 or 1)
        elif kt >= 4:
            k = bytearray(kt)
            for _ in range(c.int(0, 3)): k[c.int(0, kt - 1)] = c.int(0, 255)
            ks.add(bytes(k))
        else:
            al = LET if ordered else b'abcABC012 _-.\xc3\xa9/'
            k = bytes(c.pick(al) for _ in range(c.size(0, 200 if c.bool(5) else 6)))
            if kt == STRINGKEY and not k: k = b'a'
            ks.add(k)
    return sorted(ks)


def order_key(m):
    return lambda k: k


def check_items(m, res, want, ordered):
    got = [g.split('=') for g in res.split()]
    w = [(m.show(k), str(v)) for k, v in want]
    g = [tuple(p) for p in got]
    if ordered:
        if g != w: return 'expected %s' % w
    elif sorted(g) != sorted(w): return 'expected the set %s' % sorted(w)


def p_maps(c, x):
    """histories over hashes, trees and maps of them"""
    ops, exps, maps = [], [], []
    n = c.size(3, 80)
    cid = [0]

    def add(o, e=None):
        ops.append(o); exps.append(e)

    def newmap(slot):
        kind = c.pick('HTht')
        kt = c.pick([STRING, STRING, STRINGKEY, ONEWORD, ONEWORD, 4, 5, 8, 12, 33])
        m = Map(slot, kind, kt, c.bool(60))
        m.ordered = c.bool(60)
        m.pool = pool_of(c, kt, c.size(1, 60), m.ordered)
        m.sortable = m.kt >= 4 or m.kt == ONEWORD or m.ordered or m.kt == STRINGKEY
        add('new %d %s %d %d' % (slot, kind, kt, m.free), '1')
        if slot < len(maps): maps[slot] = m
        else: maps.append(m)
        return m
    newmap(0)
    for _ in range(n):
        if len(maps) < 3 and c.bool(5): newmap(len(maps))
        m = c.pick(maps)
        s = m.slot
        d = m.d
        o = W(c, [('set', 30), ('ent', 8), ('get', 8), ('find', 5), ('vset', 5), ('edel', 12), ('unset', 6), ('size', 4), ('iter', 8), ('iterdel', 3), ('walk', 3), ('clear', 2), ('del', 2), ('fill', 2)])
        k = c.pick(m.pool)
        K = m.show(k)
        freed = lambda vs: (lambda vs, m: [v for v in vs if v] if m.free else [])(vs, m)
        c.label(o)

        def frees(text, vs, m=m):
            vs = sorted(v for v in vs if v) if m.free else []
            return lambda r, f: None if r == text and sorted(f) == vs else 'expected %s, freed %s' % (text, vs)
        if o == 'set':
            cid[0] += 1; v = cid[0] if c.bool(95) else 0
            d[k] = v
            add('set %d %s %d' % (s, K, v), '%s=%d' % (K, v))
        elif o == 'ent':
            new = k not in d
            d.setdefault(k, 0)
            add('ent %d %s' % (s, K), '%d %s=%d' % (new, K, d[k]))
        elif o == 'get': add('get %d %s' % (s, K), str(d.get(k, 0)))
        elif o == 'find': add('find %d %s' % (s, K), '%s=%d' % (K, d[k]) if k in d else 'none')
        elif o == 'vset':
            cid[0] += 1
            if k in d: d[k] = cid[0]
            add('vset %d %s %d' % (s, K, cid[0]), '%s=%d' % (K, d[k]) if k in d else 'none')
        elif o == 'edel':
            if k in d: add('edel %d %s' % (s, K), frees('1', [d.pop(k)]))
            else: add('edel %d %s' % (s, K), 'none')
        elif o == 'unset':
            if m.kind not in 'HT': continue
            if k in d: add('unset %d %s' % (s, K), frees('1', [d.pop(k)]))
            else: add('unset %d %s' % (s, K), '0')
        elif o == 'size': add('size %d' % s, str(len(d)))
        elif o == 'fill':
            if m.kt >= 4: continue
            a, cnt, st = c.int(0, 500), c.size(1, 400), c.pick([1, 1, 3, 7, 1000])
            for q in range(cnt):
                kk = (a + q * st) % 1000003
                if m.kt == ONEWORD and not kk: pass
                d[kk if m.kt == ONEWORD else b'k%d' % kk] = kk + 1
            m.sortable = m.sortable and m.kt in (ONEWORD, STRINGKEY)
            add('fill %d %d %d %d' % (s, a, cnt, st), '')
        elif o == 'iter':
            it = sorted(d.items())
            stop = W(c, [(0, 5), (1, 1), (c.int(1, 10), 2)])
            if m.tree() and m.sortable:
                key = ''
                if m.kind == 'T' and d and c.bool(30):
                    sk = c.pick(sorted(d))
                    if sk and not (m.kt == ONEWORD and sk == 0):
                        it = [p for p in it if p[0] >= sk]; key = ' ' + m.show(sk)
                        if m.show(sk) == '-': key = ''; it = sorted(d.items())
                if stop: it = it[:stop]
                add('iter %d 0 %d%s' % (s, stop, key), lambda r, f, m=m, it=it: check_items(m, r, it, True))
            elif not stop: add('iter %d 0 0' % s, lambda r, f, m=m, it=it: check_items(m, r, it, False))
            else:
                def part(r, f, m=m, it=dict((m.show(k), v) for k, v in it), stop=stop):
                    g = [q.split('=') for q in r.split()]
                    if len(g) != min(stop, len(it)) or len(set(q[0] for q in g)) != len(g) or any(it.get(q[0]) != int(q[1]) for q in g): return 'expected %d of %s' % (stop, it)
                add('iter %d 0 %d' % (s, stop), part)
        elif o == 'iterdel':
            if m.tree(): continue
            mod = c.pick([1, 2, 3, 5])
            it = sorted(d.items())
            gone = [v for v in d.values() if v % mod == 0]
            for q in [q for q in d if d[q] % mod == 0]: del d[q]
            fr = sorted(v for v in gone if v) if m.free else []
            add('iterdel %d %d' % (s, mod), lambda r, f, m=m, it=it, fr=fr: check_items(m, r, it, False) or (None if sorted(f) == fr else 'expected freed %s' % fr))
        elif o == 'walk':
            if m.kind != 'T': continue
            stop = W(c, [(0, 3), (c.int(1, 8), 1)])
            it = sorted(d.items())
            cut = stop and stop <= len(it)
            if cut: it = it[:stop]
            if m.sortable:
                add('walk %d 0 %d' % (s, stop), lambda r, f, m=m, it=it, cut=cut: check_items(m, r.rpartition(' rc=')[0], it, True) or (None if r.rpartition('rc=')[2] == str(int(not cut)) else 'wrong result code'))
        elif o == 'clear':
            add('clear %d' % s, frees('', d.values()))
            m.d = {}
        elif o == 'del':
            add('del %d' % s, frees('0', d.values()))
            newmap(s)
    for m in maps:
        add('size %d' % m.slot, str(len(m.d)))
        it = sorted(m.d.items())
        add('iter %d 0 0' % m.slot, lambda r, f, m=m, it=it: check_items(m, r, it, m.tree() and m.sortable))
        for k in m.pool[:20]: add('get %d %s' % (m.slot, m.show(k)), str(m.d.get(k, 0)))
        vs = sorted(v for v in m.d.values() if v) if m.free else []
        add('del %d' % m.slot, lambda r, f, vs=vs: None if sorted(f) == vs else 'expected freed %s' % vs)
    c.case('\n'.join(ops), len(ops) > 15)
    c.rendered = '\n'.join(ops)
    go(c, x, ops, exps)


def p_order(c, x):
    """shape and traversals of a tree: the orders belong to one balanced binary tree"""
    kt = c.pick([ONEWORD, STRINGKEY, STRING, 4])
    kind = c.pick('Tt')
    ops = ['new 0 %s %d 1' % (kind, kt)]
    exps = ['1']
    d = {}
    cmpd = False
    if kt == STRING:
        cmpd = c.bool(50)
        if cmpd: ops.append('count 0'); exps.append(None)

    def key(i):
        if kt == ONEWORD: return i + 1
        if kt == 4: return bytes([i >> 8 & 255, i & 255, 0, 0])
        return bytes([97 + i // 26 // 26 % 26, 97 + i // 26 % 26, 97 + i % 26])
    sh = lambda k: str(k) if kt == ONEWORD else k.hex()
    n = c.size(0, 700 if c.bool(25) else 60)
    how = c.pick(['up', 'down', 'random', 'zigzag', 'middle'])
    idx = list(range(n))
    if how == 'down': idx.reverse()
    elif how == 'random': idx = c.perm(idx)
    elif how == 'zigzag': idx = [v for p in zip(idx, reversed(idx)) for v in p][:n]
    elif how == 'middle': idx = idx[n // 2:] + idx[:n // 2][::-1]
    for i in idx:
        d[key(i)] = i + 1
        ops.append('set 0 %s %d' % (sh(key(i)), i + 1)); exps.append(None)
    for _ in range(c.int(0, 3)):
        ks = sorted(d)
        if not ks: break
        which = c.pick(['first', 'last', 'random', 'all but few', 'middle'])
        m = c.int(1, len(ks))
        if which == 'first': dl = ks[:m]
        elif which == 'last': dl = ks[-m:][::-1]
        elif which == 'random': dl = c.perm(ks)[:m]
        elif which == 'middle': dl = ks[len(ks) // 4:][:m]
        else: dl = c.perm(ks)[3:]
        for k in dl:
            v = d.pop(k)
            ops.append('edel 0 %s' % sh(k)); exps.append(lambda r, f, v=v: None if r == '1' and f == [v] else 'expected 1, freed %d' % v)
        for _ in range(c.size(0, 20)):
            i = c.int(0, n + 20)
            d[key(i)] = i + 1
            ops.append('set 0 %s %d' % (sh(key(i)), i + 1)); exps.append(None)
    got = {}
    ks = sorted(d, reverse=cmpd)
    bound = 2 * math.log2(len(d) + 1) + 1
    if cmpd:
        for k in ks[:40]:
            ops.append('ncmp 0 %s' % sh(k))
            exps.append(lambda r, f: None if r[0] == '1' and int(r[2:]) <= bound else 'too many compares: %s for %d entries' % (r, len(d)))
    names = [('iter', 0), ('iter', 0x10), ('iter', 0x20), ('iter', 0x30)] + ([('walk', 0), ('walk', 0x10), ('walk', 0x20), ('walk', 0x30)] if kind == 'T' else [])
    for nm, fl in names:
        ops.append('%s 0 %d 0' % (nm, fl))

        def keep(r, f, q=(nm, fl)):
            got[q] = [t.split('=') for t in r.replace('rc=1', '').split()]
            want = sorted((sh(k), str(v)) for k, v in d.items())
            if sorted(tuple(p) for p in got[q]) != want: return 'not each entry once: %d entries, expected %d' % (len(got[q]), len(want))
            got[q] = [p[0] for p in got[q]]
        exps.append(keep)
    ops.append('del 0'); exps.append(lambda r, f: None if sorted(f) == sorted(d.values()) else 'expected freed %s' % sorted(d.values()))
    c.case('\n'.join(ops), len(d) > 3)
    c.rendered = '\n'.join(ops)
    c.label('%s %s' % (how, kind))
    go(c, x, ops, exps)
    fail = lambda t: Violation(t + '\n' + '\n'.join(ops)[:5000])
    for nm in ('iter', 'walk'):
        if (nm, 0) not in got: continue
        IN, PRE, POST, LEV = (got[nm, f] for f in (0, 0x10, 0x20, 0x30))
        if IN != [sh(k) for k in ks]: raise fail('%s in order: %s' % (nm, IN[:60]))
        pos = {k: i for i, k in enumerate(IN)}
        # rebuild the tree from IN and PRE, without recursion over depth
        it = iter(PRE)
        post, levels, depth = [], {}, [0]

        def build(lo, hi, dep):
            if lo >= hi: return
            k = next(it)
            p = pos[k]
            if not lo <= p < hi: raise fail('%s: pre-order does not fit in-order at %s' % (nm, k))
            depth[0] = max(depth[0], dep)
            levels.setdefault(dep, []).append(k)
            build(lo, p, dep + 1); build(p + 1, hi, dep + 1)
            post.append(k)
        if PRE:
            if len(PRE) > 900 and PRE == IN: raise fail('degenerate tree')
            build(0, len(IN), 1)
        if POST != post: raise fail('%s post-order: %s' % (nm, POST[:60]))
        if LEV != [k for q in sorted(levels) for k in levels[q]]: raise fail('%s level order: %s' % (nm, LEV[:60]))
        if depth[0] > bound: raise fail('depth %d for %d entries' % (depth[0], len(d)))


def p_lists(c, x):
    """histories over lists and stacks"""
    ops, exps = [], []

    def add(o, e=''):
        ops.append(o); exps.append(e)
    nl = c.int(1, 3)
    free = c.bool(50)
    lists = [[] for _ in range(nl)]
    val, out = {}, []          # value of an entry; popped entries
    for i in range(nl): add('lnew %d %d' % (i, free), '0')
    stack = []
    add('snew 0')
    ne, nv = 0, 0
    for _ in range(c.size(3, 90)):
        i = c.int(0, nl - 1)
        l = lists[i]
        o = W(c, [('push', 30), ('pop', 10), ('move', 8), ('del', 8), ('set', 4), ('ends', 8), ('iter', 10), ('iterdel', 3), ('clear', 2), ('spush', 10), ('spop', 5), ('sunshift', 5), ('speek', 3), ('shead', 3), ('ssize', 3), ('delete', 1)])
        c.label(o)
        if o == 'push':
            nv += 1
            w = W(c, [(-1, 4), (-2, 3), (c.pick(l) if l else -1, 3)])
            val[ne] = nv
            if w == -1: l.append(ne)
            elif w == -2: l.insert(0, ne)
            else: l.insert(l.index(w), ne)
            add('lpush %d %d %d %d' % (i, ne, nv, w), str(nv))
            ne += 1
        elif o == 'pop' and l:
            w = W(c, [(-1, 2), (-2, 2), (c.pick(l), 3)])
            e = l[-1] if w == -1 else l[0] if w == -2 else w
            l.remove(e); out.append(e)
            add('lpop %d %d' % (i, w), str(val[e]))
        elif o == 'move' and (out or any(lists)):
            e = c.pick(out) if out and c.bool(60) else c.pick(sum(lists, [])) if any(lists) else c.pick(out)
            w = W(c, [(-1, 3), (-2, 3), (c.pick(l) if l else -1, 3)])
            if w == e or (w == -2 and l and l[0] == e): continue      # before itself
            for q in lists + [out]:
                if e in q: q.remove(e)
            if w == -1: l.append(e)
            elif w == -2: l.insert(0, e)
            else: l.insert(l.index(w), e)
            add('lmove %d %d %d' % (i, e, w), str(val[e]))
        elif o == 'del' and (l or out):
            e = c.pick(l) if l and (c.bool(70) or not out) else c.pick(out)
            for q in lists + [out]:
                if e in q: q.remove(e)
            add('ldel %d %d' % (i, e), lambda r, f: None if r == '1' else 'expected 1')
        elif o == 'set' and l:
            e = c.pick(l); nv += 1; val[e] = nv
            add('lset %d %d %d' % (i, e, nv))
        elif o == 'ends': add('lends %d' % i, '%d %d' % (val[l[0]], val[l[-1]]) if l else '-1 -1')
        elif o in ('iter', 'iterdel'):
            rev = c.int(0, 1)
            mod = c.pick([1, 2, 3]) if o == 'iterdel' else 0
            vs = [val[e] for e in l]
            if rev: vs.reverse()
            t = '%d:' % len(l) + ''.join(' %d' % v for v in vs)
            add('liter %d %d %d' % (i, rev, mod), lambda r, f, t=t: None if r == t else 'expected %s' % t)
            if mod: l[:] = [e for e in l if val[e] % mod]
        elif o == 'clear':
            vs = [val[e] for e in l] if free else []
            add('lclear %d' % i, lambda r, f, vs=vs: None if r == '0' and f == vs else 'expected freed %s' % vs)
            l.clear()
        elif o == 'delete':
            vs = [val[e] for e in l] if free else []
            # entries popped from it must not be used any more
            add('ldelete %d' % i, lambda r, f, vs=vs: None if r == '0' and f == vs else 'expected freed %s' % vs)
            add('lnew %d %d' % (i, free), '0')
            l.clear()
        elif o == 'spush':
            m = W(c, [(1, 8), (c.int(1, 60), 1)])
            nv += 1
            stack += range(nv, nv + m)
            add('spush 0 %d %d' % (nv, m)); nv += m
        elif o == 'spop': add('spop 0', str(stack.pop() if stack else 0))
        elif o == 'sunshift': add('sunshift 0', str(stack.pop(0) if stack else 0))
        elif o == 'speek': add('speek 0', str(stack[-1] if stack else 0))
        elif o == 'shead': add('shead 0', str(stack[0] if stack else 0))
        elif o == 'ssize': add('ssize 0', str(len(stack)))
    for i, l in enumerate(lists):
        for rev in (0, 1):
            vs = [val[e] for e in l]
            if rev: vs.reverse()
            add('liter %d %d 0' % (i, rev), '%d:' % len(l) + ''.join(' %d' % v for v in vs))
        vs = [val[e] for e in l] if free else []
        add('ldelete %d' % i, lambda r, f, vs=vs: None if f == vs else 'expected freed %s' % vs)
    while stack: add('spop 0', str(stack.pop()))
    add('ssize 0', '0')
    add('sfree 0')
    c.case('\n'.join(ops), len(ops) > 12)
    c.rendered = '\n'.join(ops)
    go(c, x, ops, exps)


def p_dstr(c, x):
    """dynamic strings of all declarations against bytes"""
    ops, exps = [], []
    cur = {}

    def show(b):
        if len(b) > 40000:
            h = 0
            for v in b: h = (h * 31 + v) & 0xffffffff
            return '%d 0 #%d' % (len(b), h)
        return '%d 0 %s' % (len(b), b.hex())

    def add(o, e):
        ops.append(o); exps.append(e)
    for s in range(c.int(1, 3)):
        how = c.pick([0, 1, 2, 2, 3, 10, 50, 300, 2000, 4990])
        cur[s] = b'Here is' if how == 2 else b''
        add('dnew %d %d' % (s, how), show(cur[s]))
    edges = [0, 1, 9, 10, 49, 50, 63, 64, 127, 128, 199, 200, 201, 299, 300, 400, 1023, 1024, 2047, 2048, 4096, 8191, 8192, 8193, 16384]
    for _ in range(c.size(2, 30)):
        s = c.pick(sorted(cur))
        b = cur[s]
        o = W(c, [('len', 6), ('rep', 6), ('app', 4), ('fmt', 10), ('set', 2), ('size', 5), ('free', 2), ('dup', 2)])
        c.label(o)
        wid = lambda: W(c, [(c.size(0, 60), 5), (max(0, c.pick(edges) + c.int(-3, 3)), 4), (max(0, c.pick(edges) - len(b) + c.int(-12, 3)), 3), (c.int(0, 30000), 1)])
        if len(b) > 60000 and o in ('rep', 'fmt', 'app'): o = 'size'
        if o == 'len':
            t = bytes(c.int(1, 255) for _ in range(c.size(0, 40)))
            z = c.bool(60)
            if not z and t and c.bool(50): t += b'\0' + t
            b += t
            add('dlen %d %s %d' % (s, hx(t), -1 if z else len(t)), show(b))
        elif o == 'rep':
            w = wid(); b += b'q' * w
            add('drep %d %d q' % (s, w), show(b))
        elif o == 'app':
            ts = ['x' * max(1, W(c, [(c.size(1, 30), 4), (wid(), 1)])) for _ in range(c.int(2, 3))]
            b += ''.join(ts).encode()
            add('dapp %d %s' % (s, ' '.join(ts)), show(b))
        elif o == 'fmt':
            w = wid(); t = 'y' * max(1, W(c, [(c.size(1, 30), 4), (wid(), 1)]))
            b += ('<%s|%s|2.500>' % ('7'.rjust(w, '0'), t)).encode()
            add('dfmt %d %d %s' % (s, w, t), show(b))
        elif o == 'set':
            t = c.pick(['-', 'z', 'z' * max(1, wid())])
            b = b'' if t == '-' else t.encode()
            add('dset %d %s' % (s, t), show(b))
        elif o == 'size':
            w = W(c, [(c.int(0, len(b)), 4), (len(b), 1), (len(b) + 1, 1), (wid(), 3)])
            b = b[:w]
            add('dsize %d %d' % (s, w), '1 ' + show(b))
        elif o == 'free': b = b''; add('dfree %d' % s, show(b))
        elif o == 'dup':
            if len(b) > 30000: continue
            z = b.split(b'\0')[0]
            add('ddup %d' % s, '%d %s %s' % (len(z), z.hex(), show(b'')))
            b = b''
        cur[s] = b
    for s in cur: add('dfree %d' % s, show(b''))
    c.case('\n'.join(ops), len(ops) > 4)
    c.rendered = '\n'.join(ops)
    go(c, x, ops, exps)


def p_split(c, x):
    """splitting"""
    ops, exps = [], []
    for _ in range(c.size(1, 12)):
        sep = c.pick([b',', b'|', b', ', b'ab', b'aa', b'--', bytes(c.pick(b'ab,') for _ in range(c.int(1, 4)))])
        parts = [bytes(c.pick(b'abx,- ') for _ in range(c.size(0, 300 if c.bool(5) else 5))) for _ in range(c.size(0, 100 if c.bool(5) else 6))]
        t = sep.join(parts)
        if sum(len(p) for p in parts) + len(parts) * 4 > 60000: t = t[:1000]
        want = t.split(sep)
        ops.append('split %s %s' % (hx(t), hx(sep)))
        exps.append('%d' % len(want) + ''.join(' ' + hx(w) for w in want))
    c.case('\n'.join(ops), len(ops) > 1)
    c.rendered = '\n'.join(ops)
    go(c, x, ops, exps)


CHECK = Check('C25', mk, [
    ('maps', p_maps, {'quick': 6000, 'thorough': 120000}),
    ('tree shape', p_order, {'quick': 2500, 'thorough': 40000}),
    ('lists and stacks', p_lists, {'quick': 5000, 'thorough': 100000}),
    ('dynamic strings', p_dstr, {'quick': 5000, 'thorough': 100000}),
    ('split', p_split, {'quick': 1500, 'thorough': 20000}),
], 'non-trivial: a history of more than 12 operations, a tree of more than 3 entries, more than four string operations')
