"""C23: sockets on the loopback.  Oracle: the bytes given to send(), per connection; a peer written in Python."""
import os, random, socket, threading, time
from vt.core import Check, Violation, Inconclusive
from vt.js import X, jsstr, raw, same, conv, UNDEF, show


def mk(w): return X(w)


def V(what, src, detail): raise Violation('%s: %s\n--- script\n%s' % (what, detail, show(src)))


PRE = r'''
var CN = {}, RN = {}, R = {}, EV = [], opens = 0, closes = 0, lasts = 0, calls = {}, SENT = {};
function add(o, k, d) { o[k] = (o[k]===undefined ? "" : o[k]) + d; }
function len(o, k) { return (o[k]===undefined ? 0 : o[k].length); }
function sOpen(s, info) { opens += 1; EV.push("o"+info.address); return REFUSE.indexOf(opens) < 0; }
function sClose(s, id) { closes += 1; EV.push("c"+id); }
function sLast(s) { lasts += 1; if (s && s.conf("connectCnt")>0) EV.push("badid last"); }
function mkClient(k, opts) {
    opts.client = true; opts.timeout = 0.002; opts.port = PORT;
    opts.onRecv = function(s, id, d) { add(CN, "k"+k, d); if (id !== 0) EV.push("badid"+id); };
    opts.onClose = function(s, id) { add(CN, "x"+k, "x"); };
    return new Socket(opts);
}
var C = [];
var rot = 0;
function turn(how) {
    if (how === 0) { update(0); return; }
    rot += 1;
    if (rot % 2) { s.update(); for (var i = 0; i < C.length; i++) if (C[i]) C[i].update(); }
    else { for (i = C.length-1; i >= 0; i--) if (C[i]) C[i].update(); s.update(); }
}
function settled(w, wc, wo, wl, wx) {
    if (opens < wo || closes < wl) return false;
    for (var i = 0; i < w.length; i++) if (len(R, "k"+w[i][0]) < w[i][1]) return false;
    for (i = 0; i < wc.length; i++) if (len(CN, "k"+wc[i][0]) < wc[i][1]) return false;
    for (i = 0; i < wx.length; i++) if (len(CN, "x"+wx[i]) < 1) return false;
    return true;
}
function drain(how, w, wc, wo, wl, wx) {
    for (var i = 0; i < 1500; i++) { if (settled(w, wc, wo, wl, wx)) break; turn(how); }
    turn(how); turn(1);
}
function fds() { return File.glob("/proc/self/fd/*").length; }
'''


# lengths are counted in characters; without continuation bytes every byte is one
NOLEAD = bytes(b if b < 0x80 or b >= 0xc0 else b - 0x80 for b in range(256))


def msg(c, room):
    k = c.int(0, 19)
    if k <= 8: n = c.int(1, 12)
    elif k <= 14: n = c.int(1, 300)
    elif k <= 17: n = c.pick([1023, 1024, 4096, 8190, 8191, 8192, 8193, 16382, 16383])
    else: n = c.int(9000, 30000)
    n = min(n, room)
    seed = c.int(0, 2**31)
    if n <= 0: return b''
    if seed % 3 == 0: return bytes([33 + (seed >> 4) % 90]) * n
    if seed % 3 == 1:
        out, i = b'', 0
        while len(out) < n:
            out += b'<%d.%d>' % (seed % 997, i)
            i += 1
        return out[:n]
    return random.Random(seed).randbytes(n).translate(NOLEAD)


class Conn:
    def __init__(self, k, id):
        self.k, self.id, self.accepted, self.open = k, id, False, True
        self.c2s = self.s2c = b''
        self.cmin = self.smin = 0   # what must have arrived at the client, the server
        self.loose = False          # closed with data under way
        self.mine = False           # closed by the client
        self.async_c = True


def p_history(c, x):
    mode = c.weighted([(6, 'record'), (3, 'echo'), (3, 'quit')])
    refuse = sorted({c.int(1, 6) for _ in range(c.int(0, 2))}) if c.bool(25) else []
    maxc = c.int(1, 3) if c.bool(20) else 0
    snoasync = c.bool(25)
    src, conns, opens, closes, wx = [], [], 0, 0, []
    src.append('var REFUSE = %s;' % refuse)
    body = {'record': '', 'echo': ' s.send(id, d);', 'quit': ' if (d.indexOf("QUIT")>=0) s.close(id);'}[mode]
    src.append('function sRecv(s, id, d) { add(R, "k"+id, d); calls["k"+id] = (calls["k"+id]===undefined?0:calls["k"+id])+1;%s }' % body)
    src.append('var F00 = fds();')
    src.append('var s = new Socket({port:0, timeout:0.002, onOpen:sOpen, onRecv:sRecv, onClose:sClose, onCloseLast:sLast%s%s});' % (
        ', noAsync:true' if snoasync else '', ', maxConnects:%d' % maxc if maxc else ''))
    src.append('var PORT = s.conf("port"); var F0 = fds();')
    how = c.int(0, 1)
    nextid, lasts = 0, 0
    unacc = []      # created clients not known to be accepted
    room = [0]

    def live(): return [o for o in conns if o.open and o.accepted]

    def drain():
        nonlocal opens, nextid, closes
        for o in unacc:
            # accepted now, in the order of creation
            if maxc and len(live()) >= maxc:
                o.open = False
                wx.append(o.k)
                o.loose = True
                o.id = None
                continue
            nextid += 1
            opens += 1
            if opens in refuse:
                o.open, o.id, o.loose = False, None, True
                wx.append(o.k)
                continue
            o.id, o.accepted = nextid, True
        unacc.clear()
        for o in conns:
            if not o.open: continue
            o.smin = len(o.c2s)
            if mode == 'echo': o.s2c = o.c2s
            o.cmin = len(o.s2c)
            if mode == 'quit' and b'QUIT' in o.c2s:
                o.open = False
                o.smin = 0
                o.loose = True
                wx.append(o.k)
        src.append('drain(%d, %s, %s, %d, %d, %s);' % (c.pick([how, how, 1 - how]),
            [[o.id, o.smin] for o in conns if o.id and o.open], [[o.k, o.cmin] for o in conns if o.open], opens, closes, wx))
        room[0] = 45000

    def check():
        o = live()
        src.append('emit(["state", s.names().sort(), s.conf("connectCnt"), opens, closes]);')
        want.append(('state', [conv(sorted(q.id for q in o)), float(len(o)), float(opens), float(closes)]))
        src.append('emit(fds()-F0);')
        cl = [q for q in conns if q.open]
        want.append(('descriptors', float(len(cl) + len(o))))

    want = []
    nops = c.size(3, 28)
    drain()
    for _ in range(nops):
        o = live()
        k = c.weighted([(3, 'new'), (8, 'cs'), (7 if mode == 'record' else 0, 'ss'), (3 if mode == 'record' else 0, 'sa'), (4, 'u'), (2, 'cc'), (2, 'sc'), (2, 'drain'), (1, 'check'), (2, 'bad')])
        if not conns or (not o and c.bool(60)): k = 'new'
        if k == 'new':
            if len(conns) >= 6: continue
            if len(unacc) >= 2: drain()
            q = Conn(len(conns), None)
            q.async_c = c.bool(65)
            conns.append(q)
            unacc.append(q)
            src.append('C.push(mkClient(%d, {%s}));' % (q.k, '' if q.async_c else 'noAsync:true'))
        elif k == 'cs':
            cand = [q for q in conns if q.open]
            if not cand: continue
            q = c.pick(cand)
            if (refuse or maxc) and q in unacc: drain()
            if not q.open or room[0] < 200: drain()
            if not q.open: continue
            m = msg(c, room[0] // 2)
            if mode == 'quit' and c.bool(12):
                drain()     # so that it is read in one piece
                m = b'QUIT'
            elif mode == 'quit': m = m.replace(b'Q', b'q').replace(b'T', b't')
            room[0] -= len(m) * 2
            q.c2s += m
            opt = c.weighted([(8, ''), (2, ', {noAsync:true}'), (1, ', {}')])
            src.append('C[%d].send(%s, %s%s);' % (q.k, c.pick(['0', '-1']), raw(m), opt))
            if m == b'QUIT': drain()
        elif k in ('ss', 'sa'):
            if unacc or room[0] < 500: drain()
            o = live()
            if not o: continue
            m = msg(c, room[0] // (2 * len(o)))
            opt = c.weighted([(8, ''), (2, ', {noAsync:true}'), (1, ', {}')])
            if k == 'ss':
                q = c.pick(o)
                q.s2c += m
                room[0] -= len(m) * 2
                src.append('s.send(%d, %s%s);' % (q.id, raw(m), opt))
            else:
                for q in o: q.s2c += m
                room[0] -= 2 * len(m) * len(o)
                src.append('s.send(-1, %s%s);' % (raw(m), opt))
        elif k == 'u':
            q = [q for q in conns if q.open]
            src.append(c.pick(['s.update();', 'update(0);', 'turn(1);', 'C[%d].update();' % c.pick(q).k if q else 's.update();']))
        elif k == 'cc':
            cand = [q for q in conns if q.open]
            if not cand: continue
            q = c.pick(cand)
            if q in unacc or (maxc and unacc) or c.bool(60): drain()
            if not q.open: continue
            q.open = False
            q.loose = q.smin < len(q.c2s) or q.cmin < len(q.s2c) or (mode == 'echo' and q.cmin < len(q.c2s))
            q.mine = True
            closes += 1
            src.append('C[%d].close();' % q.k)
            if c.bool(50): src.append('C[%d] = null;' % q.k)
            drain()
        elif k == 'sc':
            if not o: continue
            q = c.pick(o)
            if unacc or c.bool(60): drain()
            if not q.open: continue
            q.open = False
            q.loose = q.smin < len(q.c2s) or q.cmin < len(q.s2c) or (mode == 'echo' and q.cmin < len(q.c2s))
            wx.append(q.k)
            src.append('s.close(%d);' % q.id)
            drain()
        elif k == 'drain': drain()
        elif k == 'check':
            drain()
            check()
        else:
            q = [q for q in conns if q.open and q.accepted]
            e = c.pick(['s.send(0, "lost")', 's.idconf(77)', 's.idconf(-2)', 's.recv(77)', 's.send(%d, 5)' % (q[0].id if q else 1)] +
                       ([] if not q else ['C[%d].send(1, "lost")' % q[0].k, 'C[%d].close(3)' % q[0].k, 's.send(%d, "x", {nosuch:1})' % q[0].id, 'C[%d].idconf(1)' % q[0].k]))
            src.append('try { %s; emit("accepted"); } catch(ex) { emit("refused"); }' % e)
            want.append(('refused', e))
    drain()
    check()
    for q in conns:
        if q.id and q.open:
            src.append('emit(["cnt", s.idconf(%d).recvCnt === (calls["k%d"]===undefined?0:calls["k%d"]), s.idconf(%d, "recvCnt") > 0]);' % ((q.id,) * 4))
            want.append(('val', [b'cnt', True, len(q.c2s) > 0]))
    n0 = len(want)
    src.append('s.close(); for (var z=0; z<C.length; z++) if (C[z]) C[z].close();')
    o = live()
    if c.bool(50): src.append('s.close(-1);'); o = []
    src.append('emit(fds()-F00);')
    want.append(('val', float(len(o))))
    src.append('emit(lasts <= closes, EV.filter(function(e) { return e.indexOf("badid")===0; }).length);')
    for q in conns: src.append('emit(["data", %s, CN["k%d"], CN["x%d"]]);' % ('R["k%d"]' % q.id if q.id else 'undefined', q.k, q.k))
    src.append('emit(EV);')
    S = PRE + '\n'.join(src)
    c.rendered = '\n'.join(src)
    c.case(c.rendered, len(conns) >= 2 and sum(len(q.c2s) > 0 for q in conns) >= 1)
    c.sample(c.rendered[:900])
    c.label(mode)
    c.label('clients %d' % len(conns))
    got = x.vals(S, flags=1)
    i = 0
    for w in want:
        g = got[i]
        i += 1
        if w[0] == 'state':
            if not (isinstance(g, list) and len(g) == 5 and same(g[1:], w[1])): V('open connections', c.rendered, 'names, connectCnt, opens, closes are %s; expected %s' % (repr(g)[:300], w[1]))
        elif w[0] == 'descriptors':
            if g != w[1]: V('open descriptors', c.rendered, '%r; expected %r' % (g, w[1]))
        elif w[0] == 'refused':
            if g != b'refused': V('accepted', c.rendered, w[1])
        elif not same(g, w[1]): V('wrong', c.rendered, '%s; expected %r' % (repr(g)[:300], w[1]))
    if got[i] is not True or got[i + 1] != 0: V('callbacks', c.rendered, 'onCloseLast more often than onClose, or a client got an id: %r' % got[i:i + 2])
    i += 2
    for q in conns:
        g = got[i]
        i += 1
        for name, b, full, lo in (('server', g[1], q.c2s, q.smin), ('client', g[2], q.s2c, q.cmin)):
            b = b'' if b is UNDEF else b
            if name == 'client' and mode == 'echo' and not q.open: full = q.c2s
            if not full.startswith(b):
                j = next((j for j in range(min(len(b), len(full))) if b[j] != full[j]), min(len(b), len(full)))
                V('the %s received other data than was sent' % name, c.rendered, 'connection of client %d, at byte %d of %d: %r; sent %r' % (q.k, j, len(b), b[max(0, j - 10):j + 30], full[max(0, j - 10):j + 30]))
            if len(b) < (lo if q.loose else len(full)): V('the %s did not receive all that was sent' % name, c.rendered, 'connection of client %d: %d of %d bytes' % (q.k, len(b), len(full)))
        wantx = b'x' if q.k in wx else None
        gx = None if g[3] is UNDEF else g[3]
        if gx != wantx and not (q.mine and gx is None): V('onClose of the client', c.rendered, 'client %d: %r, expected %r' % (q.k, gx, wantx))
    ev = got[i]
    no = [e for e in ev if e.startswith(b'o')]
    if no != [b'o127.0.0.1'] * opens: V('onOpen', c.rendered, '%r, expected %d calls' % (no, opens))
    cl = sorted(e for e in ev if e.startswith(b'c'))
    wc = sorted(b'c%d' % q.id for q in conns if q.mine)
    if cl != wc: V('onClose of the server', c.rendered, '%r, expected %r' % (cl, wc))


def wait_file(fn, t=20):
    e = time.time() + t
    while time.time() < e:
        if os.path.exists(fn): return open(fn).read()
        time.sleep(0.003)
    raise OSError('no port')


def p_peer(c, x):
    """the other side is not jsish"""
    D = x.fresh()
    rnd = random.Random(c.int(0, 2**31))
    msgs = [m for m in (msg(c, 20000) for _ in range(c.size(1, 10))) if m]
    total = b''.join(msgs)
    err = []
    if c.bool(50):
        # a client in Python of an echo server
        n = c.int(1, 3)
        mode = c.pick(['onRecv', 'close'])
        got = [b''] * n

        def client(i):
            try:
                port = int(wait_file(D + '/port'))
                k = socket.create_connection(('127.0.0.1', port), 20)
                k.settimeout(20)
                b = bytearray()

                def rd():
                    while True:
                        try: d = k.recv(rnd.choice([1, 100, 65536]))
                        except OSError: break
                        if not d: break
                        b.extend(d)
                        if len(b) >= len(total): break
                t = threading.Thread(target=rd)
                t.start()
                for m in msgs:
                    for j in range(0, len(m), 4000):
                        k.sendall(m[j:j + 4000])
                    if rnd.random() < .3: time.sleep(.002)
                t.join()
                got[i] = bytes(b)
                k.close()
            except OSError as e: err.append(repr(e))
        src = '''var closed = 0, ids = {}, last = 0;
var s = new Socket({port:0, timeout:0.005%s, onRecv:function(s, id, d) { ids["k"+id] = 1; s.send(id, d); }, onClose:function(s, id) { closed += 1; }, onCloseLast:function(s) { last += 1; }});
File.write(%s, ""+s.conf("port")); File.rename(%s, %s);
for (var i = 0; i < 4000 && closed < %d; i++) update(5);
emit(closed, ids, s.names(), last > 0);''' % (', noAsync:true' if c.bool(40) else '', jsstr(D + '/p'), jsstr(D + '/p'), jsstr(D + '/port'), n)
        c.case(repr((src, n, total[:50])), len(msgs) > 1)
        c.rendered = src + '\n// %d Python clients, %d messages, %d bytes' % (n, len(msgs), len(total))
        ts = [threading.Thread(target=client, args=(i,)) for i in range(n)]
        for t in ts: t.start()
        try: v = x.vals(src, flags=1)
        finally:
            for t in ts: t.join()
        if err: raise Inconclusive('Python client: %s' % err[0])
        if not same(v, conv([n, {'k%d' % (i + 1): 1 for i in range(n)}, [], True])): V('server', c.rendered, 'closed, ids, names: %r' % v)
        for i in range(n):
            if got[i] != total: V('an echo server returned other data', c.rendered, 'client %d got %d bytes of %d, first difference at %s' % (i, len(got[i]), len(total), next((j for j in range(min(len(got[i]), len(total))) if got[i][j] != total[j]), None)))
    else:
        # a server in Python; the client uses recv() or onRecv
        ls = socket.socket()
        ls.bind(('127.0.0.1', 0))
        ls.listen(5)
        ls.settimeout(30)
        port = ls.getsockname()[1]
        seen = bytearray()
        reply = [m for m in (msg(c, 20000) for _ in range(c.size(1, 6))) if m]
        rt = b''.join(reply)

        def server():
            try:
                k, _ = ls.accept()
                k.settimeout(20)
                while len(seen) < len(total):
                    d = k.recv(65536)
                    if not d: break
                    seen.extend(d)
                for m in reply:
                    k.sendall(m)
                    if rnd.random() < .3: time.sleep(.003)
                if byclose: k.shutdown(socket.SHUT_WR)
                while True:
                    d = k.recv(65536)
                    if not d: break
                    seen.extend(d)
                k.close()
            except OSError as e: err.append(repr(e))
        use = c.pick(['recv', 'event'])
        byclose = c.bool(50)
        noasync = use == 'recv' or c.bool(40)
        src = 'var got = "", nclose = 0;\nvar k = new Socket({client:true, port:%d, timeout:0.005%s%s%s});\n' % (port, ', noAsync:true' if noasync else '', ', keepalive:true' if c.bool(30) else '',
            '' if use == 'recv' else ', onRecv:function(s, id, d) { got += d; }, onClose:function(s, id) { nclose += 1; }')
        src += '\n'.join('k.send(0, %s);' % raw(m) for m in msgs)
        if use == 'recv': src += '\nwhile (got.length < %d) got += k.recv();\n' % len(rt)
        else: src += '\nfor (var i = 0; i < 4000 && (got.length < %d%s); i++) update(5);\n' % (len(rt), ' || nclose<1' if byclose else '')
        src += 'emit(got, nclose); k.close();'
        c.case(repr((src, rt[:50])), len(msgs) > 1 and len(reply) > 1)
        c.rendered = src + '\n// a Python server sends %d bytes in %d pieces%s' % (len(rt), len(reply), ' and closes' if byclose else '')
        t = threading.Thread(target=server)
        t.start()
        try: v = x.vals(src, flags=1)
        finally:
            if not t.is_alive(): pass
            t.join(40)
            ls.close()
        if err: raise Inconclusive('Python server: %s' % err[0])
        if bytes(seen) != total: V('the peer received other data', c.rendered, '%d bytes of %d, first difference at %s' % (len(seen), len(total), next((j for j in range(min(len(seen), len(total))) if seen[j] != total[j]), None)))
        if v[0] != rt: V('received other data', c.rendered, '%d bytes of %d' % (len(v[0]), len(rt)))
        if use == 'event' and v[1] != (1 if byclose else 0): V('onClose of a client', c.rendered, '%r' % v[1])
    c.sample(c.rendered[:700])


def p_udp(c, x):
    src = ['var RR = []; function onR(s, id, d) { RR.push(d); }', 'var s = new Socket({udp:true, port:0, timeout:0.002, onRecv:onR}); var PORT = s.conf("port"), C = [];']
    n = c.int(1, 3)
    noasync = [c.bool(50) for _ in range(n)]
    for i in range(n): src.append('C.push(new Socket({client:true, udp:true, port:PORT, timeout:0.002%s}));' % (', noAsync:true' if noasync[i] else ''))
    sent = [[] for _ in range(n)]
    tot = 0
    src.append('function drain(n) { for (var i = 0; i < 1500 && RR.length < n; i++) { for (var j = 0; j < C.length; j++) C[j].update(); s.update(); } s.update(); }')
    cnt = 0
    for _ in range(c.size(1, 20)):
        i = c.int(0, n - 1)
        m = msg(c, 8000)
        if not m: continue
        m = b'%d:%d:' % (i, len(sent[i])) + m
        sent[i].append(m)
        cnt += 1
        tot += len(m)
        src.append('C[%d].send(0, %s);' % (i, raw(m)))
        if tot > 40000 or c.bool(20):
            src.append('drain(%d);' % cnt)
            tot = 0
        elif c.bool(20): src.append(c.pick(['update(0);', 's.update();', 'C[%d].update();' % i]))
    src.append('drain(%d); emit(RR); for (var j = 0; j < C.length; j++) C[j].close(); s.close();' % cnt)
    S = c.rendered = '\n'.join(src)
    c.case(S, cnt > 2)
    c.sample(S[:500])
    v = x.vals(S, flags=1)[0]
    for i in range(n):
        g = [m for m in v if m.startswith(b'%d:' % i)]
        if g != sent[i]: V('datagrams', S, 'of client %d: received %r; sent %r' % (i, [m[:20] for m in g], [m[:20] for m in sent[i]]))
    if len(v) != cnt: V('datagrams', S, '%d received, %d sent' % (len(v), cnt))


CHECK = Check('C23', mk, [
    ('a server and its clients', p_history, {'quick': 500, 'thorough': 8000}),
    ('a peer which is not jsish', p_peer, {'quick': 150, 'thorough': 2500}),
    ('datagrams', p_udp, {'quick': 120, 'thorough': 2000}),
], 'non-trivial: at least two clients and data sent, or more than one message')
