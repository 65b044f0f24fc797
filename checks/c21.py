"""C21: Sqlite: what is bound is stored, what is stored is returned, in every form; histories agree with SQLite."""
import csv, io, json, os, sqlite3, html
from vt.core import Check, Violation, Discard
from vt.js import parse_dump, X, jsstr, show, same, raw, UNDEF, UNPRIV, Other, jsnum


def mk(w): return X(w, user=UNPRIV)


PRE = 'require("Sqlite"); Interp.conf({noCheck:true});\n'
DECL = ['', 'INT', 'INTEGER', 'REAL', 'TEXT', 'VARCHAR(9)', 'BOOLEAN', 'bool', 'BLOB', 'NUMERIC', 'CHARJSON', 'DATETIME', 'CHAR(9)', 'CHARACTER', 'BO', 'DOUBLE', 'BIGINT', 'DATE', 'any']
WORDS = ['', 'x', 'it\'s', '"q"', 'a,b', 'a b', '<b>&amp;', 'line1\nline2', 'tab\there', '5', '-2.5', 'true', 'null', 'NULL', '%v', '\\n', 'caf\u00e9', '\u65e5\u672c', '|', 'a||b', ';', '--', "''", 'x' * 300, '{"a":1}', ' lead', 'trail ', '\r\n', '\x01', '\x7f', '0x10', '1e5', '$v0', ':x']


def number(c):
    k = c.int(0, 6)
    if k < 3: return c.int(-9, 99)
    if k == 3: return c.pick([2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 53, -2 ** 53, 2 ** 53 - 1, 10 ** 15, 2 ** 32, 123456789012])
    if k == 4: return c.pick([0.5, -0.25, 1e20, 1e-7, 0.1, 2.5, 3.14159, -1e300, 123456.789, 1e15 + 0.5])
    if k == 5: return c.int(-10 ** 9, 10 ** 9) / c.pick([1, 2, 8, 10, 1000])
    return c.pick([0, 1])


def text(c):
    if c.bool(60): return c.pick(WORDS)
    return ''.join(c.pick('ab\'",|;<&> \n\t\\%$\u00e9\u20ac(){}[]=:0159') for _ in range(c.size(0, 40)))


def js(v):
    if v is UNDEF: return 'undefined'
    if v is None: return 'null'
    if v is True: return 'true'
    if v is False: return 'false'
    if isinstance(v, (int, float)): return jsnum(v)
    if isinstance(v, str): return jsstr(v) if all(ord(ch) >= 32 and ord(ch) != 127 or ch in '\n\t\r' for ch in v) else raw(v.encode())
    if isinstance(v, bytes): return raw(v)
    if isinstance(v, list): return '[%s]' % ', '.join(js(e) for e in v)
    return '{%s}' % ', '.join('%s:%s' % (jsstr(k), js(e)) for k, e in v.items())


def struct(c, d=0):
    """a JSON value; strings without control characters or non-ASCII (C05 covers those)"""
    k = c.int(0, 7)
    if k < 2 and d < 3: return [struct(c, d + 1) for _ in range(c.size(0, 4))]
    if k < 4 and d < 3: return {c.pick(['a', 'b', 'k1', 'zz', 'a b']): struct(c, d + 1) for _ in range(c.size(0, 3))}
    return c.pick([None, True, False, 1, -2, 2.5, 'x', "it's", 'q"q', '', 10 ** 12])


def bits(v):
    """what emit shows of a value"""
    if isinstance(v, str): return v.encode()
    if isinstance(v, bool) or v is None or v is UNDEF or isinstance(v, bytes): return v
    if isinstance(v, (int, float)): return float(v)
    if isinstance(v, list): return [bits(e) for e in v]
    return {k.encode(): bits(e) for k, e in v.items()}


def readback(decl, v, conv=True):
    """a stored value -> what a query returns"""
    if isinstance(v, int) and v in (0, 1) and decl.lower().startswith('bool'): return bool(v)
    if isinstance(v, int): return float(v)
    if isinstance(v, bytes) and not isinstance(v, Blob): 
        if conv and decl.lower().startswith('charjson'):
            return bits(json.loads(v))
        return v
    if isinstance(v, Blob): return bytes(v)
    return v


def atoi(s):
    import re
    m = re.match(r'[ \t\n\r]*[+-]?[0-9]+', s)
    return bool(m and int(m.group()) & 0xffffffff)


class Blob(bytes): pass


class Twin:
    """the same SQL through Python's binding of the same library"""
    def __init__(self, path=':memory:'):
        self.c = sqlite3.connect(path, isolation_level=None, cached_statements=0)
        self.c.text_factory = bytes

    def q(self, sql, args=()):
        return self.c.execute(sql, args).fetchall()

    def rows(self, table, order='rowid'):
        """values, blobs marked"""
        cols = [r[1].decode() for r in self.q('pragma table_info("%s")' % table)]
        r = self.q('select %s from "%s" order by %s' % (','.join('"%s",typeof("%s")' % (n, n) for n in cols), table, order))
        return [[Blob(row[i]) if row[i + 1] == b'blob' else row[i] for i in range(0, len(row), 2)] for row in r]


def sqlin(v):
    """the value as Python binds it"""
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return float(v)
    return v


def fmt_num(f):
    """number to text as the interpreter writes it"""
    f = float(f)
    if f == int(f) and abs(f) < 2 ** 63: return str(int(f))
    return '%.15g' % f


def cell(c, decl):
    """-> value to bind; CHARJSON columns get valid JSON only"""
    if decl == 'CHARJSON':
        return c.pick([None, [struct(c, 1) for _ in range(c.size(0, 4))], {'k': struct(c, 1), 'a b': struct(c, 1)}, {}, '{"a":[1,2]}', '[null, 2.5]'])
    k = c.int(0, 11)
    if k < 4: return number(c)
    if k < 8: return text(c)
    if k == 8: return None
    if k == 9: return c.bool()
    if k == 10: return bytes(c.pick([1, 2, 65, 97, 128, 200, 255]) for _ in range(c.size(1, 20)))
    return c.pick([[1, 2], {'a': 1}, 'z'])


def p_binds(c, x):
    """every bind form, into columns of every type, read back in every script mode"""
    n = c.weighted([(2, 1), (4, 3), (2, 6), (1, 20)])
    decl = [c.pick(DECL) for _ in range(n)]
    names = ['c%d' % i for i in range(n)]
    forceInt, noconv = c.bool(15), c.bool(10)
    tw = Twin()
    create = 'create table t(%s)' % ', '.join('%s %s' % p for p in zip(names, decl))
    tw.q(create)
    src = PRE + 'var db = new Sqlite(%s, {forceInt:%s, noJsonConv:%s}), r, e;\n' % (c.pick(['null', '":memory:"']), js(forceInt), js(noconv))
    src += 'db.eval(%s);\n' % jsstr(create)
    body, forms, fails = '', set(), 0
    for row in range(c.int(1, 4)):
        qmark = c.bool(25)
        opts, vals, ps, py, decls, err = {}, [], [], [], [], False
        tc = c.weighted([(5, None), (1, 'convert'), (2, 'error'), (1, 'warn'), (1, 'disable')])
        if tc: opts['typeCheck'] = tc
        if c.bool(10): opts['mapundef'] = True
        if c.bool(15): opts['nocache'] = True
        O, A, IDX = {}, [], []
        for i in range(n):
            v = cell(c, decl[i])
            if c.bool(3): v = UNDEF
            # form
            f = '?' if qmark else c.pick([':', '@', '$', '$o(f)', '$o(f.g)', '$a(i)', '$a([I])', '$a([I].f)', '$o(f:type)', '$o(f:type)'])
            if isinstance(v, bytes) and tc != None: v = 'bb'
            forms.add(f)
            pv, ty = v, None
            if f == '?': ps.append('?'); vals.append(v)
            elif f in (':', '@', '$'):
                ps.append('%sv%d_%d' % (f, row, i)); decls.append('var v%d_%d = %s;' % (row, i, js(v)))
            elif f == '$o(f)': ps.append('$o%d(f%d)' % (row, i)); O['f%d' % i] = v
            elif f == '$o(f.g)': ps.append('$o%d(h%d.g)' % (row, i)); O['h%d' % i] = {'g': v}
            elif f == '$a(i)': ps.append('$a%d(%d)' % (row, len(A))); A.append(v)
            elif f == '$a([I])': ps.append('$a%d([i%d_%d])' % (row, row, i)); decls.append('var i%d_%d = %d;' % (row, i, len(A))); A.append(v)
            elif f == '$a([I].f)': ps.append('$a%d([i%d_%d].q)' % (row, row, i)); decls.append('var i%d_%d = %d;' % (row, i, len(A))); A.append({'q': v})
            else:
                ty = c.pick(['string', 'double', 'integer', 'bool', 'blob'])
                if decl[i] == 'CHARJSON' or isinstance(v, (list, dict, bytes)): ty = None
                ps.append('$o%d(f%d%s)' % (row, i, ':' + ty if ty else '')); O['f%d' % i] = v
            # what is bound
            bound = f not in ('?', ':', '@', '$')
            if ty and v is not UNDEF:
                kind = {'string': str, 'double': (int, float), 'integer': (int, float), 'bool': bool, 'blob': str}[ty]
                match = isinstance(v, kind) and (kind is bool or not isinstance(v, bool))
                if tc in (None, 'convert'):
                    if v is None: pv, O['f%d' % i] = ('x', 'x') if ty in ('string', 'blob') else (True, True) if ty == 'bool' else (1, 1)
                    elif ty in ('string', 'blob') and not match: pv = ('true' if v else 'false') if isinstance(v, bool) else fmt_num(v)
                    elif ty in ('double', 'integer') and not match:
                        if isinstance(v, bool): pv = int(v)
                        else: pv = O['f%d' % i] = c.int(0, 5)
                    elif ty == 'bool' and not match: pv = atoi(v) if isinstance(v, str) else bool(v)
                elif tc == 'error' and not match: err = True
            if ty and v is not UNDEF: v = pv
            if isinstance(v, str) and ty == 'blob': py.append(v.encode())
            elif isinstance(v, bytes): py.append(None if err else ('T', v))
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                if abs(v) >= 2 ** 63 and ty == 'integer': raise Discard()
                py.append(int(v) if ty == 'integer' or (forceInt and abs(v) < 2 ** 63 and v == int(v)) else float(v))
            elif isinstance(v, (list, dict)):
                if not bound or noconv: err = True; py.append(None)
                else: py.append(('J', v))
            elif v is UNDEF:
                if not opts.get('mapundef'): err = True
                py.append(None)
            else: py.append(sqlin(v))
        if O: decls.append('var o%d = %s;' % (row, js(O)))
        if A: decls.append('var a%d = %s;' % (row, js(A)))
        sql = 'insert into t values(%s)' % ', '.join(ps)
        arg = None
        if qmark:
            if opts or c.bool(): opts['values'] = vals; arg = js(opts)
            else: arg = js(vals)
        elif opts: arg = js(opts)
        body += ' '.join(decls) + '\ne = 0; try { db.query(%s%s); } catch(ex) { e = 1; }; emit(e);\n' % (jsstr(sql), ', ' + arg if arg else '')
        if O: body += 'emit(o%d);\n' % row
        forms_row = (err, [list(p) if isinstance(p, tuple) else p for p in py], bits(O) if O else None)
        src_rows.append(forms_row) if False else None
        body_rows = getattr(c, 'rows21', [])
        body_rows.append(forms_row); c.rows21 = body_rows
    rows = c.rows21
    del c.rows21
    if c.bool(40): body = 'function run() {\n%s}\nrun();\n' % body
    src += body
    src += 'emit(db.query("select * from t"));\nemit(db.query("select * from t",{mode:"arrays"}));\nemit(db.query("select * from t",{mode:"array1d"}));\nr = []; db.query("select * from t", function(v) { r.push(v); }); emit(r);\nemit(db.onecolumn("select * from t"));\nemit(db.query("select %s from t",{mode:"arrays"}));\n' % ','.join('typeof(%s)' % m for m in names)
    c.case(src, True)
    c.rendered = src
    for f in forms: c.label(f)
    for d in decl: c.label(d or '(no type)')
    got = x.vals(src)
    exp = []
    for k, (err, py, O) in enumerate(rows):
        e = got.pop(0)
        if bool(e) != err: raise Violation('insert %d: %s\n%s' % (k, 'refused' if e else 'not refused', src))
        if O is not None:
            o = got.pop(0)
            if not same(o, O): raise Violation('the bound object was changed from %r to %r\n%s' % (O, o, src))
        if err: continue
        mark = []
        args = []
        for p in py:
            if isinstance(p, list) and p[0] == 'J': args.append(json.dumps(p[1])); mark.append(p[1])
            elif isinstance(p, list): args.append(p[1].decode('latin1')); mark.append(p[1])
            else: args.append(p); mark.append(None)
        tw.q('insert into t values(%s)' % ','.join('?' * n), args)
        exp.append(mark)
    stored = tw.rows('t')
    want = []
    for marks, row in zip(exp, stored):
        w = []
        for m, v, d in zip(marks, row, decl):
            if isinstance(m, bytes) : w.append(m)
            elif m is not None and d != 'CHARJSON': w.append(('J', m))
            else: w.append(readback(d, v, not noconv))
        want.append(w)
    types = [[r.encode() if isinstance(r, str) else r for r in row] for row in tw.q('select %s from t order by rowid' % ','.join('typeof(%s)' % m for m in names))]

    def eq(g, w):
        if isinstance(w, tuple):
            try: return same(bits(json.loads(g)), bits(w[1]))
            except (ValueError, TypeError): return False
        return same(g, w)

    def chk(what, g, w):
        if len(g) != len(w) or not all(eq(a, b) for a, b in zip(g, w)): raise Violation('%s: %r instead of %r\n%s' % (what, g, w, src))
    objs, arrs, flat, cb, one, ty = got
    if len(objs) != len(want) or len(arrs) != len(want) or len(cb) != len(want): raise Violation('%d rows instead of %d\n%s' % (len(objs), len(want), src))
    for g, g2, g3, w in zip(objs, arrs, cb, want):
        for o in (g, g3):
            if set(o) != {m.encode() for m in names}: raise Violation('row %r\n%s' % (o, src))
            chk('row', [o[m.encode()] for m in names], w)
        chk('arrays', g2, w)
    chk('array1d', flat, [v for w in want for v in w])
    if want: chk('onecolumn', [one], [want[0][0]])
    elif one is not UNDEF: raise Violation('onecolumn of nothing: %r\n%s' % (one, src))
    if ty != types: raise Violation('types %r instead of %r\n%s' % (ty, types, src))


def txt(decl, v, nullv):
    if v is None: return nullv.encode()
    if isinstance(v, int):
        if v in (0, 1) and decl.lower().startswith('bool'): return b'true' if v else b'false'
        return b'%d' % v
    if isinstance(v, float): return fmt_num(v).encode()
    return bytes(v)


def split_csv(b, sep):
    """rows of a CSV text with any separator"""
    rows, row, i = [], [], 0
    while True:
        if b[i:i + 1] == b'"':
            i += 1
            o = b''
            while True:
                j = b.index(b'"', i)
                o += b[i:j]
                if b[j + 1:j + 2] == b'"': o += b'"'; i = j + 2
                else: i = j + 1; break
        else:
            ends = [k for k in (b.find(sep, i), b.find(b'\n', i)) if k >= 0]
            j = min(ends) if ends else len(b)
            o = b[i:j]
            i = j
        row.append(o)
        if i >= len(b): rows.append(row); return rows
        if b.startswith(sep, i): i += len(sep)
        elif b[i:i + 1] == b'\n': rows.append(row); row = []; i += 1
        else: raise ValueError('text after a quoted field at %d' % i)


def p_modes(c, x):
    """the text modes of query"""
    n = c.weighted([(2, 1), (4, 3), (1, 8), (1, 30)])
    decl = [c.pick([d for d in DECL if d != 'CHARJSON']) for _ in range(n)]
    names = [c.pick(['a', 'b', 'Col', 'x_y', 'name', 'longer_column_name']) + str(i) for i in range(n)]
    tw = Twin()
    create = 'create table t(%s)' % ', '.join('%s %s' % p for p in zip(names, decl))
    tw.q(create)
    mode = c.pick(['list', 'csv', 'tabs', 'html', 'line', 'insert', 'json', 'json2', 'column', 'rows', 'arrays', 'array1d', 'none'])
    nrows = c.weighted([(1, 0), (2, 1), (5, 4), (1, 30)])
    for _ in range(nrows):
        row = []
        for i in range(n):
            v = cell(c, '')
            if isinstance(v, (list, dict)): v = None
            if isinstance(v, int) and c.bool(): row.append(int(v))
            elif isinstance(v, bytes): row.append(v if not mode.startswith('json') else b'abc')
            else: row.append(sqlin(v))
        tw.q('insert into t values(%s)' % ','.join('?' * n), row)
    stored = tw.rows('t')
    opts = {'mode': mode}
    headers = c.bool(40)
    limit = c.weighted([(5, 0), (2, 1), (2, 3), (1, 100)])
    nullv = c.weighted([(5, ''), (2, 'NIL'), (1, '(null)'), (1, '-')])
    sep = c.weighted([(5, None), (1, ';'), (1, '~~'), (1, '::'), (1, '\t'), (1, '|')])
    if headers: opts['headers'] = True
    if limit: opts['limit'] = limit
    if nullv: opts['nullvalue'] = nullv
    if sep: opts['separator'] = sep
    tbl = 'table'
    if c.bool(40): tbl = opts['table'] = c.pick(['T2', 'my table', 'x'])
    wid = [0] * n
    if c.bool(30):
        wid = [c.int(1, 30) for _ in range(c.int(1, n))]
        opts['width'] = wid
        wid = wid + [0] * (n - len(wid))
    # the rows are inserted as SQL text
    src = PRE + 'var db = new Sqlite();\ndb.eval(%s);\n' % jsstr(create)
    for row in stored:
        src += 'db.eval(%s);\n' % raw(b'insert into t values(' + b','.join(lit(v) for v in row) + b')')
    viaconf = c.bool(20)
    if viaconf:
        o2 = dict(opts)
        o2.pop('width', None)
        if 'width' in opts: viaconf = False
    order = ' order by rowid'
    if viaconf: src += 'db.conf({queryOpts:%s});\nemit(db.query("select * from t%s"));\nemit(db.conf("queryOpts").mode);\n' % (js(o2), order)
    else: src += 'emit(db.query("select * from t%s", %s));\nemit(%s);\n' % (order, js(opts), jsstr(mode))
    c.case(src, nrows > 0)
    c.rendered = src
    c.label(mode)
    g, m = x.vals(src)
    shown = stored[:limit] if limit else stored
    if m != mode.encode(): raise Violation('mode %r\n%s' % (m, src))

    def bad(w=None): raise Violation('mode %s gives\n%s\n%s\n%s' % (mode, g.decode('utf8', 'backslashreplace') if isinstance(g, bytes) else g, 'instead of\n' + (w.decode('utf8', 'backslashreplace') if isinstance(w, bytes) else repr(w)) if w is not None else '', src))
    T = [[txt(d, v, nullv) for d, v in zip(decl, row)] for row in shown]
    H = [h.encode() for h in names]
    back = [[readback(d, v) for d, v in zip(decl, row)] for row in shown]
    s = (sep or {'list': '|', 'column': ' ', 'tabs': '\t'}.get(mode, ',')).encode()
    if mode == 'rows': w = [dict(zip(H, r)) for r in back]
    elif mode == 'arrays': w = ([list(H)] if headers and back else []) + back
    elif mode == 'array1d': w = (list(H) if headers and back else []) + [v for r in back for v in r]
    elif mode == 'none': w = UNDEF
    elif mode in ('list', 'tabs'): w = b'\n'.join(([s.join(H)] if headers and T else []) + [s.join(r) for r in T])
    elif mode == 'html':
        w = b'\n'.join(([b'<TR>' + b''.join(b'<TH>' + h + b'</TH>' for h in H) + b'</TR>'] if headers and T else []) + [b'<TR>' + b''.join(b'<TD>' + esc(v) + b'</TD>' for v in r) + b'</TR>' for r in T])
    elif mode == 'csv':
        if not T:
            if g != b'': bad(b'')
            return
        try: rows = split_csv(g, s)
        except ValueError: bad()
        w = ([H] if headers else []) + T
        if rows != w: bad(w)
        return
    elif mode == 'line':
        wd = max([5] + [len(h) for h in H])
        w = b''
        for k, r in enumerate(T):
            for h, v in zip(H, r): w += (b'\n' if k else b'') + h.rjust(wd) + b' = ' + v
    elif mode == 'column':
        ws = [k or max(10, len(h)) for k, h in zip(wid, H)]
        w = b''
        if T:
            # the layout of the heading without headers, and its padding, is as the test suite has it
            for k, h in zip(ws, H): w += h[:k] + (b' ' * (k - len(h) + 1) if len(h) < k else b'')
            if headers: w += s * (n - 1) + b'\n' + s.join(b'-' * k for k in ws) + b'\n'
            w += b'\n'.join(s.join(v[:k] + b' ' * (k - len(v)) for k, v in zip(ws, r)) for r in T)
    elif mode == 'insert':
        t2 = Twin()
        t2.q('create table "%s"(%s)' % (tbl, ','.join(names)))
        try:
            if g: t2.c.executescript(g.decode('utf8'))
        except (sqlite3.Error, UnicodeDecodeError): 
            if any(isinstance(v, bytes) and not isinstance(v, Blob) for r in shown for v in r) and not utf8(g): raise Discard()
            bad()
        r2 = t2.rows(tbl)
        # booleans have no notation of their own; 0.1 has 15 digits
        w2 = [[(float(fmt_num(v)) if isinstance(v, float) else v) for v in r] for r in shown]
        ok = len(r2) == len(w2) and all(len(a) == len(b) and all(type(p) == type(q) and p == q or isinstance(p, (int, float)) and isinstance(q, (int, float)) and p == q for p, q in zip(a, b)) for a, b in zip(r2, w2))
        if not ok: bad(w2)
        return
    else:
        for r in shown:
            for v in r:
                if isinstance(v, bytes) and not utf8(v): raise Discard()
        if not T and mode == 'json2': w = b''; 
        else:
            try: j = bits(json.loads(g, strict=False))
            except (ValueError, TypeError): bad()
            num = lambda v: float(fmt_num(v)) if isinstance(v, float) and not isinstance(v, bool) else v
            bk = [[float(rv) if isinstance(rv, int) and not isinstance(rv, bool) else num(readback(d, rv)) for d, rv in zip(decl, r)] for r in shown]
            bk = [[(readback(d, rv) if isinstance(readback(d, rv), bool) else b) for d, rv, b in zip(decl, r, br)] for r, br in zip(shown, bk)]
            if mode == 'json2': w = {b'names': H, b'values': bk}
            elif headers: w = ([H] if bk else []) + bk
            else: w = [dict(zip(H, r)) for r in bk]
            if not same(j, w): bad(w)
            return
    if not same(g, w): bad(w)


def utf8(b):
    try: b.decode('utf8'); return True
    except UnicodeDecodeError: return False


def esc(b):
    for a, d in ((b'&', b'&amp;'), (b'<', b'&lt;'), (b'>', b'&gt;'), (b'"', b'&quot;'), (b"'", b'&#39;')): b = b.replace(a, d)
    return b


def lit(v):
    if v is None: return b'NULL'
    if isinstance(v, Blob): return b"x'" + v.hex().encode() + b"'"
    if isinstance(v, bytes): return b"'" + v.replace(b"'", b"''") + b"'"
    if isinstance(v, float):
        r = repr(v)
        return (r if 'e' in r or '.' in r else r + '.0').encode()
    return str(v).encode()


class Stop(Exception): pass


def p_history(c, x):
    """histories of statements, transactions, callbacks, caching and schema changes"""
    tw = Twin()
    tw.q('create table t(id integer primary key, a, b unique)')
    src = [PRE + 'var db = new Sqlite(null, {stmtCacheMax:%d}), r, e;' % c.pick([0, 1, 2, 5, 100, 400])]
    src.append('db.eval("create table t(id integer primary key, a, b unique)");')
    want, state = [], {'depth': 0, 'n': 0, 'cols': 3, 'ops': 0}
    d = x.fresh('db21')

    def run(sql):
        """-> error?"""
        try: return 0, tw.q(sql)
        except sqlite3.Error: return 1, None

    def val():
        return c.pick(['%d' % c.int(0, 20), '%d' % c.int(0, 20), "'s%d'" % c.int(0, 5), 'null', '2.5'])

    def dml():
        k = c.int(0, 7)
        cols = state['cols']
        if k < 3: return 'insert into t(a,b) values(%s,%s)' % (val(), val())
        if k == 3: return 'insert or replace into t(a,b) values(%s,%s)' % (val(), val())
        if k == 4: return 'update t set a=%s where b>%s' % (val(), val())
        if k == 5: return 'delete from t where a=%s' % val()
        if k == 6: return 'update t set b=b+1 where id=%d' % c.int(1, 12)
        return 'insert into t(id,a,b) values(%d,%s,%s)' % (c.int(1, 30), val(), val())

    def sel():
        return c.pick(['select * from t order by id', 'select count(*) as n, sum(a) as s from t', 'select a,b from t where a>%s order by id' % val(), 'select id from t order by id', 'select max(id) as m from t', 'select b from t order by b, id'])

    def conv(rows, cur=None): return [[float(v) if isinstance(v, int) else v for v in r] for r in rows]

    def op(ind, depth):
        state['ops'] += 1
        k = c.weighted([(6, 'query'), (5, 'select'), (3, 'eval'), (4, 'trans'), (2, 'nested'), (2, 'schema'), (2, 'info'), (1, 'cache'), (2, 'one'), (1, 'backup'), (1, 'bad'), (2, 'callback'), (1, 'evalerr'), (1, 'empty')])
        p = ' ' * ind
        if k == 'query':
            q = dml()
            ret = c.bool(40)
            src.append('%se = 0; r = null; try { r = db.query(%s%s); } catch(ex) { e = 1; }; emit([e, r]);' % (p, jsstr(q), ', {retChanged:true}' if ret else ''))
            e, _ = run(q)
            n = tw.q('select changes()')[0][0]
            want.append([float(e), None if e else float(n) if ret else []])
        elif k == 'select':
            q = sel()
            src.append('%semit(db.query(%s,{mode:"arrays"}));' % (p, jsstr(q)))
            want.append(conv(tw.q(q)))
        elif k == 'eval':
            qs = [dml() for _ in range(c.int(1, 3))]
            err = 0
            for q in qs:
                err, _ = run(q)
                if err: break
            n = tw.q('select changes()')[0][0]
            src.append('%se = 0; r = -1; try { r = db.eval(%s); } catch(ex) { e = 1; }; emit([e, r]);' % (p, jsstr(c.pick(['; ', ';', ';\n-- comment\n']).join(qs) + c.pick(['', ';', ' ; -- end', ';;', ';\n']))))
            want.append([float(err), -1.0 if err else float(n)])
        elif k == 'trans' and depth < 4:
            fail = c.weighted([(3, 0), (2, 1), (1, 2)])       # none, throw, an SQL error
            outer = state['depth'] == 0
            ty = c.pick(['', '', ', "deferred"', ', "immediate"', ', "exclusive"'])
            ev = 'e%d' % state['ops']
            src.append('%svar %s = 0; try { db.transaction(function() {' % (p, ev))
            tw.q({'': 'savepoint s', ', "deferred"': 'savepoint s', ', "immediate"': 'begin immediate', ', "exclusive"': 'begin exclusive'}[ty] if outer else 'savepoint s')
            state['depth'] += 1
            for _ in range(c.int(1, 4)): op(ind + 1, depth + 1)
            state['depth'] -= 1
            if fail == 1: src.append('%s throw "x";' % p)
            if fail == 2: src.append('%s db.query("select * from nosuch");' % p)
            src.append('%s}%s); } catch(ex) { %s = 1; }; emit(%s);' % (p, ty, ev, ev))
            if fail:
                tw.q('rollback' if outer else 'rollback to s')
                if not outer: tw.q('release s')
            else: tw.q('commit' if outer else 'release s')
            want.append(1.0 if fail else 0.0)
        elif k in ('callback', 'nested'):
            q = sel()
            lim, stop = c.weighted([(4, 0), (1, 1), (1, 3)]), c.weighted([(4, 0), (1, 1), (1, 2)])
            how = c.pick(['false', 'throw'])
            rows = tw.q(q)
            src.append('%sr = []; var cnt%d = 0; e = 0;' % (p, state['ops']))
            n, me = 'cnt%d' % state['ops'], state['ops']
            cols = len(rows[0]) if rows else 0
            inner = c.pick([q, sel()]) if k == 'nested' else None
            src.append('%stry { db.query(%s, {callback:function(row) { %s++; r.push(Object.keys(row).length);%s%s }%s}); } catch(ex) { e = 1; }; emit([e, r, %s]);' % (p, jsstr(q), n,
                ' r.push(db.query(%s,{mode:"arrays"}));' % jsstr(inner) if inner else '',
                ' if (%s==%d) %s;' % (n, stop, 'return false' if how == 'false' else 'throw "x"') if stop else '',
                ', limit:%d' % lim if lim else '', n))
            seen, w, e = 0, [], 0.0
            for r_ in rows:
                seen += 1
                w.append(float(len(r_)))
                if inner: w.append(conv(tw.q(inner)))
                if stop and seen == stop:
                    e = 1.0 if how == 'throw' else 0.0
                    break
                if lim and seen >= lim: break
            want.append([e, w, float(seen)])
        elif k == 'schema':
            kk = c.int(0, 3)
            if kk == 0 and state['cols'] < 7: q = 'alter table t add column x%d default %s' % (state['ops'], val())
            elif kk == 1: q = 'create index if not exists ix%d on t(a)' % c.int(0, 3)
            elif kk == 2: q = 'drop index if exists ix%d' % c.int(0, 3)
            else: q = 'create table if not exists u(z)'
            src.append('%sdb.%s(%s);' % (p, c.pick(['eval', 'query']), jsstr(q)))
            run(q)
        elif k == 'info':
            src.append('%semit([db.conf("lastInsertId"), db.conf("changeCntAll")]);' % p)
            want.append([float(tw.q('select last_insert_rowid()')[0][0]), float(tw.c.total_changes)])
        elif k == 'cache':
            src.append('%sdb.conf({stmtCacheMax:%d}); emit(db.conf("stmtCacheCnt")<=db.conf("stmtCacheMax"));' % (p, c.pick([0, 1, 3, 50])))
            want.append(True)
        elif k == 'one':
            q = sel()
            ex = c.bool()
            src.append('%semit(db.%s(%s));' % (p, 'exists' if ex else 'onecolumn', jsstr(q)))
            rows = tw.q(q)
            v = rows[0][0] if rows else UNDEF
            want.append(bool(rows) if ex else float(v) if isinstance(v, int) else v)
        elif k == 'backup':
            if state['depth']: return
            f = os.path.join(d, 'b%d.db' % state['ops'])
            src.append('%sdb.backup(%s); emit((new Sqlite(%s)).query("select * from t order by id",{mode:"arrays"}));' % (p, jsstr(f), jsstr(f)))
            want.append(conv(tw.q('select * from t order by id')))
            if c.bool():
                src.append('%sdb.eval("delete from t"); db.restore(%s);' % (p, jsstr(f)))
                src.append('%semit(db.query("select count(*) as n from t")[0].n);' % p)
                before = tw.q('select count(*) from t')[0][0]
                tw.q('delete from t')
                bk = f + '.py'
                state['restore'] = True
                want.append(float(before))
                raise Stop()
        elif k == 'bad':
            q = c.pick(['select * from nosuch', 'selec', 'insert into t(a,b) values(1)', 'select nosuchf(1)', "select 'x", 'select a from t where b=?', 'select $nosuch', 'insert into t(id) values("x")'])
            src.append('%se = 0; try { db.query(%s); } catch(ex) { e = 1; }; emit(e);' % (p, jsstr(q)))
            want.append(1.0)
        elif k == 'evalerr':
            q1, q2 = dml(), dml()
            src.append('%se = 0; try { db.eval(%s); } catch(ex) { e = 1; }; emit(e);' % (p, jsstr(q1 + '; select * from nosuch; ' + q2)))
            run(q1)
            want.append(1.0)
        elif k == 'empty':
            q = c.pick(['', ' ', ';', '-- c', '/* c */', 'select 1 as x; -- c', '; ;select 1 as x', 'select 1 as x;;'])
            src.append('%semit(db.query(%s,{mode:"arrays"}));' % (p, jsstr(q)))
            want.append([[1.0]] if 'select' in q else [])
    try:
        for _ in range(c.size(1, 30)): op(0, 0)
    except Stop: pass
    src.append('emit(db.query("select * from t order by id",{mode:"arrays"}));' if not state.get('restore') else 'emit(0);')
    want.append(conv(tw.q('select * from t order by id')) if not state.get('restore') else 0.0)
    s = '\n'.join(src) + '\n'
    c.case(s, state['ops'] > 2)
    c.rendered = s
    got = x.vals(s)
    for i, (g, w) in enumerate(zip(got, want)):
        if not same(g, w): raise Violation('result %d: %r instead of %r\n%s' % (i, g, w, s))
    if len(got) != len(want): raise Violation('%d results instead of %d\n%s' % (len(got), len(want), s))


KEYWORDS = ['select', 'set', 'order', 'table', 'group', 'index', 'values', 'where']


def p_obj(c, x):
    """objects through %v"""
    keys = [c.pick(['a', 'b', 'name', 'x1', 'zed', 'cnt', 'Flag'] + KEYWORDS) + c.pick(['', '', '2']) for _ in range(c.size(1, 7))]
    o = {}
    for k in keys:
        o[k] = c.pick([None, True, False, c.int(-5, 99), 2.5, text(c), text(c), struct(c)])
        if isinstance(o[k], str) and any(ord(ch) < 32 for ch in o[k]): o[k] = "it's"
    if len({k.lower() for k in o}) != len(o): raise Discard()
    skip = [k for k in o if c.bool(15)]
    if len(skip) == len(o): skip = []
    opts = {'name': 'obj1'}
    for f in ('noTypes', 'noDefaults', 'noChecks', 'defaultNull'):
        if c.bool(15): opts[f] = True
    if opts.get('noDefaults') and not opts.get('defaultNull') and not opts.get('noChecks'): o = {k: 1 if v is None else v for k, v in o.items()}      # a null has no type to check
    if skip: opts['skip'] = skip
    o1 = dict(o)
    if c.bool(20): o1['rowid'] = 5
    used = [k for k in sorted(o) if k not in skip]
    notypes = opts.get('noTypes')
    call = (lambda sql, oo: 'db.query(%s, {obj:%s})' % (jsstr(sql), js(oo))) if len(opts) > 1 or c.bool() else (lambda sql, oo: 'db.query(%s, %s)' % (jsstr(sql), jsstr(oo['name'])))
    src = PRE + 'var db = new Sqlite(), e;\nvar obj1 = %s;\n' % js(o1)
    src += '%s;\n' % call('create table B %v', opts)
    src += 'emit(db.query("pragma table_info(B)"));\n'
    ins = dict(opts)
    src += '%s; emit(db.query("select * from B"));\n' % call('insert into B %v', ins)
    dfl = opts.get('noChecks') or notypes or not (opts.get('noDefaults') or opts.get('defaultNull'))
    src += 'db.eval("delete from B; insert into B default values"); emit(db.query("select * from B"));\n' if dfl else 'emit(0);\n'
    # a change of one member, and an update by it
    ch = c.pick(used)
    nv = c.pick([None, True, 7, 1.5, "new's", [1, {'q': 'w'}]])
    src += 'obj1[%s] = %s; e = 0; try { %s; } catch(ex) { e = 1; }; emit(e, db.query("select * from B"), obj1);\n' % (jsstr(ch), js(nv), call('update B %v', ins))
    src += 'emit(db.query("insert into B %%v", {obj:%s}));\n' % js(dict(opts, getSql=True))
    c.case(src, True)
    c.rendered = src
    info, row1, row2, e, row3, obj, sql = x.vals(src)

    def bad(m): raise Violation('%s\n%s' % (m, src))

    def typ(v):
        if notypes or v is None: return b''
        if isinstance(v, bool): return b'BOOLEAN'
        if isinstance(v, (int, float)): return b'NUMERIC'
        if isinstance(v, (list, dict)): return b'CHARJSON'
        return b'TEXT' if not opts.get('defaultNull') or opts.get('noChecks') else b''
    if [r[b'name'].decode() for r in info] != used: bad('columns %r' % [r[b'name'] for r in info])
    for r, k in zip(info, used):
        t = typ(o[k])
        if o[k] is None: t = None
        if t is not None and r[b'type'] != t: bad('column %s has type %r, not %r' % (k, r[b'type'], t))

    def stored(v, k, first):
        """value v in the column created for o[k]"""
        t = typ(o[k])
        if isinstance(v, bool): return v if t == b'BOOLEAN' else float(v)
        if isinstance(v, (list, dict)): return ('J', v) if t != b'CHARJSON' else bits(v)
        return bits(v)

    def cmp(rows, vals, what):
        if len(rows) != 1 or set(rows[0]) != {k.encode() for k in used}: bad('%s: %r' % (what, rows))
        for k in used:
            g, w = rows[0][k.encode()], vals[k]
            if w is None and k in loose: continue
            if isinstance(w, tuple):
                try: ok = same(bits(json.loads(g)), bits(w[1]))
                except (ValueError, TypeError): ok = False
            elif isinstance(w, float) and isinstance(g, bytes): ok = fmt_num(w).encode() == g or b'%.1f' % w == g
            else: ok = same(g, w)
            if not ok: bad('%s: %s is %r, not %r' % (what, k, g, w))
    loose = set()
    cmp(row1, {k: stored(o[k], k, 1) for k in used}, 'inserted')
    dflt = {}
    for k in used:
        if notypes or opts.get('noDefaults') or opts.get('defaultNull'): dflt[k] = None
        else: dflt[k] = stored(o[k], k, 1)
    if dfl: cmp(row2, dflt, 'default values')
    else: dflt = {k: stored(o[k], k, 1) for k in used}
    # update
    t = typ(o[ch])
    viol = False
    if not notypes and not opts.get('noChecks'):
        if t == b'BOOLEAN': viol = not (nv in (True,) or nv is None and False) or nv is None
        elif t == b'NUMERIC': viol = not isinstance(nv, (int, float)) or nv is None
        elif t == b'TEXT': viol = nv is None and True
        if t == b'BOOLEAN' and isinstance(nv, bool): viol = False
        if t == b'TEXT' and nv is not None: viol = False
    if bool(e) != viol: bad('the update of %s (%s) to %r was %s' % (ch, t.decode(), nv, 'refused' if e else 'accepted'))
    newo = dict(o)
    newo[ch] = nv
    if not viol:
        w = {k: stored(newo[k], k, 0) for k in used}
        if isinstance(nv, str) and t == b'CHARJSON' or nv is not None and not isinstance(nv, (list, dict)) and t == b'CHARJSON': return
        if isinstance(nv, str) and t in (b'NUMERIC', b'BOOLEAN'): w[ch] = nv.encode()
        if isinstance(nv, (list, dict)) and t == b'CHARJSON': w[ch] = bits(nv)
        cmp(row3, w, 'updated')
    else: cmp(row3, dflt, 'after the refused update')
    if not same({k: v for k, v in obj.items() if k != b'rowid'}, bits(newo)): bad('the object became %r' % obj)
    if not isinstance(sql, bytes) or b'%v' in sql or any(k.encode() not in sql for k in used) or any(b'[%s]' % k.encode() in sql for k in skip): bad('getSql: %r' % sql)


def p_import(c, x):
    """files into tables"""
    d = x.fresh('imp21')
    f = os.path.join(d, 'data.txt')
    iscsv = c.bool(65)
    sep = c.weighted([(5, None), (1, ';'), (1, '::'), (1, '|'), (1, '~~~')])
    s = sep or (',' if iscsv else '\t')
    n = c.weighted([(1, 1), (5, 3), (1, 12)])
    nullv = c.weighted([(6, None), (2, 'NIL'), (1, 'NULL')])
    headers = c.bool(30)
    uniq = c.bool(25) and not headers
    rows, lines = [], []
    nlines = 0
    head = ['h%d' % i for i in range(n)]
    out = ''
    if headers:
        out += s.join('"%s"' % h if iscsv and c.bool(30) else h for h in head) + '\n'
        nlines += 1
    recs = []
    for _ in range(c.weighted([(1, 1), (5, 5), (1, 60)])):
        row, t = [], []
        for i in range(n):
            v = c.pick(['', 'x', 'NIL', 'NULL', '12', '-3.5', 'a b', "it's", 'y' * c.pick([1, 98, 99, 100, 101, 199, 200, 300]), 'caf\u00e9'])
            if iscsv and c.bool(35): v = c.pick(['q"q', '"', '""', s, 'a%sb' % s, 'l1\nl2', '\n', 'p\n\n"q"', '"start', 'end"', 'x"%s"y' % s, 'NIL'])
            if not iscsv and s in v: v = 'z'
            if n == 1 and not v: v = 'w'
            need = iscsv and ('"' in v or s in v or '\n' in v)
            t.append('"%s"' % v.replace('"', '""') if need or iscsv and c.bool(25) else v)
            row.append(v)
        if uniq: row[0] = t[0] = 'k%d' % c.int(0, 6)
        recs.append((row, s.join(t)))
    conflict = c.weighted([(4, None), (1, 'IGNORE'), (1, 'REPLACE'), (1, 'ABORT'), (1, 'FAIL'), (1, 'ROLLBACK')])
    bad = c.weighted([(7, None), (1, 'few'), (1, 'many'), (1, 'open')])
    if n == 1 and bad == 'few': bad = None
    if bad == 'open' and not iscsv: bad = None
    badat = c.int(0, len(recs) - 1)
    limit = c.weighted([(6, 0), (1, 2), (1, 1), (1, 1000)])
    if bad: limit = 0
    if limit == 1 and headers: limit = 2
    for i, (row, t) in enumerate(recs):
        if bad and i == badat:
            if bad == 'few': t = s.join(['x'] * (n - 1))
            elif bad == 'many': t = s.join(['x'] * (n + c.pick([1, 2, 40]))) if not iscsv or c.bool() else s.join(['"x"'] * (n + c.pick([1, 2, 40])))
            elif bad == 'open': t = '"x' + t.replace('"', '')
        out += t + ('\n' if i < len(recs) - 1 or c.bool(80) else '')
        if bad == 'open' and i == badat: break
    open(f, 'w', encoding='utf8', newline='').write(out)
    opts = {}
    if iscsv: opts['csv'] = True
    if sep: opts['separator'] = sep
    if nullv: opts['nullvalue'] = nullv
    if headers: opts['headers'] = True
    if conflict: opts['conflict'] = conflict
    if limit: opts['limit'] = limit
    tw = Twin()
    create = 'create table t(%s)' % ','.join(h + (' unique' if uniq and i == 0 else '') for i, h in enumerate(head))
    tw.q(create)
    pre = 'insert into t values(%s)' % ','.join("'k1'" for _ in range(n))
    tw.q(pre)
    src = PRE + 'var db = new Sqlite(), e, r;\n'
    if not headers or c.bool(): src += 'db.eval(%s);\n' % jsstr(create + '; ' + pre)
    else: tw.q('delete from t')
    src += 'e = 0; r = -1; try { r = db.import("t", %s%s); } catch(ex) { e = 1; }; emit(e, r, db.query("select * from t",{mode:"arrays"}));\n' % (jsstr(f), ', ' + js(opts) if opts else '')
    src += 'db.eval("insert into t values(%s)"); emit(db.query("select count(*) as n from t")[0].n);\n' % ','.join("'zz'" for _ in range(n))
    c.case(src + out, len(recs) > 1)
    c.rendered = src + '--- file\n' + out
    c.label('csv' if iscsv else 'plain')
    if bad: c.label('bad: ' + bad)
    err, count, i = bool(bad), 0, 0
    lineno = 1 if headers else 0
    full = lineno
    stop = False
    tw.q('begin')
    for row, t in recs:
        lineno += 1
        if limit and lineno > limit: lineno -= 1; break
        lineno += t.count('\n')
        vals = [None if v == '' or v == nullv else v for v in row]
        try: tw.q('insert or %s into t values(%s)' % (conflict or 'ABORT', ','.join('?' * n)), vals)
        except sqlite3.Error: err = True; break
    if err:
        if tw.c.in_transaction: tw.q('rollback')
    else: tw.q('commit')
    e, r, rows, cnt = x.vals(src)
    w = [[v for v in row] for row in tw.q('select * from t')]
    if headers and err and not same(e, 0.0): pass
    m = None
    if bool(e) != err: m = 'the import was %s' % ('refused' if e else 'accepted')
    elif rows != w: m = 'the table has %r instead of %r' % (rows, w)
    elif not err and r != lineno: m = '%r lines instead of %d' % (r, lineno)
    elif cnt != len(w) + 1: m = 'the table cannot be used any more'
    if m: raise Violation('%s\n%s' % (m, c.rendered))


def p_hooks(c, x):
    """functions, collations, regexp and hooks"""
    src = PRE + 'var db = new Sqlite(), lg = [], e, r;\ndb.eval("create table t(id integer primary key, a)");\n'
    want = []
    hooks = ['onUpdate', 'onCommit', 'onRollback']
    src += 'db.conf({onUpdate:function(d,op,dbn,tb,id) { lg.push([op,dbn,tb,id]); }%s});\n' % (', onCommit:function(d) { lg.push("commit"); return false; }, onRollback:function(d) { lg.push("rollback"); }' if c.bool(60) else '')
    full = 'onCommit' in src
    tw = Twin()
    tw.q('create table t(id integer primary key, a)')
    log = []
    nid = [0]

    def step(depth):
        k = c.int(0, 6)
        if k < 3:
            tw.q('insert into t(a) values(1)')
            i = tw.q('select last_insert_rowid()')[0][0]
            log.append([b'INSERT', b'main', b't', float(i)])
            return 'db.%s("insert into t(a) values(1)");' % c.pick(['eval', 'query']), True
        ids = [r[0] for r in tw.q('select id from t order by id')]
        if k == 3:
            lo = c.int(0, 5)
            for i in ids:
                if i > lo: log.append([b'UPDATE', b'main', b't', float(i)])
            tw.q('update t set a=a+1 where id>%d' % lo)
            return 'db.eval("update t set a=a+1 where id>%d");' % lo, True
        if k == 4:
            if not ids: return 'db.eval("delete from t where id<0");', True
            i = c.pick(ids)
            log.append([b'DELETE', b'main', b't', float(i)])
            tw.q('delete from t where id=%d' % i)
            return 'db.eval("delete from t where id=%d");' % i, True
        if k == 5: return c.pick(['db.conf("errCnt");', 'db.conf();', 'db.conf({timeout:5});', 'db.query("select * from t");', 'db.func("ff", function(a) { return a; });']), False
        return 'db.exists("select * from t");', False
    for _ in range(c.size(1, 10)):
        if c.bool(50):
            before = len(log)
            t, w = step(0)
            src += t + '\n'
            if w and full: log.append(b'commit')
        else:
            fail = c.bool(40)
            tw.q('savepoint s')
            parts, wrote = [], False
            for _ in range(c.int(1, 4)):
                t, w = step(1)
                parts.append(t)
                wrote = wrote or w
            src += 'try { db.transaction(function() { %s%s }); } catch(ex) { lg.push("ex"); }\n' % (' '.join(parts), ' throw "x";' if fail else '')
            if fail: tw.q('rollback')
            else: tw.q('commit')
            if full:
                if fail: log.append(b'rollback')
                elif wrote: log.append(b'commit')
            if fail: log.append(b'ex')
    src += 'emit(lg);\n'
    want.append(log)
    src += 'db.conf({onUpdate:null, onCommit:null, onRollback:null}); lg = []; db.eval("insert into t(a) values(1)"); emit(lg);\n'
    want.append([])
    # functions
    nargs = c.int(0, 12)
    vals = [c.pick([None, c.int(-5, 5), 2.5, 'x', "it's", '', True]) for _ in range(nargs)]
    lits = ['null' if v is None else '1' if v is True else lit(v if not isinstance(v, str) else v.encode()).decode() for v in vals]
    src += 'db.func(%s, function(%s) { return %s; });\n' % (jsstr(c.pick(['fn', 'FN', 'f_1'])), ', '.join('a%d' % i for i in range(nargs)), c.pick(['JSON.stringify([%s])' % ', '.join('a%d' % i for i in range(nargs))]))
    fname = src.rsplit('db.func(', 1)[1].split('"')[1]
    src += 'emit(JSON.parse(db.onecolumn(%s)));\n' % jsstr('select %s(%s)' % (fname.lower(), ','.join(lits)))
    want.append([bits(1 if v is True else v) for v in vals])
    rv = c.pick([None, True, False, 5, -2.5, 'str', "q'q", ''])
    src += 'db.func("g", function(a) { return %s; });\nemit(db.query("select g(1) as v, typeof(g(2)) as t, g(3) is null as n"));\n' % js(rv)
    want.append([{b'v': float(rv) if isinstance(rv, (int, float)) else bits(rv), b't': {type(None): b'null', bool: b'integer', int: b'real', float: b'real', str: b'text'}[type(rv)], b'n': 1.0 if rv is None else 0.0}])
    src += 'db.func("g", function(a) { if (a>2) throw "no"; return a*2; }); e = 0; r = 0; try { r = db.query("select g(id) as v from t where id<3"); } catch(ex) { e = 1; }; emit(e, r); e = 0; try { db.query("select g(5)"); } catch(ex) { e = 1; }; emit(e);\n'
    tw.q('insert into t(a) values(1)')
    want += [0.0, [{b'v': 2.0 * r[0]} for r in tw.q('select id from t where id<3')], 1.0]
    # collation
    words = [text(c) for _ in range(c.size(2, 12))]
    words = [w for w in words if w and '\x00' not in w]
    kind = c.pick(['len', 'rev', 'low'])
    fn = {'len': 'return a.length-b.length;', 'rev': 'return a<b ? 1 : (a>b ? -1 : 0);', 'low': 'var p = a.toLowerCase(), q = b.toLowerCase(); return p<q ? -1 : (p>q ? 1 : 0);'}[kind]
    if kind == 'low': words = [w for w in words if w.isascii()]
    need = c.bool(25)
    src += ('db.conf({onNeedCollate:function(d, nm) { db.collate(nm, function(d, a, b) { %s }); }});\n' if need else 'db.collate("cc", function(d, a, b) { %s });\n') % fn
    src += 'db.eval("create table w(i integer primary key, s text collate cc%s)");\n' % c.pick(['', '); create index wi on w(s'])
    for w in words: src += 'db.query("insert into w(s) values(?)", [%s]);\n' % js(w)
    src += 'emit(db.query("select s from w order by s, i",{mode:"array1d"}));\n'
    key = {'len': lambda w: len(w), 'rev': lambda w: tuple(255 - b for b in w.encode()) + (256,), 'low': lambda w: w.lower().encode()}[kind]
    want.append([w.encode() for w in sorted(words, key=key)])
    # regexp
    rx = [(p, m, t) for p in ['^a', 'b$', 'x.z', '[0-9]+', 'Q'] for m in (None, 'i') for t in ('abc', 'ABC', 'xyz', 'q1', '')]
    pick = [c.pick(rx) for _ in range(c.int(1, 6))]
    import re
    for p, m, t in pick:
        src += 'emit(db.onecolumn("select regexp(\'%s\',\'%s\'%s)"));\n' % (p, t, ",'i'" if m else '')
        want.append(1.0 if re.search(p, t, re.I if m else 0) else 0.0)
    if c.bool(30):
        src += 'emit(db.onecolumn("select regexp(null,\'x\')"), db.onecolumn("select regexp(\'x\',null)"));\n'
        want += [None, None]
    # authorisation
    deny = c.pick(['SQLITE_DELETE', 'SQLITE_INSERT', 'SQLITE_UPDATE', 'SQLITE_DROP_TABLE', 'SQLITE_READ'])
    src += 'db.conf({onAuth:function(d, code, p, q, n, g) { return code=="%s" ? "SQLITE_DENY" : "SQLITE_OK"; }}); r = [];\n' % deny
    ta = Twin()
    ta.q('create table t(id integer primary key, a)'); ta.q('create table w(i integer primary key, s text)')
    if 'create index' in src: ta.q('create index wi on w(s)')
    for i in range(2): ta.q('insert into t(a) values(1)')
    ta.c.set_authorizer(lambda code, *a: sqlite3.SQLITE_DENY if code == getattr(sqlite3, deny) else sqlite3.SQLITE_OK)

    def denied(q):
        try: ta.q(q); return 0.0
        except sqlite3.DatabaseError: return 1.0
    acts = [('SQLITE_DELETE', 'delete from t'), ('SQLITE_INSERT', 'insert into t(a) values(9)'), ('SQLITE_UPDATE', 'update t set a=4'), ('SQLITE_READ', 'select a from t'), ('SQLITE_DROP_TABLE', 'drop table w')]
    for k, q in c.perm(acts):
        src += 'e = 0; try { db.query("%s"); } catch(ex) { e = 1; }; emit(e);\n' % q
        want.append(denied(q))
    src += 'db.conf({onAuth:null}); emit(db.exists("select 1"));\n'
    want.append(True)
    c.case(src, True)
    c.rendered = src
    c.label(kind)
    got = x.vals(src)
    for i, (g, w) in enumerate(zip(got, want)):
        if not same(g, w): raise Violation('result %d: %r instead of %r\n%s' % (i, g, w, src))
    if len(got) != len(want): raise Violation('%d results instead of %d\n%s' % (len(got), len(want), src))


def probe_trace(x):
    """onTrace"""
    g = x.vals(PRE + 'var db = new Sqlite(), r = []; db.conf({onTrace:function(d, sql) { r.push(1); }}); db.eval("create table t(a)"); db.query("select * from t"); emit(r.length);')
    if g != [2.0]: raise Violation('onTrace was called %r times instead of 2' % g)


CHECK = Check('C21', mk, [
    ('binds', p_binds, {'quick': 4000, 'thorough': 60000}),
    ('output modes', p_modes, {'quick': 4000, 'thorough': 60000}),
    ('histories', p_history, {'quick': 3000, 'thorough': 40000}),
    ('objects', p_obj, {'quick': 2000, 'thorough': 25000}),
    ('import', p_import, {'quick': 2000, 'thorough': 25000}),
    ('functions and hooks', p_hooks, {'quick': 2000, 'thorough': 25000}),
], 'non-trivial: at least one row, or three operations of a history', probes=[('trace-never-called', probe_trace)])
