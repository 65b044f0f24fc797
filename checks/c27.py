"""C27: option parsing of modules (getOpts, parseOpts, moduleOpts, moduleRun, command line) and matchObj, against a model of the documented rules."""
import json, os, re
from vt.core import Check, Violation
from vt.js import X, jsstr, expect, same, conv, show, UNDEF, UNPRIV


def mk(w): return X(w, user=UNPRIV)


NAMES = ['a', 'b', 'c', 'ab', 'abc', 'A', 'name', 'start', 'x1', 'flag', 'onDone', 'z', 'max', 'maxSize', 'no', 'q_w', 'verbose', 'help2', 'B', 'foo']
DEBUG = ['Debug', 'Trace', 'Test', 'Assert']


class J(str): pass          # a value given by its JS text


def val(c, k=None):
    k = k or c.pick(['num', 'str', 'bool', 'null', 'arr', 'obj', 'undef'])
    if k == 'num': return c.pick([0, 1, 2, 5, -1, 1.5, 0.5, 0.99, 1.01, -0.5, 100, 1e10])
    if k == 'str': return c.pick(['', 'x', 'abc', '1', 'true', 'a b', 'é', '-x', 'null'])
    if k == 'bool': return c.bool()
    if k == 'null': return None
    if k == 'undef': return UNDEF
    if k == 'arr': return [c.int(0, 3) for _ in range(c.int(0, 3))]
    return {c.pick('pqr'): c.int(0, 5) for _ in range(c.int(0, 2))}


def js(v):
    if v is UNDEF: return 'undefined'
    if v is None: return 'null'
    if v is True: return 'true'
    if v is False: return 'false'
    if isinstance(v, (int, float)): return repr(v) if isinstance(v, int) else ('%.15g' % v)
    if isinstance(v, str): return jsstr(v)
    if isinstance(v, list): return '[%s]' % ', '.join(js(z) for z in v)
    return '{%s}' % ', '.join('%s:%s' % (k, js(z)) for k, z in v.items())


def typ(v):
    if isinstance(v, bool): return 'boolean'
    if isinstance(v, (int, float)): return 'number'
    if isinstance(v, str): return 'string'
    return None


def apply(opts, self, conf, debug):
    """returns (self, None) or (None, part of the message)"""
    out = dict(self)
    for k, v in opts.items():
        if k not in out: out[k] = v
    for k in sorted(conf, key=lambda z: z.encode()):
        v = conf[k]
        if v is UNDEF: return None, k
        if debug and k in DEBUG:
            t = 'boolean'
        elif k not in opts: return None, k
        else: t = typ(opts[k])
        if t == 'boolean' and isinstance(v, (int, float)) and v in (0, 1): v = bool(v)
        if t and typ(v) != t: return None, k
        out[k] = v
    return out, None


def options(c, n=None):
    return {k: val(c) for k in c.list(0 if n is None else n, 10, lambda: c.pick(NAMES))}


def p_getopts(c, x):
    """getOpts, parseOpts, moduleOpts with objects"""
    opts = options(c)
    self = {k: val(c, c.pick(['num', 'str', 'bool', 'null', 'arr'])) for k in c.list(0, 4, lambda: c.pick(NAMES))} if c.bool() else None
    if self == {}: self = None
    conf = {}
    for k in c.list(0, 6, lambda: c.pick(list(opts) or ['a']) if c.bool(93) else c.pick(NAMES + DEBUG)):
        t = typ(opts.get(k))
        conf[k] = val(c, {'number': 'num', 'string': 'str', 'boolean': 'bool'}[t]) if t and c.bool(88) else val(c, c.pick(['num', 'str', 'bool', 'null', 'arr', 'obj', 'undef', 'num']))
    how = c.pick(['get', 'parse', 'module'])
    want, bad = apply(opts, self or {}, conf, how == 'module')
    a = {'get': 'getOpts(O, C%s)' % ('' if self is None else ', S'), 'parse': 'parseOpts(S, O, C)', 'module': 'moduleOpts(O, S, C)'}[how]
    s = 'var O = %s, S = %s, C = %s, r;\n' % (js(opts), js(self or {}), js(conf))
    if how == 'module' and list(conf) == ['help']: return
    s += 'try { r = %s; emit("ok", r); } catch(e) { emit("err", e); }\n' % a
    if bad is None:
        s += 'emit(O, C);\n'
        if self is not None or how != 'get': s += 'emit(S);\n'
        s += 'try { r.nosuch = 1; emit("assigned"); } catch(e) { emit("frozen"); } try { emit(r.nosuch2); } catch(e) { emit("checked"); }\n'
        if want:
            k = c.pick(sorted(want))
            s += 'r.%s = "new"; emit(r.%s);' % (k, k)
    c.case(s, len(conf) > 0 and len(opts) > 1)
    c.label(how, 'error' if bad else 'ok')
    c.rendered = s
    c.sample(s)
    got = x.vals(s)
    if bad is not None:
        if len(got) != 2 or got[0] != b'err' or not isinstance(got[1], bytes) or bad.encode() not in got[1]: raise Violation('expected an error for %r, got %r\n%s' % (bad, got, s))
        return
    w = ['ok', want, opts, conf] + ([want] if self is not None or how != 'get' else []) + ['frozen', 'checked'] + (['new'] if want else [])
    if len(got) != len(w) or not all(same(g, conv(v)) for g, v in zip(got, w)): raise Violation('got %r\nwant %r\n%s' % (got, w, s))


NUMRE = re.compile(r'^[ \t]*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)$')


def parse_args(args):
    """(rest, conf) or None if an argument is missing"""
    i = 0
    conf = {}
    while i < len(args):
        a = args[i]
        if a[:1] != '-': break
        if a == '--':
            i += 1
            break
        if i + 1 >= len(args): return None
        v = args[i + 1]
        conf[a[1:]] = True if v == 'true' else False if v == 'false' else None if v == 'null' else float(v) if NUMRE.match(v) else v
        i += 2
    return args[i:], conf


def arg_value(c, t):
    if t == 'number': return c.pick(['0', '1', '5', '-3', '2.5', '1e3', '100000', '.5'])
    if t == 'boolean': return c.pick(['true', 'false', '1', '0'])
    if t == 'string': return c.pick(['x', 'abc', 'a b', 'é', '-x', 'yes', 'a=b', '', 'x1', '--', '-a'])
    return c.pick(['5', 'true', 'null', 'str', 'a,b', '-q', '[1]', '0', '-2.5', 'undefined'])


def p_module(c, x):
    """modules run from the command line, by moduleRun and by a direct call"""
    opts = {k: v for k, v in options(c, 1).items() if v is not UNDEF}
    self = {'max0': 4, 'cur': 'x'} if c.bool(40) else {}
    args = []
    for _ in range(c.size(0, 4)):
        k = c.pick(sorted(opts) or ['a']) if c.bool(94) else c.pick(NAMES + DEBUG[:1])
        t = typ(opts.get(k)) if c.bool(92) else c.pick(['number', 'string', 'boolean'])
        v = arg_value(c, t)
        if t == 'string' and (NUMRE.match(v) or v in ('true', 'false', 'null')): v = 'w' + v
        args += ['-' + k, v]
    if c.bool(15): args.append('--')
    if c.bool(6): args.append('-' + c.pick(NAMES))
    elif c.bool(60): args += [c.pick(['x', 'file.txt', 'a b', '5', '-late', 'é', '', '-a', 'true']) for _ in range(c.size(1, 5))]
    name = c.pick(['mod', 'Mod1', 'hello', 'm_x'])
    pr = parse_args(args)
    if args and args[-1:] == ['-h']: return
    err = None
    if pr is None: err = 'missing argument'
    else:
        rest, conf = pr
        want, err = apply(opts, self, conf, True)
    style = c.pick(['opts', 'direct'])
    comm = {k: c.pick(['Some text.', 'A', 'Number of things', 'x: y, z', '']) for k in opts}
    body = 'function %s(args, conf) {\n' % name
    if style == 'opts':
        body += '    const options = { // The title.\n' + ''.join('        %s:%s%s // %s\n' % (k, js(v), ',' if i < len(opts) - 1 else '', comm[k]) for i, (k, v) in enumerate(opts.items())) + '    };\n'
        body += '    var self = %s;\n    moduleOpts(options, self);\n' % js(self)
    else: body += '    var self = moduleOpts(%s, %s);\n' % (js(opts), js(self))
    how = c.pick(['cli', 'run', 'run', 'require', 'call', 'help'])
    D = x.fresh('m')
    f = D + '/%s.jsi' % name
    c.label(how, 'error' if err else 'ok')
    c.case(body + repr(args) + how, len(args) > 2)
    if how in ('cli', 'help'):
        body += '    puts(JSON.stringify([args, self]));\n}\nmodule(%s);\n' % name
        open(f, 'w').write(body)
        os.chmod(f, 0o644)
        if how == 'help':
            if style != 'opts': return
            r = x.cli([f, '-h'])
            o = (r.stdout + r.stderr).decode('utf8', 'replace')
            c.rendered = body
            if 'The title.' not in o: raise Violation('help lacks the title\n%s\n%s' % (o, body))
            L = o.split('\n')
            for k, v in opts.items():
                ln = [l for l in L if re.match(r'^\t-%s\t' % re.escape(k), l)]
                if len(ln) != 1 or comm[k] not in ln[0]: raise Violation('help of -%s is %r\n%s\n%s' % (k, ln, o, body))
                d = re.split(r'\t+', ln[0])[2] if len(re.split(r'\t+', ln[0])) > 2 else None
                if isinstance(v, (bool, int, str)) or v is None:
                    if d != js(v): raise Violation('default of -%s is %r in the help\n%s\n%s' % (k, d, o, body))
            return
        c.rendered = '%s\n// %r' % (body, args)
        r = x.cli([f] + args)
        o = r.stdout.decode('utf8', 'replace')
        if err is not None:
            if r.returncode != 1 or err not in r.stderr.decode('utf8', 'replace') or o: raise Violation('expected an error naming %r, got exit %d %r %r\n%s' % (err, r.returncode, o, r.stderr.decode('utf8', 'replace')[:800], c.rendered))
            return
        try: got = json.loads(o)
        except ValueError: got = o
        if r.returncode or got != [rest, want]: raise Violation('got %r (exit %d), want %r\n%s\n%s' % (got, r.returncode, [rest, want], r.stderr.decode('utf8', 'replace')[:500], c.rendered))
        return
    body += '    return [args, self];\n}\n'
    S = ''
    if how == 'require':
        body += 'provide(%s, %s);\n' % (name, c.pick(['1', '"1.2"', '2.01']))
        open(f, 'w').write(body)
        os.chmod(f, 0o644)
        S = 'Interp.conf({pkgDirs:[%s]}); require("%s");\n' % (jsstr(D), name)
    else: S = body
    if how == 'call':
        if pr is None: return
        S += 'try { emit("ok", %s(%s, %s)); } catch(e) { emit("err", e); }\n' % (name, js(rest), js(conf))
    else: S += 'try { emit("ok", moduleRun(%s, %s)); } catch(e) { emit("err", e); }\n' % (name if how == 'run' and c.bool(30) else jsstr(name), js(args))
    c.rendered = S
    c.sample(S)
    got = x.vals(S)
    if err is not None:
        if len(got) != 2 or got[0] != b'err' or err.encode() not in got[1]: raise Violation('expected an error naming %r, got %r\n%s\n%s' % (err, got, args, S))
    elif len(got) != 2 or got[0] != b'ok' or not same(got[1], conv([rest, want])): raise Violation('got %r\nwant %r\n%s\n%s' % (got, [rest, want], args, S))


def p_match(c, x):
    """matchObj: an object matches exactly the types of its members"""
    T = {'number': '5', 'string': '"s"', 'boolean': 'true', 'null': 'null', 'array': '[1]', 'object': '{q:1}', 'function': 'function() { return 1; }', 'regexp': '/x/', 'undefined': 'undefined'}
    ks = sorted(set(c.list(1, 8, lambda: c.pick(NAMES))), key=lambda z: z.encode())
    ty = {k: c.pick(list(T)) for k in ks}
    lit = '{%s}' % ', '.join('%s:%s' % (k, T[ty[k]]) for k in c.perm(ks))
    spec = lambda d: '{%s}' % ','.join('%s:%s' % (k, d[k]) for k in sorted(d, key=lambda z: z.encode()))
    sp = lambda s: ''.join(z + (' ' * c.int(0, 2) if z in '{,:}' else '') for z in s) if c.bool() else s
    s = 'var o = %s; emit(matchObj(o));\n' % lit
    want = [spec(ty)]
    s += 'emit(matchObj(o, %s));\n' % jsstr(sp(spec(ty)))
    want.append(True)
    for _ in range(c.int(1, 4)):
        o = dict(ty)
        m = c.int(0, 3)
        if m == 0: o[c.pick(ks)] = c.pick(list(T))
        elif m == 1: o.pop(c.pick(ks))
        elif m == 2: o[c.pick(NAMES)] = c.pick(list(T))
        else:
            for _ in range(3): o[c.pick(NAMES)] = c.pick(list(T))
        part = c.bool()
        ok = o == ty or part and all(o.get(k) == v for k, v in ty.items())
        form = '' if not part and c.bool() else ', %s' % js(part) + (', true' if c.bool(70) else '')
        s += 'emit(matchObj(o, %s%s));\n' % (jsstr(sp(spec(o))), form)
        want.append(ok)
    c.case(s, len(ks) > 1)
    c.rendered = s
    c.sample(s)
    got = x.vals(s)
    if len(got) != len(want) or not all(same(a, conv(b)) for a, b in zip(got, want)): raise Violation('got %r\nwant %r\n%s' % (got, want, s))


def P(s, *want): return lambda x: expect(x, s, list(want))


PROBES = [
    ('match-partial-3args', P('emit(matchObj({a:1}, "{a:number,b:string}", true));', True)),
    ('match-trailing-space', P('emit(matchObj({a:1}, "{a:number} "));', True)),
]
CHECK = Check('C27', mk, [
    ('objects', p_getopts, {'quick': 6000, 'thorough': 90000}),
    ('module', p_module, {'quick': 2500, 'thorough': 30000}),
    ('match', p_match, {'quick': 2500, 'thorough': 30000}),
], 'declarations of options with defaults of any type and values or arguments for them (at least two options and one value; three arguments); objects and type strings (two members)', probes=PROBES)
