"""C13: format and printf."""
import ctypes
from vt.core import Check, Violation
from vt.js import X, jsstr, UNDEF, show, raw
from checks.c09 import f64, lit

libc = ctypes.CDLL(None)
libc.snprintf.restype = ctypes.c_int


def csn(spec, v, isd):
    buf = ctypes.create_string_buffer(20000)
    n = libc.snprintf(buf, ctypes.c_size_t(20000), spec.encode(), ctypes.c_double(v) if isd else ctypes.c_longlong(v))
    return buf.raw[:n]


def sbytes(c, hi=12):
    k = c.int(0, 5)
    if k < 3: return ''.join(c.pick('abcxyz 019%$') for _ in range(c.size(0, hi))).encode()
    if k == 3: return ''.join(c.pick(['é', '♥', 'a', '😀', '%']) for _ in range(c.size(0, hi))).encode()
    if k == 4: return bytes(c.int(1, 255) for _ in range(c.size(0, hi)))
    return b'x' * c.pick([99, 100, 101, 199, 200, 255, 256, 1000, 4096])


def plain(c):
    """literal text between conversions: format spelling and its output"""
    k = c.int(0, 7)
    if k == 0: return b'', b''
    if k == 1: return b'%%', b'%'
    if k == 2: return '♥é'.encode(), '♥é'.encode()
    if k == 3: return b'a\0b', b'a\0b'
    if k == 4: return b'%%%%', b'%%'
    if k == 5 and c.bool(20): return b'y' * 300, b'y' * 300
    s = ''.join(c.pick('abc :|\n\t"\\{}') for _ in range(c.int(1, 8))).encode()
    return s, s


def wide(c):
    k = c.int(0, 6)
    if k == 0: return c.int(0, 20)
    if k == 1: return -c.int(0, 1000)
    if k == 2: return c.int(0, 2 ** 31) * (-1 if c.bool() else 1)
    if k == 3: return c.pick([2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, -2 ** 53, 2 ** 53 - 1, 10 ** 15, 10 ** 18])
    if k == 4: return 10 ** c.int(0, 18)
    if k == 5: return (1 << c.int(0, 62)) * (-1 if c.bool(30) else 1)
    return c.int(0, 2 ** 53) * (-1 if c.bool() else 1)


def width(c, args):
    """-> spelling in the format, value or None"""
    if c.bool(45): return '', None
    w = c.pick([c.int(1, 20), c.int(1, 20), c.int(1, 20), c.int(90, 130), c.pick([24, 25, 99, 100, 101, 319, 320, 321, 400, 1000, 2000])])
    if c.bool(30):
        v = -w if c.bool(25) else w
        args.append(str(v))
        return '*', v
    return str(w), w


def prec(c, args):
    if c.bool(50): return '', None
    w = c.pick([c.int(0, 17), c.int(0, 17), c.pick([18, 24, 30, 60, 99, 100, 320, 400, 1000])])
    if c.bool(30):
        args.append(str(w))
        return '.*', w
    if w == 0 and c.bool(): return '.', 0
    return '.%d' % w, w


def conv1(c, args, x):
    """one conversion: spelling, expected bytes; appends the source of its arguments"""
    ch = c.pick('dddiuoxXsssSScCfffegGEa')
    # a flag may be repeated
    if ch in 'diuoxXeEfgGa':
        fl = ''.join(c.pick('-0+ #\'') for _ in range(c.pick([0, 0, 1, 1, 2, 3, 6])))
    else:
        fl = '-' * c.pick([0, 0, 0, 1, 1, 2])
    ws, w = width(c, args)
    a2 = []
    ps, p = prec(c, a2) if ch not in 'cC' else ('', None)
    args += a2
    f2 = fl
    ww = w
    if ww is not None and ww < 0: f2, ww = '-' + fl, -ww
    csp = '%' + f2 + ('' if ww is None else str(ww)) + ('' if p is None else '.%d' % p)
    mod = ''
    if ch in 'diuoxX':
        mod = c.pick(['', '', '', 'l', 'll'])
        v = wide(c)
        fr = ''
        if abs(v) < 2 ** 40 and c.bool(20): fr = '.' + c.pick(['5', '25', '999', '0'])
        args.append('(%d%s)' % (v, fr))
        out = csn(csp + 'll' + ch, v if v < 2 ** 63 else v - 2 ** 64, 0)
    elif ch in 'eEfgGa':
        v = f64(c)
        if c.bool(5): v = c.pick([float('inf'), float('-inf')])
        args.append('(-Infinity)' if v == float('-inf') else 'Infinity' if v == float('inf') else lit(v))
        out = csn(csp + ch, v, 1)
    else:
        if ch in 'cC':
            if c.bool(50):
                b = bytes([c.int(1, 127)])
                args.append(raw(b))
            else:
                n = c.int(0, 255)
                args.append(str(n))
                b = chr(n).encode() if ch == 'C' else bytes([n])
            n = 1
        elif ch == 's' or c.bool(50):
            b = sbytes(c)
            args.append(raw(b))
            if p is not None: b = b[:p]
            n = len(b)
        else:
            k = c.int(0, 4)
            s, b = [('[1,"x"]', b'[ 1, "x" ]'), ('{a:1}', b'{ a:1 }'), ('null', b'null'), ('true', b'true'), ('1.5', b'1.5')][k]
            if k == 0: b = b'[ 1, x ]'
            args.append(s)
            if p is not None: b = b[:p]
            n = len(b)
        out = b
        if ww is not None and n < ww:
            pad = b' ' * (ww - n)
            out = b + pad if '-' in f2 else pad + b
    return ('%' + fl + ws + ps + mod + ch).encode(), out


def fmt(c, x):
    f, out = plain(c)
    args = []
    n = c.size(0, 8)
    for _ in range(n):
        s, o = conv1(c, args, x)
        t, u = plain(c)
        f += s + t
        out += o + u
    if c.bool(15): args.append(c.pick(['1', '"extra"', 'null']))   # more arguments than conversions
    src = 'var f=%s;\nemit(format(%s));' % (raw(f), ', '.join(['f'] + args))
    want = [out]
    c.case((f, tuple(args)), n > 0)
    c.rendered = show(f) + '  ' + ', '.join(args)
    got = x.vals(src)
    if got != want:
        raise Violation('format %s with %s\n--- got  %r\n--- want %r' % (show(f), ', '.join(args), got, want))
    if b'\0' not in out and c.bool(30):
        c.label('printf')
        r = x.js('var f=%s;\nprintf(%s);' % (raw(f), ', '.join(['f'] + args)), ok=True)
        if r.out != out: raise Violation('printf %s with %s\n--- got  %r\n--- want %r' % (show(f), ', '.join(args), r.out, out))


BADARG = {'d': ['"5"', '"x"', 'null', '{a:1}', '[1]', 'true', '""'], 's': ['5', 'null', '{a:1}', '[1]', 'true'], 'c': ['"ab"', '256', '-1', 'null', '[1]'], }


def bad(c, x):
    """what does not fit is refused, at any place, and formatting goes on working"""
    f, _ = plain(c)
    args = []
    for _ in range(c.int(0, 3)):
        s, o = conv1(c, args, x)
        f += s + plain(c)[0]
    k = c.pick(['missing', 'type', 'unknown', 'cut'])
    if k == 'missing': f += b'%' + c.pick(['d', 's', '5d', '-5.2f', '*d', '.*f', 'S', 'c']).encode()
    elif k == 'type':
        t = c.pick('dsc')
        ch = c.pick('diuoxXfeg') if t == 'd' else t
        f += b'%' + ch.encode()
        args.append(c.pick(BADARG[t]))
    elif k == 'unknown':
        f += b'%' + c.pick(['', '5', '-', '.2', '08.3', 'l']).encode() + c.pick('zkpnyDUOQ!)]').encode()
        args.append('1')
    else:
        f += b'%' + c.pick(['', '5', '-', '.2', '08.', 'l', 'll', '*']).encode()
        args += ['1', '2']
    if k != 'cut' and c.bool(): f += plain(c)[0].replace(b'%', b'')
    elif k == 'missing': pass
    if k == 'cut' or k == 'missing' or True:
        pass
    src = 'var f=%s, r="none";\ntry { r=format(%s); } catch(e) { r=null; }\nemit(r, format("%%5d|", 42));' % (raw(f), ', '.join(['f'] + args))
    c.case((f, tuple(args)), True)
    c.label(k)
    c.rendered = show(f) + '  ' + ', '.join(args)
    got = x.vals(src)
    if got != [None, b'   42|']:
        raise Violation('format %s with %s is not refused: %r' % (show(f), ', '.join(args), got))


PROPS = [('format', fmt, {'quick': 2500, 'thorough': 60000}), ('refused', bad, {'quick': 600, 'thorough': 10000})]
CHECK = Check('C13', lambda w: X(w), PROPS, 'non-trivial: at least one conversion; oracle: libc snprintf for numbers, padding and truncation of bytes for texts')
