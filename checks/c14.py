"""C14: strftime and strptime."""
import os, time, calendar, math
from vt.core import Check, Violation
from vt.js import X, jsstr, UNDEF, show

ZONES = ['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'AEST-10AEDT,M10.1.0,M4.1.0/3', 'IST-5:30', 'NST3:30NDT,M3.2.0,M11.1.0']


class Y:
    """one interpreter server per time zone"""
    def __init__(self, w):
        self.w, self.d = w, {}

    def __getitem__(self, tz):
        if tz not in self.d:
            x = X(self.w)
            x.xenv['TZ'] = tz
            self.d[tz] = x
        return self.d[tz]

    def vals(self, *a): return self['UTC'].vals(*a)

    def close(self):
        for x in self.d.values(): x.close()


def instant(c, ms=True):
    """milliseconds since 1970"""
    k = c.int(0, 7)
    if k == 0: t = c.int(-3, 3) * 1000
    elif k == 1: t = c.int(0, 4102444800) * 1000
    elif k == 2: t = -c.int(0, 2208988800) * 1000
    elif k == 3: t = calendar.timegm((c.int(1901, 2199), c.pick([1, 2, 3, 12]), c.pick([1, 28, 29, 30, 31]), c.pick([0, 12, 23]), c.pick([0, 59]), c.pick([0, 59]))) * 1000
    elif k == 4: t = calendar.timegm((c.int(1971, 2037), c.pick([3, 4, 10, 11]), c.int(1, 31), c.int(0, 23), c.int(0, 59), 0)) * 1000
    elif k == 5: t = calendar.timegm((c.int(1000, 9999), c.int(1, 12), c.int(1, 28), c.int(0, 23), c.int(0, 59), c.int(0, 59))) * 1000
    elif k == 6: t = c.pick([0, 1, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32, 951782400, 951868799, 68169600, -1, -86400, 86399]) * 1000
    else: t = c.int(0, 2 ** 31) * 1000
    if ms and c.bool(60): t += c.pick([c.int(0, 999), 1, 9, 10, 99, 100, 999, 500])
    return t


def settz(tz):
    os.environ['TZ'] = tz
    time.tzset()


DIRS = '%Y %m %d %H %M %S %y %b %B %a %A %e %j %I %p %D %F %T %R %u %w %U %W %C %% %V %G %h %n'.split()


def form(c):
    """a format: pieces; True if it has %f"""
    s = ''
    hasf = False
    for i in range(c.size(1, 9)):
        if not hasf and i and not s.endswith('%%') and c.bool(15):
            s += '%f'
            hasf = True
        else:
            s += c.pick(DIRS)
        s += c.pick(['', ' ', '-', ':', '/', 'T', '♥', ', ', 'x' * c.int(0, 3)])
    if c.bool(3): s += 'z' * 600
    return s


def lfmt(f, t, utc):
    sec, ms = divmod(t, 1000)
    tm = time.gmtime(sec) if utc else time.localtime(sec)
    a, s, b = f.partition('%f')
    F = lambda g: time.strftime(g, tm) if g else ''
    return F(a) + ('%03d' % ms if s else '') + F(b)


def pformat(c, x):
    t = instant(c)
    tz = c.pick(ZONES)
    settz(tz)
    f = form(c)
    utc = c.bool(60)
    secs = c.bool(20)
    k = c.pick(['opt', 'opt', 'opt', 'str', 'default', 'iso', 'empty'])
    o = []
    num = str(t)
    if k == 'str': opt, utc, secs = ', ' + jsstr(f), False, False
    else:
        if k == 'opt': o.append('fmt:' + jsstr(f))
        elif k == 'iso':
            o.append('iso:true')
            f = '%FT%T.%f'
        elif k == 'empty':
            f = '%Y-%m-%dT%H:%M:%S'
            if utc: f = '%Y-%m-%d %H:%M'
            o.append('fmt:""')
        else: f = '%Y-%m-%d %H:%M:%S'
        if utc: o.append('utc:true')
        if secs:
            o.append('secs:true')
            num = repr(t / 1000.0)
        opt = ', {%s}' % ','.join(c.perm(o)) if o else ''
    want = lfmt(f, t, utc).encode('utf8', 'surrogateescape')
    # seconds with a fraction may lose a millisecond
    if secs: t = t // 1000 * 1000; num = str(t // 1000); want = lfmt(f, t, utc).encode()
    src = 'emit(strftime(%s%s));' % (num, opt)
    c.case((src, tz), t % 1000 != 0 or t < 0 or not utc)
    c.label(k, 'utc' if utc else 'local')
    c.rendered = 'TZ=%s %s' % (tz, src)
    got = x[tz].vals(src)
    if got != [want]: raise Violation('%s\n--- got  %r\n--- want %r' % (c.rendered, got, want))


RT = ['%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S', '%F %T', '%d/%m/%Y %H-%M-%S', '%d %b %Y %T', '%B %d, %Y %H:%M:%S', '%a %b %d %H:%M:%S %Y', '%A, %d %B %Y %I:%M:%S %p', '%Y%m%d %H%M%S', 'at %T on %F', '%Y/%j %T' ]


def pround(c, x):
    """what strftime writes strptime reads back"""
    t = instant(c)
    tz = c.pick(ZONES)
    settz(tz)
    utc = c.bool(70)
    f = c.pick(RT[:-1])
    if f == '%Y%m%d %H%M%S' and not 1000 <= time.gmtime(t // 1000).tm_year <= 9998: f = RT[0]
    fr = c.pick([0, 0, 1]) and f.endswith(('%S', '%T'))
    g = f + '.%f' if fr else f
    w = t if fr else t // 1000 * 1000
    secs = c.bool(20) and t >= 0
    if not utc:
        # the hour that occurs twice has no single reading
        lt = time.localtime(t // 1000)
        if any(time.localtime(t // 1000 + d)[:6] == lt[:6] for d in (-3600, 3600)):
            c.label('ambiguous')
            return
    if secs: w = w // 1000
    u = 'utc:%s' % ('true' if utc else 'false')
    src = 'var s=strftime(%d,{fmt:%s,%s});\nemit(strptime(s,{fmt:%s,%s%s}));' % (t, jsstr(g), u, jsstr(g), u, ',secs:true' if secs else '')
    want = [float(w)]
    if f in RT[:2]:
        src += '\nemit(strptime(s%s));' % (',{%s}' % u)
        want.append(float(t if fr else t // 1000 * 1000))
    if f in RT[:2] and not utc:
        src += '\nemit(strptime(s));'
        want.append(want[-1])
    c.case((src, tz), True)
    c.label('utc' if utc else 'local')
    c.rendered = 'TZ=%s %s' % (tz, src)
    got = x[tz].vals(src)
    if got != want: raise Violation('%s\n--- got  %r\n--- want %r' % (c.rendered, got, want))


def pparse(c, x):
    """default formats, fractions and zone offsets; what is no time is NaN"""
    t = instant(c, False)
    tz = c.pick(ZONES)
    settz(tz)
    sec = t // 1000
    sep = c.pick(' T')
    full = c.pick(['s', 's', 'm', 'd'])
    if full == 'm': sec -= sec % 60
    elif full == 'd': sec -= sec % 86400
    s = time.strftime('%Y-%m-%d', time.gmtime(sec))
    w = sec * 1000
    if full != 'd':
        s += sep + time.strftime('%H:%M:%S' if full == 's' else '%H:%M', time.gmtime(sec))
    if full == 's' and c.bool():
        d = ''.join(c.pick('0123456789') for _ in range(c.int(3, 9)))
        s += '.' + d
        w += int(d[:3])
    if full != 'd' and c.bool(40):
        h, m = c.int(0, 14), c.pick([0, 30, 45, 59])
        sg = c.pick('+-')
        s += c.pick(['', ' ']) + '%s%02d:%02d' % (sg, h, m)
        w -= (1 if sg == '+' else -1) * (h * 3600 + m * 60) * 1000
    src = 'emit(strptime(%s,{utc:true}));' % jsstr(s)
    bad = None
    if c.bool(30):
        bad = c.pick(['garbage', '20x0-01-01', '2020-13-01', '2020-00-10', '2020-01-32', '2020-01', '-', 'T10:20', '2020/01/02', '%Y', 'Now', s[1:] if s[4:5] == '-' and 0 else 'x' + s])
        src += '\nvar n=strptime(%s,{utc:true});\nemit(isNaN(n));' % jsstr(bad)
    want = [float(w)] + ([True] if bad else [])
    c.case((src, tz), True)
    c.label(full)
    c.rendered = 'TZ=%s %s' % (tz, src)
    got = x[tz].vals(src)
    if got != want: raise Violation('%s\n--- got  %r\n--- want %r' % (c.rendered, got, want))


def pnow(c, x):
    """no argument, null and 'now' mean the present"""
    a = time.time() * 1000
    got = x['UTC'].vals('emit(strptime(), strptime("now"), strptime("",{utc:true}), 0+strftime(null,{fmt:"%Y"}), strptime(strftime(null,{utc:true}),{utc:true}));')
    b = time.time() * 1000
    c.case(c.int(0, 1 << 30), True)
    for i in (0, 1, 2):
        if not a - 1 <= got[i] <= b + 1: raise Violation('strptime of the present: %r is not in %r..%r' % (got[i], a, b))
    if not a - 1001 <= got[4] <= b + 1: raise Violation('strftime of the present: %r is not in %r..%r' % (got[4], a, b))


PROPS = [('format', pformat, {'quick': 1500, 'thorough': 30000}), ('round trip', pround, {'quick': 1200, 'thorough': 25000}),
         ('parse', pparse, {'quick': 1200, 'thorough': 25000}), ('now', pnow, {'quick': 8, 'thorough': 40})]
CHECK = Check('C14', Y, PROPS, 'non-trivial: local time, before 1970 or with milliseconds (format), every case (others); oracle: libc through Python time and calendar, in five time zones')
