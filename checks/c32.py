"""C32: exec() against running the same command directly, and the environment as a map."""
import os, re, subprocess
from vt.core import Check, Discard, Violation
from vt.js import X, jsstr, raw, expect, same, conv, show, UNPRIV, UNDEF


def mk(w): return X(w, user=UNPRIV)


WORDS = ['alpha', 'x', 'a-b', '42', 'hello', '-n', 'z_9', '%s', 'a/b', 'tail', 'Ä', '♥', 'q' * 300]
ENVN = ['VTA', 'VTB', 'vt_c', 'VT9', 'VTLONG' + 'x' * 200, 'VT_Z']


def text(c, big=True):
    k = c.int(0, 9)
    if k == 0: return ''
    if k == 1: return c.pick(['a\nb\n', '\n', ' \t\n', 'x \n\n', '  lead', 'tail  ', 'no newline', 'é♥\n', 'a\tb'])
    if k == 2 and big: return c.pick(['0123456789', 'ab\n', 'é', ' ']) * c.pick([409, 410, 819, 820, 1000, 6554, 13108, 30000])
    return ' '.join(c.pick(WORDS[:9] + ['é♥']) for _ in range(c.int(1, 6))) + c.pick(['', '\n', ' ', '\n\n'])


def sq(s): return "'" + s.replace("'", "'\\''") + "'"


def cmd(c, stdin):
    """a shell command with output and exit code"""
    k = c.weighted([(6, 'printf'), (3, 'echo'), (3, 'file'), (2, 'pwd'), (2, 'env'), (2, 'pipe'), (2, 'seq'), (1, 'nul'), (1, 'kill'), (2, 'stderr'), (1, 'none'), (1, 'missing'), (1, 'silent'), (1, 'bytes')])
    if k == 'printf':
        t = text(c)
        s = 'printf %s ' + sq(t) if len(t) < 20000 else 'cat big'
    elif k == 'echo': s = 'echo ' + ' '.join(sq(c.pick(WORDS[:11])) if c.bool() else c.pick(['a', 'b c', 'x   y', '"q  r"']) for _ in range(c.int(0, 5)))
    elif k == 'file': s = c.pick(['cat f', 'cat f f', 'wc -c < f', 'sort f', 'head -c 3 f', 'cat big', 'tail -c 100 big', 'cat sub/g'])
    elif k == 'pwd': s = 'pwd'
    elif k == 'env': s = 'printf "[%s]" "$' + c.pick(ENVN) + '"'
    elif k == 'pipe': s = "printf 'b\\na\\nc\\n' | " + c.pick(['sort', 'sort -r', 'head -n 1', 'tail -n 1', 'tr a-c A-C', 'grep a', 'grep zz', 'cat'])
    elif k == 'seq': s = 'seq 1 %d' % c.pick([1, 10, 1000, 2000, 20000])
    elif k == 'nul': s = "printf 'a\\000b\\000'"
    elif k == 'bytes': s = "printf '\\377\\200\\012\\001x '"
    elif k == 'kill': return 'kill -%d $$' % c.pick([1, 9, 15, 2])
    elif k == 'stderr': s = 'echo err >&2; echo out' + c.pick(['', ' 2>&1'])
    elif k == 'none': s = 'true'
    elif k == 'missing': return 'no_such_command_vt' + c.pick(['', ' 2>/dev/null', ' x y'])
    else: s = c.pick(['false', ':', 'test -f f', 'test -f nosuch'])
    if stdin:   # its standard output would be that of the script
        s = c.pick(['cat > out', 'sort > out', 'wc -c > out', 'head -c 5 > out', 'tr a-z A-Z > out', ': > out', 'cat > out', 'cat >/dev/null; echo x > out'])
    if c.bool(40): s += '; exit %d' % c.pick([0, 1, 2, 3, 42, 126, 127, 128, 200, 255])
    return s


def setup(c, x):
    D = x.fresh('x')
    os.mkdir(D + '/sub')
    open(D + '/f', 'w').write(text(c, False))
    open(D + '/big', 'w').write('line of the big file\n' * c.pick([1, 300, 390, 391, 400, 10000]))
    open(D + '/sub/g', 'w').write('gg\n')
    for r, ds, fs in os.walk(D):
        os.chown(r, UNPRIV, UNPRIV)
        for f in fs: os.chown(r + '/' + f, UNPRIV, UNPRIV)
    return D


def direct(s, cwd, env, stdin, x, shell=True):
    from vt.js import _limits
    try: os.remove(cwd + '/out')
    except OSError: pass
    p = subprocess.run(['/bin/sh', '-c', s] if shell else s, cwd=cwd, env=env, input=stdin if stdin is not None else b'', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=lambda: _limits(UNPRIV), timeout=50)
    return p.stdout, p.returncode


def out(cwd):
    try:
        b = open(cwd + '/out', 'rb').read()
        os.remove(cwd + '/out')
        return b
    except OSError: return None


def histories(c, x):
    D = setup(c, x)
    env0 = dict(x.env())
    env = dict(env0)
    cwd = D
    src = ['File.chdir(%s);' % jsstr(D)]
    want = []
    outs = 0
    import shutil
    # the direct runs happen in a copy
    E = x.fresh('y')
    shutil.copytree(D, E + '/d', dirs_exist_ok=True)
    for r, ds, fs in os.walk(E):
        os.chown(r, UNPRIV, UNPRIV)
        for f in fs: os.chown(r + '/' + f, UNPRIV, UNPRIV)
    E += '/d'
    for i in range(c.size(1, 8)):
        if c.bool(30):
            n = c.pick(ENVN)
            if c.bool(75):
                v = text(c)[:20000]
                src.append('Util.setenv(%s, %s);' % (jsstr(n), jsstr(v)))
                env[n] = v
            src.append('emit(Util.getenv(%s)%s);' % (jsstr(n), '||0' if n not in env else ''))
            want.append((env[n].encode() if n in env else 0.0, 'getenv ' + n))
            if n in env and c.bool(30):
                src.append('emit(Util.setenv(%s));' % jsstr(n))
                want.append((env[n].encode(), 'setenv of one argument'))
            continue
        o = {}
        stdin = None
        if c.bool(35): stdin = text(c)
        s = cmd(c, stdin is not None)
        plain = None
        if stdin is not None: plain = c.bool(40)
        sub = False
        if not plain:
            if stdin is not None: o['inputStr'] = jsstr(stdin)
            if c.bool(25):
                sub = True
                o['chdir'] = c.pick(['"sub"', '"./sub"', jsstr(D + '/sub'), '"../x/sub"', '"sub/"'])
            for k, p in (('trim', 30), ('noError', 25), ('retCode', 25), ('retAll', 25)):
                if c.bool(p): o[k] = c.pick(['true', 'true', 'false']) if k != 'trim' else 'true'
            if c.bool(10): o['noRedir'] = 'true'
            if stdin is None and c.bool(8): o['bg'] = 'true'
        on = lambda k: o.get(k) == 'true'
        refused = False
        if on('noRedir'):
            refused = bool(re.search('[<>|;&$`=\n]', s))
        if not refused and on('bg'): s = c.pick(['echo $$ > out', 'printf x > out', '(sleep 0; echo y) > out'])
        if on('noRedir'): refused = bool(re.search('[<>|;&$`=\n]', s))
        if 'bg' in o and refused: o.pop('bg')
        if on('bg') and not refused and c.bool(): s += c.pick([' &', '&']); o.pop('bg', None) if c.bool() else 0
        bg = on('bg') or s.endswith('&')
        # what it should do
        here = E + '/sub' if sub else E
        if refused: w = b'ERR'
        elif bg:
            w = {b'code': 0.0, b'status': 0.0, b'data': b''} if on('retAll') else 0.0
        else:
            b, rc = direct(s, here, env, stdin.encode() if stdin is not None else None, x)
            if b.startswith(E.encode()): b = b.replace(E.encode(), D.encode())
            code, status = (rc, 0) if rc >= 0 else (0, -rc)
            if on('trim'): b = b.rstrip(b' \t\n\v\f\r')
            if stdin is not None: b = b''
            if on('retAll'): w = {b'code': float(code), b'status': float(status), b'data': b}
            elif code and not on('noError') and not on('retCode') and stdin is None: w = b'ERR'
            elif on('retCode') or stdin is not None: w = float(code)
            else: w = b
        a = '' if stdin is None and not o and c.bool() else ', {' + ', '.join('%s:%s' % z for z in sorted(o.items())) + '}' if not plain else ', ' + jsstr(stdin)
        src.append('try { emit(exec(%s%s)); } catch(e) { emit("ERR"); }' % (jsstr(s), a))
        want.append((w, 'exec %s%s' % (s[:200], a[:200])))
        if stdin is not None and not refused:
            want_out = out(here)
            f = ('sub/' if sub else '') + 'out'
            src.append('if (File.exists("%s")) { emit(File.read("%s")); File.remove("%s"); } else { emit(0); }' % (f, f, f))
            want.append((want_out if want_out is not None else 0.0, 'what the command read: %s' % s[:200]))
        elif bg and not refused:
            f = ('sub/' if sub else '') + 'out'
            src.append('for (var k=0; k<500; k++) { if (File.exists("%s") && File.size("%s")) { k=1000; } else { sleep(.01); } }\nemit(k>=1000); try { File.remove("%s"); } catch(e) { emit(e); }' % (f, f, f))
            want.append((True, 'background command'))
        src.append('emit(File.pwd());')
        want.append((D.encode(), 'directory after exec'))
        c.label('refused' if refused else 'bg' if bg else 'input' if stdin is not None else 'all' if on('retAll') else 'code' if on('retCode') else 'error' if w == b'ERR' else 'text')
        outs += 1
    if c.bool(50):
        src.append('var A=Util.getenv(), T=exec("env -0").split(String.fromCharCode(0)); emit(Object.keys(A).length);')
        want.append((None, 'count'))
        for n in ENVN:
            src.append('emit(A[%s]%s);' % (jsstr(n), '||0' if n not in env else ''))
            want.append((env[n].encode() if n in env else 0.0, 'getenv()[%s]' % n))
    s = '\n'.join(src) + '\n'
    c.rendered = s
    g = x.vals(s)
    if len(g) != len(want): raise Violation('%d values, want %d\n%s' % (len(g), len(want), s))
    for (w, what), v in zip(want, g):
        if w is None: continue
        if not same(v, conv(w)): raise Violation('%s: got %r, want %r' % (what, v, w))
    if not outs: raise Discard()
    c.case(s, outs > 1 or any(isinstance(w, bytes) and len(w) > 100 for w, _ in want))
    c.sample(s[:1500])


def noshell(c, x):
    """without a shell: the command is cut at white space, nothing is expanded"""
    D = setup(c, x)
    src = 'File.chdir(%s);\n' % jsstr(D)
    want = []
    for _ in range(c.size(1, 6)):
        k = c.pick(['echo', 'printf', 'cat', 'false', 'missing', 'input'])
        o = {'noShell': 'true'}
        stdin = None
        if k == 'echo': argv = ['echo'] + [c.pick(WORDS[:9] + ['$HOME', '*', ';', "'q'", '"w"', '>out', '|', 'a&b', '&x']) for _ in range(c.int(0, 6))]
        elif k == 'printf': argv = ['printf', '[%s]'] + [c.pick(WORDS[:9] + ['$HOME', '*', "'"]) for _ in range(c.int(0, 6))]
        elif k == 'cat': argv = ['cat', c.pick(['f', 'big', 'sub/g'])]
        elif k == 'false': argv = [c.pick(['false', 'true', '/bin/false'])]
        elif k == 'missing': argv = ['no_such_command_vt', 'x']
        else:
            argv = ['dd', 'of=out', 'status=none']
            stdin = text(c)
            o['inputStr'] = jsstr(stdin)
        for q in ('noError', 'retCode', 'retAll', 'trim'):
            if c.bool(25): o[q] = 'true'
        try: b, rc = direct(argv, D, x.env(), stdin.encode() if stdin is not None else None, x, shell=False)
        except FileNotFoundError: b, rc = b'', 127
        w_out = out(D)
        if 'trim' in o: b = b.rstrip(b' \t\n\v\f\r')
        if 'retAll' in o: w = {b'code': float(rc), b'status': 0.0, b'data': b}
        elif rc and not ('noError' in o or 'retCode' in o or stdin is not None): w = b'ERR'
        elif 'retCode' in o or stdin is not None: w = float(rc)
        else: w = b
        src += 'try { emit(exec(%s, {%s})); } catch(e) { emit("ERR"); }\n' % (jsstr(' '.join(argv)), ', '.join('%s:%s' % z for z in sorted(o.items())))
        want.append((w, ' '.join(argv)))
        if stdin is not None:
            src += 'emit(File.read("out")); File.remove("out");\n'
            want.append((w_out, 'input'))
    c.rendered = src
    g = x.vals(src)
    for (w, what), v in zip(want, g):
        if not same(v, conv(w)): raise Violation('%s: got %r, want %r\n%s' % (what, v, w, src))
    if len(g) != len(want): raise Violation('%d values, want %d\n%s' % (len(g), len(want), src))
    c.case(src, len(want) > 1)
    c.label('noshell')
    c.sample(src)


PROBES = [
    ('input-not-read', lambda x: expect(x, "var s='0123456789'; while (s.length<300000) { s+=s; } emit(exec('true', s), exec('exit 3', 'abc'), 'alive');", [0, 3, 'alive'])),
    ('setenv-get', lambda x: expect(x, "Util.setenv('VTQ','7'); emit(Util.setenv('VTQ'));", ['7'])),
]
PROPS = [('exec', histories, {'quick': 1200, 'thorough': 30000}), ('noshell', noshell, {'quick': 300, 'thorough': 6000})]
CHECK = Check('C32', mk, PROPS, 'exec: histories of commands (output text, files, pipes, exit codes, signals, standard input, options) and environment changes, each command also run directly with sh and compared, non-trivial = at least two commands or a result of more than 100 bytes; noshell: the same without a shell', probes=PROBES)
