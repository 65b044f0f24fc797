"""Execution against the tree under test: fork-server (jsrun) and command line (jsish)."""
import os, re, subprocess, resource, tempfile, shutil, struct, math, signal, select, time
from .core import Violation, Inconclusive, V

BUILD = os.environ.get('VT_BUILD') or os.path.join(V, '.build')
ASAN = 'detect_leaks=0:abort_on_error=0:exitcode=99:symbolize=0:allocator_may_return_null=1:handle_sigill=1:max_allocation_size_mb=2000:detect_odr_violation=0'


def build(variant='asan'):
    t = time.time()
    r = subprocess.run([os.path.join(V, 'vt/build.sh'), variant], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout.decode('utf8', 'replace')[-4000:])
        print('build failed')
        raise SystemExit(2)


def bdir(variant='asan'):
    return os.path.join(BUILD, variant, 'src-copy-with-a-rather-long-directory-name')


class U:
    """undefined"""
    def __repr__(self): return 'undefined'
    def __bool__(self): return False
UNDEF = U()


class Other:
    def __init__(self, s): self.s = s
    def __repr__(self): return '<%s>' % self.s
    def __eq__(self, o): return isinstance(o, Other) and o.s == self.s
    def __hash__(self): return hash(self.s)


class Num(float):
    pass


_hex = re.compile(rb'\\x(..)')


def parse_dump(b):
    """bytes of one emit line -> python value.  str values are bytes."""
    v, i = _pd(b, 0)
    if i != len(b):
        raise ValueError('trailing data in %r' % b)
    return v


def _pd(b, i):
    ch = b[i:i + 1]
    if ch == b'u': return UNDEF, i + 1
    if ch == b'n': return None, i + 1
    if ch == b't': return True, i + 1
    if ch == b'f': return False, i + 1
    if ch == b'"':
        j = b.index(b'"', i + 1)
        return _hex.sub(lambda m: bytes([int(m.group(1), 16)]), b[i + 1:j]), j + 1
    if ch == b'#':
        m = re.compile(rb'#(-?inf|nan|[-+0-9.e]+)').match(b, i)
        return float(m.group(1)), m.end()
    if ch == b'[':
        r = []
        i += 1
        while b[i:i + 1] != b']':
            v, i = _pd(b, i)
            r.append(v)
            i += 1
        return r, i + 1
    if ch == b'{':
        r = {}
        i += 1
        while b[i:i + 1] != b'}':
            k, i = _pd(b, i)
            v, i = _pd(b, i + 1)
            r[k] = v
            i += 1
        return r, i + 1
    if ch == b'(':
        j = b.index(b')', i)
        return Other(b[i + 1:j].decode()), j + 1
    if b[i:i + 4] == b'DEEP':
        return Other('DEEP'), i + 4
    return Other(ch.decode()), i + 1


def same(a, b):
    """strict equality on parsed dumps; NaN equals NaN; 0 equals -0 unless both are checked by the caller"""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or a is UNDEF or b is UNDEF:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return type(a) == type(b) and a == b


def jsstr(s, q='"'):
    """A string literal for text (str) without using any exotic escape."""
    if isinstance(s, bytes):
        s = s.decode('utf8')
    o = [q]
    for ch in s:
        n = ord(ch)
        if ch == q or ch == '\\':
            o.append('\\' + ch)
        elif ch == '\n': o.append('\\n')
        elif ch == '\r': o.append('\\r')
        elif ch == '\t': o.append('\\t')
        elif n < 0x20 or n == 0x7f:
            o.append('\\x%02x' % n)
        else:
            o.append(ch)
    o.append(q)
    return ''.join(o)


def raw(b):
    """expression for any byte string"""
    return 'rawstr("%s")' % b.hex()


def jsnum(f):
    if isinstance(f, int):
        return str(f)
    if math.isnan(f): return 'NaN'
    if math.isinf(f): return 'Infinity' if f > 0 else '(-Infinity)'
    r = repr(f)
    if r.endswith('.0'): r = r[:-2]
    return r if not r.startswith('-') else '(%s)' % r


class Res:
    __slots__ = 'status out err rc phase killed script'.split()

    @property
    def crashed(self):
        return os.WIFSIGNALED(self.status) or (os.WIFEXITED(self.status) and os.WEXITSTATUS(self.status) == 99)

    @property
    def how(self):
        if os.WIFSIGNALED(self.status):
            return 'signal %d' % os.WTERMSIG(self.status)
        return 'exit %d' % os.WEXITSTATUS(self.status)

    @property
    def exitcode(self):
        return os.WEXITSTATUS(self.status) if os.WIFEXITED(self.status) else -1

    def lines(self):
        o = self.out.split(b'\n')
        if o and o[-1] == b'':
            o.pop()
        return o

    def vals(self):
        return [parse_dump(l) for l in self.lines()]

    def summary(self):
        return 'status=%s rc=%d phase=%d\nstdout: %s\nstderr: %s' % (
            self.how, self.rc, self.phase, self.out[:1500].decode('utf8', 'backslashreplace'),
            self.err[:3000].decode('utf8', 'backslashreplace'))


UNPRIV = 65534     # containment: code that can delete or overwrite files runs as this user


def _limits(user=None):
    if user:
        os.setgroups([])
        os.setgid(user)
        os.setuid(user)
        os.umask(0o22)
    resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, resource.RLIM_INFINITY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class X:
    """One worker's executor."""
    shrink_s = 25

    def __init__(self, wid=0, variant='asan', zip=True, cwd=None, env=None, asan_opts='', user=None):
        self.user, self._exe = user, None
        self.wid, self.variant, self.zip = wid, variant, zip
        self.p = None
        self._tmp = None
        self.cwd = cwd
        self.asan_opts = asan_opts
        self.xenv = env or {}
        self.closers = []

    # --- scratch --------------------------------------------------------------------------
    @property
    def tmp(self):
        if not self._tmp:
            self._tmp = tempfile.mkdtemp(prefix='vt-')
            if self.user: os.chown(self._tmp, self.user, self.user)
        return self._tmp

    def fresh(self, name='s'):
        """an empty scratch directory, removed afterwards"""
        d = os.path.join(self.tmp, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        if self.user: os.chown(d, self.user, self.user)
        return d

    def exe(self, name):
        """the program; a copy the unprivileged user can reach, if there is one"""
        e = os.path.join(bdir(self.variant), name)
        if not self.user: return e
        if not self._exe:
            self._exe = tempfile.mkdtemp(prefix='vt-exe')
            os.chmod(self._exe, 0o755)
        f = os.path.join(self._exe, name)
        if not os.path.exists(f):
            shutil.copy(e, f)
            os.chmod(f, 0o755)
        return f

    def env(self):
        e = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': self.tmp, 'LC_ALL': 'C.UTF-8',
             'TZ': 'UTC', 'ASAN_OPTIONS': ASAN + (':' + self.asan_opts if self.asan_opts else '')}
        e.update(self.xenv)
        return e

    def start(self):
        exe = self.exe('jsrun')
        self.p = subprocess.Popen([exe] + ([] if self.zip else ['nozip']), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=self.env(), cwd=self.cwd or self.tmp, preexec_fn=lambda: _limits(self.user))

    def close(self):
        for f in self.closers:
            try: f()
            except Exception: pass
        if self.p:
            try: self.p.stdin.close()
            except Exception: pass
            try: self.p.wait(3)
            except Exception: self.p.kill(); self.p.wait()
            self.p.stdout.close()
            self.p = None
        if self._tmp:
            subprocess.run(['chmod', '-R', 'u+rwx', self._tmp], stderr=subprocess.DEVNULL)
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None
        if self._exe:
            shutil.rmtree(self._exe, ignore_errors=True)
            self._exe = None

    # --- fork server ----------------------------------------------------------------------
    def run(self, script, flags=0, tmo=60):
        if isinstance(script, str):
            script = script.encode('utf8', 'surrogateescape')
        for attempt in (0, 1):
            if not self.p:
                self.start()
            try:
                self.p.stdin.write(b'%d %d %d\n' % (flags, len(script), tmo))
                self.p.stdin.write(script)
                self.p.stdin.flush()
                h = self.p.stdout.readline().split()
                if len(h) != 6:
                    raise OSError('fork server gone')
                break
            except OSError:
                try: self.p.kill()
                except Exception: pass
                self.p.wait()
                self.p = None
                if attempt:
                    raise RuntimeError('the fork server does not start')
        r = Res()
        r.script = script
        r.status = int(h[0])
        r.rc, r.phase, r.killed = int(h[3]), int(h[4]), int(h[5])
        n, m = int(h[1]), int(h[2])
        r.out = self.p.stdout.read(n)
        r.err = self.p.stdout.read(m)
        return r

    def js(self, script, flags=0, tmo=60, ok=None, hang_ok=False):
        """run(); a crash, sanitizer report or CPU-limit hang is a Violation.
        ok=True: the script must also finish without error."""
        r = self.run(script, flags, tmo)
        if r.killed:
            raise Inconclusive('wall-clock limit')
        if os.WIFSIGNALED(r.status) and os.WTERMSIG(r.status) == signal.SIGXCPU and hang_ok:
            raise Inconclusive('cpu limit')
        if r.crashed:
            raise Violation('the interpreter crashed or hung (%s)\n--- script\n%s\n---\n%s' % (r.how, show(script), r.summary()))
        if ok and (r.rc != 0 or r.phase != 3):
            raise Violation('script did not complete (%s)\n--- script\n%s\n---\n%s' % (r.how, show(script), r.summary()))
        return r

    def vals(self, script, flags=0, tmo=60):
        """emit()ted values of a script which must complete"""
        r = self.js(script, flags, tmo, ok=True)
        try:
            return r.vals()
        except (ValueError, IndexError, AttributeError):
            raise Violation('unparsable output\n--- script\n%s\n---\n%s' % (show(script), r.summary()))

    # --- command line ---------------------------------------------------------------------
    def cli(self, args, input=None, cwd=None, env=None, timeout=60, exe='jsish'):
        e = self.env()
        if env: e.update(env)
        try:
            p = subprocess.run([self.exe(exe)] + list(args), input=input, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, cwd=cwd or self.tmp, env=e, timeout=timeout, preexec_fn=lambda: _limits(self.user),
                               **({} if input is not None else {'stdin': subprocess.DEVNULL}))
        except subprocess.TimeoutExpired:
            raise Inconclusive('command line timed out')
        if (p.returncode == 99 and b"Sanitizer" in p.stderr) or p.returncode < 0:
            raise Violation('jsish %r crashed: %d\n%s\n%s' % (args, p.returncode, p.stdout[-2000:].decode('utf8', 'replace'), p.stderr[-3000:].decode('utf8', 'replace')))
        return p


def show(s):
    if isinstance(s, bytes):
        s = s.decode('utf8', 'backslashreplace')
    return s if len(s) < 6000 else s[:4000] + '\n... [%d chars]' % len(s)


def expect(x, script, want, what=None):
    """probe helper: values emitted by script must equal want (python values, str -> utf8 bytes)"""
    got = x.vals(script)
    w = [conv(v) for v in want]
    if not same(got, w):
        raise Violation('%s\n--- script\n%s\n--- got  %r\n--- want %r' % (what or 'unexpected result', show(script), got, w))


def conv(v):
    if isinstance(v, str): return v.encode('utf8', 'surrogateescape')
    if isinstance(v, list): return [conv(i) for i in v]
    if isinstance(v, dict): return {conv(k): conv(i) for k, i in v.items()}
    if isinstance(v, int) and not isinstance(v, bool): return float(v)
    return v
