"""C12: digests, checksums, encryption, binary-to-text and URI encodings."""
import base64, binascii, hashlib, os, re, struct, zlib
from vt.core import Check, Violation
from vt.js import X, jsstr, jsnum, UNDEF, same, show, conv, expect, raw

SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 53, 54, 55, 56, 57, 63, 64, 65, 71, 72, 73, 103, 104, 105, 106, 107, 108, 109, 111, 112, 113,
         119, 120, 127, 128, 129, 135, 136, 137, 143, 144, 145, 175, 183, 191, 192, 199, 200, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 4096, 5000]


def data(c, lo=0, al=None):
    """bytes: boundary sizes, any byte, runs, text"""
    k = c.int(0, 9)
    n = c.pick(SIZES) if k < 5 else c.size(0, 40) if k < 9 else c.int(0, 9000)
    n = max(n, lo)
    m = c.int(0, 4)
    seed = c.int(0, 1 << 30)
    import random
    r = random.Random(seed)
    if al is not None:
        return bytes(r.choice(al) for _ in range(n))
    if m == 0: return bytes(r.randrange(256) for _ in range(n))
    if m == 1: return bytes(r.choice(b'abcdefghijklmnopqrstuvwxyz ABC0123') for _ in range(n))
    if m == 2: return bytes([r.choice([0, 255, 128, 127, 65])]) * n
    if m == 3: return bytes(r.choice([0, 255, 128, 65]) for _ in range(n))
    s = ''
    while len(s.encode()) < n: s += r.choice(['é', '€', '♥', 'x', '😀', ' '])
    return s.encode()[:n]


HASHES = ['sha256', 'sha1', 'md5', 'sha3_224', 'sha3_384', 'sha3_512', 'sha3_256']


def p_hash(c, x):
    """Util.hash against hashlib; file contents appended; binary or hex result"""
    d = data(c)
    ty = c.pick(HASHES)
    o = []
    if ty != 'sha256' or c.bool(50): o.append("type:'%s'" % ty)
    nohex = c.bool(40)
    if nohex or c.bool(10): o.append('noHex:%s' % ('true' if nohex else 'false'))
    f = b''
    if c.bool(25):
        f = data(c)
        p = os.path.join(x.tmp, 'hash.dat')
        open(p, 'wb').write(f)
        o.append('file:%s' % jsstr(p))
    h = hashlib.new(ty, d + f)
    want = h.digest() if nohex else h.hexdigest().encode()
    src = 'emit(Util.hash(%s%s));' % (raw(d), ', {%s}' % ', '.join(o) if o else '')
    c.rendered = src[:3000]
    c.case((d, tuple(o), f), len(d) > 0)
    c.label(ty)
    if len(d + f) in (55, 56, 63, 64, 119, 128, 143, 144, 103, 104, 71, 72, 135, 136): c.label('block boundary')
    got = x.vals(src)
    if got != [want]:
        raise Violation('Util.hash type %s of %d bytes: got %r want %r' % (ty, len(d + f), got, want))


def p_hashcash(c, x):
    """hashcash: the digest is that of data:nonce with the smallest nonce giving the wanted leading zero bits"""
    d = data(c)[:c.pick([0, 5, 47, 54, 55, 60, 200])]
    ty = c.pick(HASHES)
    bits = c.int(1, 10)
    n = 0
    while 1:
        dg = hashlib.new(ty, d + b':%08x' % n).digest()
        if int.from_bytes(dg[:4], 'big') >> (32 - bits) == 0: break
        n += 1
    nohex = c.bool(40)
    src = 'emit(Util.hash(%s, {type:"%s", hashcash:%d%s}));' % (raw(d), ty, bits, ', noHex:true' if nohex else '')
    c.rendered = src[:3000]
    c.case((d, ty, bits), True)
    c.label('%d bits' % bits)
    got = x.vals(src)
    want = dg if nohex else dg.hex().encode()
    if got != [want]:
        raise Violation('Util.hash hashcash %d type %s: got %r want %r (nonce %08x)' % (bits, ty, got, want, n))


def p_crc(c, x):
    """crc32 against zlib, and seeding with the crc of a prefix gives the crc of the whole"""
    d = data(c)
    k = c.int(0, len(d))
    seed = c.pick([0, 1, 0xffffffff, 0x80000000, c.int(0, 0xffffffff)])
    src = 'var d=%s, a=%s, b=%s;\nemit(Util.crc32(d), Util.crc32(d,%d), Util.crc32(b,Util.crc32(a)));' % (raw(d), raw(d[:k]), raw(d[k:]), seed)
    c.rendered = src[:3000]
    c.case((d, k, seed), len(d) > 1)
    got = x.vals(src)
    want = [float(zlib.crc32(d)), float(zlib.crc32(d, seed)), float(zlib.crc32(d))]
    if got != want:
        raise Violation('Util.crc32: got %r want %r' % (got, want))


def b64lines(d):
    s = base64.b64encode(d)
    out = b''
    for i in range(0, len(s), 72):
        l = s[i:i + 72]
        out += l + (b'\n' if len(l) == 72 else b'')
    return out


def p_base64(c, x):
    d = data(c)
    e = b64lines(d)
    # the decoder is given other layouts of the same text
    lay = c.pick(['as is', 'one line', 'crlf 76', 'short lines', 'spaces', 'no padding'])
    p = base64.b64encode(d)
    if lay == 'as is': q = e
    elif lay == 'one line': q = p
    elif lay == 'crlf 76': q = b'\r\n'.join(p[i:i + 76] for i in range(0, len(p), 76)) + b'\r\n'
    elif lay == 'short lines':
        w = c.int(1, 9)
        q = b'\n'.join(p[i:i + w] for i in range(0, len(p), w))
    elif lay == 'spaces': q = b' '.join(p[i:i + 5] for i in range(0, len(p), 5))
    else: q = p.rstrip(b'=')
    src = 'var d=%s;\nvar e=Util.base64(d);\nemit(e, Util.base64(e,true), Util.base64(%s,true), Util.base64(d,false)==e);' % (raw(d), raw(q))
    c.rendered = src[:3000]
    c.case((d, lay), len(d) > 0)
    c.label(lay)
    got = x.vals(src)
    want = [e, d, d, True]
    if got != want:
        raise Violation('Util.base64 of %d bytes (%s): got %s want %s' % (len(d), lay, show(got), show(want)))


def p_hexstr(c, x):
    d = data(c, 1)
    h = d.hex().encode()
    up = bytes(ch - 32 if 97 <= ch <= 102 and c.bool(30) else ch for ch in h[:40]) + h[40:]
    src = 'var d=%s;\nvar e=Util.hexStr(d);\nemit(e, Util.hexStr(e,true), Util.hexStr(%s,true));' % (raw(d), raw(up))
    want = [h, d, d]
    bad = None
    if c.bool(30):
        b = bytearray(h)
        i = c.int(0, len(b) - 1)
        b[i] = c.pick([c.int(0, 47), c.int(58, 64), c.int(71, 96), c.int(103, 255)])
        bad = bytes(b)
        if c.bool(25): bad = h[:-1]      # odd length
        src += '\nvar r; try { r=Util.hexStr(%s,true); } catch(e) { r=null; } emit(r);' % raw(bad)
        want.append(None)
    c.rendered = src[:3000]
    c.case((d, up, bad), True)
    c.label('invalid' if bad else 'valid')
    got = x.vals(src)
    if got != want:
        raise Violation('Util.hexStr: got %s want %s' % (show(got), show(want)))


M32 = 0xffffffff


def xxtea(v, key, dec=False):
    """XXTEA with a key of eight words"""
    n = len(v)
    if n < 2: return v
    v = list(v)
    D = 0x9e3779b9
    rounds = 6 + 52 // n
    mx = lambda y, z, s, p, e: ((((z >> 5) ^ (y << 2 & M32)) + ((y >> 3) ^ (z << 4 & M32))) & M32) ^ (((s ^ y) + (key[(p & 7) ^ e] ^ z)) & M32)
    if not dec:
        s = 0
        z = v[-1]
        for _ in range(rounds):
            s = (s + D) & M32
            e = (s >> 2) & 7
            for p in range(n - 1):
                y = v[p + 1]
                z = v[p] = (v[p] + mx(y, z, s, p, e)) & M32
            y = v[0]
            z = v[n - 1] = (v[n - 1] + mx(y, z, s, n - 1, e)) & M32
    else:
        s = rounds * D & M32
        y = v[0]
        for _ in range(rounds):
            e = (s >> 2) & 7
            for p in range(n - 1, 0, -1):
                z = v[p - 1]
                y = v[p] = (v[p] - mx(y, z, s, p, e)) & M32
            z = v[n - 1]
            y = v[0] = (v[0] - mx(y, z, s, 0, e)) & M32
            s = (s - D) & M32
    return v


def enc(d, key):
    pad = -len(d) % 4
    d = d + b'\0' * pad
    k = key if len(key) == 32 else hashlib.sha256(key).digest()
    v = xxtea(struct.unpack('<%dI' % (len(d) // 4), d), struct.unpack('<8I', k))
    return struct.pack('<%dI' % len(v), *v) + bytes([pad])


def p_crypt(c, x):
    d = data(c, 2)[:1500]
    if len(d) < 2: d = b'ab'
    kl = c.pick([1, 5, 16, 31, 32, 33, 64, 100])
    key = data(c, kl)[:kl]
    wrong = bytearray(key)
    wrong[c.int(0, kl - 1)] ^= 1 << c.int(0, 7)
    want = enc(d, key)
    src = 'var d=%s, k=%s;\nvar e=Util.encrypt(d,k);\nemit(e, Util.decrypt(e,k), Util.decrypt(%s,k), d);\nvar w; try { w=Util.decrypt(e,%s); } catch(er) { w="refused"; } emit(w===d);' % (raw(d), raw(key), raw(want), raw(bytes(wrong)))
    c.rendered = src[:3000]
    c.case((d, key), True)
    c.label('pad %d' % (-len(d) % 4))
    c.label('raw key' if kl == 32 else 'hashed key')
    got = x.vals(src)
    exp = [want, d, d, d, len(d) <= 4 and got[4]]
    if got != exp:
        raise Violation('Util.encrypt/decrypt of %d bytes with a key of %d: got %s want %s' % (len(d), kl, show(got), show(exp)))


UNRES = set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')
MARKS = set(b"-_.!~*'()")
RES = set(b';,/?:@&=+$#')


def p_uri(c, x):
    """what may stand in a URI after encoding; decoding undoes encoding"""
    import random
    r = random.Random(c.int(0, 1 << 30))
    n = c.size(0, 30)
    al = list(range(1, 128))
    pool = c.pick([al, list(b"-_.!~*'();,/?:@&=+$#% \"<>[]{}|\\^`ab0"), list(b'%0123456789abcdefAF'), None])
    if pool is None:
        d = ''.join(r.choice(['é', '€', '♥', 'x', '😀', ' ', '%', '/']) for _ in range(n)).encode()
    else:
        d = bytes(r.choice(pool) for _ in range(n))
    du = d.replace(b'+', b'-')       # '+' stands for itself in encodeURI and reads as a blank
    esc = b''.join(b'%%%02X' % b if r.random() < .5 else b'%%%02x' % b for b in d)
    src = 'var d=%s, u=%s;\nvar e=encodeURIComponent(d), f=encodeURI(u);\nemit(e, f, decodeURIComponent(e), decodeURI(f), decodeURIComponent(%s));' % (raw(d), raw(du), raw(esc))
    c.rendered = src[:3000]
    c.case((d,), n > 0)
    got = x.vals(src)
    if len(got) != 5 or got[2:] != [d, du, d]:
        raise Violation('URI round trip of %r: got %r' % (d, got))
    for txt, s, comp in ((d, got[0], 1), (du, got[1], 0)):
        # walk both: a byte stands for itself, or '+' for a blank, or %HH
        i = 0
        for b in txt:
            if s[i:i + 1] == b'%':
                if s[i + 1:i + 3].lower() != b'%02x' % b: raise Violation('encoding of %r is %r' % (txt, s))
                if b in UNRES or b in MARKS or (b in RES and not comp): raise Violation('%r is escaped in %r' % (chr(b), s))
                i += 3
            else:
                ok = b in UNRES or b in MARKS or (b in RES and not comp) or b >= 128
                if not (ok and s[i] == b or b == 32 and s[i:i + 1] == b'+'):
                    raise Violation('%r is left as it is in %r' % (chr(b), s))
                i += 1
        if i != len(s): raise Violation('encoding of %r is %r' % (txt, s))


def p_charcode(c, x):
    """Util.fromCharCode and String.fromCharCode give the UTF-8 text of a code point"""
    k = [c.pick([c.int(1, 127), c.int(128, 2047), c.int(2048, 0xd7ff), c.int(0xe000, 0xfffd)]) for _ in range(c.int(1, 6))]
    src = 'emit(%s, String.fromCharCode(%s));' % (', '.join('Util.fromCharCode(%d)' % v for v in k), ','.join(map(str, k)))
    c.rendered = src
    c.case(tuple(k), max(k) > 127)
    got = x.vals(src)
    want = [chr(v).encode() for v in k] + [''.join(map(chr, k)).encode()]
    if got != want:
        raise Violation('fromCharCode: got %r want %r' % (got, want))


PROPS = [('hash', p_hash, {'quick': 500, 'thorough': 8000}),
         ('hashcash', p_hashcash, {'quick': 60, 'thorough': 1200}),
         ('crc32', p_crc, {'quick': 200, 'thorough': 4000}),
         ('base64', p_base64, {'quick': 300, 'thorough': 6000}),
         ('hexstr', p_hexstr, {'quick': 200, 'thorough': 4000}),
         ('crypt', p_crypt, {'quick': 250, 'thorough': 5000}),
         ('uri', p_uri, {'quick': 300, 'thorough': 6000}),
         ('charcode', p_charcode, {'quick': 100, 'thorough': 1500})]

CHECK = Check('C12', lambda w: X(w), PROPS, 'non-trivial: the data is not empty (crc32: two bytes or more, charcode: beyond ASCII); oracle: hashlib, zlib, base64, binascii and an independent XXTEA')
