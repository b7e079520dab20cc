# -*- coding: utf-8 -*-
'''Reference encoders/decoders for the outer layers of the HWP v5 format.'''
import struct
import zlib

SIGNATURE = b'HWP Document File'.ljust(32, b'\0')
FLAG_BITS = ['compressed', 'password', 'distributable', 'script', 'drm',
             'xmltemplate_storage', 'history', 'cert_signed',
             'cert_encrypted', 'cert_signature_extra', 'cert_drm', 'ccl']


def header(version=(5, 0, 1, 7), flags=1, signature=SIGNATURE,
           reserved=b'\0' * 216):
    a, b, c, d = version
    return signature + bytes([d, c, b, a]) + struct.pack('<I', flags) + \
        reserved


def deflate(data, level=9):
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    return c.compress(data) + c.flush()


def record(tag, level, payload):
    if len(payload) < 0xfff:
        return struct.pack('<I', tag | level << 10 | len(payload) << 20) + \
            payload
    return struct.pack('<II', tag | level << 10 | 0xfff << 20,
                       len(payload)) + payload


def records(recs):
    return b''.join(record(t, l, p) for t, l, p in recs)


def split_records(data):
    out = []
    i = 0
    while i < len(data):
        h, = struct.unpack_from('<I', data, i)
        i += 4
        size = h >> 20
        if size == 0xfff:
            size, = struct.unpack_from('<I', data, i)
            i += 4
        p = data[i:i + size]
        assert len(p) == size
        i += size
        out.append((h & 0x3ff, (h >> 10) & 0x3ff, p))
    return out


# ---- AES-128 (pure python, table free) -------------------------------
def _mk_sbox():
    p = q = 1
    sbox = [0] * 256
    while True:
        p = p ^ ((p << 1) & 0xff) ^ (0x1b if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xff
        if q & 0x80:
            q ^= 0x09
        x = q ^ _rl(q, 1) ^ _rl(q, 2) ^ _rl(q, 3) ^ _rl(q, 4)
        sbox[p] = (x ^ 0x63) & 0xff
        if p == 1:
            break
    sbox[0] = 0x63
    return sbox


def _rl(x, s):
    return ((x << s) | (x >> (8 - s))) & 0xff


SBOX = _mk_sbox()


def _x2(a):
    a <<= 1
    return (a ^ 0x11b) & 0xff if a & 0x100 else a


def _expand(key):
    w = [list(key[i * 4:i * 4 + 4]) for i in range(4)]
    rc = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = t[1:] + t[:1]
            t = [SBOX[b] for b in t]
            t[0] ^= rc
            rc = _x2(rc)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    return [sum(w[i * 4:i * 4 + 4], []) for i in range(11)]


_M2 = [_x2(i) for i in range(256)]
_M3 = [_M2[i] ^ i for i in range(256)]
_SHIFT = [(i + 4 * (i % 4)) % 16 for i in range(16)]


def aes_ecb_encrypt(key, data):
    '''Encrypts whole 16-byte blocks.'''
    assert len(data) % 16 == 0 and len(key) == 16
    rk = _expand(bytearray(key))
    out = bytearray()
    cache = {}
    for off in range(0, len(data), 16):
        blk = data[off:off + 16]
        c = cache.get(blk)
        if c is None:
            s = [a ^ b for a, b in zip(blk, rk[0])]
            for r in range(1, 11):
                s = [SBOX[s[_SHIFT[i]]] for i in range(16)]
                if r < 10:
                    t = []
                    for k in range(0, 16, 4):
                        a, b, c_, d = s[k:k + 4]
                        t += [_M2[a] ^ _M3[b] ^ c_ ^ d,
                              a ^ _M2[b] ^ _M3[c_] ^ d,
                              a ^ b ^ _M2[c_] ^ _M3[d],
                              _M3[a] ^ b ^ c_ ^ _M2[d]]
                    s = t
                s = [x ^ y for x, y in zip(s, rk[r])]
            c = cache[blk] = bytes(s)
        out += c
    return bytes(out)


def _mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a, b = _x2(a), b >> 1
    return r


def aes_ecb_decrypt(key, data):
    """Decrypts whole 16-byte blocks."""
    assert len(data) % 16 == 0 and len(key) == 16
    rk = _expand(bytearray(key))
    m9, mb, md, me = [[_mul(i, k) for i in range(256)]
                      for k in (9, 11, 13, 14)]
    inv = [0] * 256
    for i, x in enumerate(SBOX):
        inv[x] = i
    unshift = [0] * 16
    for i, x in enumerate(_SHIFT):
        unshift[x] = i
    out = bytearray()
    for off in range(0, len(data), 16):
        s = list(data[off:off + 16])
        for r in range(10, 0, -1):
            s = [x ^ y for x, y in zip(s, rk[r])]
            if r < 10:
                t = []
                for k in range(0, 16, 4):
                    a, b, c, d = s[k:k + 4]
                    t += [me[a] ^ mb[b] ^ md[c] ^ m9[d],
                          m9[a] ^ me[b] ^ mb[c] ^ md[d],
                          md[a] ^ m9[b] ^ me[c] ^ mb[d],
                          mb[a] ^ md[b] ^ m9[c] ^ me[d]]
                s = t
            s = [inv[s[unshift[i]]] for i in range(16)]
        out += bytes(x ^ y for x, y in zip(s, rk[0]))
    return bytes(out)


# ---- distribution documents ------------------------------------------
def dist_mask(seed):
    '''256-byte xor mask of the MSVC generator for a seed (bytes 0-3: 0).'''
    s = seed
    out = bytearray()
    while len(out) < 256:
        s = (s * 214013 + 2531011) & 0xffffffff
        key = (s >> 16) & 0x7fff & 0xff
        s = (s * 214013 + 2531011) & 0xffffffff
        n = ((s >> 16) & 0x7fff & 0xf) + 1
        out += bytes([key]) * n
    out = out[:256]
    out[:4] = b'\0\0\0\0'
    return bytes(out)


def dist_head(seed, digest80, filler):
    '''256-byte distribute-doc-data payload protecting digest80.'''
    assert len(digest80) == 80 and len(filler) == 256
    plain = bytearray(filler)
    plain[:4] = struct.pack('<I', seed)
    off = 4 + (seed & 0xf)
    plain[off:off + 80] = digest80
    m = dist_mask(seed)
    return bytes(a ^ b for a, b in zip(plain, m))


def dist_stream(content, seed, digest80, filler, encrypt=aes_ecb_encrypt):
    '''content must be a multiple of 16 bytes long'''
    head = dist_head(seed, digest80, filler)
    return record(28, 0, head) + encrypt(digest80[:16], content)


def pad16(data, pad=b'\0'):
    n = -len(data) % 16
    return data + pad * n
