# -*- coding: utf-8 -*-
'''Storage trees with varied names, depths and sizes, and what each view of
them should show.'''
import zlib
from . import enc

SIZES = [0, 0, 1, 2, 63, 64, 65, 511, 512, 513, 4095, 4096, 4097, 8192, 20000]
PLAIN = ['A', 'b', 'Data', 'x.bin', 'Section', 'Section0', 'Item 1', '가나다',
         'é', 'DocInfo', 'BodyText', 'BIN0001.jpg', '문서 (1)', 'a.b.c',
         "it's", 'q"q', 'back\\slash', '-n', '--ole', '%s', '$HOME', '~',
         'x' * 31, '\U0001f600.png', '_05Name', 'FileHeader', 'PrvText',
         '\x05Summary']


def blob(r, size=None):
    if size is None:
        size = r.choice(SIZES) if r.random() < .9 else r.randint(0, 70000)
    k = r.random()
    if k < .3:
        return bytes(bytearray(r.getrandbits(8) for _ in range(min(size, 5000))
                               )) * (size // 5000 + 1) if size else b''
    if k < .6:
        return (b'the quick brown fox %d ' % r.getrandbits(16) *
                (size // 20 + 1))[:size]
    if k < .8:
        return bytes([r.getrandbits(8)]) * size
    return r.randbytes(size)


def name(r, used, pool=PLAIN):
    for _ in range(50):
        n = r.choice(pool) if r.random() < .7 else \
            'n%x' % r.getrandbits(20)
        if n.lower() not in used:
            used.add(n.lower())
            return n
    n = 'u%x' % r.getrandbits(48)
    used.add(n)
    return n


def subtree(r, depth, pool=PLAIN, width=4, used=()):
    used = set(used)
    t = {}
    for _ in range(r.randint(0, width)):
        n = name(r, used, pool)
        if depth > 0 and r.random() < .45:
            t[n] = subtree(r, depth - 1, pool, width)
        else:
            t[n] = blob(r)
    return t


def nodes(tree, base=''):
    '''(path, bytes or None) of every item'''
    for n, x in tree.items():
        if isinstance(x, dict):
            yield base + n, None
            for y in nodes(x, base + n + '/'):
                yield y
        else:
            yield base + n, x


def inflated(data):
    try:
        return zlib.decompress(data, -15)
    except zlib.error:
        return data     # stored uncompressed in spite of the flag


COMPRESSED = ('BinData', 'BodyText', 'ViewText', 'Scripts')


def default_view(tree, flags, undist=None):
    '''the tree as the default view should show it'''
    if flags & 2:
        return tree
    out = {}
    for n, x in tree.items():
        if isinstance(x, dict):
            y = dict(x)
            for m, b in y.items():
                if isinstance(b, dict):
                    continue
                if flags & 4 and n in ('ViewText', 'Scripts'):
                    b = undist(b)
                if flags & 1 and n in COMPRESSED:
                    b = inflated(b)
                y[m] = b
            out[n] = y
        elif n == 'DocInfo' and flags & 1:
            out[n] = inflated(x)
        else:
            out[n] = x
    return out


def hostile(r, doc, pool=PLAIN):
    '''tree of a generated document plus arbitrary extra content'''
    t = doc.tree()
    used = set(n.lower() for n in t)
    for _ in range(r.randint(1, 5)):
        n = name(r, used, pool)
        t[n] = subtree(r, 4, pool) if r.random() < .6 else blob(r)
    if r.random() < .5:
        t['Empty'] = {}
    for top in ('BinData', 'BodyText', 'ViewText', 'Scripts', 'DocOptions'):
        if r.random() < .3:
            d = t.setdefault(top, {})
            u = set(n.lower() for n in d)
            if not doc.dist or top not in ('ViewText', 'Scripts'):
                for _ in range(r.randint(1, 3)):
                    b = blob(r)
                    n = name(r, u, ['x1', 'Sect', 'BIN00FF.dat', '가.gif'])
                    if top == 'DocOptions' or r.random() < .2:
                        d[n] = b
                    else:
                        d[n] = doc.pack(b)
            if r.random() < .5:
                d[name(r, u)] = subtree(r, 2, pool)
    return t
