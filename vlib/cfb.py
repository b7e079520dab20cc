# -*- coding: utf-8 -*-
'''Minimal OLE2 compound file writer and (independent) reader.'''
import struct

FREE = 0xffffffff
EOC = 0xfffffffe
FATSECT = 0xfffffffd
DIFSECT = 0xfffffffc


def build(tree, clsid=b'\0' * 16, cutoff=4096):
    '''tree: dict name -> bytes | dict.  Returns the compound file bytes.'''
    SS, MS = 512, 64
    entries = []   # dict(name,type,data,children,left,right,child)

    def add(name, node, typ):
        e = dict(name=name, type=typ, data=b'', left=FREE, right=FREE,
                 child=FREE, clsid=b'\0' * 16)
        entries.append(e)
        if typ != 2:
            ids = []
            for n, c in node.items():
                ids.append(add(n, c, 1 if isinstance(c, dict) else 2))
            ids.sort(key=lambda i: (len(entries[i]['name'].encode('utf-16le')),
                                    entries[i]['name'].upper()))

            def bst(lo, hi):
                if lo >= hi:
                    return FREE
                mid = (lo + hi) // 2
                i = ids[mid]
                entries[i]['left'] = bst(lo, mid)
                entries[i]['right'] = bst(mid + 1, hi)
                return i
            e['child'] = bst(0, len(ids))
        else:
            e['data'] = node
        return entries.index(e) if False else e_index(e)

    def e_index(e):
        for i in range(len(entries) - 1, -1, -1):
            if entries[i] is e:
                return i

    add('Root Entry', tree, 5)
    entries[0]['clsid'] = clsid

    sectors = []   # list of 512-byte blocks
    fat = []

    def alloc(data):
        if not data:
            return EOC
        n = (len(data) + SS - 1) // SS
        start = len(sectors)
        for i in range(n):
            sectors.append(data[i * SS:(i + 1) * SS].ljust(SS, b'\0'))
            fat.append(start + i + 1 if i + 1 < n else EOC)
        return start

    mini = b''
    minifat = []
    for e in entries[1:]:
        if e['type'] != 2:
            e['start'] = 0
            e['size'] = 0
            continue
        d = e['data']
        e['size'] = len(d)
        if len(d) == 0:
            e['start'] = EOC
        elif len(d) < cutoff:
            n = (len(d) + MS - 1) // MS
            st = len(minifat)
            e['start'] = st
            for i in range(n):
                minifat.append(st + i + 1 if i + 1 < n else EOC)
            mini += d.ljust(n * MS, b'\0')
        else:
            e['start'] = alloc(d)
    entries[0]['start'] = alloc(mini)
    entries[0]['size'] = len(mini)
    mf = struct.pack('<%dI' % len(minifat), *minifat)
    nmf = (len(mf) + SS - 1) // SS
    mf = mf.ljust(nmf * SS, b'\xff')
    minifat_start = alloc(mf)
    dirdata = b''
    for e in entries:
        n = e['name'].encode('utf-16le')
        assert len(n) <= 62
        dirdata += (n + b'\0\0').ljust(64, b'\0')
        dirdata += struct.pack('<HBB', len(n) + 2, e['type'], 1)
        dirdata += struct.pack('<III', e['left'], e['right'], e['child'])
        dirdata += e['clsid'] + b'\0' * 4 + b'\0' * 16
        dirdata += struct.pack('<IQ', e['start'], e['size'])
    while len(dirdata) % SS:
        dirdata += b'\0' * 64 + struct.pack('<HBB', 0, 0, 0) + \
            struct.pack('<III', FREE, FREE, FREE) + b'\0' * 52
    dir_start = alloc(dirdata)
    # FAT sectors
    nfat = 1
    while True:
        total = len(sectors) + nfat
        ndif = 0 if nfat <= 109 else (nfat - 109 + 126) // 127
        if nfat * 128 >= total + ndif:
            break
        nfat += 1
    fat_start = len(sectors)
    fat += [FATSECT] * nfat
    difs = []
    dif_start = EOC
    fatids = list(range(fat_start, fat_start + nfat))
    if ndif:
        dif_start = fat_start + nfat
        rest = fatids[109:]
        for i in range(ndif):
            blk = rest[i * 127:(i + 1) * 127]
            blk = blk + [FREE] * (127 - len(blk))
            blk.append(dif_start + i + 1 if i + 1 < ndif else EOC)
            difs.append(struct.pack('<128I', *blk))
        fat += [DIFSECT] * ndif
    fat += [FREE] * (nfat * 128 - len(fat))
    fatdata = struct.pack('<%dI' % len(fat), *fat)
    hdr = b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + b'\0' * 16
    hdr += struct.pack('<HHHHH', 0x3e, 3, 0xfffe, 9, 6) + b'\0' * 6
    hdr += struct.pack('<IIIIIIIII', 0, nfat, dir_start, 0, cutoff,
                       minifat_start if nmf else EOC, nmf,
                       dif_start, ndif)
    d = (fatids[:109] + [FREE] * 109)[:109]
    hdr += struct.pack('<109I', *d)
    assert len(hdr) == 512
    return hdr + b''.join(sectors) + fatdata + b''.join(difs)


def read(data):
    '''Independent reader: returns nested dict of bytes.'''
    (minor, major, bo, ss, ms) = struct.unpack_from('<HHHHH', data, 24)
    SS, MS = 1 << ss, 1 << ms
    (ndirs, nfat, dirstart, _t, cutoff, mfs, nmf, difs, ndif) = \
        struct.unpack_from('<IIIIIIIII', data, 40)
    fatids = [x for x in struct.unpack_from('<109I', data, 76) if x < DIFSECT]

    def sect(i):
        return data[(i + 1) * SS:(i + 2) * SS]
    s = difs
    for _ in range(ndif):
        v = struct.unpack('<%dI' % (SS // 4), sect(s))
        fatids += [x for x in v[:-1] if x < DIFSECT]
        s = v[-1]
    fat = []
    for i in fatids[:nfat]:
        fat += struct.unpack('<%dI' % (SS // 4), sect(i).ljust(SS, b'\xff'))

    def chain(s):
        out = []
        while s < DIFSECT:
            out.append(sect(s))
            s = fat[s]
        return b''.join(out)
    d = chain(dirstart)
    ents = []
    for i in range(len(d) // 128):
        e = d[i * 128:(i + 1) * 128]
        nl, typ = struct.unpack_from('<HB', e, 64)
        left, right, child = struct.unpack_from('<III', e, 68)
        start, size = struct.unpack_from('<IQ', e, 116)
        if SS == 512:
            size &= 0xffffffff
        ents.append((e[:max(nl - 2, 0)].decode('utf-16le'), typ, left, right,
                     child, start, size))
    minis = chain(ents[0][5])[:ents[0][6]] if ents[0][6] else b''
    mfat = []
    if nmf:
        mfd = chain(mfs)
        mfat = struct.unpack('<%dI' % (len(mfd) // 4), mfd)

    def stream(e):
        if e[6] >= cutoff:
            return chain(e[5])[:e[6]]
        out = []
        s = e[5]
        n = e[6]
        while s < DIFSECT and n > 0:
            out.append(minis[s * MS:(s + 1) * MS])
            n -= MS
            s = mfat[s]
        return b''.join(out)[:e[6]]

    def walk(i, out):
        if i == FREE:
            return
        e = ents[i]
        walk(e[2], out)
        if e[1] == 1:
            sub = {}
            walk(e[4], sub)
            out[e[0]] = sub
        elif e[1] == 2:
            out[e[0]] = stream(e)
        walk(e[3], out)
    root = {}
    walk(ents[0][4], root)
    return root


def flatten(tree, base=''):
    '''-> list of (path, kind, bytes|None)'''
    out = []
    for n in tree:
        v = tree[n]
        if isinstance(v, dict):
            out.append((base + n, 'd', None))
            out += flatten(v, base + n + '/')
        else:
            out.append((base + n, 'f', v))
    return out
