# -*- coding: utf-8 -*-
'''Helpers shared by the document-level checks.'''
import io
import os
import struct
import zlib
import xml.etree.ElementTree as ET
from . import cfb, core, enc, layout, refxml


# what documents may be called
NAMES = ['doc.hwp'] * 8 + [
    'two.dots.hwp', 'doc', '\ubb38\uc11c.hwp', '\ubb38\uc11c 1.hwp', 'DOC.HWP',
    'doc.hwp.hwp', 'a%20b&c.hwp', 'it\'s "it".hwp', 'x.odt', '.hwp',
    'tail.', 'v1.2', '\U0001f600.hwp']


def write(doc, path=None):
    data = doc if isinstance(doc, bytes) else doc.build()
    path = path or os.path.join(core.newdir('doc'),
                                NAMES[zlib.crc32(data) % len(NAMES)])
    with io.open(path, 'wb') as f:
        f.write(data)
    return path


def xml_bytes(path, embedbin=False, cls=None):
    from hwp5.xmlmodel import Hwp5File
    f = Hwp5File(path)
    try:
        out = io.BytesIO()
        if embedbin:
            f.xmlevents(embedbin=True).dump(out)
        else:
            f.xmlevents().dump(out)
        return out.getvalue()
    finally:
        f.close()


def parse(data):
    return ET.fromstring(data)


def inflate(data):
    return zlib.decompress(data, -15)


def local(name):
    return name.rsplit('}', 1)[-1]


def streams_of(tree):
    return {p: b for p, k, b in cfb.flatten(tree) if k == 'f'}


class Sample(object):
    '''A fixture file, read with our own reader.'''

    def __init__(self, name):
        self.name = name
        self.path = os.path.join(core.SAMPLES, name)
        with io.open(self.path, 'rb') as f:
            self.raw = f.read()
        self.tree = cfb.read(self.raw)
        self.flat = streams_of(self.tree)
        h = self.flat['FileHeader']
        d, c, b, a = bytearray(h[32:36])
        self.version = (a, b, c, d)
        self.flags, = struct.unpack('<I', h[36:40])
        self.compressed = bool(self.flags & 1)
        self.password = bool(self.flags & 2)
        self.dist = bool(self.flags & 4)

    def content(self, path):
        data = self.flat[path]
        top = path.split('/')[0]
        if self.dist and top in ('ViewText', 'Scripts'):
            data = undist(data)
            if self.compressed:
                data = zlib.decompressobj(-15).decompress(data)
            return data
        if self.compressed and top in ('DocInfo', 'BodyText', 'BinData',
                                       'Scripts', 'ViewText'):
            return inflate(data)
        return data

    def body(self):
        return 'ViewText' if self.dist else 'BodyText'

    def section_ids(self):
        return sorted(int(p.split('/Section')[1]) for p in self.flat
                      if p.startswith(self.body() + '/Section'))

    def refs(self):
        def dec(data):
            return layout.Decoder(self.version).stream(
                enc.split_records(data))
        return dec(self.content('DocInfo')), [
            (i, dec(self.content('%s/Section%d' % (self.body(), i))))
            for i in self.section_ids()]

    def xml(self):
        d, s = self.refs()
        return refxml.document(self.version, d, s)


def undist(data):
    '''decrypts a distribution stream (reference implementation through the
    openssl-free path would be slow for big fixtures: use the command)'''
    import subprocess
    seed, = struct.unpack('<I', data[4:8])
    m = enc.dist_mask(seed)
    head = bytes(a ^ b for a, b in zip(data[4:260], m))
    off = 4 + (seed & 0xf)
    key = head[off:off + 16]
    p = subprocess.run(['openssl', 'enc', '-d', '-aes-128-ecb', '-nopad',
                        '-K', key.hex()], input=data[260:],
                       stdout=subprocess.PIPE, check=True)
    return p.stdout


def usable_samples():
    out = []
    for p in core.samples():
        with io.open(p, 'rb') as f:
            raw = f.read()
        flags, = struct.unpack('<I', cfb.read(raw)['FileHeader'][36:40])
        if not flags & 2:
            out.append(os.path.basename(p))
    return out
