# -*- coding: utf-8 -*-
'''P19: streams.  Whatever is read in pieces is compared with the whole; the
raw-deflate coders are run against zlib itself, on sound and damaged data.'''
import io
import os
import sys
import zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cli, core, docgen, docs, enc, trees, views

SIZES = [1, 2, 3, 5, 16, 100, 1000, 4095, 4096, 4097, 8191, 8192, 8195, 8196,
         8197, 16384, 16392, 65536, 10 ** 7]
LENGTHS = [0, 1, 2, 3, 100, 4000, 4096, 8190, 8195, 8196, 8197, 16391, 16392,
           16393, 24588, 30000, 65537, 100000]


def deflate(data, level=6, strategy=0):
    c = zlib.compressobj(level, zlib.DEFLATED, -15, 8, strategy)
    return c.compress(data) + c.flush()


def truth(data):
    '''what zlib itself makes of it: the content, or None if damaged'''
    d = zlib.decompressobj(-15)
    try:
        out = d.decompress(data) + d.flush()
    except zlib.error:
        return None
    return out if d.eof else None


class Pipe(io.RawIOBase):
    '''a source which gives less than it was asked for, as pipes do'''
    def __init__(self, data, r):
        self.data = io.BytesIO(data)
        self.r = r

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            return self.data.read()
        return self.data.read(min(n, self.r.choice([1, 7, 100, 4096, n, n])))


class P19(core.Check):
    PROP = 'P19'
    RULE = ('one comparison = one stream read by one sequence of sizes, or '
            'one content coded by one sequence of chunks, against the whole; '
            'distinct = (stream kind or coder, size class, length class)')
    CASE_TIMEOUT = 100

    def setup(self):
        cli.warm()

    def cases(self):
        n = core.scale(1, 30)
        return [(k, core.SEED, i) for k, q in (
            ('codec', 60), ('damaged', 30), ('generator', 20),
            ('document', 24), ('rawunz', 8), ('item', 12))
            for i in range(q * n)]

    def minimum(self, counts):
        return {'encoded': 400, 'decoded': 900, 'damaged': 1500,
                'streams': 400, 'reads': 30000, 'generators': 300,
                'rawunz': 30, 'reset': 100, 'short-reads': 100, 'kinds': 100}

    def run(self, ctx, case):
        r = core.rng('P19', *case)
        getattr(self, 'run_' + case[0])(ctx, r)

    # -- reading in pieces ---------------------------------------------------
    def pieces(self, ctx, mech, f, r, what, style=None, empty=b''):
        '''everything f has, and the monitors on each read'''
        style = style or r.choice(['fixed', 'mixed', 'tail', 'zero'])
        k = r.choice(SIZES)
        out = []
        total = 0
        reads = 0
        while True:
            if style == 'fixed':
                n = k
            elif style == 'tail' and reads == 2:
                n = -1
            elif style == 'zero' and reads % 3 == 1:
                n = 0
            else:
                n = r.choice(SIZES)
            if reads > 3000:
                n = 10 ** 6
            d = f.read(n)
            reads += 1
            if n >= 0:
                ctx.check(mech + ':more', len(d) <= n,
                          '%s: read(%d) gave %d' % (what, n, len(d)))
            if n == 0:
                ctx.eq(mech + ':zero', d, empty, what)
                continue
            out.append(d)
            total += len(d)
            if not d:
                break
            if n < 0:
                continue
        # the end stays the end
        for n in (1, 4096, -1):
            ctx.eq(mech + ':end', f.read(n), empty, '%s: after the end' %
                   what)
        ctx.counts['reads'] += reads
        ctx.distinct(mech, style, k if style == 'fixed' else 0,
                     total.bit_length())
        return empty.join(out)

    def same(self, ctx, mech, what, got, want):
        ctx.counts['comparisons'] += 1
        if got == want:
            return True
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b),
                 min(len(got), len(want)))
        ctx.fail(mech, '%s: %d instead of %d bytes, differs at %d: %r / %r' %
                 (what, len(got), len(want), i, got[i:i + 20],
                  want[i:i + 20]))

    def source(self, ctx, r, data):
        if len(data) < 40000 and r.random() < .4:
            ctx.ev('short-reads')
            return Pipe(data, r)
        return io.BytesIO(data)

    # -- the raw-deflate codec -------------------------------------------------
    def content(self, r):
        n = r.choice(LENGTHS)
        k = r.random()
        if k < .35:
            return r.randbytes(n)
        if k < .6:
            blk = r.randbytes(r.choice([1, 7, 300, 5000]))
            return (blk * (n // len(blk) + 1))[:n]
        if k < .75:
            return bytes(n)
        return b''.join(bytes([r.choice(b'abcdef ')]) * r.choice([1, 1, 4])
                        for _ in range(n))[:n]

    def chunks(self, r, data):
        out = []
        i = 0
        style = r.choice(['one', 'many', 'mixed'])
        while i < len(data):
            n = len(data) if style == 'one' else r.choice(SIZES) \
                if style == 'mixed' else max(len(data) // 50, 1)
            out.append(data[i:i + n])
            i += n
        for _ in range(r.choice([0, 0, 1, 2])):
            out.insert(r.randrange(len(out) + 1), b'')
        return out

    def feed(self, r, coder, method, data):
        '''in chunks; the last one final, or an empty final one'''
        cs = self.chunks(r, data)
        f = getattr(coder, method)
        if not cs or r.random() < .5:
            cs.append(b'')
        return b''.join([f(c) for c in cs[:-1]] + [f(cs[-1], True)])

    def run_codec(self, ctx, r):
        from hwp5 import zlib_raw_codec as z
        for _ in range(4):
            data = self.content(r)
            what = 'content of %d bytes' % len(data)
            # encoders
            encoded = []
            ok, e = ctx.guard('encode:raised', z.zlib_raw_encode, data)
            if ok:
                ctx.eq('encode:length', e[1], len(data), what)
                encoded.append(('whole', e[0]))
            ok, e = ctx.guard('encode:raised', z.Codec().encode, data)
            if ok:
                encoded.append(('codec', e[0]))
            inc = z.IncrementalEncoder()
            for k in range(r.choice([1, 2, 3])):
                if k:
                    inc.reset()
                    if r.random() < .5:     # left in the middle
                        inc.encode(self.content(r))
                    inc.reset()
                    ctx.ev('reset')
                ok, e = ctx.guard('encode:raised', self.feed, r, inc,
                                  'encode', data)
                if ok:
                    encoded.append(('incremental %d' % k, e))
            for name, e in encoded:
                ctx.ev('encoded')
                t = truth(e)
                if t is None:
                    ctx.fail('encode:damaged', '%s: encoder %s: no deflate '
                             'stream: %r' % (what, name, e[:12]))
                else:
                    self.same(ctx, 'encode', '%s, encoder %s' % (what, name),
                              t, data)
            # decoders, of our own stream and of theirs
            sources = [deflate(data, r.randrange(10), r.randrange(4))] + \
                [e for n, e in encoded if truth(e) == data][-1:]
            for src in sources:
                if r.random() < .2:
                    src += r.randbytes(r.choice([1, 4, 16, 9000]))
                    ctx.ev('trailing')
                self.decoders(ctx, r, z, src, data, what)

    def decoders(self, ctx, r, z, src, data, what):
        from hwp5 import compressed
        ok, d = ctx.guard('decode:raised', z.zlib_raw_decode, src)
        if ok:
            ctx.ev('decoded')
            self.same(ctx, 'decode:whole', what, d[0], data)
            ctx.eq('decode:length', d[1], len(src), what)
        for cls in (z.IncrementalDecoder,
                    lambda: compressed.ZLibIncrementalDecoder(wbits=-15)):
            inc = cls()
            for k in range(r.choice([1, 2])):
                if k:
                    inc.reset()
                    if r.random() < .5:
                        inc.decode(src[:r.randrange(len(src) + 1)])
                    inc.reset()
                    ctx.ev('reset')
                ok, d = ctx.guard('decode:raised', self.feed, r, inc,
                                  'decode', src)
                if ok:
                    ctx.ev('decoded')
                    self.same(ctx, 'decode:incremental', what, d, data)
        for style in ('fixed', r.choice(['mixed', 'tail', 'zero'])):
            f = z.StreamReader(self.source(ctx, r, src))
            ok, d = ctx.guard('decode:raised', self.pieces, ctx, 'reader', f,
                              r, what, style)
            if ok:
                ctx.ev('decoded')
                self.same(ctx, 'reader', '%s, %s reads' % (what, style), d,
                          data)
                ctx.eq('reader:tell', f.tell(), len(data), what)
        f = z.StreamReader(io.BytesIO(src))
        ok, d = ctx.guard('decode:raised', f.read)
        if ok:
            self.same(ctx, 'reader', what, d, data)
        ok, d = ctx.guard('decode:raised', lambda: self.pieces(
            ctx, 'decompress', compressed.decompress(
                self.source(ctx, r, src)), r, what))
        if ok:
            self.same(ctx, 'decompress', what, d, data)
        ok, d = ctx.guard('decode:raised', lambda: self.pieces(
            ctx, 'experimental', compressed.decompress_experimental(
                self.source(ctx, r, src), r.choice(SIZES)), r, what))
        if ok:
            self.same(ctx, 'experimental', what, d, data)

    # -- damaged data ------------------------------------------------------------
    def damage(self, r, src):
        k = r.random()
        if k < .5 and src:
            return 'cut', src[:r.choice([r.randrange(len(src)),
                                         max(len(src) - r.randrange(1, 9),
                                             0)])]
        b = bytearray(src)
        for _ in range(r.choice([1, 1, 3])):
            if b:
                i = r.choice([0, 0, r.randrange(len(b))])
                b[i] ^= 1 << r.randrange(8)
        if k < .6:
            return 'noise', r.randbytes(r.choice([1, 10, 9000]))
        return 'flip', bytes(b)

    def run_damaged(self, ctx, r):
        from hwp5 import compressed, zlib_raw_codec as z
        for _ in range(12):
            data = self.content(r)[:20000]
            kind, src = self.damage(r, deflate(data, r.randrange(10)))
            want = truth(src)
            what = '%s stream of %d bytes' % (kind, len(src))
            n = r.choice(SIZES)

            def reader():
                f = z.StreamReader(io.BytesIO(src))
                out = []
                while True:
                    d = f.read(n)
                    if not d:
                        return b''.join(out)
                    out.append(d)
            for name, fn in [
                    ('whole', lambda: z.zlib_raw_decode(src)[0]),
                    ('codec', lambda: z.Codec().decode(src)[0]),
                    ('incremental', lambda: self.feed(
                        r, z.IncrementalDecoder(), 'decode', src)),
                    ('zincremental', lambda: self.feed(
                        r, compressed.ZLibIncrementalDecoder(wbits=-15),
                        'decode', src)),
                    ('reader', reader),
                    ('readall', lambda: z.StreamReader(io.BytesIO(src)
                                                       ).read()),
                    ('experimental', lambda: compressed.
                     decompress_experimental(io.BytesIO(src), n).read()),
                    ('decompress', lambda: compressed.decompress(
                        io.BytesIO(src)).read())]:
                ctx.ev('damaged')
                ctx.counts['comparisons'] += 1
                ctx.distinct('damaged', name, kind, want is None)
                try:
                    got = fn()
                except (zlib.error, EOFError, IOError, ValueError) as e:
                    ctx.check('damaged:error', want is None, '%s: %s: %r '
                              'though zlib can read it' % (what, name, e))
                    continue
                if want is not None:
                    self.same(ctx, 'damaged:sound', '%s: %s' % (what, name),
                              got, want)
                elif name == 'decompress':
                    self.same(ctx, 'damaged:decompress', '%s: neither an '
                              'error nor the bytes as they are' % what, got,
                              src)
                else:
                    ctx.fail('damaged:' + name, '%s: %s gave %d bytes '
                             'without an error' % (what, name, len(got)))

    def run_rawunz(self, ctx, r):
        for _ in range(4):
            data = self.content(r)
            src = deflate(data, r.randrange(10))
            x = cli.run('hwp5proc', 'rawunz', stdin=src)
            ctx.ev('rawunz')
            if ctx.eq('rawunz:exit', x.code, 0, '%r' % x):
                self.same(ctx, 'rawunz', 'rawunz', x.out, data)
            kind, bad = self.damage(r, src)
            want = truth(bad)
            x = cli.run('hwp5proc', 'rawunz', stdin=bad)
            ctx.ev('rawunz')
            if want is None:
                ctx.check('rawunz:damaged', x.code != 0,
                          'rawunz of a %s stream: %r' % (kind, x))
            elif ctx.eq('rawunz:exit', x.code, 0, '%r' % x):
                self.same(ctx, 'rawunz', 'rawunz', x.out, want)

    # -- generated streams -------------------------------------------------------
    def run_generator(self, ctx, r):
        from hwp5.utils import (GeneratorReader, GeneratorTextReader,
                                transcode)
        for _ in range(8):
            data = self.content(r)[:40000]
            parts = self.chunks(r, data)
            for style in ('fixed', 'mixed', 'tail', 'zero'):
                ctx.ev('generators')
                d = self.pieces(ctx, 'generator', GeneratorReader(
                    iter(parts)), r, 'generator', style)
                self.same(ctx, 'generator', style, d, data)
            text = data.decode('latin-1').replace('a', '가').replace(
                'b', '\U0001f600')
            i = 0
            tparts = []
            while i < len(text):
                n = r.choice([0, 1, 3, 500, 5000])
                tparts.append(text[i:i + n])
                i += n
            for style in ('fixed', 'mixed', 'tail', 'zero'):
                ctx.ev('generators')
                d = self.pieces(ctx, 'textgenerator', GeneratorTextReader(
                    iter(tparts)), r, 'text generator', style, '')
                self.same(ctx, 'textgenerator', style, d, text)
            b, f = r.choice([('utf-16le', 'utf-8'), ('utf-8', 'utf-16le'),
                             ('utf-16le', 'utf-32le'), ('cp949', 'utf-8')])
            t = text if b != 'cp949' else ''.join(
                c for c in text if c < '\x80' or c == '가')
            for style in ('fixed', 'mixed', 'tail', 'zero'):
                ctx.ev('generators')
                g = transcode(Short(r, t.encode(b)) if r.random() < .5 else
                              io.BytesIO(t.encode(b)), b, f)
                d = self.pieces(ctx, 'transcode', g, r, 'transcode', style)
                self.same(ctx, 'transcode', '%s to %s, %s' % (b, f, style),
                          d, t.encode(f))

    # -- streams of documents --------------------------------------------------
    def document(self, r):
        if r.random() < .15:
            return docs.Sample(r.choice(docs.usable_samples())).path, True
        doc = docgen.generate(r, dist=r.random() < .25,
                              sections=(1, 2), objects=r.choice([3, 20]))
        for n in range(r.choice([0, 1, 2])):
            doc.bindata['BIN%04X.bin' % (90 + n)] = self.content(r)
        doc.level = r.randrange(10)
        # white space and surrogate pairs around the boundaries of buffers
        doc.preview = ''.join(r.choice(['가나다', 'abc', '\r\n',
                                        '\U0001f600', '\u2028'])
                              for _ in range(r.choice([0, 3, 700, 3000])))
        return docs.write(doc), False

    def leaves(self, s, base=''):
        from hwp5.storage import is_storage
        for n in s:
            x = s[n]
            if is_storage(x):
                for y in self.leaves(x, base + n + '/'):
                    yield y
            else:
                yield base + n, x

    def run_document(self, ctx, r):
        from hwp5.storage import ExtraItemStorage
        from hwp5.storage.ole import OleStorage
        path, fixture = self.document(r)
        h = views.H5(path)
        o = OleStorage(path)
        for mech, top in (('file', ExtraItemStorage(h)), ('ole', o)):
            for name, x in self.leaves(top):
                f = x.open()
                whole = f.read()
                kind = name.split('.')[-1] if '.' in name and \
                    mech == 'file' else mech
                ctx.eq('stream:end', f.read(), b'', name)
                close(f)
                for style in [None] * core.scale(2, 4):
                    ctx.ev('streams')
                    f = x.open()
                    d = self.pieces(ctx, 'stream', f, r, name, style)
                    self.same(ctx, 'stream', '%s stream %s' % (mech, name),
                              d, whole)
                    close(f)
                ctx.distinct('kind', kind, len(whole).bit_length())
                if kind in ('models', 'records', 'xml', 'utf8', 'txt'):
                    ctx.ev('kinds')
        # two readers of one stream do not disturb each other
        for name, x in r.sample(list(self.leaves(ExtraItemStorage(h))), 4):
            f, g = x.open(), x.open()
            a, b = [], []
            while True:
                p = f.read(r.choice([7, 4096]))
                q = g.read(r.choice([11, 5000]))
                a.append(p)
                b.append(q)
                if not p and not q:
                    break
            ctx.ev('streams', 2)
            self.same(ctx, 'stream:two', name, b''.join(a), b''.join(b))
            close(f)
            close(g)
        h.close()
        o.close()
        if not fixture:
            core.rmdir(os.path.dirname(path))

    # -- streams of an underlying stream with short reads ----------------------
    def run_item(self, ctx, r):
        '''the decoding streams over an OLE stream of any length'''
        from hwp5.filestructure import (CompressedStorage, PreviewText)

        class Item(object):
            def __init__(self, data):
                self.data = data

            def open(self):
                if r.random() < .5:
                    ctx.ev('short-backends')
                    return Short(r, self.data)
                return io.BytesIO(self.data)

        class Stg(dict):
            pass
        for _ in range(4):
            data = self.content(r)
            for stored, want in ((deflate(data, r.randrange(10)), data), ):
                s = CompressedStorage(Stg(x=Item(stored)))
                for style in ('fixed', 'mixed'):
                    ctx.ev('streams')
                    f = s['x'].open()
                    d = self.pieces(ctx, 'compressed', f, r, 'stream', style)
                    self.same(ctx, 'compressed', 'compressed stream', d,
                              want)
            text = ''.join(r.choice(['가', 'a', '\U0001f600', '\r\n', '\n'])
                           for _ in range(r.choice([0, 1, 2, 1000, 2047,
                                                    2048, 5000])))
            p = PreviewText(Item(text.encode('utf-16le')))
            for style in ('fixed', 'mixed', 'tail', 'zero'):
                ctx.ev('streams')
                f = p.open_utf8()
                d = self.pieces(ctx, 'preview', f, r, 'preview', style)
                self.same(ctx, 'preview', 'preview text, %s' % style, d,
                          text.encode('utf-8'))
                close(f)
            ctx.eq('preview:text', p.text, text, 'text')
            ctx.eq('preview:utf8', p.utf8, text.encode('utf-8'), 'utf8')


class Short(io.BytesIO):
    '''a stream with short reads, as pipes and decoders have'''

    def __init__(self, r, data):
        io.BytesIO.__init__(self, data)
        self.r = r

    def read(self, n=-1):
        if n is not None and n > 0:
            n = self.r.choice([1, (n + 1) // 2, n])
        return io.BytesIO.read(self, n)


def close(f):
    if hasattr(f, 'close'):
        f.close()


if __name__ == '__main__':
    sys.exit(core.main(P19(), sys.argv[1:]))
