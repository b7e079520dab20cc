# -*- coding: utf-8 -*-
'''P11: distribution documents.  Streams are protected by an independent
implementation of the scheme and must come back; every available cipher
implementation is observed on the same inputs.'''
import hashlib
import io
import os
import struct
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cfb, cli, core, docgen, docs, enc, reftext, trees


def digest_for(password):
    return hashlib.sha1(password).hexdigest().upper().encode('utf-16le')


def openssl_encrypt(key, data):
    return subprocess.run(
        ['openssl', 'enc', '-e', '-aes-128-ecb', '-nopad', '-K', key.hex()],
        input=data, stdout=subprocess.PIPE, check=True).stdout


def in_child(fn):
    '''run fn() in a forked child, return its pickled result'''
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                v = ('ok', fn())
            except BaseException as e:
                v = ('exc', type(e).__name__, str(e)[:500])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(v, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def without_cryptography():
    for m in list(sys.modules):
        if m == 'cryptography' or m.startswith('cryptography.'):
            del sys.modules[m]
    sys.modules['cryptography'] = None
    for x in ('hazmat', 'hazmat.primitives', 'hazmat.backends'):
        sys.modules['cryptography.' + x] = None


class P11(core.Check):
    PROP = 'P11'
    RULE = ('one comparison = one stream or view of a protected stream; '
            'distinct = (digest offset, length class, view)')
    CASE_TIMEOUT = 120
    KINDS = [('stream', 64, 1600), ('doc', 24, 400), ('cipher', 24, 300),
             ('command', 16, 300), ('damaged', 16, 300)]

    def setup(self):
        cli.warm()

    def cases(self):
        c = [(k, core.SEED, i) for k, q, t in self.KINDS
             for i in range(core.scale(q, t))]
        return c + [('file', 'viewtext.hwp')]

    def minimum(self, counts):
        return {'stream': 200, 'view': 1000, 'cipher': 60, 'cmd': 60,
                'body': 20, 'reported': 30, 'fixture': 1}

    def extra_coverage(self, counts):
        return {'digest_offsets_seen': sum(
            1 for k in counts if k.startswith('offset:'))}

    def run(self, ctx, case):
        r = core.rng('P11', *case)
        getattr(self, 'run_' + case[0])(ctx, r, case)

    # -- one protected stream ----------------------------------------------
    def protected(self, r, i=None, content=None):
        seed = r.getrandbits(32)
        if r.random() < .2:
            seed = r.choice([0, 1, 0xf, 0x7fffffff, 0x80000000, 0xffffffff])
        if i is not None:
            seed = seed & ~0xf | i & 0xf
        if r.random() < .5:
            d80 = digest_for(b'%d' % r.getrandbits(40))
        else:
            d80 = r.randbytes(80)
        filler = r.choice([b'\0' * 256, r.randbytes(256), b'\xff' * 256])
        if content is None:
            n = r.choice([0, 16, 32, 48, 240, 256, 4096, 65536, 16 *
                          r.randint(0, 9000)])
            content = trees.blob(r, n)
            if r.random() < .04:
                content = r.randbytes(r.choice([1 << 20, (1 << 20) + 16,
                                                5 << 19, 1 << 22]))
            content = content[:len(content) // 16 * 16]
        small = len(content) < 2000
        data = enc.dist_stream(content, seed, d80, filler,
                               enc.aes_ecb_encrypt if small else
                               openssl_encrypt)
        head = data[4:260]
        return dict(seed=seed, d80=d80, key=d80[:16], content=content,
                    data=data, head=head, tail=data[260:],
                    off=seed & 0xf)

    def run_stream(self, ctx, r, case):
        from hwp5.filestructure import Hwp5DistDocStream
        from hwp5.storage import Open2Stream
        for _ in range(4):
            p = self.protected(r, case[2])
            ctx.ev('offset:%d' % p['off'])
            s = Hwp5DistDocStream(Open2Stream(lambda: io.BytesIO(p['data'])),
                                  None)
            self.views(ctx, s, p)

    def views(self, ctx, s, p):
        ctx.ev('stream')
        ok, f = ctx.guard('decode', s.open)
        if ok:
            ctx.eq('content', f.read(), p['content'], 'decrypted stream of '
                   'seed %#x' % p['seed'])
        rec = lambda: (lambda x: (x['tagid'], x['level'], x['size'],
                                  x['seqno'], x['payload']))(s.head_record())
        for name, fn, want in (
                ('head', s.head, p['head']),
                ('head_record', rec, (28, 0, 256, 0, p['head'])),
                ('head_stream', lambda: s.head_stream().read(), p['head']),
                ('head_sha1', lambda: bytes(s.head_sha1()), p['d80']),
                ('head_key', lambda: bytes(s.head_key()), p['key']),
                ('tail', s.tail, p['tail']),
                ('tail_stream', lambda: s.tail_stream().read(), p['tail']),
                ('tail_decrypted', s.tail_decrypted, p['content'])):
            ok, v = ctx.guard('view:' + name, fn)
            if ok:
                ctx.ev('view')
                ctx.eq('view:' + name, v, want, 'seed %#x' % p['seed'])
            ctx.distinct(name, p['off'], len(p['content']) // 256)
        ok, v = ctx.guard('view:head_record_stream',
                          lambda: s.head_record_stream().read())
        if ok:
            import json
            j = json.loads(v)
            ctx.eq('view:head_record_stream',
                   (j['tagid'], j['level'], j['size'],
                    bytes.fromhex(''.join(j['payload']))),
                   (28, 0, 256, p['head']), 'json of the head')

    # -- documents ---------------------------------------------------------
    def run_doc(self, ctx, r, case):
        from hwp5.xmlmodel import Hwp5File
        doc = docgen.generate(r, objects=8, sections=(1, 3), dist=True)
        doc.dist['seed'] = r.getrandbits(28) << 4 | case[2] & 0xf
        doc.scripts = {'DefaultJScript': trees.blob(r, 300),
                       'JScriptVersion': trees.blob(r)}
        raw = doc.flags = r.choice([1, 1, 0])
        path = docs.write(doc)
        want = doc.streams()
        tree = doc.tree()
        h = Hwp5File(path)
        try:
            for p, b in sorted(want.items()):
                top = p.split('/')[0]
                if top not in ('ViewText', 'Scripts'):
                    continue
                n = p.split('/')[1]
                if not doc.compressed:
                    b = enc.pad16(b)
                ok, f = ctx.guard('doc-open', lambda: h[top][n].open())
                if ok:
                    ctx.ev('body')
                    ctx.eq('doc-content:' + top, f.read(), b, p)
                seed = doc.dist['seed']
                i = int(n[7:]) if top == 'ViewText' else 99
                seed = (seed + i * 7919) & 0xffffffff
                ctx.ev('offset:%d' % (seed & 0xf))
                s = h[top][n]
                data = tree[top][n]
                ctx.eq('doc-view:head', s.head(), data[4:260], p)
                ctx.eq('doc-view:key', bytes(s.head_key()),
                       doc.dist['digest80'][:16], p)
                ctx.eq('doc-view:sha1', bytes(s.head_sha1()),
                       doc.dist['digest80'], p)
                ctx.eq('doc-view:tail', s.tail(), data[260:], p)
            if doc.compressed:
                secs = [s.open().read() for s in h.text.sections]
                ctx.eq('body-source', secs,
                       [want['ViewText/Section%d' % i]
                        for i in sorted(doc.sections)],
                       'sections of the text')
                out = io.BytesIO()
                ok, _ = ctx.guard('xml', lambda: h.xmlevents().dump(out))
                ctx.check('placeholder', b'PLACEHOLDER' not in out.getvalue(),
                          'placeholder text in the XML')
                x = cli.run('hwp5txt', path)
                ctx.check('txt-failed', x.code == 0, 'hwp5txt: %r' % x)
                ctx.check('placeholder', b'PLACEHOLDER' not in x.out,
                          'placeholder text in the plain text')
        finally:
            h.close()
        core.rmdir(os.path.dirname(path))

    def run_file(self, ctx, r, case):
        from hwp5.xmlmodel import Hwp5File
        s = docs.Sample(case[1])
        h = Hwp5File(s.path)
        for p in s.flat:
            if p.startswith('ViewText/'):
                ctx.ev('fixture')
                ctx.eq('fixture', h['ViewText'][p[9:]].open().read(),
                       s.content(p), p)
        ctx.eq('fixture', [x.open().read() for x in h.text.sections],
               [s.content('ViewText/Section%d' % i)
                for i in s.section_ids()], 'text')
        h.close()

    # -- cipher implementations ---------------------------------------------
    def run_cipher(self, ctx, r, case):
        key = r.randbytes(16)
        n = [0, 16, 32, 160, 4096, 16 * r.randint(1, 300), 1 << 20][
            case[2] % 7]
        plain = trees.blob(r, n)
        plain += b'\0' * (n - len(plain))
        if n <= 4096:
            ct = enc.aes_ecb_encrypt(key, plain)
        else:
            ct = openssl_encrypt(key, plain)
        p = self.protected(r, None, plain)

        def observe():
            from hwp5 import plat
            from hwp5.distdoc import decode, decrypt_tail
            d = plat.get_aes128ecb_decrypt()
            return (d(key, ct), bytes(decrypt_tail(key, ct)),
                    decode(io.BytesIO(p['data'])).read(),
                    d(bytearray(key), ct))

        def alternative():
            without_cryptography()
            return observe()

        def explicit(name):
            def f():
                from hwp5 import plat
                return getattr(plat, name)()(key, ct)
            return f
        want = ('ok', (plain, plain, p['content'], plain))
        ctx.eq('cipher-default', in_child(observe), want, 'default cipher')
        ctx.eq('cipher-openssl', in_child(alternative), want,
               'cipher when the cryptography package is absent')
        from hwp5 import plat
        for n in ('get_aes128ecb_decrypt_cryptography',
                  'get_aes128ecb_decrypt_openssl'):
            if hasattr(plat, n):
                ctx.eq('cipher:' + n, in_child(explicit(n)), ('ok', plain),
                       n)
        ctx.ev('cipher', 4)
        ctx.distinct('cipher', len(plain))

    # -- command -------------------------------------------------------------
    def run_command(self, ctx, r, case):
        p = self.protected(r, case[2])
        p['d80'] = digest_for(b'pw%d' % r.getrandbits(30))
        p = dict(p)
        filler = r.randbytes(256)
        data = enc.dist_stream(p['content'], p['seed'], p['d80'], filler,
                               openssl_encrypt)
        sha = bytes.fromhex(p['d80'].decode('utf-16le'))
        key = p['d80'][:16]
        for args, want in (([], p['content']),
                           (['--sha1'], sha.hex().encode()),
                           (['--sha1', '--raw'], sha),
                           (['--key'], key.hex().encode()),
                           (['--key', '--raw'], key)):
            x = cli.run('hwp5proc', 'diststream', *args, stdin=data)
            ctx.ev('cmd')
            ctx.check('cmd-failed', x.code == 0, '%s: %r' % (args, x))
            ctx.eq('cmd:' + ' '.join(args), x.out, want, 'diststream %s' %
                   args)

    # -- damage --------------------------------------------------------------
    def run_damaged(self, ctx, r, case):
        from hwp5.filestructure import Hwp5DistDocStream
        from hwp5.storage import Open2Stream
        p = self.protected(r)
        data = p['data']
        kinds = {
            'no-head': data[:r.choice([0, 1, 3, 4, 100, 259])],
            'wrong-tag': enc.record(29, 0, p['head']) + p['tail'],
            'short-head': enc.record(28, 0, p['head'][:r.choice(
                [0, 20, 255])]) + p['tail'],
            'long-head': enc.record(28, 0, p['head'] + b'x') + p['tail'],
            'odd-tail': data[:260] + (p['tail'] + b'0' * 16)[:r.randint(
                1, 15) + len(p['tail'])],
        }
        for kind, bad in sorted(kinds.items()):
            for absent in (False, True):
                def observe():
                    if absent:
                        without_cryptography()
                    os.close(2)
                    os.open(os.devnull, os.O_WRONLY)
                    s = Hwp5DistDocStream(Open2Stream(
                        lambda: io.BytesIO(bad)), None)
                    return s.open().read()
                v = in_child(observe)
                ctx.ev('reported')
                ctx.check('damage-accepted:' + kind, v[0] == 'exc',
                          '%s protected stream read as %s' %
                          (kind, core.short(v)))
            x = cli.run('hwp5proc', 'diststream', stdin=bad)
            ctx.check('damage-accepted-cmd:' + kind, x.code != 0,
                      'diststream of %s: %r' % (kind, x))


if __name__ == '__main__':
    sys.exit(core.main(P11(), sys.argv[1:]))
