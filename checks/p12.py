# -*- coding: utf-8 -*-
'''P12: recognition of HWP v5 files, under damage, through every entry
point, with time and memory watched.'''
import io
import os
import resource
import signal
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cfb, cli, core, docgen, docs, enc, trees
from vlib.core import CaseTimeout

FLAGS = ['compressed', 'password', 'distributable', 'script', 'drm',
         'xmltemplate_storage', 'history', 'cert_signed', 'cert_encrypted',
         'cert_signature_extra', 'cert_drm', 'ccl']
CLASSES = ['hwp5.filestructure', 'hwp5.recordstream', 'hwp5.binmodel',
           'hwp5.xmlmodel']
LIMIT = 10


class Dir(dict):
    '''a storage made of dictionaries'''
    def __init__(self, tree):
        dict.__init__(self)
        for n, x in tree.items():
            self[n] = Dir(x) if isinstance(x, dict) else Stream(x)


class Stream(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        return io.BytesIO(self.data)


def commands(path, d):
    out = os.path.join(d, 'out')
    yield 'hwp5proc', ['version', path]
    yield 'hwp5proc', ['header', path]
    yield 'hwp5proc', ['summaryinfo', path]
    yield 'hwp5proc', ['ls', path]
    yield 'hwp5proc', ['ls', '--vstreams', path]
    yield 'hwp5proc', ['cat', path, 'FileHeader']
    yield 'hwp5proc', ['cat', '--vstreams', path, 'FileHeader']
    yield 'hwp5proc', ['unpack', path, out]
    yield 'hwp5proc', ['records', path, 'docinfo']
    yield 'hwp5proc', ['models', path, 'docinfo']
    yield 'hwp5proc', ['find', path]
    yield 'hwp5proc', ['xml', path]
    yield 'hwp5txt', [path]
    yield 'hwp5txt', ['--output', out, path]
    yield 'hwp5html', ['--output', out, path]
    yield 'hwp5html', ['--html', path]
    yield 'hwp5html', ['--css', path]
    yield 'hwp5odt', ['--output', out, path]
    yield 'hwp5odt', ['--styles', '--output', out, path]
    yield 'hwp5odt', ['--content', '--output', out, path]


class P12(core.Check):
    PROP = 'P12'
    RULE = ('one comparison = one verdict of one entry point on one file; '
            'distinct = (kind of file, verdict)')
    CASE_TIMEOUT = 240
    KINDS = [('valid', 24, 500), ('notole', 12, 100), ('header', 32, 300),
             ('shape', 10, 120), ('mutate', 64, 2400), ('cut', 16, 300)]

    def setup(self):
        cli.warm()

    def cases(self):
        c = [(k, core.SEED, i) for k, q, t in self.KINDS
             for i in range(core.scale(q, t))]
        return c + [('file', os.path.basename(p)) for p in core.samples()]

    def minimum(self, counts):
        return {'accepted': 300, 'rejected': 600, 'mutated': 1000,
                'commands': 400, 'storage': 100, 'flags': 1000}

    # -- verdicts -----------------------------------------------------------
    def verdict(self, ctx, mech, what):
        '''opens path or storage with every class; all must agree; returns
        True, False or None (failed in another way: reported)'''
        import importlib
        from hwp5.errors import InvalidHwp5FileError
        vs = []
        for n in CLASSES:
            cls = importlib.import_module(n).Hwp5File
            t = time.time()
            try:
                signal.setitimer(signal.ITIMER_REAL, LIMIT)
                h = cls(what)
                v = True
            except InvalidHwp5FileError:
                v = False
            except CaseTimeout:
                ctx.fail(mech + '-hang', 'no verdict within %d s' % LIMIT)
                v = None
            except Exception as e:
                ctx.fail(mech + '-other', 'recognition fails with %s: %s' %
                         (type(e).__name__, e))
                v = None
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.alarm(core.patience(self.CASE_TIMEOUT))
            if v:
                try:
                    f = h['FileHeader'].open()
                    sig = f.read(32)
                except Exception as e:
                    sig = repr(e)
                ctx.eq(mech + '-signature', sig, enc.SIGNATURE,
                       'signature of an accepted file')
                if hasattr(h, 'close') and not isinstance(what, dict):
                    h.close()
            vs.append(v)
        ctx.check(mech + '-disagree', len(set(vs)) == 1,
                  'verdicts of the four layers: %s' % vs)
        return vs[0]

    def is_file(self, ctx, mech, path):
        from hwp5.filestructure import is_hwp5file
        try:
            signal.setitimer(signal.ITIMER_REAL, LIMIT)
            return is_hwp5file(path)
        except CaseTimeout:
            ctx.fail(mech + '-hang', 'is_hwp5file: none within %d s' % LIMIT)
        except Exception as e:
            ctx.fail(mech + '-other', 'is_hwp5file fails with %s: %s' %
                     (type(e).__name__, e))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.alarm(core.patience(self.CASE_TIMEOUT))

    def expect(self, ctx, r, data, want, kind, cmds=2):
        '''data: bytes of a file; want: True/False/None (either)'''
        d = core.newdir('rec')
        path = os.path.join(d, r.choice(['a.hwp', 'b', '가.txt']))
        with io.open(path, 'wb') as f:
            f.write(data)
        v = self.verdict(ctx, kind, path)
        w = self.is_file(ctx, kind, path)
        ctx.ev('accepted' if v else 'rejected')
        ctx.distinct(kind, v)
        if want is not None:
            ctx.eq(kind + '-verdict', v, want, kind)
            ctx.eq(kind + '-is_hwp5file', w, want, kind)
        else:
            ctx.eq(kind + '-is_hwp5file', w, v, kind)
            if v:
                ctx.check(kind + '-signature', enc.SIGNATURE in data,
                          'accepted without the signature')
        if v is False:
            for prog, args in r.sample(list(commands(path, d)), cmds):
                x = cli.run(prog, *args, cwd=d, timeout=40)
                ctx.ev('commands')
                name = '%s %s' % (prog, ' '.join(
                    '<file>' if a == path else a for a in args))
                ctx.distinct(kind, name)
                ctx.check(kind + '-exit', x.code > 0,
                          '%s of an invalid file: %r' % (name, x))
                ctx.check(kind + '-message', x.err.strip() != '',
                          '%s of an invalid file: nothing reported' % name)
                ctx.check(kind + '-crash', x.tb is None,
                          '%s of an invalid file: %s' % (name,
                                                         x.err[-800:]))
                ctx.check(kind + '-stdout', x.out == b'',
                          '%s of an invalid file: prints %s' %
                          (name, core.short(x.out)))
        core.rmdir(d)
        return v

    def storage(self, ctx, r, tree, want, kind):
        from hwp5.filestructure import storage_is_hwp5file
        from hwp5.storage.fs import FileSystemStorage
        stg = Dir(tree)
        ctx.ev('storage')
        ctx.eq(kind + '-storage', self.verdict(ctx, kind, stg), want,
               'storage')
        ok, v = ctx.guard(kind + '-other', storage_is_hwp5file, stg)
        if ok:
            ctx.eq(kind + '-storage_is', v, want, 'storage_is_hwp5file')
        d = core.newdir('fs')
        if all('/' not in n and n not in ('.', '..') for n in tree):
            def put(t, base):
                for n, x in t.items():
                    p = os.path.join(base, n)
                    if isinstance(x, dict):
                        os.mkdir(p)
                        put(x, p)
                    else:
                        with io.open(p, 'wb') as f:
                            f.write(x)
            put(tree, d)
            ctx.eq(kind + '-storage', self.verdict(
                ctx, kind, FileSystemStorage(d)), want, 'folder')
        core.rmdir(d)

    # -- kinds ----------------------------------------------------------------
    def run(self, ctx, case):
        r = core.rng('P12', *case)
        # a lost allocation is a MemoryError, not a dead machine
        old = resource.getrlimit(resource.RLIMIT_AS)
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, old[1]))
        try:
            getattr(self, 'run_' + case[0])(ctx, r, case)
        finally:
            resource.setrlimit(resource.RLIMIT_AS, old)

    def tree(self, r):
        doc = docgen.generate(r, objects=2, paras=(1, 1), sections=(1, 1))
        return doc.tree()

    def run_file(self, ctx, r, case):
        s = docs.Sample(case[1])
        self.expect(ctx, r, s.raw, True, 'fixture')
        self.reported(ctx, r, s.path, s.version, s.flags)

    def reported(self, ctx, r, path, version, flags):
        from hwp5.filestructure import Hwp5File
        import importlib
        h = importlib.import_module(r.choice(CLASSES)).Hwp5File(path)
        ctx.eq('version', tuple(h.header.version), tuple(version), 'version')
        ctx.eq('version', tuple(h.fileheader.version), tuple(version),
               'version')
        ctx.eq('flags', int(h.header.flags), flags, 'flags')
        for i, n in enumerate(FLAGS):
            ctx.ev('flags')
            ctx.eq('flag:' + n, int(getattr(h.header.flags, n)),
                   flags >> i & 1, n)
        h.close()
        x = cli.run('hwp5proc', 'version', path)
        ctx.eq('version-command', (x.code, x.out.decode()),
               (0, '%d.%d.%d.%d\n' % tuple(version)), 'hwp5proc version')
        x = cli.run('hwp5proc', 'header', path)
        got = dict(y.split(': ', 1) for y in x.out.decode().splitlines())
        want = dict((n, str(flags >> i & 1)) for i, n in enumerate(FLAGS))
        want.update(version='%d.%d.%d.%d' % tuple(version),
                    signature='HWP Document File')
        ctx.eq('header-command', (x.code, got), (0, want), 'hwp5proc header')

    def run_valid(self, ctx, r, case):
        for _ in range(3):
            t = self.tree(r)
            version = r.choice([
                (5, 0, 0, 0), (5, 1, 0, 1), (5, 255, 255, 255),
                (5, r.randrange(256), r.randrange(256), r.randrange(256))])
            flags = r.choice([0, 1, 1 << r.randrange(32), r.getrandbits(32),
                              0xffffffff])
            t['FileHeader'] = enc.SIGNATURE + bytes(
                bytearray(reversed(version))) + flags.to_bytes(4, 'little') \
                + r.choice([b'\0' * 216, r.randbytes(216)])
            if r.random() < .3:
                t = {'FileHeader': t['FileHeader']}
            if r.random() < .3:
                t['zzz'] = trees.subtree(r, 2)
            data = cfb.build(t)
            self.expect(ctx, r, data, True, 'valid')
            self.storage(ctx, r, t, True, 'valid')
            path = docs.write(data)
            self.reported(ctx, r, path, version, flags)
            core.rmdir(os.path.dirname(path))

    def run_notole(self, ctx, r, case):
        junk = [b'', b'\0', b'HWP Document File',
                b'HWP Document File V3.00 \x1a\1\2\3\4\5' + b'\0' * 2000,
                b'PK\3\4' + r.randbytes(3000), b'<?xml version="1.0"?><a/>',
                r.randbytes(r.randrange(6000)), enc.SIGNATURE,
                enc.SIGNATURE + r.randbytes(4000),
                b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1',
                b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + b'\0' * 504,
                b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + b'\0' * 4088,
                b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + b'\xff' * 4088,
                b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + r.randbytes(4088),
                b'\xff' * 4096]
        for i, data in enumerate(junk):
            if i % 12 == case[2] or r.random() < .2:
                self.expect(ctx, r, data, False, 'not-ole', cmds=6)
        data = bytearray(cfb.build(self.tree(r)))
        data[r.randrange(8)] ^= 1 << r.randrange(8)
        self.expect(ctx, r, bytes(data), False, 'not-ole')
        # a file which is not there is not a verdict about its contents
        for prog, args in r.sample(list(commands('/nonexistent/x.hwp',
                                                 '/nonexistent')), 2):
            x = cli.run(prog, *args)
            ctx.check('missing-file', x.code > 0 and x.err.strip() != '',
                      '%s %s of a missing file: %r' % (prog, args, x))

    def run_header(self, ctx, r, case):
        '''each byte of the signature matters; a short header is none'''
        i = case[2] % 32
        t = self.tree(r)
        good = t['FileHeader']
        for v in (good[i] ^ (1 << r.randrange(8)), r.choice(
                [x for x in (0, 32, 255, 86) if x != good[i]])):
            h = bytearray(good)
            h[i] = v
            t['FileHeader'] = bytes(h)
            self.expect(ctx, r, cfb.build(t), False, 'bad-signature',
                        cmds=3)
            self.storage(ctx, r, t, False, 'bad-signature')
        n = r.choice([0, 1, 17, 31, 32, 33, 36, 39, 40, 41, 255,
                      r.randrange(256)])
        t['FileHeader'] = good[:n]
        self.expect(ctx, r, cfb.build(t), False, 'short-header', cmds=3)
        self.storage(ctx, r, t, False, 'short-header')

    def run_shape(self, ctx, r, case):
        t = self.tree(r)
        good = t.pop('FileHeader')
        shapes = [t, dict(t, FileHeader={}),
                  dict(t, FileHeader={'FileHeader': good}),
                  dict(t, Sub={'FileHeader': good}),
                  dict(t, FileHeader2=good), {}, {'x': b''},
                  {'WordDocument': r.randbytes(5000)}]
        for s in shapes:
            self.expect(ctx, r, cfb.build(s), False, 'no-header', cmds=1)
            self.storage(ctx, r, s, False, 'no-header')

    def run_mutate(self, ctx, r, case):
        data = cfb.build(self.tree(r))
        ds = int.from_bytes(data[48:52], 'little')
        fs = int.from_bytes(data[76:80], 'little')
        for _ in range(core.scale(20, 40)):
            b = bytearray(data)
            k = r.choice(['hdr', 'dir', 'fat', 'any'])
            for _ in range(r.choice([1, 1, 2, 5])):
                p = {'hdr': lambda: r.randrange(0, 80),
                     'dir': lambda: (ds + 1) * 512 + r.randrange(1024),
                     'fat': lambda: (fs + 1) * 512 + r.randrange(512),
                     'any': lambda: r.randrange(len(b))}[k]()
                if p >= len(b):
                    continue
                if r.random() < .5:
                    b[p] = r.choice([0, 1, 0xff, 0xfe, r.getrandbits(8)])
                else:
                    p &= ~3
                    b[p:p + 4] = r.choice([
                        b'\xff' * 4, b'\xfe\xff\xff\xff', b'\0' * 4,
                        b'\xff\xff\xff\x7f', r.randbytes(4),
                        r.randrange(40).to_bytes(4, 'little')])
            ctx.ev('mutated')
            self.expect(ctx, r, bytes(b), None, 'mutated:' + k, cmds=1)

    def run_cut(self, ctx, r, case):
        data = cfb.build(self.tree(r))
        for _ in range(12):
            n = r.choice([r.randrange(len(data)), 512 * r.randrange(
                len(data) // 512)])
            ctx.ev('mutated')
            self.expect(ctx, r, data[:n], None, 'cut', cmds=1)


if __name__ == '__main__':
    sys.exit(core.main(P12(), sys.argv[1:]))
