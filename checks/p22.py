# -*- coding: utf-8 -*-
'''P22: the office suite's import filter.  The components of the extension
run with a stand-in for the office suite, which records what is imported
into the target document; that is compared with what the OpenDocument
converter writes for the same document.'''
import io
import os
import runpy
import sys
import tempfile
import threading
import xml.etree.ElementTree as ET
import zipfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cfb, cli, core, docgen, docs, enc, fakeuno, trees, views

ODF = dict(odf=True, table_in_textbox=False,
           shapes=('$rec', '$pic', '$con', '$lin'))


def office(services, fail=None):
    '''in a forked child: the suite with the extension installed'''
    log = fakeuno.Log(services, fail)
    context = fakeuno.install(log)
    for n in ('pyhwp_uno', 'unokit', 'src'):
        sys.path.insert(0, os.path.join(core.REPO, n))
    runpy.run_path(os.path.join(core.REPO, 'oxt', 'components.py'),
                   run_name='components')
    return log, context


def stream(kind, data, log):
    if kind == 'file-like':
        from unokit.adapters import InputStreamFromFileLike
        return InputStreamFromFileLike(io.BytesIO(data))
    return fakeuno.TempFile(data, log)


def of_type(log, service):
    got = [c for c, s in log.implementations.values() if service in s]
    assert len(got) == 1, (service, log.implementations)
    return got[0]


def do_import(log, context, s, doc, progress=None):
    x = of_type(log, 'com.sun.star.document.ImportFilter')(context)
    x.initialize(())
    x.setTargetDocument(doc)
    kw = dict(InputStream=s, URL='file:///x.hwp', FilterName='hwp5')
    if progress:
        kw['StatusIndicator'] = progress
    try:
        return x.filter(fakeuno.propseq(**kw))
    except Exception as e:
        return 'raised ' + type(e).__name__


def imported(log, doc):
    return dict(parts=doc.parts, metadata=doc.metadata,
                transforms=log.transforms)


class P22(core.Check):
    PROP = 'P22'
    RULE = ('one comparison = one part of an imported document, the verdict '
            'on a file, or the residue of an import; distinct = (kind, '
            'services of the suite, input stream, outcome)')
    CASE_TIMEOUT = 120
    ASSUME = ['the office suite is represented by a stand-in with the '
              'documented semantics of the services used']
    KINDS = [('import', 40, 700), ('detect', 30, 400), ('bad', 16, 250),
             ('fail', 8, 60), ('several', 6, 100), ('read', 8, 100)]

    def setup(self):
        cli.warm()

    def cases(self):
        c = [(k, core.SEED, i) for k, q, t in self.KINDS
             for i in range(core.scale(q, t))]
        return c + [('file', n) for n in docs.usable_samples()
                    if n.endswith('.hwp')]

    def minimum(self, counts):
        return {'imported': 40, 'by-suite': 15, 'by-library': 15,
                'graphics': 15, 'detected': 60, 'undetected': 60,
                'refused': 10, 'failed': 6, 'several': 12, 'read': 60}

    def run(self, ctx, case):
        r = core.rng(self.PROP, *case)
        top = core.newdir('uno')
        os.mkdir(os.path.join(top, 'tmp'))
        try:
            getattr(self, 'run_' + case[0])(ctx, r, top, case)
            ctx.eq('residue', os.listdir(os.path.join(top, 'tmp')), [],
                   'left in the temporary directory')
        finally:
            core.rmdir(top)

    # -- the converter -----------------------------------------------------
    def convert(self, top, data):
        path = os.path.join(top, 'doc.hwp')
        with io.open(path, 'wb') as f:
            f.write(data)
        out = os.path.join(top, 'doc.odt')
        if os.path.exists(out):
            os.unlink(out)
        x = cli.run('hwp5odt', '--embed-image', '--output', out, path)
        if x.code != 0:
            return None
        with zipfile.ZipFile(out) as z:
            return dict((n, z.read(n)) for n in z.namelist())

    def go(self, ctx, top, fn, services=('xslt',), fail=None):
        def run():
            tempfile.tempdir = os.path.join(top, 'tmp')
            log, context = office(services, fail)
            return fn(log, context)
        res = views.fresh(run)
        if res[0] != 'ok':
            ctx.fail('raised', '%s: %s' % (res[1], res[2]))
            return None
        return res[1]

    def judge(self, ctx, got, want, where):
        parts = got['parts']
        for n, key in (('styles.xml', 'Styles'), ('content.xml', 'Content')):
            if not ctx.eq('parts', len(parts.get(key, ())), 1,
                          '%s imported (%s)' % (n, where)):
                continue
            xml, graphics = parts[key][0]
            w = ET.canonicalize(want[n].decode('utf-8'))
            ctx.check('part', xml == w, '%s imported is not that of the '
                      'converter (%s): %s, expected %s' % (
                          n, where, core.short(xml, 300),
                          core.short(w, 300)))
            ctx.ev('imported')
            if not ctx.check('graphics', graphics is not None,
                             'no images for %s (%s)' % (n, where)):
                continue
            for p in want:
                if p.startswith('bindata/'):
                    ctx.ev('graphics')
                    ctx.check('graphics', graphics.get(p) == want[p],
                              '%s is %s, expected %s (%s)' % (
                                  p, core.short(graphics.get(p)),
                                  core.short(want[p]), where))
            ctx.eq('package', sorted(graphics), sorted(want),
                   'parts of the package (%s)' % where)
        ctx.eq('metadata', got['metadata'], [want['manifest.rdf']],
               'metadata loaded (%s)' % where)

    # -- imports -----------------------------------------------------------
    def one(self, ctx, r, top, data, want, kind, progress=None):
        services = r.choice([('xslt',), ()])
        s = r.choice(['file-like', 'temp'])
        where = '%s, %s, %s' % (kind, '+'.join(services) or 'no services', s)

        def fn(log, context):
            doc = fakeuno.Document(log)
            v = do_import(log, context, stream(s, data, log), doc, progress)
            return v, imported(log, doc)
        res = self.go(ctx, top, fn, services)
        if res is None:
            return
        v, got = res
        ctx.distinct(where, str(v)[:30], want is None)
        if want is None:
            ctx.ev('refused')
            ctx.check('unreported', v is not True, '%s: imported, the '
                      'converter refuses it' % where)
            ctx.eq('half', got['parts'], {}, 'imported of a document which '
                   'is not imported (%s)' % where)
            return
        if not ctx.check('failed', v is True, '%s: %r' % (where, v)):
            return
        ctx.ev('by-suite' if got['transforms'] else 'by-library')
        self.judge(ctx, got, want, where)

    def run_import(self, ctx, r, top, case):
        kind = r.choice(['plain', 'images', 'mixed', 'dist'])
        kw = dict(plain=dict(table=0, gso=0, objects=5),
                  images=dict(images=(1, 4), gso=.3),
                  mixed=dict(table=.2, gso=.2, objects=12),
                  dist=dict(dist=True, objects=5))[kind]
        kw = dict(ODF, **kw)
        if kind == 'images':
            kw['shapes'] = ('$pic', '$con')
        data = docgen.generate(r, **kw).build()
        want = self.convert(top, data)
        if not ctx.check('reference', want is not None,
                         'hwp5odt refuses the document'):
            return
        self.one(ctx, r, top, data, want, kind)

    def run_file(self, ctx, r, top, case):
        with io.open(docs.Sample(case[1]).path, 'rb') as f:
            data = f.read()
        want = self.convert(top, data)
        if want is not None:
            self.one(ctx, r, top, data, want, case[1])

    def run_bad(self, ctx, r, top, case):
        doc = docgen.generate(r, objects=6, paras=(1, 4), **ODF)
        data = bytearray(doc.build())
        k = r.choice(['noise', 'noise', 'header', 'text', 'empty', 'flip',
                      'cut', 'record', 'record'])
        if k == 'noise':
            for _ in range(60):
                data[r.randrange(1536, len(data))] ^= 1 << r.randrange(8)
        elif k == 'header':
            i = bytes(data).index(enc.SIGNATURE)
            data[i + r.randrange(17)] ^= 1
        elif k == 'text':
            data = b'HWP Document File V3.00 ' + bytes(data[30:400])
        elif k == 'empty':
            data = b''
        elif k == 'cut':
            tree = doc.tree()
            at, n = r.choice([(tree['BodyText'], 'Section0'),
                              (tree, 'DocInfo')])
            at[n] = at[n][:-r.randrange(1, 40)]
            data = cfb.build(tree)
        elif k == 'record':
            # the payload of a record ends too early
            tree = doc.tree()
            at = tree['BodyText']
            recs = enc.split_records(doc.streams()['BodyText/Section0'])
            i = r.choice([i for i, (t, l, p) in enumerate(recs)
                          if t in (66, 71) and len(p) > 12])
            t, l, p = recs[i]
            recs[i] = t, l, p[:r.randrange(4, 12)]
            at['Section0'] = doc.pack(enc.records(recs))
            data = cfb.build(tree)
        else:
            data[r.randrange(8)] ^= 1
        data = bytes(data)
        want = self.convert(top, data)
        if want is None and k in ('noise', 'cut', 'record'):
            # the import does not validate
            def lax():
                from hwp5.hwp5odt import ODTTransform
                from hwp5.xmlmodel import Hwp5File
                t = ODTTransform(embedbin=True)
                t.relaxng_compile = None
                from hwp5.hwp5odt import open_odtpkg
                with open_odtpkg(os.path.join(top, 'lax.odt')) as p:
                    t.transform_hwp5_to_package(
                        Hwp5File(os.path.join(top, 'doc.hwp')), p)
            if views.fresh(lax)[0] == 'ok':
                return
        self.one(ctx, r, top, data, want, 'bad ' + k)

    def run_fail(self, ctx, r, top, case):
        '''a service of the suite fails'''
        data = docgen.generate(r, objects=4, paras=(1, 3), **ODF).build()
        for fail, slow in (('xslt', False), ('xslt', True),
                           ('terminated', r.random() < .5),
                           ('Styles', False), ('Content', False)):
            nth, written = r.choice([0, 1, 2]), r.randrange(5)

            def fn(log, context):
                log.slow, log.nth, log.written = slow, nth, written
                doc = fakeuno.Document(log)
                return do_import(log, context, stream('temp', data, log),
                                 doc), imported(log, doc)
            res = self.go(ctx, top, fn, fail=fail)
            if res is None:
                continue
            ctx.ev('failed')
            ctx.distinct('fail', fail, slow, nth, written, str(res[0])[:30])
            ctx.check('unreported', res[0] is not True,
                      'an import in which %s failed is reported as done'
                      % fail)
            if fail in ('xslt', 'terminated'):
                ctx.eq('half', res[1]['parts'], {},
                       'imported although the conversion failed')

    def run_several(self, ctx, r, top, case):
        '''several imports in one process, one after another and at once'''
        datas = [docgen.generate(r, objects=4, paras=(1, 3),
                                 **ODF).build() for _ in range(3)]
        wants = [self.convert(top, d) for d in datas]
        if not ctx.check('reference', None not in wants,
                         'hwp5odt refuses a document'):
            return
        services = r.choice([('xslt',), ()])
        threads = r.random() < .5
        order = [r.randrange(3) for _ in range(4)]
        slow = r.random() < .5

        def fn(log, context):
            log.slow = slow
            import logging
            logging.disable(logging.CRITICAL)
            out = [None] * len(order)

            def work(i):
                doc = fakeuno.Document(log)
                v = do_import(log, context, stream(
                    'temp', datas[order[i]], log), doc)
                out[i] = v, imported(log, doc)
            if threads:
                ts = [threading.Thread(target=work, args=(i,))
                      for i in range(len(order))]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            else:
                for i in range(len(order)):
                    work(i)
            return out
        res = self.go(ctx, top, fn, services)
        for i, x in enumerate(res or ()):
            where = 'import %d of %d%s' % (i + 1, len(order),
                                           ', at once' if threads else '')
            ctx.ev('several')
            ctx.distinct('several', services, threads)
            if ctx.check('failed', x is not None and x[0] is True,
                         '%s: %r' % (where, x and x[0])):
                self.judge(ctx, x[1], wants[order[i]], where)

    # -- the document in the suite's stream ------------------------------------
    def run_read(self, ctx, r, top, case):
        '''what the document read from the suite's stream has'''
        doc = docgen.generate(r, objects=3, paras=(1, 3),
                              dist=r.random() < .3, sections=(1, 2))
        docgen.nest(r, doc)
        data = doc.build()
        path = docs.write(data)
        seed = r.random()

        def leaves(s, base=''):
            from hwp5.storage import is_storage
            for n in s:
                x = s[n]
                if is_storage(x):
                    for y in leaves(x, base + n + '/'):
                        yield y
                else:
                    yield base + n, x

        def whole(h):
            from hwp5.storage import ExtraItemStorage
            return dict((n, x.open().read())
                        for n, x in leaves(ExtraItemStorage(h)))

        def plain():
            from hwp5.xmlmodel import Hwp5File
            return whole(Hwp5File(path))

        def fn(log, context):
            import unokit
            from hwp5_uno import HwpFileFromInputStream
            from hwp5.storage import ExtraItemStorage
            from random import Random
            rr = Random(seed)

            @unokit.component_context
            def go(self):
                h = HwpFileFromInputStream(stream(
                    rr.choice(['file-like', 'temp']), data, log))
                got = whole(h)
                again = {}
                for n, x in leaves(ExtraItemStorage(h)):
                    # two readers of each stream
                    f, g = x.open(), x.open()
                    a = b = b''
                    while True:
                        p = f.read(rr.choice([1, 100, 4096, 100000]))
                        q = g.read(rr.choice([3, 4095, 4097]))
                        a, b = a + p, b + q
                        if not p and not q:
                            break
                    again[n] = a, b
                    if hasattr(f, 'seek'):
                        for f, at, whence in ((f, 0, 2), (g, len(a) // 2, 0)):
                            f.seek(at, whence)
                            p = f.tell()
                            if p != (len(b) if whence else at) or \
                                    f.read() != b[p:]:
                                a += b'(seek: %d)' % p
                        again[n] = a, b
                try:
                    h['No such']
                    missing = 'found'
                except KeyError:
                    missing = 'missing'
                return got, again, missing

            class Component(object):
                pass
            x = Component()
            x.context = context
            return go(x)
        want = views.fresh(plain)
        got = self.go(ctx, top, fn, ())
        core.rmdir(os.path.dirname(path))
        if want[0] != 'ok' or got is None:
            return
        want = want[1]
        ctx.eq('read:names', sorted(got[0]), sorted(want), 'streams')
        for n in want:
            ctx.ev('read')
            if n in got[0]:
                w = want[n]
                ctx.check('read', got[0][n] == w, 'stream %s of a document '
                          'in the suite: %s, expected %s' % (
                              n, core.short(got[0][n]), core.short(w)))
                ctx.check('read:again', got[1][n] == (w, w),
                          'stream %s of a document in the suite, two '
                          'readers in pieces: %s, expected %s' % (
                              n, core.short(got[1][n]), core.short(w)))
        ctx.eq('read:missing', got[2], 'missing', 'a name which is not there')

    # -- detection -----------------------------------------------------------
    def files(self, r):
        doc = docgen.generate(r, objects=2, paras=(1, 2))
        data = doc.build()
        yield 'doc', data, True
        yield 'dist', docgen.generate(r, objects=2, paras=(1, 2),
                                      dist=True).build(), True
        tree = trees.subtree(r, 2, width=4)
        for n in [n for n in tree if n.lower() == 'fileheader']:
            del tree[n]
        yield 'other OLE', cfb.build(dict(tree, Other=b'x')), False
        h = enc.header(version=tuple(r.randrange(256) for _ in range(4)),
                       flags=r.getrandbits(12))
        yield 'header only', cfb.build(dict(tree, FileHeader=h)), True
        yield 'folder', cfb.build(dict(tree, FileHeader={
            'FileHeader': h})), False
        bad = bytearray(h)
        bad[r.randrange(32)] ^= 1 << r.randrange(8)
        yield 'signature', cfb.build(dict(tree, FileHeader=bytes(bad))), False
        yield 'short', cfb.build(dict(
            tree, FileHeader=h[:r.randrange(32)])), False
        yield 'deeper', cfb.build({'Doc': dict(FileHeader=h)}), False
        yield 'text', r.choice([
            b'', b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1', r.randbytes(900),
            b'HWP Document File V3.00 \x1a\1\2\3\4\5' + r.randbytes(300),
            h + bytes(700), b'PK\3\4' + r.randbytes(600)]), False

    def run_detect(self, ctx, r, top, case):
        items = list(self.files(r))
        kinds = [r.choice(['file-like', 'temp']) for _ in items]

        def fn(log, context):
            out = []
            x = of_type(log, 'com.sun.star.document.ExtendedTypeDetection')(
                context)
            for k, (n, data, want) in zip(kinds, items):
                md = fakeuno.propseq(InputStream=stream(k, data, log),
                                     URL='file:///x')
                try:
                    t, md2 = x.detect(md)
                    out.append((t, md2 is md or [
                        (p.Name, type(p.Value).__name__) for p in md2] == [
                        (p.Name, type(p.Value).__name__) for p in md]))
                except Exception as e:
                    out.append(('%s: %s' % (type(e).__name__, e), True))
            return out
        res = self.go(ctx, top, fn)
        for (n, data, want), k, got in zip(items, kinds, res or ()):
            ctx.ev('detected' if want else 'undetected')
            ctx.distinct('detect', n, k, got[0])
            ctx.eq('detect', got[0], 'hwp5' if want else '',
                   '%s (%s)' % (n, k))
            ctx.check('descriptor', got[1], '%s: the media descriptor is '
                      'another' % n)


if __name__ == '__main__':
    sys.exit(core.main(P22(), sys.argv[1:]))
