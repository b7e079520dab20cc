# -*- coding: utf-8 -*-
'''P10: every view of the stored streams against an independent reader of
the compound file.'''
import io
import json
import os
import re
import sys
import threading
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cfb, cli, core, docgen, docs, enc, layout, refxml, trees

VIRTUAL = {'FileHeader': ('.txt',), 'PrvText': ('.utf8',),
           '\x05HwpSummaryInformation': ('.txt',), 'BodyText': ('.xml',),
           'ViewText': ('.xml',), 'DocInfo': ('.records', '.models', '.xml')}
RECORDS = ('.records', '.models', '.xml')


def esc(p):
    return p.encode('unicode_escape').decode('ascii')


def with_virtual(tree):
    '''names the --vstreams view should list (leaf paths), and what each
    virtual one derives from'''
    leafs = {}
    derived = {}
    for p, b in trees.nodes(tree):
        if b is not None:
            leafs[p] = b
    for n, x in tree.items():
        for e in VIRTUAL.get(n, ()):
            if n + e not in tree:
                derived[n + e] = (n, e)
        if n in ('BodyText', 'ViewText'):
            for m, y in x.items():
                if not isinstance(y, dict):
                    for e in RECORDS:
                        if m + e not in x:
                            derived['%s/%s%s' % (n, m, e)] = (
                                '%s/%s' % (n, m), e)
    return leafs, derived


def walk(stg, base=''):
    from hwp5.storage import is_storage, is_stream
    for n in stg:
        x = stg[n]
        if is_storage(x):
            yield base + n, None
            for y in walk(x, base + n + '/'):
                yield y
        else:
            assert is_stream(x)
            yield base + n, x


def readall(item):
    f = item.open()
    try:
        return f.read()
    finally:
        if hasattr(f, 'close'):
            f.close()


def put(tree, d):
    '''the storages and streams as folders and files; False if the file
    system has no such names'''
    for p, b in trees.nodes(tree):
        if any(x in ('', '.', '..') or '\0' in x for x in p.split('/')):
            return False
        try:
            p = os.path.join(d, *p.split('/'))
            if b is None:
                os.makedirs(p, exist_ok=True)
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with io.open(p, 'xb') as f:
                f.write(b)
        except (OSError, UnicodeError):
            return False
    return True


def folder(d):
    out = {}
    for b, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(b, x), d)] = None
        for x in fs:
            with io.open(os.path.join(b, x), 'rb') as f:
                out[os.path.relpath(os.path.join(b, x), d)] = f.read()
    return out


class P10(core.Check):
    PROP = 'P10'
    RULE = ('one comparison = one listing, stream content or folder seen '
            'through one view; distinct = (view, top-level name, depth, '
            'flags, size class)')
    CASE_TIMEOUT = 120
    KINDS = [('plain', 20, 400), ('hostile', 40, 900), ('dist', 10, 150),
             ('password', 6, 80), ('nested', 16, 300), ('big', 2, 12)]

    def setup(self):
        cli.warm()

    def cases(self):
        c = [(k, core.SEED, i) for k, q, t in self.KINDS
             for i in range(core.scale(q, t))]
        c += [('file', os.path.basename(p)) for p in core.samples()]
        return c

    def minimum(self, counts):
        return {'lib:default': 1000, 'lib:ole': 1000, 'lib:folder': 500,
                'lib:in-folder': 500, 'ls': 200, 'cat': 800,
                'unpack': 200, 'virtual': 300, 'interleaved': 500,
                'deep': 100, 'empty-storage': 20, 'inflated': 300,
                'decrypted': 20, 'passthrough': 30, 'two-opens': 300, 'previews': 60}

    def run(self, ctx, case):
        r = core.rng('P10', *case)
        if case[0] == 'file':
            s = docs.Sample(case[1])
            self.observe(ctx, r, s.path, s.tree, s.flags, s.version, True)
            return
        kind = case[0]
        kw = dict(objects=6, paras=(1, 4))
        if kind == 'dist':
            kw['dist'] = True
        if kind in ('hostile', 'nested'):
            kw['paras'] = (1, 2)
        doc = docgen.generate(r, **kw)
        if kind == 'dist' and r.random() < .3:
            doc.flags = 0
        if kind == 'password':
            doc.flags = r.choice([2, 3])
        if r.random() < .7:
            doc.preview = r.choice(['', '\ufeff', '\ufeffx', '\ufffe가', 'x',
                                    '\0', '\r\n\n ', ' x' * 3000]) + \
                ''.join(r.choice('가나 \n<a&\U0001f600\ud7ff')
                        for _ in range(r.choice([0, 9, 2045, 2046, 5000])))
        if r.random() < .5:
            doc.scripts = {'DefaultJScript': trees.blob(r),
                           'JScriptVersion': b'\1\0\0\0\0\0\0\0'}
        if kind == 'plain':
            t = doc.tree()
        elif kind == 'big':
            t = doc.tree()
            n = r.choice([7, 8]) if core.THOROUGH else 1
            t.setdefault('BinData', {})['BIN7777.bmp'] = doc.pack(
                r.randbytes(n << 20))
        else:
            t = trees.hostile(r, doc)
        if kind == 'nested':
            d = t
            for i in range(r.randint(3, 7)):
                d = d.setdefault('L%d' % i, {})
                if r.random() < .3:
                    d['leaf'] = trees.blob(r)
            if r.random() < .6:
                d['deepest'] = trees.blob(r)
        if r.random() < .2:
            n = r.choice(['FileHeader.txt', 'PrvText.utf8', 'DocInfo.xml',
                          'BodyText.xml'])
            t[n] = trees.blob(r, 30)
        data = cfb.build(t, cutoff=4096)
        # the generator's own consistency
        back = dict(trees.nodes(cfb.read(data)))
        if back != dict(trees.nodes(t)):
            raise core.HarnessError('compound file round trip')
        path = docs.write(data)
        flags = doc.flags | (4 if doc.dist else 0)
        try:
            self.observe(ctx, r, path, t, flags, doc.version, doc.sane)
        finally:
            core.rmdir(os.path.dirname(path))

    def observe(self, ctx, r, path, tree, flags, version, models):
        before = io.open(path, 'rb').read()
        views = {'ole': tree,
                 'default': trees.default_view(tree, flags, docs.undist)}
        for v, want in sorted(views.items()):
            self.library(ctx, r, path, v, want, tree, flags)
            self.commands(ctx, r, path, v, want, flags)
        d = core.newdir('folder')
        if put(tree, d):
            # the same document, kept in a folder
            self.library(ctx, r, d, 'folder', tree, tree, flags)
            self.library(ctx, r, d, 'in-folder', views['default'], tree,
                         flags)
        core.rmdir(d)
        # (padding of an uncompressed protected body would be read as records)
        if not flags & 2 and flags & 5 != 4:
            self.virtual(ctx, r, path, views['default'], version, flags)
        ctx.check('source-changed', io.open(path, 'rb').read() == before,
                  'the document changed while being read')

    # ------------------------------------------------------------ library
    def open(self, path, view):
        from hwp5.storage.ole import OleStorage
        from hwp5.filestructure import Hwp5File as F
        from hwp5.xmlmodel import Hwp5File as X
        from hwp5.recordstream import Hwp5File as R
        from hwp5.storage.fs import FileSystemStorage
        if view == 'ole':
            return OleStorage(path)
        if view == 'folder':
            return FileSystemStorage(path)
        cls = dict(default=X, rec=R, file=F)[view]
        return cls(FileSystemStorage(path) if os.path.isdir(path) else path)

    def library(self, ctx, r, path, view, want, raw, flags):
        from hwp5.storage import iter_storage_leafs, open_storage_item
        cls = view if view in ('ole', 'folder') else \
            r.choice(['default', 'rec', 'file'])
        ok, stg = ctx.guard('open-' + view, self.open, path, cls)
        if not ok:
            return
        wn = dict(trees.nodes(want))
        rn = dict(trees.nodes(raw))
        try:
            ok, got = ctx.guard('walk-' + view, lambda: list(walk(stg)))
            if not ok:
                return
            names = [p for p, x in got]
            ctx.eq('listing-' + view, sorted(names), sorted(wn),
                   'items of the %s view' % view)
            kinds = {p: x is None for p, x in got}
            ctx.eq('kinds-' + view, kinds, {p: b is None
                                            for p, b in wn.items()}, view)
            ok, leafs = ctx.guard('leafs-' + view,
                                  lambda: list(iter_storage_leafs(stg)))
            if ok:
                ctx.eq('leafs-' + view, sorted(leafs),
                       sorted(p for p in wn if wn[p] is not None), view)
            for p, x in got:
                if x is None or wn.get(p) is None:
                    ctx.ev('empty-storage', not any(
                        q.startswith(p + '/') for q in wn))
                    continue
                ok, b = ctx.guard('read-' + view, readall, x)
                if not ok:
                    continue
                ctx.ev('lib:' + view)
                ctx.ev('deep', p.count('/') > 2)
                ctx.eq('content-%s:%s' % (view, p.split('/')[0]
                                          if '/' in p else 'top'), b, wn[p],
                       '%s in the %s view' % (esc(p), view))
                if view == 'default':
                    if flags & 2:
                        ctx.ev('passthrough')
                    elif wn[p] != rn[p]:
                        ctx.ev('decrypted' if flags & 4 and p.split('/')[0]
                               in ('ViewText', 'Scripts') else 'inflated')
                ctx.distinct(view, p.split('/')[0], p.count('/'), flags & 7,
                             min(len(b), 5000) // 500)
            streams = [p for p in names if wn.get(p) is not None]
            # again by path, from the same object
            for p in r.sample(streams, min(4, len(streams))):
                ok, b = ctx.guard('path-' + view, lambda: readall(
                    open_storage_item(stg, p)))
                if ok:
                    ctx.ev('two-opens')
                    ctx.eq('reopened-' + view, b, wn[p], '%s opened again'
                           % esc(p))
                # one item, two readers at a time
                item = open_storage_item(stg, p)
                ok, ab = ctx.guard('two-' + view, lambda: self.lockstep(
                    r, [item.open(), item.open()]))
                if ok:
                    ctx.eq('two-readers-' + view, ab, [wn[p]] * 2, esc(p))
            # many at a time
            ps = r.sample(streams, min(6, len(streams)))
            if ps:
                ok, bs = ctx.guard('many-' + view, lambda: self.lockstep(
                    r, [open_storage_item(stg, p).open() for p in ps]))
                if ok:
                    for p, b in zip(ps, bs):
                        ctx.ev('interleaved')
                        ctx.eq('interleaved-' + view, b, wn[p], esc(p))
            for n in ('nonexistent', 'BodyText/SectionX', 'DocInfo/x/y'):
                try:
                    open_storage_item(stg, n)
                except KeyError:
                    pass
                except (TypeError, AttributeError):
                    if n != 'DocInfo/x/y':
                        raise
                else:
                    ctx.fail('invented', '%s can be opened' % n)
        finally:
            if hasattr(stg, 'close'):
                stg.close()

    def lockstep(self, r, fs):
        out = [b''] * len(fs)
        todo = list(range(len(fs)))
        while todo:
            i = r.choice(todo)
            b = fs[i].read(r.choice([1, 7, 100, 4096, 9000]))
            if not b:
                todo.remove(i)
            elif len(out[i]) > (1 << 16):
                b += fs[i].read()
            out[i] += b
        for f in fs:
            if hasattr(f, 'close'):
                f.close()
        return out

    # ----------------------------------------------------------- commands
    def commands(self, ctx, r, path, view, want, flags):
        wn = dict(trees.nodes(want))
        streams = sorted(p for p in wn if wn[p] is not None)
        opt = ['--ole'] if view == 'ole' else []
        x = cli.run('hwp5proc', 'ls', *(opt + [path]))
        if ctx.check('ls-failed', x.code == 0, 'ls %s: %r' % (view, x)):
            ctx.ev('ls')
            ctx.eq('ls-' + view, sorted(x.out.decode('utf-8').splitlines()),
                   sorted(map(esc, streams)), 'ls ' + view)
        ps = [p for p in streams if not p.startswith('-')]
        for p in r.sample(ps, min(core.scale(4, 10), len(ps))):
            x = cli.run('hwp5proc', 'cat', *(opt + [path, p]))
            if ctx.check('cat-failed', x.code == 0, 'cat %s %s: %r' %
                         (view, esc(p), x)):
                ctx.ev('cat')
                ctx.eq('cat-' + view, x.out, wn[p], 'cat %s %s' %
                       (view, esc(p)))
        self.unpack(ctx, r, path, opt, wn, view)

    def unpack(self, ctx, r, path, opt, wn, view):
        d = core.newdir('unpack')
        args = opt + [path]
        dest = os.path.join(d, os.path.splitext(os.path.basename(path))[0])
        if r.random() < .7:
            dest = os.path.join(d, r.choice(['out', 'out.d', '\x05odd', '가']))
            args.append(dest)
        x = cli.run('hwp5proc', 'unpack', *args, cwd=d)
        if ctx.check('unpack-failed', x.code == 0, 'unpack %s: %r' %
                     (view, x)):
            ctx.ev('unpack')
            want = {p.replace('\x05', '_05'): b for p, b in wn.items()}
            got = folder(dest) if os.path.isdir(dest) else None
            if ctx.eq('unpack-names-' + view, sorted(got or ()),
                      sorted(want), 'unpacked items'):
                for p in sorted(want):
                    ctx.eq('unpack-' + view, got[p], want[p], esc(p))
            ctx.eq('unpack-elsewhere', os.listdir(d),
                   [os.path.basename(dest)], 'created in the cwd')
        core.rmdir(d)

    # ------------------------------------------------------------ virtual
    def virtual(self, ctx, r, path, want, version, flags):
        from hwp5.storage import ExtraItemStorage, open_storage_item
        from hwp5.storage import iter_storage_leafs
        leafs, derived = with_virtual(want)
        names = sorted(list(leafs) + list(derived))
        x = cli.run('hwp5proc', 'ls', '--vstreams', path)
        if ctx.check('ls-failed', x.code == 0, 'ls --vstreams: %r' % x):
            ctx.ev('ls')
            ctx.eq('ls-virtual', sorted(x.out.decode('utf-8').splitlines()),
                   sorted(map(esc, names)), 'ls --vstreams')
        h = self.open(path, 'default')
        stg = ExtraItemStorage(h)
        ok, got = ctx.guard('leafs-virtual',
                            lambda: list(iter_storage_leafs(stg)))
        if ok:
            ctx.eq('leafs-virtual', sorted(got), names, 'virtual view')
        refs = {}

        def ref(p):
            if p not in refs:
                refs[p] = layout.Decoder(version).stream(
                    enc.split_records(leafs[p]))
            return refs[p]

        def isrec(p):
            return p == 'DocInfo' or re.match(r'(Body|View)Text/Section\d+$',
                                              p)
        if 'PrvText' in leafs:
            self.preview(ctx, h, leafs['PrvText'])
        some = sorted(derived)
        some = r.sample(some, min(8, len(some)))
        for p in some:
            src, ext = derived[p]
            if ext in RECORDS and src not in ('BodyText', 'ViewText') and \
                    not isrec(src):
                continue
            if src in ('BodyText', 'ViewText') and any(
                    not isrec('%s/%s' % (src, m)) and m.startswith('Section')
                    for m in want[src]):
                continue
            ok, item = ctx.guard('virtual-open', open_storage_item, stg, p)
            if not ok:
                continue
            ok, b = ctx.guard('virtual-read:' + ext, readall, item)
            if not ok:
                continue
            ok, b2 = ctx.guard('virtual-read:' + ext, readall, item)
            ctx.ev('virtual')
            ctx.eq('virtual-again:' + ext, b2, b, '%s opened again' % esc(p))
            if r.random() < .3:
                x = cli.run('hwp5proc', 'cat', '--vstreams', path, p)
                ctx.ev('cat')
                ctx.check('cat-virtual', x.code == 0 and x.out == b,
                          'cat --vstreams %s: %r' % (esc(p), x))
            try:
                self.judge(ctx, p, src, ext, b, leafs, ref, want, isrec)
            except (ValueError, ET.ParseError, KeyError) as e:
                ctx.fail('virtual-form:' + ext, '%s: %s' % (esc(p), e))
        # originals are not hidden
        for p in r.sample(sorted(leafs), min(3, len(leafs))):
            ok, b = ctx.guard('virtual-orig', lambda: readall(
                open_storage_item(stg, p)))
            if ok:
                ctx.eq('virtual-orig', b, leafs[p], esc(p))
        if r.random() < .25:
            # random bytes are not sections: leave such files out
            if all(isrec('%s/%s' % (t, m)) and not isinstance(y, dict)
                   for t in ('BodyText', 'ViewText')
                   for m, y in want.get(t, {}).items()):
                d = core.newdir('unpackv')
                dest = os.path.join(d, 'o')
                x = cli.run('hwp5proc', 'unpack', '--vstreams', path, dest)
                if ctx.check('unpack-failed', x.code == 0,
                             'unpack --vstreams: %r' % x):
                    ctx.ev('unpack')
                    got = folder(dest)
                    ctx.eq('unpack-names-virtual', sorted(
                        p for p in got if got[p] is not None),
                        sorted(p.replace('\x05', '_05') for p in names),
                        'unpacked')
                    for p in leafs:
                        ctx.eq('unpack-virtual', got.get(
                            p.replace('\x05', '_05')), leafs[p], esc(p))
                core.rmdir(d)

    def preview(self, ctx, h, data):
        try:
            text = data.decode('utf-16le')
        except UnicodeDecodeError:
            return
        ctx.ev('previews')
        for how, get, want in (
                ('text', lambda: h.preview_text.text, text),
                ('str', lambda: str(h.preview_text), text),
                ('utf8', lambda: h.preview_text.utf8, text.encode('utf-8'))):
            ok, got = ctx.guard('preview:' + how, get)
            if ok:
                ctx.eq('preview:' + how, got, want, 'preview')

    def judge(self, ctx, p, src, ext, b, leafs, ref, want, isrec):
        mech = 'virtual-value:' + ext
        if ext == '.utf8':
            ctx.eq(mech, b.decode('utf-8'), leafs[src].decode('utf-16le'), p)
        elif ext == '.txt' and src == 'FileHeader':
            got = dict(x.split(': ', 1) for x in b.decode().splitlines())
            h = leafs[src]
            ctx.eq(mech, got.get('signature'), 'HWP Document File', p)
            ctx.eq(mech, got.get('version'), '%d.%d.%d.%d' %
                   tuple(reversed(bytearray(h[32:36]))), p)
            fl = int.from_bytes(h[36:40], 'little')
            for i, n in enumerate(('compressed', 'password',
                                   'distributable', 'script', 'drm')):
                ctx.eq(mech, got.get(n), str(fl >> i & 1), n)
        elif ext in ('.records', '.models'):
            recs = enc.split_records(leafs[src])
            js = json.loads(b.decode('utf-8'))
            ctx.eq(mech, [(j['seqno'], j['tagid'], j['level'], j['size'],
                           bytes.fromhex(''.join(j['payload'])))
                          for j in js],
                   [(i, t, l, len(d), d) for i, (t, l, d) in
                    enumerate(recs)], p)
        elif ext == '.xml':
            root = ET.fromstring(b)
            if src == 'DocInfo':
                w = refxml.docinfo(ref(src))
            elif src in ('BodyText', 'ViewText'):
                w = refxml.bodytext(sorted(
                    (int(m[7:]), ref('%s/%s' % (src, m)))
                    for m in want[src] if isrec('%s/%s' % (src, m))))
            else:
                w = None
                for x in refxml.section(ref(src), 0):
                    w = x
                    break
                if w is None:
                    return
                w.attrs['section-id'] = refxml.ANY
            for m, msg in refxml.compare(root, w, limit=3):
                ctx.fail(mech, '%s: %s' % (p, msg))
            ctx.counts['comparisons'] += 1


if __name__ == '__main__':
    sys.exit(core.main(P10(), sys.argv[1:]))
