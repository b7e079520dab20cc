# -*- coding: utf-8 -*-
'''P21: the viewer.  The command runs with stand-ins for the window toolkits
which record the page (and the files beside it) a user would see while the
window is open; that is compared with what the HTML converter writes.'''
import os
import pickle
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cli, core, docgen, docs, fakegui, views

TMPS = ['tmp', 'with space', '한글 임시', 'a#b', 'a?b=c', '100%25', "it's",
        'q"uote', 'a&b;c', 'x+y', 'deep/er/temp']


class P21(core.Check):
    PROP = 'P21'
    RULE = ('one comparison = the page, the files beside it, the outcome or '
            'the residue of one run of the viewer; distinct = (toolkits, '
            'kind of document, temporary directory, outcome)')
    CASE_TIMEOUT = 120
    ASSUME = ['the window toolkits are represented by stand-ins with their '
              'documented semantics; nothing is drawn']
    KINDS = [('show', 60, 900), ('bad', 16, 250), ('none', 4, 30),
             ('crash', 6, 60)]

    def setup(self):
        cli.MAINS['hwp5view'] = 'hwp5.hwp5view'
        cli.warm()

    def cases(self):
        c = [(k, core.SEED, i) for k, q, t in self.KINDS
             for i in range(core.scale(q, t))]
        return c + [('file', n) for n in docs.usable_samples()]

    def minimum(self, counts):
        return {'shown': 60, 'shown:gi': 20, 'shown:pyside': 20,
                'files': 100, 'resized': 20, 'refused': 10,
                'crashed': 4, 'odd-tmp': 20, 'images': 10}

    def run(self, ctx, case):
        r = core.rng(self.PROP, *case)
        top = core.newdir('view')
        for n in ('doc', 'cwd', 'ref'):
            os.mkdir(os.path.join(top, n))
        try:
            getattr(self, 'run_' + case[0])(ctx, r, top, case)
        finally:
            core.rmdir(top)

    # -- runs ----------------------------------------------------------------
    def view(self, ctx, r, top, path, kits, crash=False):
        name = r.choice(TMPS)
        tmp = os.path.join(top, 't', name)
        os.makedirs(tmp)
        res = os.path.join(top, 'result')
        if os.path.exists(res):
            os.unlink(res)
        sizes = r.sample(fakegui.SIZES, 3) + [
            (r.choice([r.randrange(300, 1025), r.randrange(2000)]),
             r.choice([r.randrange(400, 801), r.randrange(2000)]))
            for _ in range(5)]
        log = fakegui.Log()

        def hook():
            tempfile.tempdir = tmp
            fakegui.forbid('gi', 'PySide', 'PySide2', 'PyQt4')
            if 'gi' in kits:
                fakegui.install_gi(log, sizes, crash)
            if 'pyside' in kits:
                fakegui.install_pyside(log, crash)

        def after():
            with open(res, 'wb') as f:
                pickle.dump(log.as_dict(), f)
        cwd = os.path.join(top, 'cwd')
        arg = path if r.random() < .6 else os.path.relpath(path, cwd)
        with open(path, 'rb') as f:
            before = views.sha(f.read())
        x = cli.run('hwp5view', arg, cwd=cwd, hook=hook, after=after)
        with open(res, 'rb') as f:
            seen = pickle.load(f)
        where = 'toolkits %s, TMPDIR %s' % ('+'.join(kits) or 'none', name)
        ctx.eq('residue', os.listdir(tmp), [], 'left in the temporary '
               'directory (%s)' % where)
        ctx.eq('residue-cwd', os.listdir(cwd), [], 'left in the working '
               'directory (%s)' % where)
        with open(path, 'rb') as f:
            ctx.eq('source', views.sha(f.read()), before, 'the document')
        if name != 'tmp':
            ctx.ev('odd-tmp')
        import shutil
        shutil.rmtree(os.path.join(top, 't'))
        return x, seen, where

    def convert(self, top, path):
        out = os.path.join(top, 'ref', 'o')
        x = cli.run('hwp5html', '--output', out, path,
                    cwd=os.path.join(top, 'ref'))
        if x.code != 0:
            return None
        return fakegui.folder(out)

    def judge(self, ctx, x, seen, where, want, kind):
        if not ctx.check('failed', x.code == 0, '%s: %r' % (where, x)):
            return
        ctx.eq('loops', seen['mains'], 1, 'main loops (%s)' % where)
        for p in seen['problems']:
            ctx.fail('problem', '%s: %s' % (where, p))
        if not ctx.eq('views', len(seen['shown']), 1,
                      'pages shown (%s)' % where):
            return
        page, files = seen['shown'][0]
        ctx.ev('shown')
        ctx.ev('shown:' + ('gi' if 'gi' in where.split(',')[0] else 'pyside'))
        ctx.check('page', page == want['index.xhtml'],
                  '%s: the page shown is not that of the converter: %s / %s' %
                  (where, core.short(page, 200),
                   core.short(want['index.xhtml'], 200)))
        ctx.eq('files', sorted(files), sorted(want), 'files beside the page '
               '(%s)' % where)
        for n in sorted(want):
            ctx.ev('files')
            if n.startswith('bindata'):
                ctx.ev('images')
            ctx.check('file', files.get(n) == want[n],
                      '%s: %s differs from that of the converter' %
                      (where, n))
        for (w, h), (gw, gh) in seen['sizes']:
            ctx.ev('resized')
            # the page fits unless it is beyond the limits
            ctx.check('window', 300 <= gw <= 1024 + 4 and 400 <= gh <= 800 and
                      (gw >= w or w > 1024) and (gh >= h or h > 800) and
                      gw - max(w, 300) <= 4 and gh <= max(h, 400),
                      'a window of %dx%d for a page of %dx%d' %
                      (gw, gh, w, h))
        ctx.distinct(where, kind, len(want) > 2)

    KITS = [['gi'], ['pyside'], ['gi', 'pyside']]

    def run_show(self, ctx, r, top, case):
        kind = r.choice(['plain', 'images', 'mixed', 'dist', 'wild'])
        kw = dict(plain=dict(table=0, gso=0, objects=5),
                  images=dict(images=(1, 4), gso=.3,
                              shapes=('$pic', '$con')),
                  mixed=dict(table=.2, gso=.2, objects=12),
                  dist=dict(dist=True, objects=5),
                  wild=dict(wild=True, objects=8))[kind]
        path = docs.write(docgen.generate(r, **kw),
                          os.path.join(top, 'doc', r.choice(
                              ['doc.hwp', '문서 1.hwp', 'a#b.hwp'])))
        want = self.convert(top, path)
        if not ctx.check('reference', want is not None,
                         'hwp5html refuses the document'):
            return
        for kits in self.KITS:
            self.judge(ctx, *self.view(ctx, r, top, path, kits), want, kind)

    def run_file(self, ctx, r, top, case):
        path = os.path.join(top, 'doc', 'doc.hwp')
        with open(docs.Sample(case[1]).path, 'rb') as f:
            data = f.read()
        with open(path, 'wb') as f:
            f.write(data)
        want = self.convert(top, path)
        if want is None:
            return
        for kits in self.KITS[:2]:
            self.judge(ctx, *self.view(ctx, r, top, path, kits), want,
                       case[1])

    def run_bad(self, ctx, r, top, case):
        data = bytearray(docgen.generate(
            r, objects=4, paras=(1, 4)).build())
        k = r.choice(['cut', 'noise', 'text', 'empty', 'flip'])
        if k == 'cut':
            del data[r.randrange(600, len(data)):]
        elif k == 'noise':
            for _ in range(60):
                data[r.randrange(1536, len(data))] ^= 1 << r.randrange(8)
        elif k == 'text':
            data = b'HWP Document File V3.00 ' + bytes(data[30:400])
        elif k == 'empty':
            data = b''
        else:
            data[r.randrange(8)] ^= 1
        path = docs.write(bytes(data), os.path.join(top, 'doc', 'doc.hwp'))
        want = self.convert(top, path)
        x, seen, where = self.view(ctx, r, top, path, r.choice(self.KITS))
        if want is None:
            ctx.ev('refused')
            ctx.check('unreported', x.code != 0, '%s document: the viewer '
                      'exits successfully, the converter refuses it (%s)' %
                      (k, where))
            ctx.eq('shown-bad', len(seen['shown']), 0, 'pages shown of a %s '
                   'document' % k)
            ctx.distinct(where, k, 'refused')
        else:
            self.judge(ctx, x, seen, where, want, k)

    def run_none(self, ctx, r, top, case):
        path = docs.write(docgen.generate(r, objects=3, paras=(1, 3)),
                          os.path.join(top, 'doc', 'doc.hwp'))
        x, seen, where = self.view(ctx, r, top, path, [])
        ctx.check('no-toolkit', x.code != 0, 'success without any toolkit')
        ctx.distinct(where, 'none')

    def run_crash(self, ctx, r, top, case):
        path = docs.write(docgen.generate(r, objects=3, paras=(1, 3)),
                          os.path.join(top, 'doc', 'doc.hwp'))
        x, seen, where = self.view(ctx, r, top, path,
                                   r.choice(self.KITS[:2]), crash=True)
        ctx.ev('crashed')
        ctx.check('crash', x.code != 0, '%s: success although the window '
                  'system went away' % where)
        ctx.distinct(where, 'crash')


if __name__ == '__main__':
    sys.exit(core.main(P21(), sys.argv[1:]))
