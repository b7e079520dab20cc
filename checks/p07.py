# -*- coding: utf-8 -*-
'''P07: plain text.  Oracle: reference text computed from the records;
observed through the library and both command routes.'''
import io
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cli, core, docgen, docs, reftext


def first_diff(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if a[i] != b[i]:
            break
    else:
        i = n
    return 'at %d: got ...%r, expected ...%r (lengths %d, %d)' % (
        i, a[max(0, i - 20):i + 40], b[max(0, i - 20):i + 40], len(a), len(b))


class P07(core.Check):
    PROP = 'P07'
    RULE = ('one comparison = the text produced through one route against '
            'the reference; distinct = (features present, sections, '
            'paragraph count class) of documents')
    CASE_TIMEOUT = 120
    PER_CASE = 3
    KINDS = [('text', 24, 400), ('mixed', 24, 400), ('fields', 12, 200),
             ('dist', 6, 60), ('sections', 6, 60), ('long', 2, 12),
             ('nosectiondef', 3, 40), ('deep', 3, 30), ('large', 3, 30)]

    def setup(self):
        cli.warm()

    def cases(self):
        c = []
        for k, q, t in self.KINDS:
            c += [(k, core.SEED, i) for i in range(core.scale(q, t))]
        c += [('file', n) for n in docs.usable_samples()]
        return c

    def minimum(self, counts):
        return {'documents': 200, 'table': 50, 'drawing': 50, 'note': 50,
                'field': 50, 'astral': 50, 'stdout': 100, 'output': 100}

    def features(self, kind, r):
        return dict(
            text=dict(table=0, gso=0, note=0, headfoot=0, comment=0,
                      chars=.4, paras=(2, 12)),
            mixed=dict(table=.2, gso=.15, note=.15, headfoot=.1, comment=.1,
                       objects=30),
            fields=dict(field=.5, note=.1, unclosed=r.choice([0, .4]),
                        objects=20),
            dist=dict(dist=True, objects=20),
            sections=dict(sections=(10, 14), paras=(1, 2), objects=5),
            long=dict(paras=(200, 400), table=.01, gso=.01, note=.01,
                      headfoot=0, sections=(1, 1), objects=20),
            nosectiondef=dict(sectiondef=False, objects=10),
            deep=dict(chain=r.randrange(30, 120), objects=0, paras=(1, 2),
                      sections=(1, 1)),
            large=docgen.large(r),
        )[kind]

    def run(self, ctx, case):
        from hwp5.xmlmodel import Hwp5File
        if case[0] == 'file':
            s = docs.Sample(case[1])
            return self.observe(ctx, core.rng('P07', *case), s.path, s.xml(),
                                True)
        r = core.rng(self.PROP, *case)
        for i in range(1 if case[0] == 'large' else self.PER_CASE):
            doc = docgen.generate(r, wild=r.random() < .3,
                                  **self.features(case[0], r))
            path = docs.write(doc)
            self.observe(ctx, r, path, doc.xml(), i == 0 or core.THOROUGH)
            core.rmdir(os.path.dirname(path))

    def observe(self, ctx, r, path, tree, full):
        from hwp5.hwp5txt import TextTransform
        from hwp5.xmlmodel import Hwp5File
        want = reftext.plain(tree)
        ctx.ev('documents')
        for n, e in (('table', 'TableControl'),
                     ('drawing', 'GShapeObjectControl'),
                     ('note', 'FootNote'), ('note', 'EndNote'),
                     ('caption', 'TableCaption')):
            ctx.ev(n, len(tree.find(e)))
        ctx.ev('field', sum(1 for x in tree.walk()
                            if x.name.startswith('Field')))
        ctx.ev('astral', sum(1 for c in want if ord(c) > 0xffff))
        ctx.ev('characters', len(want))
        ctx.distinct(sorted(set(x.name for x in tree.walk())),
                     want.count('\n') // 5)
        ctx.sample(want[:80].replace('\n', '\\n'))

        def judge(route, data):
            ctx.ev(route)
            try:
                got = data.decode('utf-8')
            except UnicodeDecodeError as e:
                ctx.fail('utf8', '%s: %s' % (route, e))
                return
            ctx.counts['comparisons'] += 1
            if got != want:
                ctx.fail('text:' + route, '%s: %s' % (
                    route, first_diff(got, want)))

        def library():
            f = Hwp5File(path)
            try:
                out = io.BytesIO()
                TextTransform().transform_hwp5_to_text(f, out)
                return out.getvalue()
            finally:
                f.close()
        ok, data = ctx.guard('raised:library', library)
        if ok:
            judge('library', data)
        if not full:
            return
        d = core.newdir('txt')
        o = os.path.join(d, 'o.txt')
        with open(o, 'wb') as f:
            f.write(b'stale' * 1000)
        x = cli.run('hwp5txt', '--output', o, path)
        if ctx.eq('exit:output', x.code, 0, 'exit status: %r' % x):
            with open(o, 'rb') as f:
                judge('output', f.read())
            ctx.eq('stdout-noise', x.out, b'', 'stdout with --output')
        run = cli.real if r.random() < .15 else cli.run
        x = run('hwp5txt', path)
        if ctx.eq('exit:stdout', x.code, 0, 'exit status: %r' % x):
            judge('stdout', x.out)
        core.rmdir(d)


if __name__ == '__main__':
    sys.exit(core.main(P07(), sys.argv[1:]))
