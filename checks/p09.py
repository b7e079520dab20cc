# -*- coding: utf-8 -*-
'''P09: XHTML.  Pages are read by an independent reader and compared with
the content expected from the records; the folder is compared with the
stored binaries; the modes are compared with each other.'''
import base64
import io
import os
import re
import sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cli, core, docgen, docs, propset, refdoc
from vlib.refdoc import XH
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from p08 import bindatas


def listing(d):
    '''path -> bytes, or None for folders'''
    out = {}
    for base, dirs, files in os.walk(d):
        rel = os.path.relpath(base, d)
        for x in dirs:
            out[os.path.normpath(os.path.join(rel, x)) + '/'] = None
        for x in files:
            with io.open(os.path.join(base, x), 'rb') as f:
                out[os.path.normpath(os.path.join(rel, x))] = f.read()
    return out


class P09(core.Check):
    PROP = 'P09'
    RULE = ('one comparison = one judged aspect (well-formedness, content, '
            'classes, folder, mode) of one conversion; distinct = (element '
            'kinds in the document, files in the folder)')
    CASE_TIMEOUT = 240
    PER_CASE = 2
    KINDS = [('plain', 12, 250), ('mixed', 20, 400), ('draw', 12, 250),
             ('table', 12, 250), ('fields', 10, 200), ('images', 6, 120),
             ('wild', 8, 200), ('dist', 4, 40), ('sections', 3, 40),
             ('deep', 2, 20), ('large', 2, 30)]

    def setup(self):
        cli.warm()

    def cases(self):
        c = []
        for k, n, t in self.KINDS:
            c += [(k, core.SEED, i) for i in range(core.scale(n, t))]
        c += [('file', n) for n in docs.usable_samples()]
        return c

    def minimum(self, counts):
        return {'pages': 150, 'folders': 60, 'images': 20, 'classes': 1000,
                'table': 50, 'gso': 20, 'binaries': 50, 'modes': 20,
                'overwritten': 15, 'terminals': 3, 'nested-binaries': 15, 'titles': 100}

    def features(self, kind, r):
        base = dict(objects=25)
        base.update(dict(
            plain=dict(table=0, gso=0, paras=(1, 8)),
            mixed=dict(table=.2, gso=.2, note=.1, headfoot=.1, comment=.1),
            draw=dict(gso=.35, table=.05, caption=.5),
            table=dict(table=.35, caption=.5),
            fields=dict(field=.5, table=.1, gso=.1,
                        unclosed=r.choice([0, .4])),
            images=dict(gso=.4, table=0, shapes=('$pic', '$con'),
                        images=(1, 6)),
            wild=dict(wild=True),
            dist=dict(dist=True),
            sections=dict(sections=(9, 13), paras=(1, 2), objects=8),
            deep=dict(chain=r.randrange(30, 120), objects=0, paras=(1, 2),
                      sections=(1, 1)),
            large=docgen.large(r, (1000, 3000)),
        )[kind])
        return base

    def run(self, ctx, case):
        if case[0] == 'file':
            s = docs.Sample(case[1])
            pics = {n: s.content('BinData/' + n) for n in
                    [p.split('/', 1)[1] for p in s.flat
                     if p.startswith('BinData/')]}
            return self.observe(ctx, core.rng('P09', *case), s.path,
                                s.xml(), pics, True)
        r = core.rng(self.PROP, *case)
        for i in range(1 if case[0] == 'large' else self.PER_CASE):
            doc = docgen.generate(r, **self.features(case[0], r))
            pics = dict(doc.bindata)
            if r.random() < .3:
                ctx.ev('nested-binaries')
                pics.update(docgen.nest(r, doc))
            title = self.summary(r, doc)
            path = docs.write(doc)
            self.observe(ctx, r, path, doc.xml(), pics, doc.sane, title)
            core.rmdir(os.path.dirname(path))

    def summary(self, r, doc):
        '''give the document a summary -> its title'''
        title = r.choice([None, '', 'A', 'B & "C" <d> \'e\'', ' 안 녕  ',
                          '\U0001f600漢字', 'x' * 3000,
                          '제목 %d' % r.randrange(10 ** 9)])
        props = [(i, 0x1f, 'no title %d' % i) for i in (3, 4, 5, 6, 8, 9)
                 if r.random() < .6]
        if title is not None:
            props.append((2, 0x1f, title))
        if r.random() < .5:
            props.append((14, 3, r.randrange(1000)))
            props.append((12, 0x40, r.randrange(10 ** 17)))
        r.shuffle(props)
        doc.summary = propset.stream(r, [propset.Set(propset.HWP, props)])
        return title or ''

    def observe(self, ctx, r, path, tree, pics, sane, title=None):
        d = core.newdir('html')
        out = os.path.join(d, r.choice(['out', 'o ut', '출력', 'a.b']))
        stale = r.random() < .35
        if stale:
            ctx.ev('overwritten')
            os.makedirs(os.path.join(out, 'bindata', 'x'))
            for n in ('old.txt', 'index.xhtml', 'styles.css',
                      'bindata/BIN9999.png', 'bindata/x/y'):
                with open(os.path.join(out, n), 'wb') as f:
                    f.write(b'stale' * 100000)
        route = r.choice(['library', 'cli', 'cli'])
        if route == 'library' and not stale:
            from hwp5.hwp5html import HTMLTransform, open_dir
            from hwp5.xmlmodel import Hwp5File
            f = Hwp5File(path)
            try:
                t = HTMLTransform(embedbin=r.random() < .3)
                embed = t.embedbin
                with open_dir(out) as dest:
                    t.transform_hwp5_to_dir(f, dest)
            finally:
                f.close()
        else:
            embed = False
            if r.random() < .25 and not stale:
                x = cli.run('hwp5html', path, cwd=d)
                out = os.path.join(d, os.path.splitext(
                    os.path.basename(path))[0])
            else:
                x = cli.run('hwp5html', '--output', out, path)
            if not ctx.eq('exit', x.code, 0, 'exit status %r' % x):
                core.rmdir(d)
                return
        ctx.ev('folders')
        got = listing(out)
        want = {'index.xhtml', 'styles.css'}
        if pics:
            want |= {'bindata/'} | {'bindata/' + n for n in pics}
            want |= {'bindata/' + n.rsplit('/', i)[0] + '/' for n in pics
                     for i in range(1, n.count('/') + 1)}
        ctx.eq('folder', sorted(got), sorted(want), 'files of the folder')
        for n, b in pics.items():
            g = got.get('bindata/' + n)
            if g is not None:
                ctx.ev('binaries')
                ctx.check('bindata', g == b, '%s: %d bytes, expected %d'
                          % (n, len(g), len(b)))
        page = got.get('index.xhtml')
        css = got.get('styles.css')
        if page is None or css is None:
            return core.rmdir(d)
        self.page(ctx, page, css, tree, pics, embed, sane, title)
        ctx.distinct(sorted(set(n.name for n in tree.walk())), sorted(got))
        if not embed and r.random() < .5:
            ctx.ev('modes')
            o = os.path.join(d, 'mode.out')
            for opt, ref in (('--html', page), ('--css', css)):
                if r.random() < .15:
                    ctx.ev('terminals')
                    x = cli.terminal('hwp5html', opt, path)
                    ctx.eq('mode-exit', x.code, 0, 'on a terminal: %r' % x)
                    if opt == '--css':
                        ctx.check('terminal' + opt, x.out.strip(b'\n') ==
                                  ref.strip(b'\n'), 'shown are %d bytes, '
                                  'the folder has %d' % (len(x.out),
                                                         len(ref)))
                    else:
                        ctx.eq('terminal' + opt,
                               cli.same_document(x.out, ref), None, 'shown')
                    continue
                if r.random() < .5:
                    if r.random() < .5:
                        with open(o, 'wb') as f:
                            f.write(b'<old/>' * 60000)
                    x = cli.run('hwp5html', opt, '--output', o, path)
                    if not ctx.eq('mode-exit', x.code, 0, '%r' % x):
                        continue
                    with open(o, 'rb') as f:
                        data = f.read()
                else:
                    x = cli.run('hwp5html', opt, path)
                    if not ctx.eq('mode-exit', x.code, 0, '%r' % x):
                        continue
                    data = x.out
                ctx.check('mode' + opt, data == ref,
                          '%s gives %d bytes, the folder has %d' % (
                              opt, len(data), len(ref)))
        core.rmdir(d)

    def page(self, ctx, page, css, tree, pics, embed, sane, title):
        ctx.ev('pages')
        try:
            root = ET.fromstring(page)
        except ET.ParseError as e:
            ctx.fail('well-formed', str(e))
            return
        ctx.eq('root', root.tag, XH + 'html', 'root element')
        if title is not None:
            ctx.ev('titles')
            got = [e.text or '' for e in root.iter(XH + 'title')]
            # the title is left out: a known finding of its own
            ctx.eq('title' if any(got) or len(got) != 1 else 'title-empty',
                   got, [title], 'title of the page')
        try:
            css = css.decode('utf-8')
        except UnicodeDecodeError as e:
            ctx.fail('css-utf8', str(e))
            return
        bins = bindatas(tree)

        def show(i):
            n = bins.get(i)
            if n is None:
                return None
            ctx.ev('images')
            if embed:
                return pics.get(n)
            return 'bindata/' + n

        def seen(x):
            if isinstance(x, list):
                return [seen(k) for k in x]
            if isinstance(x, tuple):
                if x[:1] == ('img',) and x[1] and \
                        x[1].startswith('data:;base64,'):
                    return ('img', base64.b64decode(x[1][13:]))
                return tuple(seen(k) for k in x)
            return x
        want = refdoc.replace_pics(refdoc.html(tree), show)
        got = seen(refdoc.read_html(root))
        for x in refdoc.walk(want):
            if isinstance(x, tuple) and x and x[0] in (
                    'p', 'table', 'itable', 'gso', 'igso', 'auto', 'img'):
                ctx.ev({'igso': 'gso', 'itable': 'inline-table'}
                       .get(x[0], x[0]))
        ctx.counts['comparisons'] += 1
        diff = refdoc.diff(got, want)
        if diff:
            ctx.fail('content', diff)
        if sane:
            self.classes(ctx, root, css, tree)

    def classes(self, ctx, root, css, tree):
        inline = ''.join(e.text or '' for e in root.iter(XH + 'style'))
        selectors = set(re.findall(r'(?m)^([^ /{}:;][^{}]*) \{$',
                                   css + '\n' + inline))
        known = set()
        for s in selectors:
            for w in s.split():
                if '.' in w:
                    w = w[w.index('.') + 1:]
                    known.add(re.sub('::?(before|first-child|last-child)$',
                                     '', w))
        for w in list(known):
            known |= set(w.split('.'))
        fixed = re.compile('^(Page|TableControl|TableCaption|lang-.*|'
                           'GShapeObjectControl|autonumbering.*|Section|'
                           'HeaderPageFooter|HeaderArea|FooterArea|Paper)$')
        styles = tree.find('Style')
        bullets = len(tree.find('Bullet'))
        for e in root.iter():
            for c in refdoc.cls(e):
                if fixed.match(c):
                    continue
                if c.startswith('Bullet-') and int(c[7:]) > bullets:
                    # a numbering, or a bullet the document lacks
                    continue
                ctx.ev('classes')
                ctx.check('class-undefined', c in known,
                          '%s uses the class %r, which no rule defines' %
                          (e.tag.rsplit('}')[-1], c))
        # the formatting of every run: its class is its shape or its
        # paragraph's style has that shape
        runs = html_texts(tree)
        spans = [(e, p) for p in root.iter(XH + 'p') for e in p
                 if e.tag == XH + 'span' and refdoc.cls(e)[:1] and
                 refdoc.cls(e)[0].startswith('lang-')]
        if ctx.eq('spans', len(spans), len(runs), 'number of text spans'):
            for (e, _), (t, p) in zip(spans, runs):
                c = refdoc.cls(e)
                ctx.eq('span-lang', c[0], 'lang-' + t.attrs['lang'], 'lang')
                sid = t.attrs['charshape-id']
                if len(c) > 1:
                    ctx.eq('span-shape', c[1], 'charshape-' + sid, 'shape')
                    continue
                i = int(p.attrs['style-id'])
                if i < len(styles):
                    ctx.eq('span-shape', sid,
                           styles[i].attrs['charshape-id'],
                           'span without a shape, style %d' % i)


def html_texts(tree):
    '''(Text, Paragraph) in the order in which the page shows them'''
    out = []

    def blocks(n):
        for k in n.kids:
            if k.name == 'Paragraph':
                para(k)
            elif k.name == 'TableControl':
                blocks(k)
            elif k.name != 'Text':
                blocks(k)

    # the order of <p> elements in the page: a paragraph's own spans come
    # when the paragraph starts, before those of nested paragraphs
    def para(p):
        nest = []

        def inline(n):
            for k in n.kids:
                if k.name == 'Text':
                    out.append((k, p))
                elif refdoc.is_field(k):
                    inline(k)
                elif k.name in ('TableControl', 'GShapeObjectControl') and \
                        k.attrs['inline'] == '1':
                    nest.append(k)
        for ls in refdoc.linesegs(p):
            inline(ls)
        for k in nest:
            blocks(k)
        for name in ('TableControl', 'GShapeObjectControl'):
            for ls in refdoc.linesegs(p):
                for t in refdoc.nested(ls, name):
                    if t.attrs['inline'] == '0':
                        blocks(t)
    body = [n for n in tree.kids if n.name == 'BodyText'][0]

    def area(name, lst):
        for h in tree.find(name):
            for k in h.kids:
                if k.name == lst:
                    for p in k.kids:
                        if p.name == 'Paragraph':
                            para(p)
    for s in body.kids:
        if s.name == 'SectionDef':
            area('Header', 'HeaderParagraphList')
            blocks(s)
            area('Footer', 'FooterParagraphList')
    return out


if __name__ == '__main__':
    sys.exit(core.main(P09(), sys.argv[1:]))
