# -*- coding: utf-8 -*-
'''P23: formatting of the pages.  The style sheet is applied to the page by a
CSS engine of our own; what every run, paragraph, cell, table, picture and
section computes to is compared with the shapes the records state.'''
import os
import re
import sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cli, core, css, docgen, docs, refdoc
from vlib.refdoc import XH
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

STROKE = {'none': 'none', 'solid': 'solid', 'dashed': 'dashed',
          'dotted': 'dotted', 'dash-dot': 'dashed', 'dash-dot-dot': 'dashed',
          'long-dash': 'dashed', 'large-dot': 'dotted', 'double': 'double',
          'double-2': 'double', 'double-3': 'double', 'triple': 'double',
          'wave': 'solid', 'double-wave': 'double', 'inset': 'inset',
          'outset': 'outset', 'groove': 'groove', 'ridge': 'ridge'}
LINE = {'none': 'none', 'underline': 'underline', 'overline': 'overline',
        'line_through': 'line-through'}
LINESTYLE = {'solid': 'solid', 'dashed': 'dashed', 'dotted': 'dotted',
             'dash_dot': 'dashed', 'dash_dot_dot': 'dashed',
             'long_dashed': 'dashed', 'large_dotted': 'dotted',
             'double': 'double', 'lower_weighted': 'double',
             'upper_weighted': 'double', 'middle_weighted': 'double'}
LANGS = ('ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user')
ALIGN = {'left': 'left', 'right': 'right', 'center': 'center'}


def length(v):
    '''CSS length -> mm, or None'''
    m = re.match(r'(-?[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?)(pt|mm|px|cm)?$',
                 v or '')
    if not m:
        return None
    n = float(m.group(1))
    if m.group(2) is None:
        return 0.0 if n == 0 else None
    return n * {'pt': 25.4 / 72, 'mm': 1, 'cm': 10, 'px': 25.4 / 96}[
        m.group(2)]


def units(v):
    '''HWP units (1/7200 inch) -> mm'''
    return float(v) * 25.4 / 7200


class Shapes(object):
    '''the definitions of the document information'''

    def __init__(self, tree):
        ids = tree.find('IdMappings')[0]

        def kids(name):
            return [k for k in ids.kids if k.name == name]
        self.chars = kids('CharShape')
        self.paras = kids('ParaShape')
        self.styles = kids('Style')
        self.fills = kids('BorderFill')
        self.bullets = kids('Bullet')
        self.bins = {i: '%(storage-id)s.%(ext)s' % k.attrs
                     for i, b in enumerate(kids('BinData'), 1)
                     for k in b.kids if k.name == 'BinDataEmbedding'}
        fonts = kids('FaceName')
        self.fonts = {}
        for x in LANGS:
            n = int(ids.attrs[x + '-fonts'])
            self.fonts[x] = [f.attrs['name'] for f in fonts[:n]]
            fonts = fonts[n:]

    @staticmethod
    def pick(lst, i):
        i = int(i)
        return lst[i] if 0 <= i < len(lst) else None

    def char(self, i):
        return self.pick(self.chars, i)

    def para(self, i):
        return self.pick(self.paras, i)

    def font(self, c, lang):
        f = sub(c, 'FontFace')
        return self.pick(self.fonts[lang], f.attrs[lang])


def sub(n, name, **attrs):
    for k in n.kids:
        if k.name == name and all(k.attrs.get(a.replace('_', '-')) == v
                                  for a, v in attrs.items()):
            return k
    return None


def expected(tree):
    '''[(kind, node, owner)] in the order of the elements of the page'''
    out = []

    def para(p):
        out.append(('p', p, None))
        for ls in refdoc.linesegs(p):
            inline(ls, p)
        for ls in refdoc.linesegs(p):
            for t in refdoc.nested(ls, 'TableControl'):
                if t.attrs['inline'] == '0':
                    table(t, p)
        for ls in refdoc.linesegs(p):
            for g in refdoc.nested(ls, 'GShapeObjectControl'):
                if g.attrs['inline'] == '0':
                    out.append(('gso', g, p))
                    blocks(g)

    def inline(n, p):
        for k in n.kids:
            if k.name == 'Text':
                out.append(('run', k, p))
            elif refdoc.is_field(k):
                inline(k, p)
            elif k.name == 'TableControl' and k.attrs['inline'] == '1':
                table(k, p)
            elif k.name == 'GShapeObjectControl' and \
                    k.attrs['inline'] == '1':
                out.append(('gso', k, p))
                blocks(k)

    def table(t, p):
        out.append(('table', t, p))
        blocks(t)

    def blocks(n):
        for k in n.kids:
            if k.name == 'Paragraph':
                para(k)
            elif k.name == 'ShapePicture':
                out.append(('img', n, None))
            elif k.name == 'TableControl':
                table(k, None)
            elif k.name == 'GShapeObjectControl':
                out.append(('gso', k, None))
                blocks(k)
            else:
                if k.name == 'TableCell':
                    out.append(('td', k, None))
                elif k.name == 'TableCaption':
                    out.append(('caption', k, None))
                blocks(k)
    body = [n for n in tree.kids if n.name == 'BodyText'][0]

    def area(name, lst):
        for h in tree.find(name):
            for k in h.kids:
                if k.name == lst:
                    for p in k.kids:
                        if p.name == 'Paragraph':
                            para(p)
    for s in body.kids:
        if s.name == 'SectionDef':
            out.append(('section', s, None))
            area('Header', 'HeaderParagraphList')
            blocks(s)
            area('Footer', 'FooterParagraphList')
    return out


def body_pages(tree):
    '''the page definition of each paragraph which stands in the body
    itself, by the identity of its node'''
    out = {}
    for s in tree.find('SectionDef'):
        pd = sub(s, 'PageDef')
        for c in s.kids:
            if c.name == 'ColumnSet':
                for p in c.kids:
                    out[id(p)] = pd
    return out


def found(root):
    out = []
    for e in root.iter():
        t = e.tag.rsplit('}')[-1]
        c = refdoc.cls(e)
        if t in ('p', 'table', 'td', 'caption', 'img'):
            out.append((t, e))
        elif t == 'span' and c and c[0].startswith('lang-'):
            out.append(('run', e))
        elif 'GShapeObjectControl' in c:
            out.append(('gso', e))
        elif 'Section' in c:
            out.append(('section', e))
    return out


class P23(core.Check):
    PROP = 'P23'
    RULE = ('one comparison = one formatting property of one run, '
            'paragraph, cell, table, picture or section as the style sheet '
            'computes it; distinct = the formatting of the elements seen')
    CASE_TIMEOUT = 240
    PER_CASE = 2
    KINDS = [('plain', 14, 300), ('styles', 14, 300), ('mixed', 14, 300),
             ('table', 12, 300), ('draw', 8, 200), ('dist', 2, 30),
             ('place', 8, 150)]

    def setup(self):
        cli.warm()

    def cases(self):
        c = []
        for k, n, t in self.KINDS:
            c += [(k, core.SEED, i) for i in range(core.scale(n, t))]
        c += [('file', n) for n in docs.usable_samples()]
        return c

    def minimum(self, counts):
        return {'pages': 100, 'runs': 500, 'runs:reset': 50,
                'paragraphs': 200, 'cells': 100, 'sections': 100,
                'tables': 50, 'pictures': 20, 'bullets': 20, 'lines': 30,
                'definitions': 2000, 'placed': 100, 'fills': 30, 'fill-images': 10, 'named-oddly': 30}

    def features(self, kind, r):
        base = dict(odf=True, objects=25, formatting=True)
        base.update(dict(
            plain=dict(table=0, gso=0, paras=(1, 8)),
            styles=dict(table=.05, gso=0, paras=(2, 10), oddstyles=.5),
            mixed=dict(table=.2, gso=.2, note=.1, headfoot=.1, comment=.1),
            table=dict(table=.35, caption=.5, images=(0, 3), fillimages=True),
            draw=dict(gso=.4, table=.1, caption=.5, images=(1, 4),
                      shapes=('$pic', '$con', '$rec')),
            dist=dict(dist=True),
            place=dict(gso=.5, table=.25, paras=(6, 14), depth=1, objects=60,
                       apart=True),
        )[kind])
        return base

    def run(self, ctx, case):
        if case[0] == 'file':
            s = docs.Sample(case[1])
            return self.observe(ctx, core.rng('P23', *case), s.path, s.xml())
        r = core.rng(self.PROP, *case)
        for i in range(self.PER_CASE):
            doc = docgen.generate(r, **self.features(case[0], r))
            path = docs.write(doc)
            self.observe(ctx, r, path, doc.xml())
            core.rmdir(os.path.dirname(path))

    def observe(self, ctx, r, path, tree):
        d = core.newdir('html')
        out = os.path.join(d, 'out')
        if r.random() < .5:
            from hwp5.hwp5html import HTMLTransform, open_dir
            from hwp5.xmlmodel import Hwp5File
            f = Hwp5File(path)
            try:
                with open_dir(out) as dest:
                    HTMLTransform().transform_hwp5_to_dir(f, dest)
            finally:
                f.close()
        else:
            x = cli.run('hwp5html', '--output', out, path)
            if not ctx.eq('exit', x.code, 0, 'exit status %r' % x):
                return core.rmdir(d)
        with open(os.path.join(out, 'index.xhtml'), 'rb') as f:
            page = f.read()
        files = set(os.listdir(os.path.join(out, 'bindata'))) if \
            os.path.isdir(os.path.join(out, 'bindata')) else set()
        sheets = {}
        for n in os.listdir(out):
            if n.endswith('.css'):
                with open(os.path.join(out, n), 'rb') as f:
                    sheets[n] = f.read().decode('utf-8')
        core.rmdir(d)
        try:
            root = ET.fromstring(page)
        except ET.ParseError as e:
            return ctx.fail('well-formed', str(e))
        ctx.ev('pages')
        use = []
        for e in root.iter():
            if e.tag == XH + 'link' and e.get('rel') == 'stylesheet':
                use.append(sheets.get(e.get('href'), ''))
            elif e.tag == XH + 'style':
                use.append(e.text or '')
        self.judge(ctx, css.Page(root, use), root, tree, files)
        self.definitions(ctx, use, tree)

    def definitions(self, ctx, use, tree):
        '''shapes which nothing in the document uses are defined as well:
        every script of every shape of characters'''
        sh = Shapes(tree)
        root = ET.Element(XH + 'html')
        body = ET.SubElement(root, XH + 'body')
        spans = []
        for i, c in enumerate(sh.chars):
            for lang in LANGS:
                e = ET.SubElement(body, XH + 'span')
                e.set('class', 'lang-%s charshape-%d' % (lang, i))
                spans.append((i, c, lang, e))
        page = css.Page(root, use)
        for i, c, lang, e in spans:
            ctx.ev('definitions')
            who = 'shape %d of characters, %s' % (i, lang)
            font = sh.font(c, lang)
            if font is not None:
                fam = page.get(e, 'font-family') or ''
                ctx.eq('defined-font', next(css.chunks(fam, ','))[0].strip(),
                       '"%s"' % font, who + ': font')
            size = int(c.attrs['basesize']) * int(
                sub(c, 'RelativeSize').attrs[lang]) / 100.
            self.length(ctx, 'defined-size', page.get(e, 'font-size'),
                        units(size), who + ': size', 1e-5)

    def judge(self, ctx, page, root, tree, files):
        sh = Shapes(tree)
        want = expected(tree)
        got = found(root)
        if not ctx.eq('structure', [k for k, _ in got],
                      [k for k, _, _ in want], 'elements of the page'):
            return
        self.files = files
        self.pages = body_pages(tree)
        for (kind, e), (_, n, owner) in zip(got, want):
            getattr(self, 'do_' + kind)(ctx, page, e, n, owner, sh)

    # ---- single elements ----------------------------------------------
    def length(self, ctx, mech, got, want, what, tol=.006):
        g = length(got)
        return ctx.check(mech, g is not None and
                         abs(g - want) <= tol + 1e-6 * abs(want),
                         '%s: %r, expected %.3fmm (%.2fpt)' % (
                             what, got, want, want * 72 / 25.4))

    def do_run(self, ctx, page, e, n, p, sh):
        lang = n.attrs['lang']
        ctx.eq('run-lang', 'lang-' + lang in refdoc.cls(e), True, 'language')
        c = sh.char(n.attrs['charshape-id'])
        if c is None:
            return
        ctx.ev('runs')
        st = sh.pick(sh.styles, p.attrs['style-id'])
        sc = st and sh.char(st.attrs['charshape-id'])
        if sc is not None and sc is not c and any(
                sc.attrs[a] != c.attrs[a] and c.attrs[a] in ('0', 'none')
                for a in ('bold', 'italic', 'underline')):
            ctx.ev('runs:reset')
        who = 'run %r of shape %s' % ((n.text or '')[:10],
                                      n.attrs['charshape-id'])
        ctx.eq('run-color', page.get(e, 'color'), c.attrs['text-color'],
               who + ': color')
        ctx.eq('run-weight', page.get(e, 'font-weight', 'normal'),
               'bold' if c.attrs['bold'] == '1' else 'normal',
               who + ': weight')
        ctx.eq('run-slant', page.get(e, 'font-style', 'normal'),
               'italic' if c.attrs['italic'] == '1' else 'normal',
               who + ': slant')
        size = int(c.attrs['basesize']) * int(
            sub(c, 'RelativeSize').attrs[lang]) / 100.
        self.length(ctx, 'run-size', page.get(e, 'font-size'), units(size),
                    who + ': size (%s)' % lang, 1e-5)
        font = sh.font(c, lang)
        if font is not None:
            fam = page.get(e, 'font-family') or ''
            first = next(css.chunks(fam, ','))[0].strip()
            ctx.eq('run-font', first, '"%s"' % font,
                   who + ': font (%s)' % lang)
        line = LINE[c.attrs['underline']]
        ctx.eq('run-line', page.get(e, 'text-decoration-line', 'none'), line,
               who + ': line')
        if line != 'none':
            ctx.ev('lines')
            ctx.eq('run-line-color', page.get(e, 'text-decoration-color'),
                   c.attrs['underline-color'], who + ': color of the line')
            k = LINESTYLE.get(c.attrs['underline-style'])
            if k:
                ctx.eq('run-line-style',
                       page.get(e, 'text-decoration-style'), k,
                       who + ': style of the line')
        s = sh.para(p.attrs['parashape-id'])
        if s is not None and s.attrs['linespacing-type'] == 'ratio':
            v = page.get(e, 'line-height')
            try:
                v = float(v)
            except (TypeError, ValueError):
                pass
            ctx.check('run-line-height', isinstance(v, float) and abs(
                v - int(s.attrs['linespacing']) / 100.) < 1e-6,
                '%s: line height %r, expected %s%%' % (
                    who, v, s.attrs['linespacing']))
        ctx.distinct('run', sorted(c.attrs.items()), lang)

    def do_p(self, ctx, page, e, n, owner, sh):
        s = sh.para(n.attrs['parashape-id'])
        if s is None:
            return
        ctx.ev('paragraphs')
        a = s.attrs
        st = sh.pick(sh.styles, n.attrs['style-id'])
        if st is not None and not re.match(r'[A-Za-z][A-Za-z0-9 ]*$',
                                           st.attrs['name']):
            ctx.ev('named-oddly')
        who = 'paragraph of shape %s, style %r' % (
            n.attrs['parashape-id'], st and st.attrs['name'])
        ctx.eq('para-align', page.get(e, 'text-align'),
               ALIGN.get(a['align'], 'justify'), who + ': alignment')
        indent = int(a['indent']) / 2.
        self.length(ctx, 'para-indent', page.get(e, 'text-indent'),
                    units(indent), who + ': indentation', 1e-5)
        room = page.get(e, 'padding-left', '0')
        ss = st and sh.para(st.attrs['parashape-id'])
        if indent >= 0 and ss is not None and ss is not s and \
                int(ss.attrs['indent']) < 0 and abs((
                    length(room) or 0) - units(
                        int(ss.attrs['indent']) / -2.)) < 1e-5:
            # a known finding of its own
            ctx.fail('para-hanging-of-style', '%s: keeps the room for the '
                     'hanging indentation of its style, %s' % (who, room))
        else:
            self.length(ctx, 'para-hanging', room, units(max(0, -indent)),
                        who + ': room for hanging indentation', 1e-5)
        for side in css.SIDES:
            self.length(ctx, 'para-margin', page.get(e, 'margin-' + side),
                        units(int(a['doubled-margin-' + side]) / 2.),
                        '%s: %s margin' % (who, side), 1e-5)
        self.bullet(ctx, page, e, a, sh, who)
        ctx.distinct('para', sorted(a.items()))

    def bullet(self, ctx, page, e, a, sh, who):
        b = None
        if a['head-shape'] == 'bullet':
            b = sh.pick(sh.bullets, int(a['numbering-bullet-id']) - 1) if \
                int(a['numbering-bullet-id']) else None
        before = page.own(e, '::before')
        if b is not None:
            ctx.ev('bullets')
        if a['head-shape'] != 'bullet' or b is not None:
            ctx.eq('para-bullet', before.get('content'),
                   None if b is None else '"%s"' % b.attrs['char'],
                   who + ': bullet')
        if b is not None:
            w, gap = int(b.attrs['width']), int(b.attrs['space']) / 100.
            if w:
                self.length(ctx, 'bullet-width', before.get('width'),
                            units(w), who + ': width of the bullet', 1e-5)
                self.length(ctx, 'bullet-gap', before.get('margin-right'),
                            units(w * gap), who + ': gap of the bullet', 1e-5)
            else:
                ctx.eq('bullet-width', before.get('width'), '1em',
                       who + ': width of the bullet')
                m = re.match(r'(-?[0-9.]+)em$', before.get('margin-right', ''))
                ctx.eq('bullet-gap', m and float(m.group(1)), gap,
                       who + ': gap of the bullet')
            ctx.eq('bullet-align', before.get('text-align'), b.attrs['align'],
                   who + ': alignment of the bullet')

    def do_td(self, ctx, page, e, n, owner, sh):
        ctx.ev('cells')
        a = n.attrs
        who = 'cell %s,%s' % (a['row'], a['col'])
        self.length(ctx, 'cell-width', page.get(e, 'width'),
                    units(a['width']), who + ': width')
        self.length(ctx, 'cell-height', page.get(e, 'height'),
                    units(a['height']), who + ': height')
        for s in css.SIDES:
            self.length(ctx, 'cell-padding', page.get(e, 'padding-' + s),
                        units(a['padding-' + s]),
                        '%s: %s padding' % (who, s))
        self.fill(ctx, page, e, a['borderfill-id'], sh, who)

    def fill(self, ctx, page, e, i, sh, who):
        f = sh.pick(sh.fills, int(i) - 1) if int(i) > 0 else None
        if f is None:
            return
        ctx.distinct('fill', sorted(f.attrs.items()))
        for s in css.SIDES:
            b = sub(f, 'Border', attribute_name=s).attrs
            v = (page.get(e, 'border-' + s) or '').split()
            if not ctx.check('border', len(v) == 3, '%s: %s border %r' % (
                    who, s, v)):
                continue
            style = STROKE.get(b['stroke-type'])
            if style:
                ctx.ev('borders')
                ctx.eq('border-style', v[1], style, '%s: %s border (%s)' % (
                    who, s, b['stroke-type']))
            ctx.eq('border-color', v[2], b['color'], '%s: color of the %s '
                   'border' % (who, s))
            m = length(b['width'])
            if m is not None:
                g = length(v[0])
                px = max(1, round(m * 96 / 25.4)) * 25.4 / 96
                ctx.check('border-width', g is not None and (
                    abs(g - m) < 1e-6 or abs(g - px) < 1e-6),
                    '%s: %s border of %s, expected %s' % (who, s, v[0],
                                                          b['width']))
        c = sub(f, 'FillColorPattern')
        g = sub(f, 'FillGradation')
        m = sub(f, 'FillImage')
        ctx.eq('background', page.get(e, 'background-color'),
               None if c is None else c.attrs['background-color'],
               who + ': background')
        if c is not None:
            ctx.ev('fills')
        if m is not None and m.attrs['fillimage-type'] == 'resize':
            n = sh.bins.get(int(m.attrs['bindata-id']))
            if n is not None:
                ctx.ev('fill-images')
                v = (page.get(e, 'background-image') or '').strip()
                ctx.eq('fill-image', v, 'url(bindata/%s)' % n,
                       who + ': picture in the background')
                ctx.eq('fill-image-size', page.get(e, 'background-size'),
                       '100% 100%', who + ': size of the picture')
                ctx.eq('fill-image-file', n in self.files, True,
                       'file of the picture')
        elif g is not None:
            v = page.get(e, 'background-image') or ''
            ctx.eq('gradient', re.findall('#[0-9a-f]{6}', v),
                   [k.attrs['hex'] for k in g.kids
                    if k.name == 'colors'], who + ': colors of the gradient')
        elif c is not None:
            ctx.eq('pattern', page.get(e, 'background-image') is not None,
                   c.attrs['pattern-type'] in (
                       'horizontal', 'vertical', 'backslash', 'slash',
                       'grid', 'cross'), who + ': pattern %s' %
                   c.attrs['pattern-type'])
        else:
            ctx.eq('pattern', page.get(e, 'background-image'), None,
                   who + ': background image')

    def do_table(self, ctx, page, e, n, owner, sh):
        ctx.ev('tables')
        self.length(ctx, 'table-width', page.get(e, 'width'),
                    units(n.attrs['width']), 'table: width')
        b = sub(n, 'TableBody')
        self.fill(ctx, page, e, b.attrs['borderfill-id'], sh, 'table')
        ctx.eq('table-spacing', e.get('cellspacing'),
               b.attrs['cellspacing'], 'table: cell spacing')
        self.placement(ctx, page, e, n, owner, sh)

    def do_caption(self, ctx, page, e, n, owner, sh):
        pos = n.attrs['position']
        if pos in ('top', 'bottom'):
            ctx.ev('captions')
            ctx.eq('caption-side', page.get(e, 'caption-side'), pos,
                   'caption: side')
            self.length(ctx, 'caption-gap', page.get(
                e, 'margin-bottom' if pos == 'top' else 'margin-top'),
                units(n.attrs['separation']), 'caption: separation')

    def do_gso(self, ctx, page, e, n, owner, sh):
        self.length(ctx, 'object-width', page.get(e, 'width'),
                    units(n.attrs['width']), 'object: width')
        self.placement(ctx, page, e, n, owner, sh)

    def placement(self, ctx, page, e, n, owner, sh):
        '''where an object of the body which stands apart from the text
        begins, measured from the left edge of the page's text area (the
        page is not laid out in columns)'''
        a = n.attrs
        pd = self.pages.get(id(owner))
        ps = sh.para(owner.attrs['parashape-id']) if pd else None
        if a['inline'] != '0' or pd is None or ps is None or \
                a['halign'] not in ALIGN:
            return
        pd = pd.attrs
        paper = units(pd['height' if pd['orientation'] == 'landscape'
                         else 'width'])
        left, right = 0., paper - units(pd['left-offset']) - \
            units(pd['right-offset'])
        if a['hrelto'] == 'paper':
            left = -units(pd['left-offset'])
            right = left + paper
        elif a['hrelto'] == 'paragraph':
            left += units(ps.attrs['doubled-margin-left']) / 2
            right -= units(ps.attrs['doubled-margin-right']) / 2
        x, w = units(a['x']), units(a['width'])
        want = {'left': left + x + units(a['margin-left']),
                'right': right - x - units(a['margin-right']) - w,
                'center': (left + right - w) / 2 + x}[a['halign']]
        ctx.ev('placed')
        ctx.ev('placed:%s-%s' % (a['hrelto'], a['halign']))
        self.length(ctx, 'placement', page.get(e, 'margin-left'), want,
                    '%s, %s of the %s: left margin' % (
                        n.name, a['halign'], a['hrelto']))

    def do_img(self, ctx, page, e, n, owner, sh):
        ctx.ev('pictures')
        for k in ('width', 'height'):
            self.length(ctx, 'picture-' + k, page.get(e, k),
                        units(n.attrs[k]), 'picture: ' + k)

    def do_section(self, ctx, page, e, n, owner, sh):
        pd = sub(n, 'PageDef')
        if pd is None:
            return
        ctx.ev('sections')
        a = pd.attrs
        who = 'section %s' % n.attrs['section-id']
        self.length(ctx, 'page-width', page.get(e, 'width'), units(
            a['height' if a['orientation'] == 'landscape' else 'width']),
            who + ': width')
        sheet = [x for x in e.iter() if 'HeaderPageFooter' in refdoc.cls(x)]
        inner = [x for x in e.iter() if 'Page' in refdoc.cls(x)]
        for s in css.SIDES:
            self.length(ctx, 'page-margin', page.get(
                sheet[0], 'margin-' + s), units(a[s + '-offset']),
                '%s: %s margin' % (who, s))
        for s, k in (('top', 'header-offset'), ('bottom', 'footer-offset')):
            self.length(ctx, 'page-padding', page.get(
                inner[0], 'padding-' + s), units(a[k]),
                '%s: %s' % (who, k))


if __name__ == '__main__':
    sys.exit(core.main(P23(), sys.argv[1:]))
