# -*- coding: utf-8 -*-
'''P24: formatting of OpenDocument output.  The styles of the package are
resolved as a word processor would (automatic, parent, default); what every
run, paragraph, cell, table, object and section comes to is compared with the
shapes the records state.'''
import io
import os
import re
import sys
import zipfile
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import cli, core, docgen, docs, refdoc
from vlib.refdoc import NS
from p23 import Shapes, length, sub, units

NS = dict(NS, svg='urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0')
SIDES = ('top', 'right', 'bottom', 'left')


def q(s):
    p, n = s.split(':')
    return '{%s}%s' % (NS[p], n)


LINE = {'none': None, 'underline': 'underline', 'overline': 'overline',
        'line_through': 'line-through'}
LINESTYLE = {'solid': 'solid', 'dashed': 'dash', 'dotted': 'dotted',
             'dash_dot': 'dot-dash', 'dash_dot_dot': 'dot-dot-dash',
             'long_dashed': 'long-dash', 'large_dotted': 'dotted',
             'double': 'solid', 'lower_weighted': 'solid',
             'upper_weighted': 'solid', 'middle_weighted': 'solid'}
DOUBLE = ('double', 'lower_weighted', 'upper_weighted', 'middle_weighted')
ALIGN = {'left': 'left', 'right': 'right', 'center': 'center'}
# HWP's lines and the lines OpenDocument borders can have
STROKE = {'none': ('none',), 'solid': ('solid',), 'dashed': ('dashed',),
          'dotted': ('dotted',), 'dash-dot': ('dashed', 'dash-dot'),
          'dash-dot-dot': ('dashed', 'dash-dot-dot'),
          'long-dash': ('dashed',), 'large-dot': ('dotted',),
          'double': ('double',), 'double-2': ('double', 'double-thin'),
          'double-3': ('double', 'double-thin'), 'triple': ('double',),
          'wave': ('solid',), 'double-wave': ('double',),
          'inset': ('inset',), 'outset': ('outset',), 'groove': ('groove',),
          'ridge': ('ridge',)}
WRAP = {'both': 'parallel', 'left': 'left', 'right': 'right',
        'larger': 'biggest'}


class Styles(object):
    def __init__(self, styles, content):
        self.named = {}
        self.auto = {}
        self.default = {}
        self.layout = {}
        self.master = {}
        self.faces = {}
        for root in (styles, content):
            for e in root.iter():
                if e.tag == q('style:font-face'):
                    self.faces.setdefault(e.get(q('style:name')), []).append(
                        e.get(q('svg:font-family')))
                if e.tag == q('style:default-style'):
                    self.default[e.get(q('style:family'))] = e
                elif e.tag == q('style:page-layout'):
                    self.layout[e.get(q('style:name'))] = e
                elif e.tag == q('style:master-page'):
                    self.master[e.get(q('style:name'))] = e
            for box, dst in (('office:styles', self.named),
                             ('office:automatic-styles', self.auto)):
                for b in root.iter(q(box)):
                    for e in b:
                        if e.tag == q('style:style'):
                            dst.setdefault((e.get(q('style:family')),
                                            e.get(q('style:name'))), e)

    def chain(self, family, name):
        out = []
        e = self.auto.get((family, name))
        if e is None:
            e = self.named.get((family, name))
        while e is not None and e not in out:
            out.append(e)
            e = self.named.get((family, e.get(
                q('style:parent-style-name'))))
        d = self.default.get(family)
        return out + ([] if d is None else [d])

    def attr(self, family, name, attr):
        for e in self.chain(family, name):
            v = e.get(q(attr))
            if v is not None:
                return v

    def prop(self, family, name, group, attr):
        for e in self.chain(family, name):
            for g in e.findall(q('style:' + group)):
                v = g.get(q(attr))
                if v is not None:
                    return v


def expected(tree):
    '''[(kind, node, owner)] in the order of the elements of the content'''
    out = []

    def para(p):
        out.append(('p', p, None))
        for ls in refdoc.linesegs(p):
            inline(ls, p)
        for ls in refdoc.linesegs(p):
            for t in refdoc.nested(ls, 'TableControl'):
                table(t)

    def inline(n, p):
        for k in n.kids:
            if k.name == 'Text':
                out.append(('span', k, p))
            elif refdoc.is_field(k):
                inline(k, p)
            elif k.name in ('FootNote', 'EndNote'):
                for lh in k.kids:
                    if lh.name == 'ListHeader':
                        for x in lh.kids:
                            if x.name == 'Paragraph':
                                para(x)
            elif k.name == 'GShapeObjectControl':
                for s in k.kids:
                    if s.name == 'ShapeComponent':
                        shape(s, k, k)

    def shape(s, up, gso):
        chid = s.attrs['chid']
        kind = {'$con': 'g', '$pic': 'frame', '$rec': 'rect',
                '$lin': 'line'}.get(chid)
        if kind is None:
            return
        out.append((kind, s, (up, gso)))
        for k in s.kids:
            if chid == '$con' and k.name == 'ShapeComponent':
                shape(k, s, gso)
            elif chid == '$rec' and k.name == 'TextboxParagraphList':
                blocks(k)

    def table(t):
        out.append(('table', t, None))
        for b in t.kids:
            if b.name == 'TableBody':
                for row in b.kids:
                    if row.name == 'TableRow':
                        for c in row.kids:
                            if c.name == 'TableCell':
                                out.append(('table-cell', c, None))
                                blocks(c)

    def blocks(n):
        for k in n.kids:
            if k.name == 'Paragraph':
                para(k)
            elif k.name != 'Text':
                blocks(k)
    body = [n for n in tree.kids if n.name == 'BodyText'][0]
    for s in body.kids:
        if s.name == 'SectionDef':
            n = len(out)
            blocks(s)
            if len(out) > n:
                out[n] = out[n][:2] + (s,)
    return out


KINDS = {q('text:p'): 'p', q('text:span'): 'span',
         q('table:table'): 'table', q('table:table-cell'): 'table-cell',
         q('draw:rect'): 'rect', q('draw:line'): 'line',
         q('draw:g'): 'g', q('draw:frame'): 'frame'}
OPS = re.compile(r'\s*(\w+)\s*\(([^)]*)\)')


class P24(core.Check):
    PROP = 'P24'
    RULE = ('one comparison = one formatting property of one run, '
            'paragraph, cell, table, object or section as its styles come '
            'to; distinct = the formatting of the elements seen')
    CASE_TIMEOUT = 240
    PER_CASE = 2
    KINDS = [('plain', 14, 300), ('styles', 14, 300), ('mixed', 14, 300),
             ('table', 12, 300), ('draw', 12, 250), ('dist', 2, 30),
             ('names', 2, 20), ('fields', 8, 150)]

    def setup(self):
        cli.warm()

    def cases(self):
        c = []
        for k, n, t in self.KINDS:
            c += [(k, core.SEED, i) for i in range(core.scale(n, t))]
        c += [('file', n) for n in docs.usable_samples()]
        return c

    def minimum(self, counts):
        return {'packages': 60, 'single': 20, 'spans': 500,
                'spans:reset': 50, 'paragraphs': 200, 'cells': 100,
                'sections': 60, 'tables': 50, 'shapes': 50, 'lines': 30,
                'fonts:western': 200}

    def features(self, kind, r):
        base = dict(odf=True, objects=25, formatting=True,
                    table_in_textbox=False,
                    shapes=('$rec', '$pic', '$con', '$lin'))
        base.update(dict(
            plain=dict(table=0, gso=0, paras=(1, 8)),
            styles=dict(table=.05, gso=0, paras=(2, 10), oddstyles=.5),
            mixed=dict(table=.2, gso=.2, note=.15, field=.2),
            table=dict(table=.35),
            draw=dict(gso=.4, table=.05, images=(1, 4)),
            dist=dict(dist=True),
            names=dict(table=0, gso=0, badstyles=.1),
            fields=dict(table=0, gso=0, note=0, field=.7, chars=.02,
                        simple=0, novlineseg=0, paras=(3, 9)),
        )[kind])
        return base

    def run(self, ctx, case):
        if case[0] == 'file':
            s = docs.Sample(case[1])
            return self.observe(ctx, core.rng('P24', *case), s.path, s.xml())
        r = core.rng(self.PROP, *case)
        for i in range(self.PER_CASE):
            doc = docgen.generate(r, **self.features(case[0], r))
            path = docs.write(doc)
            self.observe(ctx, r, path, doc.xml())
            core.rmdir(os.path.dirname(path))

    def observe(self, ctx, r, path, tree):
        d = core.newdir('odf')
        out = os.path.join(d, 'out')
        route = r.choice(['package', 'package', 'library', 'single'])
        # names of styles with symbols which no name can have: a known finding
        rare = any(re.search('[\ue000-\uf8ff\u2b50\u2701]',
                             s.attrs['local-name'])
                   for s in tree.find('Style'))
        if rare:
            ctx.ev('rare-names')
        if route == 'library':
            from hwp5.errors import ValidationFailed
            from hwp5.hwp5odt import ODTTransform, open_odtpkg
            from hwp5.xmlmodel import Hwp5File
            f = Hwp5File(path)
            try:
                with open_odtpkg(out) as pkg:
                    ODTTransform().transform_hwp5_to_package(f, pkg)
            except ValidationFailed as x:
                ctx.fail('refused-style-name' if rare else 'refused', repr(x))
                return core.rmdir(d)
            finally:
                f.close()
        else:
            x = cli.run('hwp5odt', *(['--document'] * (route == 'single') +
                                     ['--output', out, path]))
            mech = 'refused-style-name' if rare and \
                'ValidationFailed' in x.err else 'exit'
            if not ctx.eq(mech, x.code, 0, 'exit status %r' % x):
                return core.rmdir(d)
        with open(out, 'rb') as f:
            data = f.read()
        core.rmdir(d)
        if route == 'single':
            ctx.ev('single')
            content = styles = ET.fromstring(data)
        else:
            ctx.ev('packages')
            with zipfile.ZipFile(io.BytesIO(data)) as z:
                content = ET.fromstring(z.read('content.xml'))
                styles = ET.fromstring(z.read('styles.xml'))
        self.judge(ctx, Styles(styles, content), content, tree)

    def judge(self, ctx, st, content, tree):
        sh = Shapes(tree)
        want = expected(tree)
        got = [(KINDS[e.tag], e)
               for e in content.find(q('office:body')).iter()
               if e.tag in KINDS]
        if not ctx.eq('structure', [k for k, _ in got],
                      [k for k, _, _ in want], 'elements of the content'):
            return
        self.para = {}
        for (kind, e), (_, n, owner) in zip(got, want):
            if kind == 'p':
                self.para[id(n)] = e
            getattr(self, 'do_' + kind.replace('-', '_'))(
                ctx, st, e, n, owner, sh)

    def length(self, ctx, mech, got, want, what, tol=.0051):
        g = length(got)
        return ctx.check(mech, g is not None and
                         abs(g - want) <= tol + 1e-6 * abs(want),
                         '%s: %r, expected %.3fmm (%.2fpt)' % (
                             what, got, want, want * 72 / 25.4))

    # ------------------------------------------------------------------
    def do_span(self, ctx, st, e, n, p, sh):
        c = sh.char(n.attrs['charshape-id'])
        if c is None:
            return
        ctx.ev('spans')
        hs = sh.pick(sh.styles, p.attrs['style-id'])
        sc = hs and sh.char(hs.attrs['charshape-id'])
        if sc is not None and sc is not c and any(
                sc.attrs[a] != c.attrs[a] and c.attrs[a] in ('0', 'none')
                for a in ('bold', 'italic', 'underline')):
            ctx.ev('spans:reset')
        who = 'run %r of shape %s' % ((n.text or '')[:10],
                                      n.attrs['charshape-id'])
        name = e.get(q('text:style-name'))
        pname = self.para[id(p)].get(q('text:style-name'))

        def prop(a):
            if name is not None:
                v = st.prop('text', name, 'text-properties', a)
                if v is not None:
                    return v
            return st.prop('paragraph', pname, 'text-properties', a)
        for suffix in ('', '-asian', '-complex'):
            ns = 'style:font-%s' + suffix if suffix else 'fo:font-%s'
            ctx.eq('run-weight', prop(ns % 'weight') or 'normal',
                   'bold' if c.attrs['bold'] == '1' else 'normal',
                   who + ': weight' + suffix)
            ctx.eq('run-slant', prop(ns % 'style') or 'normal',
                   'italic' if c.attrs['italic'] == '1' else 'normal',
                   who + ': slant' + suffix)
            lang = {'': 'en', '-asian': 'ko', '-complex': 'other'}[suffix]
            size = int(c.attrs['basesize']) * int(
                sub(c, 'RelativeSize').attrs[lang]) / 100.
            self.length(ctx, 'run-size', prop(ns % 'size'), units(size),
                        '%s: size%s' % (who, suffix), 1e-5)
            if suffix != '-complex':
                font = sh.font(c, lang)
                if font is not None:
                    ctx.ev('fonts:' + ('western' if lang == 'en' else
                                       'asian'))
                    ctx.eq('run-font', prop('style:font-name' + suffix),
                           font, '%s: font (%s)' % (who, lang))
                    if not set(font) & set('\'"'):
                        ctx.check('font-face', any(
                            (f or '').strip('\'"') == font
                            for f in st.faces.get(font, ())),
                            'font %r is declared as %r' % (
                                font, st.faces.get(font)))
        line = LINE[c.attrs['underline']]
        for k in ('underline', 'overline', 'line-through'):
            typ = prop('style:text-%s-type' % k) or 'none'
            sty = prop('style:text-%s-style' % k) or (
                'none' if typ == 'none' else 'solid')
            seen = typ != 'none' and sty != 'none'
            ctx.eq('run-line', seen, k == line, '%s: %s' % (who, k))
            if k != line or not seen:
                continue
            ctx.ev('lines')
            ctx.eq('run-line-color', prop('style:text-%s-color' % k),
                   c.attrs['underline-color'], '%s: color of the %s' % (
                       who, k))
            u = c.attrs['underline-style']
            if u in LINESTYLE:
                ctx.eq('run-line-style', (typ, sty), (
                    'double' if u in DOUBLE else 'single', LINESTYLE[u]),
                    '%s: %s %s' % (who, u, k))
        ctx.distinct('run', sorted(c.attrs.items()))

    def do_p(self, ctx, st, e, n, section, sh):
        s = sh.para(n.attrs['parashape-id'])
        if s is None:
            return
        ctx.ev('paragraphs')
        a = s.attrs
        name = e.get(q('text:style-name'))
        who = 'paragraph %s of shape %s, style %s' % (
            n.attrs['paragraph-id'], n.attrs['parashape-id'],
            n.attrs['style-id'])

        def prop(x):
            return st.prop('paragraph', name, 'paragraph-properties', x)
        al = {'start': 'left', 'end': 'right'}.get(
            prop('fo:text-align'), prop('fo:text-align'))
        ctx.eq('para-align', al, ALIGN.get(a['align'], 'justify'),
               who + ': alignment')
        indent = int(a['indent']) / 2.
        self.length(ctx, 'para-indent', prop('fo:text-indent'),
                    units(indent), who + ': indentation', 1e-4)
        for side in SIDES:
            m = int(a['doubled-margin-' + side]) / 2.
            if side == 'left':
                m += max(0, -indent)
            self.length(ctx, 'para-margin', prop('fo:margin-' + side),
                        units(m), '%s: %s margin' % (who, side), 1e-4)
        sp = int(a['linespacing'])
        t = a['linespacing-type']
        if t == 'ratio':
            ctx.eq('para-line-height', prop('fo:line-height'), '%d%%' % sp,
                   who + ': line height')
        elif t == 'fixed':
            self.length(ctx, 'para-line-height', prop('fo:line-height'),
                        units(sp / 2.), who + ': line height', 1e-4)
        elif t == 'spaceonly':
            self.length(ctx, 'para-line-spacing', prop('style:line-spacing'),
                        units(sp / 4.), who + ': line spacing', 1e-4)
        ctx.eq('para-break', prop('fo:break-before') or 'auto',
               'page' if n.attrs['new-page'] == '1' else 'auto',
               who + ': page break')
        ctx.distinct('para', sorted(a.items()))
        master = st.attr('paragraph', name, 'style:master-page-name') or None
        if section is None:
            if n.attrs['new-section'] != '1':
                ctx.eq('para-master', master, None, who + ': master page')
            return
        if n.attrs['new-section'] != '1':
            return
        ctx.ev('sections')
        self.section(ctx, st, master, section)

    def section(self, ctx, st, master, section):
        pd = sub(section, 'PageDef')
        if pd is None:
            return
        a = pd.attrs
        who = 'section %s' % section.attrs['section-id']
        m = st.master.get(master)
        if not ctx.check('master-page', m is not None,
                         '%s: no master page (%r)' % (who, master)):
            return
        lay = st.layout.get(m.get(q('style:page-layout-name')))
        if not ctx.check('page-layout', lay is not None,
                         '%s: no page layout' % who):
            return
        pr = lay.find(q('style:page-layout-properties'))
        land = a['orientation'] == 'landscape'
        ctx.eq('page-orientation', pr.get(q('style:print-orientation')),
               a['orientation'], who + ': orientation')
        for k, v in (('page-width', a['height' if land else 'width']),
                     ('page-height', a['width' if land else 'height'])):
            self.length(ctx, 'page-size', pr.get(q('fo:' + k)), units(v),
                        '%s: %s' % (who, k), .051)
        for s in SIDES:
            self.length(ctx, 'page-margin', pr.get(q('fo:margin-' + s)),
                        units(a[s + '-offset']),
                        '%s: %s margin' % (who, s), .051)

    def do_table(self, ctx, st, e, n, owner, sh):
        ctx.ev('tables')
        name = e.get(q('table:style-name'))

        def prop(x):
            return st.prop('table', name, 'table-properties', x)
        a = n.attrs
        sides = ['top', 'bottom']
        if a['width-relto'] == 'absolute':
            self.length(ctx, 'table-width', prop('style:width'),
                        units(a['width']), 'table: width')
            sides += ['left', 'right']
        for s in sides:
            self.length(ctx, 'table-margin', prop('fo:margin-' + s),
                        units(a['margin-' + s]), 'table: %s margin' % s)
        ctx.eq('table-borders', prop('table:border-model'),
               'collapsing' if sub(n, 'TableBody').attrs['cellspacing'] ==
               '0' else 'separating', 'table: border model')

    def do_table_cell(self, ctx, st, e, n, owner, sh):
        ctx.ev('cells')
        name = e.get(q('table:style-name'))
        who = 'cell %s,%s' % (n.attrs['row'], n.attrs['col'])

        def prop(x):
            return st.prop('table-cell', name, 'table-cell-properties', x)
        for s in SIDES:
            self.length(ctx, 'cell-padding', prop('fo:padding-' + s),
                        units(n.attrs['padding-' + s]),
                        '%s: %s padding' % (who, s))
        i = int(n.attrs['borderfill-id'])
        f = sh.pick(sh.fills, i - 1) if i else None
        if f is None:
            return
        ctx.distinct('fill', sorted(f.attrs.items()))
        for s in SIDES:
            b = sub(f, 'Border', attribute_name=s).attrs
            v = (prop('fo:border-' + s) or '').split()
            if not ctx.check('border', len(v) == 3, '%s: %s border %r' % (
                    who, s, v)):
                continue
            ctx.ev('borders')
            ctx.eq('border-color', v[2], b['color'],
                   '%s: color of the %s border' % (who, s))
            m = length(b['width'])
            if m is not None:
                self.length(ctx, 'border-width', v[0], m,
                            '%s: width of the %s border' % (who, s), 1e-6)
            if b['stroke-type'] in STROKE:
                ctx.check('border-style', v[1] in STROKE[b['stroke-type']],
                          '%s: %s border %r for %r' % (
                              who, s, v[1], b['stroke-type']))
        c = sub(f, 'FillColorPattern')
        ctx.eq('background', prop('fo:background-color') or 'transparent',
               'transparent' if c is None else c.attrs['background-color'],
               who + ': background')

    # ---- drawing ------------------------------------------------------
    def shape(self, ctx, st, e, n, owner):
        ctx.ev('shapes')
        up, gso = owner
        name = e.get(q('draw:style-name'))
        who = 'shape %s %s' % (n.attrs['shape-id'], n.attrs['chid'])

        def prop(x):
            return st.prop('graphic', name, 'graphic-properties', x)
        if n.attrs['chid'] != '$con':
            c = sub(n, 'FillColorPattern')
            ctx.eq('shape-fill', prop('draw:fill'),
                   'none' if c is None else 'solid', who + ': fill')
            if c is not None:
                ctx.ev('shape-fills')
                ctx.eq('shape-fill-color', prop('draw:fill-color'),
                       c.attrs['background-color'], who + ': color')
            b = sub(n, 'BorderLine')
            if b is not None:
                ctx.ev('shape-strokes')
                ctx.eq('shape-stroke', prop('draw:stroke'),
                       {'none': 'none', 'dashed': 'dash', 'dotted': 'dash'}
                       .get(b.attrs['stroke'], 'solid'),
                       '%s: stroke %s' % (who, b.attrs['stroke']))
                ctx.eq('shape-stroke-color', prop('svg:stroke-color'),
                       b.attrs['color'], who + ': color of the stroke')
                self.length(ctx, 'shape-stroke-width',
                            prop('svg:stroke-width'),
                            units(b.attrs['width']),
                            who + ': width of the stroke')
        if up is gso:
            self.placed(ctx, e, prop, gso.attrs, who)
        return who

    def placed(self, ctx, e, prop, a, who):
        for s in SIDES:
            self.length(ctx, 'shape-margin', prop('fo:margin-' + s),
                        units(a['margin-' + s]), '%s: %s margin' % (who, s))
        inline = a['inline'] == '1'
        ctx.eq('shape-anchor', e.get(q('text:anchor-type')),
               'as-char' if inline else 'paragraph', who + ': anchor')
        if inline:
            ctx.eq('shape-inline', prop('style:vertical-rel'), 'baseline',
                   who + ': vertical position')
            return
        want = {'float': WRAP.get(a['text-side']), 'block': 'none',
                'back': 'run-through', 'front': 'run-through'}.get(a['flow'])
        if want:
            ctx.eq('shape-wrap', prop('style:wrap'), want, '%s: text '
                   'around (%s, %s)' % (who, a['flow'], a['text-side']))
        rel = {'page': 'page-content', 'paper': 'page',
               'paragraph': 'paragraph'}
        for k, x in (('vertical', 'vrelto'), ('horizontal', 'hrelto')):
            if a[x] in rel:
                ctx.eq('shape-rel', prop('style:%s-rel' % k), rel[a[x]],
                       '%s: %s relative to %s' % (who, k, a[x]))
        want = {'left': 'from-left', 'inside': 'from-inside',
                'center': 'center' if a['x'] == '0' else None,
                'right': 'right' if a['x'] == '0' else None,
                'outside': 'outside' if a['x'] == '0' else None}.get(
                    a['halign'])
        if want:
            ctx.eq('shape-pos', prop('style:horizontal-pos'), want,
                   '%s: aligned to %s' % (who, a['halign']))
        want = {'top': 'from-top',
                'middle': 'middle' if a['y'] == '0' else None,
                'bottom': 'bottom' if a['y'] == '0' else None}.get(
                    a['valign'])
        if want:
            ctx.eq('shape-pos', prop('style:vertical-pos'), want,
                   '%s: aligned to %s' % (who, a['valign']))

    def do_g(self, ctx, st, e, n, owner, sh):
        self.shape(ctx, st, e, n, owner)

    def do_frame(self, ctx, st, e, n, owner, sh):
        who = self.shape(ctx, st, e, n, owner)
        up, gso = owner
        a = gso.attrs
        for k in ('width', 'height'):
            if up is gso and a[k + '-relto'] != 'absolute':
                continue
            self.length(ctx, 'frame-size', e.get(q('svg:' + k)),
                        units(n.attrs['initial-' + k]), '%s: %s' % (who, k))
        if up is gso:
            ctx.eq('frame-order', e.get(q('draw:z-index')), a['z-order'],
                   who + ': order')
            if a['inline'] == '0':
                for k in 'xy':
                    self.length(ctx, 'frame-place', e.get(q('svg:' + k)),
                                units(a[k]), '%s: %s' % (who, k))
        self.transform(ctx, e, n, gso.attrs, who)

    def do_rect(self, ctx, st, e, n, owner, sh):
        who = self.shape(ctx, st, e, n, owner)
        a = owner[1].attrs
        for k in 'xy':
            self.length(ctx, 'rect-place', e.get(q('svg:' + k)),
                        units(a[k]), '%s: %s' % (who, k))
        r = sub(n, 'ShapeRectangle')
        if r is not None:
            p = [(int(k.attrs['x']), int(k.attrs['y'])) for k in r.kids
                 if k.name == 'Coord']
            for k, v in (('width', p[1][0] - p[0][0]),
                         ('height', p[2][1] - p[1][1])):
                self.length(ctx, 'rect-size', e.get(q('svg:' + k)),
                            units(v), '%s: %s' % (who, k))
        self.transform(ctx, e, n, a, who)

    def do_line(self, ctx, st, e, n, owner, sh):
        who = self.shape(ctx, st, e, n, owner)
        a = owner[1].attrs
        c = sub(n, 'Coord', attribute_name='rotation_center')
        if c is None:
            return
        for k in 'xy':
            for i, v in (('1', int(a[k])),
                         ('2', int(a[k]) + 2 * int(c.attrs[k]))):
                self.length(ctx, 'line-end', e.get(q('svg:' + k + i)),
                            units(v), '%s: %s%s' % (who, k, i))

    def transform(self, ctx, e, n, a, who):
        got = []
        for f, args in OPS.findall(e.get(q('draw:transform')) or ''):
            v = [x if length(x) is None else length(x)
                 for x in args.replace(',', ' ').split()]
            try:
                v = [float(x) for x in v]
            except ValueError:
                v = None
            if f == 'translate' and v and len(v) == 2:
                v = [1, 0, 0, 1] + v
            got.append(v if v and len(v) == 6 else (f, args))
        x, y = units(a['x']), units(a['y'])
        want = [[1, 0, 0, 1, -x, -y]]

        def matrix(m):
            m = m.attrs
            want.append([float(m[k]) for k in 'abcd'] +
                        [units(float(m[k])) for k in 'ef'])
        arr = sub(n, 'Array')
        for k in (arr.kids if arr is not None else []):
            if k.name == 'ScaleRotationMatrix':
                matrix(sub(k, 'Matrix', attribute_name='scaler'))
                matrix(sub(k, 'Matrix', attribute_name='rotator'))
        m = sub(n, 'Matrix', attribute_name='translation')
        if m is not None:
            matrix(m)
        want.append([1, 0, 0, 1, x, y])

        def close(g, w):
            return not isinstance(g, tuple) and all(
                abs(p - s) <= (1e-9 if i < 4 else .0051) + 1e-6 * abs(s)
                for i, (p, s) in enumerate(zip(g, w)))

        def plain(l):
            return [v for v in l if isinstance(v, tuple) or
                    not close(v, [1, 0, 0, 1, 0, 0])]
        got, want = plain(got), plain(want)
        ctx.check('transform', len(got) == len(want) and
                  all(map(close, got, want)),
                  '%s: transform %r, expected %r' % (who, got, want))


if __name__ == '__main__':
    sys.exit(core.main(P24(), sys.argv[1:]))
