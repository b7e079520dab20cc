# -*- coding: utf-8 -*-
'''P08: OpenDocument.  The produced packages are judged by an independent
package reader, the OpenDocument schema, a style-reference checker and the
content expected from the records.'''
import base64
import io
import os
import sys
import zipfile
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cli, core, docgen, docs, refdoc
from vlib.refdoc import q, NS

MANIFEST = '{urn:oasis:names:tc:opendocument:xmlns:manifest:1.0}'
_rng = []


def schema():
    if not _rng:
        from lxml import etree
        _rng.append(etree.RelaxNG(etree.parse(os.path.join(
            core.SRC, 'hwp5', 'odf-relaxng',
            'OpenDocument-v1.2-os-schema.rng'))))
    return _rng[0]


def valid(data):
    '''None or the first error'''
    from lxml import etree
    s = schema()
    try:
        t = etree.fromstring(data, etree.XMLParser(huge_tree=True))
    except etree.XMLSyntaxError as e:
        return 'not well formed: %s' % e
    if s.validate(t):
        return None
    return '; '.join(e.message for e in list(s.error_log)[:4])


REFS = {'text:style-name': None, 'table:style-name': None,
        'draw:style-name': 'graphic', 'style:parent-style-name': None,
        'style:next-style-name': 'paragraph',
        'style:master-page-name': 'master', 'style:page-layout-name':
        'layout', 'style:font-name': 'font', 'style:font-name-asian': 'font',
        'style:font-name-complex': 'font'}
REFS = {q(k): v for k, v in REFS.items()}
FAMILY = {q('text:p'): 'paragraph', q('text:span'): 'text',
          q('table:table'): 'table', q('table:table-cell'): 'table-cell',
          q('table:table-row'): 'table-row',
          q('table:table-column'): 'table-column',
          q('draw:rect'): 'graphic', q('draw:line'): 'graphic',
          q('draw:g'): 'graphic', q('draw:frame'): 'graphic'}


def style_names(*roots):
    '''set of (family, name) defined, and list of duplicates'''
    out = {}
    for root in roots:
        for e in root.iter():
            n = e.get(q('style:name'))
            if n is None:
                continue
            if e.tag == q('style:style'):
                f = e.get(q('style:family'))
            elif e.tag == q('style:master-page'):
                f = 'master'
            elif e.tag == q('style:page-layout'):
                f = 'layout'
            elif e.tag == q('style:font-face'):
                f = 'font'
            else:
                f = e.tag
            out.setdefault((f, n), []).append(e)
    return out


class P08(core.Check):
    PROP = 'P08'
    RULE = ('one comparison = one judged aspect (package, schema, styles, '
            'content, image) of one conversion; distinct = (element kinds '
            'in the document, parts in the package)')
    CASE_TIMEOUT = 240
    PER_CASE = 2
    KINDS = [('plain', 14, 300), ('table', 12, 250), ('draw', 12, 250),
             ('notes', 6, 120), ('fields', 10, 200), ('images', 6, 120),
             ('free', 6, 150), ('dist', 3, 40), ('sections', 3, 40),
             ('deep', 2, 20), ('large', 2, 30), ('bigimage', 1, 4)]

    def setup(self):
        cli.warm()
        schema()

    def cases(self):
        c = []
        for k, n, t in self.KINDS:
            c += [(k, core.SEED, i) for i in range(core.scale(n, t))]
        c += [('file', n) for n in docs.usable_samples()]
        return c

    def minimum(self, counts):
        return {'packages': 100, 'parts': 400, 'images': 20,
                'style-refs': 1000, 'table': 50, 'note': 20, 'rect': 20,
                'spans-styled': 100, 'nested-binaries': 15,
                'terminals': 3, 'stdout': 3}

    def features(self, kind, r):
        base = dict(odf=True, objects=25, table_in_textbox=False,
                    shapes=('$rec', '$pic', '$con', '$lin'))
        base.update(dict(
            plain=dict(table=0, gso=0, paras=(1, 8)),
            table=dict(table=.35, gso=0, note=.05),
            draw=dict(gso=.35, table=.05),
            notes=dict(note=.3, table=.05),
            fields=dict(field=.5, table=.1, gso=.1,
                        unclosed=r.choice([0, .4])),
            images=dict(gso=.4, table=0, shapes=('$pic', '$con'),
                        images=(1, 6)),
            free=dict(odf=False, wild=r.random() < .3,
                      table_in_textbox=True,
                      shapes=docgen.Features.shapes),
            dist=dict(dist=True),
            sections=dict(sections=(9, 13), paras=(1, 2), objects=8),
            bigimage=dict(gso=.4, table=0, shapes=('$pic',), images=(1, 3),
                          sections=(1, 1)),
            deep=dict(chain=r.randrange(30, 80), objects=0, paras=(1, 2),
                      sections=(1, 1)),
            large=docgen.large(r, (1000, 3000)),
        )[kind])
        return base

    def run(self, ctx, case):
        if case[0] == 'file':
            s = docs.Sample(case[1])
            pics = {n: s.content('BinData/' + n) for n in
                    [p.split('/', 1)[1] for p in s.flat
                     if p.startswith('BinData/')]}
            return self.observe(ctx, core.rng('P08', *case), s.path,
                                s.xml(), pics, True)
        r = core.rng(self.PROP, *case)
        big = case[0] == 'bigimage'
        for i in range(1 if big or case[0] == 'large' else self.PER_CASE):
            doc = docgen.generate(r, **self.features(case[0], r))
            if big:
                # beyond what XML parsers accept as one text by default
                n = r.choice(sorted(doc.bindata))
                doc.bindata[n] = r.randbytes(r.randrange(8, 14) * 1000000)
                doc.level = 1
            pics = dict(doc.bindata)
            if r.random() < .3:
                ctx.ev('nested-binaries')
                pics.update(docgen.nest(r, doc))
            path = docs.write(doc)
            self.observe(ctx, r, path, doc.xml(), pics, case[0] != 'free',
                         big)
            core.rmdir(os.path.dirname(path))

    # ------------------------------------------------------------------
    def observe(self, ctx, r, path, tree, pics, must, big=False):
        from hwp5.errors import ValidationFailed
        d = core.newdir('odt')
        out = os.path.join(d, 'x.odt')
        route = 'cli' if big else r.choice(['library', 'cli', 'cli'])
        embed = False
        if route == 'cli':
            ctx.ev('cli')
            embed = big or r.random() < .25
            if r.random() < .3:
                # default destination: <name>.odt in the working directory
                x = cli.run('hwp5odt', *(['--embed-image'] * embed + [path]),
                            cwd=d)
                out = os.path.join(d, os.path.splitext(
                    os.path.basename(path))[0] + '.odt')
            else:
                with open(out, 'wb') as f:
                    f.write(b'PK stale' * 5000)
                x = cli.run('hwp5odt', *(['--embed-image'] * embed +
                                         ['--output', out, path]))
            ok = x.code == 0
            detail = repr(x)
        else:
            from hwp5.hwp5odt import ODTTransform, open_odtpkg
            from hwp5.xmlmodel import Hwp5File
            f = Hwp5File(path)
            try:
                t = ODTTransform()
                with open_odtpkg(out) as pkg:
                    t.transform_hwp5_to_package(f, pkg)
                ok = True
            except ValidationFailed as e:
                ok = False
                detail = repr(e)
            finally:
                f.close()
        if not ok:
            ctx.ev('refused')
            if must:
                ctx.fail('conversion-failed', 'a document within the '
                         'supported vocabulary was not converted (%s)'
                         % detail)
            core.rmdir(d)
            return
        ctx.ev('packages')
        if not ctx.check('no-output', os.path.exists(out),
                         'success without an output file'):
            return core.rmdir(d)
        parts = self.package(ctx, out)
        if parts is not None:
            self.content(ctx, parts, tree, pics, embed)
            if big or r.random() < .4:
                self.modes(ctx, r, path, d, parts, embed, tree, pics)
        core.rmdir(d)

    def package(self, ctx, out):
        try:
            with zipfile.ZipFile(out) as z:
                names = z.namelist()
                bad = z.testzip()
                parts = {n: z.read(n) for n in names}
                first = z.infolist()[0] if names else None
        except zipfile.BadZipfile as e:
            ctx.fail('package', 'unreadable package: %s' % e)
            return None
        ctx.eq('package-crc', bad, None, 'damaged part')
        ctx.eq('package-duplicates', len(names), len(set(names)),
               'parts %r' % names)
        ctx.ev('parts', len(names))
        ctx.eq('mimetype', parts.get('mimetype'),
               b'application/vnd.oasis.opendocument.text', 'mimetype part')
        # OpenDocument 1.2 part 3, 3.3: what tells the type by the first
        # bytes of the file relies on it
        ctx.check('mimetype-first', first is not None and (
            first.filename, first.compress_type, first.extra,
            first.header_offset) == ('mimetype', zipfile.ZIP_STORED, b'', 0),
            'the media type is not the first part, stored as it is: %r' %
            (names,))
        for n in ('content.xml', 'styles.xml', 'META-INF/manifest.xml'):
            if not ctx.check('package-parts', n in parts, 'no %s' % n):
                return None
        m = ET.fromstring(parts['META-INF/manifest.xml'])
        listed = [e.get(MANIFEST + 'full-path')
                  for e in m.findall(MANIFEST + 'file-entry')]
        want = sorted(n for n in names if n != 'mimetype' and
                      not n.startswith('META-INF/')) + ['/']
        ctx.eq('manifest', sorted(listed), sorted(want), 'manifest entries')
        for e in m.findall(MANIFEST + 'file-entry'):
            if e.get(MANIFEST + 'full-path') in ('content.xml', 'styles.xml'):
                ctx.eq('manifest-type', e.get(MANIFEST + 'media-type'),
                       'text/xml', 'media type')
        return parts

    def content(self, ctx, parts, tree, pics, embed):
        for n in ('content.xml', 'styles.xml'):
            ctx.eq('schema:' + n, valid(parts[n]), None, n)
        content = ET.fromstring(parts['content.xml'])
        styles = ET.fromstring(parts['styles.xml'])
        self.styles(ctx, styles, content, tree)
        self.body(ctx, content, tree, parts, pics, embed)
        # stored binaries
        got = {n[8:]: b for n, b in parts.items()
               if n.startswith('bindata/')}
        ctx.eq('bindata-names', sorted(got), sorted(pics), 'stored binaries')
        for n in sorted(pics):
            if n in got:
                ctx.ev('binaries')
                ctx.check('bindata-bytes', got[n] == pics[n],
                          '%s: %d bytes, expected %d' % (
                              n, len(got[n]), len(pics[n])))
        ctx.distinct(sorted(set(n.name for n in tree.walk())), sorted(parts))

    def body(self, ctx, content, tree, parts, pics, embed, where=''):
        want = refdoc.odt(tree)
        got = refdoc.read_odt(content)
        bins = bindatas(tree)

        def show(i):
            b = bins.get(i)
            if b is None:
                return ('data', None)
            n = b
            if embed:
                return ('data', pics.get(n))
            return ('href', 'bindata/' + n)

        def seen(x):
            if isinstance(x, list):
                return [seen(k) for k in x]
            if isinstance(x, tuple):
                if x[:1] == ('data',) and x[1] is not None:
                    return ('data', base64.b64decode(x[1]))
                return tuple(seen(k) for k in x)
            return x
        want = refdoc.replace_pics(want, show)
        got = seen(got)
        for x in refdoc.walk(want):
            if isinstance(x, tuple) and x:
                if x[0] in ('table', 'note', 'p'):
                    ctx.ev(x[0])
                elif x[0] == 'shape':
                    ctx.ev(x[1])
                elif x[0] in ('href', 'data'):
                    ctx.ev('images')
                    if x[0] == 'href':
                        ctx.check('image-missing', x[1] in parts,
                                  'no part %s' % x[1])
        ctx.counts['comparisons'] += 1
        d = refdoc.diff(got, want)
        if d:
            ctx.fail('content' + where, d)

    def styles(self, ctx, styles, content, tree):
        names = style_names(styles, content) if content is not styles \
            else style_names(styles)
        for k, es in names.items():
            # the same automatic style defined twice, differently
            if k[0] in ('text', 'table', 'table-cell', 'graphic') or \
                    k[1].startswith('Paragraph-'):
                ctx.check('style-duplicate', len(es) == 1,
                          '%r defined %d times' % (k, len(es)))
        for root in (styles, content):
            for e in root.iter():
                for a, fam in REFS.items():
                    v = e.get(a)
                    if v is None:
                        continue
                    f = fam or FAMILY.get(e.tag) or e.get(q('style:family'))
                    ctx.ev('style-refs')
                    ctx.check('style-undefined:%s' % a.rsplit('}')[-1],
                              (f, v) in names,
                              '%s refers to undefined %s style %r' %
                              (e.tag.rsplit('}')[-1], f, v))
            if content is styles:
                break
        # text spans carry the character shape of their run
        body = content.find(q('office:body'))
        spans = list(body.iter(q('text:span')))
        runs = [t for t in odt_texts(tree)]
        shapes = tree.find('CharShape')
        st = tree.find('Style')
        if ctx.eq('spans', len(spans), len(runs), 'number of text spans'):
            for sp, (t, p) in zip(spans, runs):
                i = int(t.attrs['charshape-id'])
                sid = int(p.attrs['style-id'])
                pi = int(st[sid].attrs['charshape-id']) if sid < len(st) \
                    else None
                name = sp.get(q('text:style-name'))
                if name is None:
                    ctx.eq('span-shape', i, pi, 'span without a style')
                    continue
                ctx.ev('spans-styled')
                es = names.get(('text', name))
                if not es or i >= len(shapes):
                    continue
                tp = es[0].find(q('style:text-properties'))
                c = shapes[i]
                rs = [k for k in c.kids if k.name == 'RelativeSize'][0]
                size = int(c.attrs['basesize']) * int(rs.attrs['en']) / 1e4
                g = tp.get(q('fo:font-size')) or ''
                if ctx.check('span-size', g.endswith('pt'), 'size %r' % g):
                    try:
                        v = float(g[:-2])
                    except ValueError:
                        v = None
                    ctx.check('span-size', v is not None and
                              abs(v - size) < 1e-6 * max(1, abs(size)),
                              '%s: size %s, expected %s' % (name, g, size))
                ctx.eq('span-weight', tp.get(q('fo:font-weight')) == 'bold',
                       c.attrs['bold'] == '1', '%s: bold' % name)
                ctx.eq('span-slant', tp.get(q('fo:font-style')) == 'italic',
                       c.attrs['italic'] == '1', '%s: italic' % name)

    def modes(self, ctx, r, path, d, parts, embed, tree, pics):
        for mode, part in (('--styles', 'styles.xml'),
                           ('--content', 'content.xml')):
            o = os.path.join(d, 'm.xml')
            opts = [mode] + ['--embed-image'] * embed
            old(r, o)
            x = cli.run('hwp5odt', *(opts + ['--output', o, path]))
            if ctx.eq('mode-exit', x.code, 0, '%s: %r' % (mode, x)):
                with open(o, 'rb') as f:
                    ctx.check('mode-output', f.read() == parts[part],
                              '%s differs from %s of the package'
                              % (mode, part))
            os.unlink(o) if os.path.exists(o) else None
            if r.random() < .15:
                self.shown(ctx, r, opts + [path], parts[part])
        ctx.ev('fodt')
        o = os.path.join(d, 'm.fodt')
        noembed = r.random() < .4
        old(r, o)
        x = cli.run('hwp5odt', *(['--document'] + ['--no-embed-image'] *
                                 noembed + ['--output', o, path]))
        if not ctx.eq('fodt-exit', x.code, 0, '--document: %r' % x):
            return
        with open(o, 'rb') as f:
            data = f.read()
        if r.random() < .15:
            self.shown(ctx, r, ['--document'] + ['--no-embed-image'] *
                       noembed + [path], data)
        ctx.eq('schema:fodt', valid(data), None, '--document')
        root = ET.fromstring(data)
        self.styles(ctx, root, root, tree)
        self.body(ctx, root, tree, parts, pics, not noembed, ':fodt')

    def shown(self, ctx, r, args, data):
        '''without --output: on the standard output, or a terminal'''
        if r.random() < .5:
            ctx.ev('terminals')
            x = cli.terminal('hwp5odt', *args)
            ctx.eq('mode-exit', x.code, 0, '%s on a terminal: %r' %
                   (args, x))
            return ctx.eq('terminal', cli.same_document(x.out, data), None,
                          '%s on a terminal' % args)
        ctx.ev('stdout')
        x = cli.run('hwp5odt', *args)
        ctx.eq('mode-exit', x.code, 0, '%s: %r' % (args, x))
        ctx.check('stdout', x.out == data, '%s: %d bytes on the standard '
                  'output, %d in the file' % (args, len(x.out), len(data)))


def old(r, path):
    '''an earlier result, to be replaced'''
    if r.random() < .5:
        with open(path, 'wb') as f:
            f.write(b'<old/>' * 60000)


def odt_texts(tree):
    '''(Text, its Paragraph) in the order in which they are shown'''
    out = []

    def blocks(n):
        for k in n.kids:
            if k.name == 'Paragraph':
                para(k)
            elif k.name != 'Text':
                blocks(k)

    def para(p):
        for ls in refdoc.linesegs(p):
            inline(ls, p)
        for ls in refdoc.linesegs(p):
            for t in refdoc.nested(ls, 'TableControl'):
                for b in t.kids:
                    if b.name == 'TableBody':
                        for row in b.kids:
                            if row.name == 'TableRow':
                                for c in row.kids:
                                    if c.name == 'TableCell':
                                        blocks(c)

    def shape(s):
        if s.attrs['chid'] == '$con':
            for k in s.kids:
                if k.name == 'ShapeComponent':
                    shape(k)
        elif s.attrs['chid'] == '$rec':
            for k in s.kids:
                if k.name == 'TextboxParagraphList':
                    blocks(k)

    def inline(n, p):
        for k in n.kids:
            if k.name == 'Text':
                out.append((k, p))
            elif refdoc.is_field(k):
                inline(k, p)
            elif k.name in ('FootNote', 'EndNote'):
                for lh in k.kids:
                    if lh.name == 'ListHeader':
                        for x in lh.kids:
                            if x.name == 'Paragraph':
                                para(x)
            elif k.name == 'GShapeObjectControl':
                for s in k.kids:
                    if s.name == 'ShapeComponent':
                        shape(s)
    body = [n for n in tree.kids if n.name == 'BodyText'][0]
    for s in body.kids:
        if s.name == 'SectionDef':
            blocks(s)
    return out


def bindatas(tree):
    '''1-based index -> stored name of embedded binaries'''
    out = {}
    i = 0
    for ids in tree.find('IdMappings'):
        for b in ids.kids:
            if b.name == 'BinData':
                i += 1
                if b.attrs.get('storage') == 'embedding':
                    for e in b.kids:
                        if e.name == 'BinDataEmbedding':
                            out[i] = '%s.%s' % (e.attrs['storage-id'],
                                                e.attrs['ext'])
    return out


if __name__ == '__main__':
    sys.exit(core.main(P08(), sys.argv[1:]))
