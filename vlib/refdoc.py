# -*- coding: utf-8 -*-
'''Reference content of converted documents, computed from the reference
tree, and readers which bring OpenDocument and XHTML into the same form.

inline:  str (merged) | ('note', class, citation, blocks) |
         ('shape', kind, payload) | ('auto', text) | ('itable', table) |
         ('igso', blocks)
block:   ('p', [inline...]) | ('table', caption, [[(colspan, rowspan,
         blocks)]]) | ('gso', blocks) | ('img', href)'''
import xml.etree.ElementTree as ET
from . import refxml

clean = refxml.clean


def is_field(n):
    return n.name.startswith('Field')


def push(items, s):
    if not s:
        return
    if items and isinstance(items[-1], str):
        items[-1] += s
    else:
        items.append(s)


def linesegs(p):
    return [k for k in p.kids if k.name == 'LineSeg']


def nested(n, name):
    '''elements of the name in a line segment or the fields within it'''
    for k in n.kids:
        if k.name == name:
            yield k
        elif is_field(k):
            for x in nested(k, name):
                yield x


# ---- OpenDocument ----------------------------------------------------

def odt(root):
    body = [n for n in root.kids if n.name == 'BodyText'][0]
    out = []
    for s in body.kids:
        if s.name == 'SectionDef':
            out += odt_blocks(s)
    return out


def odt_blocks(n):
    out = []
    for k in n.kids:
        if k.name == 'Paragraph':
            out += odt_para(k)
        elif k.name not in ('Text',):
            out += odt_blocks(k)
    return out


def odt_para(p):
    items = []
    for ls in linesegs(p):
        odt_inline(ls, items)
    out = [('p', items)]
    for ls in linesegs(p):
        for t in nested(ls, 'TableControl'):
            out.append(odt_table(t))
    return out


def odt_inline(n, items):
    for k in n.kids:
        if k.name == 'Text':
            push(items, clean(k.text or ''))
        elif is_field(k):
            odt_inline(k, items)
        elif k.name in ('FootNote', 'EndNote'):
            ps = []
            for lh in k.kids:
                if lh.name == 'ListHeader':
                    for p in lh.kids:
                        if p.name == 'Paragraph':
                            ps += odt_para(p)
            items.append(('note', k.name.lower(), k.attrs['number'], ps))
        elif k.name == 'GShapeObjectControl':
            for s in k.kids:
                if s.name == 'ShapeComponent':
                    items.extend(odt_shape(s))


def odt_shape(s):
    chid = s.attrs['chid']
    if chid == '$con':
        kids = []
        for k in s.kids:
            if k.name == 'ShapeComponent':
                kids += odt_shape(k)
        return [('shape', 'g', kids)]
    if chid == '$pic':
        return [('shape', 'frame', [pic_id(k) for k in s.kids
                                    if k.name == 'ShapePicture'])]
    if chid == '$rec':
        bl = []
        for k in s.kids:
            if k.name == 'TextboxParagraphList':
                bl += odt_blocks(k)
        return [('shape', 'rect', bl)]
    if chid == '$lin':
        return [('shape', 'line', None)]
    return []


def pic_id(n):
    i = [k for k in n.kids if k.name == 'PictureInfo'][0]
    return int(i.attrs['bindata-id'])


def odt_table(t):
    rows = []
    cols = None
    for b in t.kids:
        if b.name == 'TableBody':
            cols = b.attrs['cols']
            for row in b.kids:
                if row.name == 'TableRow':
                    rows.append([(c.attrs['colspan'], c.attrs['rowspan'],
                                  odt_blocks(c)) for c in row.kids
                                 if c.name == 'TableCell'])
    return ('table', cols, rows)


NS = dict(text='urn:oasis:names:tc:opendocument:xmlns:text:1.0',
          table='urn:oasis:names:tc:opendocument:xmlns:table:1.0',
          draw='urn:oasis:names:tc:opendocument:xmlns:drawing:1.0',
          office='urn:oasis:names:tc:opendocument:xmlns:office:1.0',
          style='urn:oasis:names:tc:opendocument:xmlns:style:1.0',
          fo='urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0',
          xlink='http://www.w3.org/1999/xlink')


def q(s):
    p, n = s.split(':')
    return '{%s}%s' % (NS[p], n)


def read_odt(content):
    '''content.xml (root element) -> blocks'''
    body = content.find(q('office:body')).find(q('office:text'))
    return rd_blocks(body)


IGNORED = ('sequence-decls', 'variable-decls', 'tracked-changes', 'forms')


def rd_blocks(e):
    out = []
    for k in e:
        if k.tag == q('text:p'):
            out.append(('p', rd_inline(k)))
        elif k.tag == q('table:table'):
            cols = 0
            rows = []
            for x in k:
                if x.tag == q('table:table-column'):
                    cols += int(x.get(q('table:number-columns-repeated'),
                                      '1'))
                elif x.tag == q('table:table-row'):
                    rows.append([(c.get(q('table:number-columns-spanned'),
                                        '1'),
                                  c.get(q('table:number-rows-spanned'), '1'),
                                  rd_blocks(c))
                                 for c in x if c.tag == q('table:table-cell')])
                else:
                    out.append(('unknown', x.tag))
            out.append(('table', str(cols), rows))
        elif k.tag.rsplit('}')[-1] not in IGNORED:
            out.append(('unknown', k.tag))
    return out


def rd_inline(e, items=None):
    items = [] if items is None else items
    push(items, e.text)
    for k in e:
        if k.tag == q('text:span'):
            rd_inline(k, items)
        elif k.tag == q('text:note'):
            items.append(('note', k.get(q('text:note-class')),
                          k.findtext(q('text:note-citation')),
                          rd_blocks(k.find(q('text:note-body')))))
        else:
            items.append(rd_shape(k))
        push(items, k.tail)
    return items


def rd_shape(k):
    n = k.tag
    if n == q('draw:g'):
        return ('shape', 'g', [rd_shape(x) for x in k])
    if n == q('draw:frame'):
        out = []
        for x in k:
            if x.tag != q('draw:image'):
                out.append(('unknown', x.tag))
            elif x.get(q('xlink:href')) is not None:
                out.append(('href', x.get(q('xlink:href'))))
            else:
                b = x.findtext(q('office:binary-data'))
                out.append(('data', b))
        return ('shape', 'frame', out)
    if n == q('draw:rect'):
        return ('shape', 'rect', rd_blocks(k))
    if n == q('draw:line'):
        return ('shape', 'line', None)
    return ('unknown', n)


# ---- XHTML -----------------------------------------------------------

XH = '{http://www.w3.org/1999/xhtml}'


def html(root):
    '''[(section id, headers, page, footers)]'''
    body = [n for n in root.kids if n.name == 'BodyText'][0]

    def area(name, lst):
        out = []
        for h in root.find(name):
            bl = []
            for k in h.kids:
                if k.name == lst:
                    for p in k.kids:
                        if p.name == 'Paragraph':
                            bl += html_para(p)
            out.append(bl)
        return out
    heads = area('Header', 'HeaderParagraphList')
    foots = area('Footer', 'FooterParagraphList')
    return [(s.attrs['section-id'], heads, html_blocks(s), foots)
            for s in body.kids if s.name == 'SectionDef']


def html_blocks(n):
    out = []
    for k in n.kids:
        if k.name == 'Paragraph':
            out += html_para(k)
        elif k.name == 'ShapePicture':
            out.append(('img', pic_id(k)))
        elif k.name == 'TableControl':
            out.append(html_table(k))
        elif k.name == 'GShapeObjectControl':
            out.append(('gso', html_blocks(k)))
        else:
            out += html_blocks(k)
    return out


def html_para(p):
    items = []
    for ls in linesegs(p):
        html_inline(ls, items)
    out = [('p', items)]
    for ls in linesegs(p):
        for t in nested(ls, 'TableControl'):
            if t.attrs['inline'] == '0':
                out.append(html_table(t))
    for ls in linesegs(p):
        for g in nested(ls, 'GShapeObjectControl'):
            if g.attrs['inline'] == '0':
                out.append(('gso', html_blocks(g)))
    return out


def html_inline(n, items):
    for k in n.kids:
        if k.name == 'Text':
            push(items, clean(k.text or ''))
        elif k.name == 'ControlChar':
            push(items, k.attrs.get('char', ''))
        elif is_field(k):
            html_inline(k, items)
        elif k.name == 'AutoNumbering':
            items.append(('auto', k.attrs['kind'], k.attrs['prefix'] +
                          k.attrs['number'] + k.attrs['suffix']))
        elif k.name == 'TableControl' and k.attrs['inline'] == '1':
            items.append(('itable', html_table(k)))
        elif k.name == 'GShapeObjectControl' and k.attrs['inline'] == '1':
            items.append(('igso', html_blocks(k)))


def html_table(t):
    cap = None
    rows = []
    for b in t.kids:
        if b.name == 'TableBody':
            for row in b.kids:
                if row.name == 'TableRow':
                    rows.append([(c.attrs['colspan'], c.attrs['rowspan'],
                                  html_blocks(c)) for c in row.kids
                                 if c.name == 'TableCell'])
        elif b.name == 'TableCaption':
            cap = (cap or []) + html_blocks(b)
    return ('table', cap, rows)


def cls(e):
    return (e.get('class') or '').split()


def read_html(root):
    out = []
    body = root.find(XH + 'body')
    for s in body:
        c = cls(s)
        if 'Section' not in c:
            out.append(('unknown', s.tag, c))
            continue
        sid = [x for x in c if x.startswith('Section-')][0][8:]
        heads, foots, page = [], [], None
        for d in s.find(XH + 'div'):
            k = cls(d)
            if 'HeaderArea' in k:
                heads.append(h_blocks(d))
            elif 'FooterArea' in k:
                foots.append(h_blocks(d))
            elif 'Page' in k:
                page = h_blocks(d)
        out.append((sid, heads, page, foots))
    return out


def h_blocks(e):
    out = []
    if (e.text or '').strip():
        out.append(('stray', e.text))
    for k in e:
        if k.tag == XH + 'p':
            out.append(('p', h_inline(k)))
        elif k.tag == XH + 'table':
            out.append(h_table(k))
        elif k.tag == XH + 'img':
            out.append(('img', k.get('src')))
        elif k.tag == XH + 'div' and 'GShapeObjectControl' in cls(k):
            out.append(('gso', h_blocks(k)))
        elif k.tag == XH + 'span' and 'TableControl' in cls(k):
            out.append(h_table(k.find(XH + 'table')))
        elif k.tag == XH + 'span' and 'GShapeObjectControl' in cls(k):
            out.append(('gso', h_blocks(k)))
        else:
            out.append(('unknown', k.tag, cls(k)))
        if (k.tail or '').strip():
            out.append(('stray', k.tail))
    return out


def h_table(k):
    cap = None
    rows = []
    for x in k:
        if x.tag == XH + 'caption':
            cap = (cap or []) + h_blocks(x)
        elif x.tag == XH + 'tr':
            rows.append([(c.get('colspan', '1'), c.get('rowspan', '1'),
                          h_blocks(c)) for c in x])
        else:
            rows.append(('unknown', x.tag))
    return ('table', cap, rows)


def h_inline(e):
    items = []
    push(items, e.text)
    for k in e:
        c = cls(k)
        if k.tag != XH + 'span':
            items.append(('unknown', k.tag, c))
        elif 'autonumbering' in c:
            items.append(('auto', [x for x in c if x.startswith(
                'autonumbering-')][0][14:], ''.join(k.itertext())))
        elif 'TableControl' in c:
            items.append(('itable', h_table(k.find(XH + 'table'))))
        elif 'GShapeObjectControl' in c:
            items.append(('igso', h_blocks(k)))
        else:
            push(items, k.text)
            if len(k):
                items.append(('unknown', 'children of text span'))
        push(items, k.tail)
    return items


# ---- comparison ------------------------------------------------------

def diff(got, want, path=''):
    '''first difference, as text, or None'''
    if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)):
        for i, (a, b) in enumerate(zip(got, want)):
            d = diff(a, b, '%s/%d' % (path, i))
            if d:
                return d
        if len(got) != len(want):
            n = min(len(got), len(want))
            return '%s: %d parts, expected %d; next: got %s, expected %s' % (
                path, len(got), len(want),
                repr(got[n:n + 1])[:200], repr(want[n:n + 1])[:200])
        return None
    if got != want:
        return '%s: got %s, expected %s' % (path, repr(got)[:200],
                                            repr(want)[:200])
    return None


def walk(x):
    yield x
    if isinstance(x, (list, tuple)):
        for k in x:
            for y in walk(k):
                yield y


def replace_pics(x, fn):
    '''picture ids in the reference -> what the output should show'''
    if isinstance(x, list):
        return [replace_pics(k, fn) for k in x]
    if isinstance(x, tuple):
        if x[:2] == ('shape', 'frame'):
            return ('shape', 'frame', [fn(i) for i in x[2]])
        if x[:1] == ('img',):
            return ('img', fn(x[1]))
        return tuple(replace_pics(k, fn) for k in x)
    return x
