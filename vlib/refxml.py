# -*- coding: utf-8 -*-
'''Independent construction of the document XML tree from the records.'''
import re
import struct
from . import layout

ILLEGAL = re.compile('[\x00-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff]')

PUA = {0xF046: '\u261e', 0xF06C: '\u25cf', 0xF09F: '\u2022',
       0xF0A1: '\u25cb', 0xF06E: '\u25a0', 0xF0A7: '\u25aa',
       0xF06F: '\u2610', 0xF075: '\u25c6', 0xF077: '\u2b29',
       0xF076: '\u2756', 0xF0A4: '\u25c9', 0xF0AB: '\u2605',
       0xF0Fc: '\u2713', 0xF0FE: '\u2611'}

ANY = object()


class N(object):
    __slots__ = ('name', 'attrs', 'text', 'kids', 'ref')

    def __init__(self, name, attrs=None, text=None, ref=None):
        self.name = name
        self.attrs = attrs if attrs is not None else {}
        self.text = text
        self.kids = []
        self.ref = ref

    def add(self, n):
        self.kids.append(n)
        return n

    def walk(self):
        stack = [self]
        while stack:
            n = stack.pop()
            yield n
            stack.extend(reversed(n.kids))

    def find(self, name):
        return [n for n in self.walk() if n.name == name]


def dash(s):
    return s.replace('_', '-')


def clean(s):
    return ILLEGAL.sub('', s)


def wchar(v):
    return '' if v == 0 else PUA.get(v) or chr(v)


def put(attrs, name, v):
    attrs[dash(name)] = clean(v) if v is not ANY else v


def color(v):
    return '#%02x%02x%02x' % (v & 0xff, v >> 8 & 0xff, v >> 16 & 0xff)


def enumname(b, v):
    if len(b) > 2:
        n = b[2].get(str(v))
        if n is not None:
            return n.lower()
    return str(v)


def plain(attrs, name, t, v):
    if isinstance(t, str):
        if t == 'COLORREF':
            s = color(v)
        elif t == 'WCHAR':
            s = wchar(v)
        elif t == 'BinStorageId':
            s = 'BIN%04X' % v
        elif t == 'DOUBLE':
            s = repr(v)
        elif isinstance(v, str):
            s = v
        else:
            s = str(v)
        put(attrs, name, s)
    elif 'flags' in t:
        size = struct.calcsize(layout.PRIM[t['flags']])
        put(attrs, name, '%0*X' % (2 * size, v))
        for k, b in t['bits'].items():
            put(attrs, k, enumname(b, layout.flagbit(t, v, k)))
    elif t.get('struct') == 'Margin':
        for k in ('left', 'right', 'top', 'bottom'):
            put(attrs, name + '-' + k, str(v[k]))
    elif 'fixed' in t:
        put(attrs, name, str(tuple(v)))
    else:
        put(attrs, name, str(list(v)))


def itemtype(t):
    return t.get('array') or t.get('narray') or t.get('fixed')


def is_complex(t):
    if isinstance(t, str) or 'flags' in t or t.get('struct') == 'Margin':
        return False
    if 'struct' in t:
        return True
    it = itemtype(t)
    return it == 'COLORREF' or isinstance(it, dict) and 'struct' in it


def fields_of(structname, values):
    '''(name, type, value) of a struct, in layout order'''
    out = []
    for f in layout.STRUCTS[structname]:
        if f['name'] in values:
            out.append((f['name'], f['type'], values[f['name']]))
    return out


def element(name, fields, attrname=None, ref=None):
    e = N(name, ref=ref)
    cplx = []
    for k, t, v in fields:
        if is_complex(t):
            cplx.append((k, t, v))
        else:
            plain(e.attrs, k, t, v)
    if attrname is not None:
        e.attrs['attribute-name'] = attrname
    for k, t, v in cplx:
        if 'struct' in t:
            e.add(element(t['struct'], fields_of(t['struct'], v), k))
        elif itemtype(t) == 'COLORREF':
            for c in v:
                e.add(N(k, dict(r=str(c & 255), g=str(c >> 8 & 255),
                                b=str(c >> 16 & 255),
                                alpha=str(c >> 24 & 255), hex=color(c))))
        else:
            a = e.add(N('Array', dict(name=k)))
            sn = itemtype(t)['struct']
            for x in v:
                a.add(element(sn, fields_of(sn, x)))
    return e


def ref_element(ref):
    fields = [(k, t, ref.content[k]) for k, t in ref.fields]
    if ref.type == 'TableBody':
        fields = [f for f in fields if f[0] != 'rowcols']
    e = element(ref.type, fields, ref=ref)
    if ref.type == 'TableBody':
        # consumed when grouping rows; what remains is unspecified
        e.attrs['rowcols'] = ANY
    return e


# ---------------------------------------------------------------- language
def lang_of(c):
    o = ord(c)
    if 0xac00 <= o <= 0xd7ff:
        return 'ko'
    if o <= 0x40:
        return None
    if 0x1100 <= o <= 0x11ff or 0x3130 <= o <= 0x318f or \
            0xa960 <= o <= 0xa97f:
        return 'ko'
    if 0x41 <= o <= 0x24f:
        return 'en'
    if 0x4e00 <= o <= 0x9fff or 0x2e80 <= o <= 0x2fdf or \
            0x3400 <= o <= 0x4dbf or 0xf900 <= o <= 0xfaff:
        return 'cn'
    if 0x3000 <= o <= 0x303f:
        return 'symbol'
    if 0x3040 <= o <= 0x30ff:
        return 'jp'
    return 'other'


def tokens(text):
    runs = []
    for c in text:
        l = lang_of(c)
        if runs and (l is None or runs[-1][0] == l or runs[-1][0] is None):
            runs[-1][1].append(c)
            if runs[-1][0] is None:
                runs[-1][0] = l
        else:
            runs.append([l, [c]])
    return [(l or 'ko', ''.join(cs)) for l, cs in runs]


# --------------------------------------------------------------- paragraphs
def owner(starts, pos):
    '''index of the last entry that starts at or before pos'''
    i = 0
    for k, s in enumerate(starts):
        if s <= pos:
            i = k
    return i


def paragraph_lines(text, charshapes, linesegs):
    '''-> [(lineseg index, [(charshape id, str or control dict)])]'''
    chunks = text.content['chunks'] if text is not None else [((0, 0), '')]
    cstarts = [c[0] for c in charshapes]
    lstarts = [l['chpos'] for l in linesegs]
    lines = []

    def put_item(pos, item, key):
        ci, li = key
        if not lines or lines[-1][0] != li:
            lines.append((li, []))
        lines[-1][1].append((charshapes[ci][1], item))
    for (a, b), c in chunks:
        if isinstance(c, dict):
            put_item(a, c, (owner(cstarts, a), owner(lstarts, a)))
            continue
        if not c:
            put_item(a, c, (owner(cstarts, a), owner(lstarts, a)))
            continue
        pos = a
        run = []
        runkey = None
        for ch in c:
            key = (owner(cstarts, pos), owner(lstarts, pos))
            if key != runkey:
                if run:
                    put_item(0, ''.join(run), runkey)
                run = []
                runkey = key
            run.append(ch)
            pos += 2 if ord(ch) > 0xffff else 1
        put_item(0, ''.join(run), runkey)
    return lines


FIELDS = set(v['name'] for v in layout.CONTROLS.values()
             if 'Field' in v['bases'])
LISTS = set(v['name'] for v in layout.LISTS.values()) | {'ListHeader'}
CONTROLS = set(v['name'] for v in layout.CONTROLS.values()) | {'Control'}
PARATYPES = ('ParaText', 'ParaCharShape', 'ParaLineSeg', 'ParaRangeTag')
DUMMY = dict(chpos=0, y=0, height=0, height_text=0, height_baseline=0,
             space_below=0, x=0, width=0, lineseg_flags=0)


class Section(object):
    def __init__(self, roots):
        self.fields = []
        self.top = []
        self.secd = None
        self.group(roots, self.top)

    def inner(self, refs, out):
        # paragraph lists of a control have their own fields
        saved, self.fields = self.fields, []
        self.group(refs, out)
        self.fields = saved

    def group(self, refs, out):
        '''emit sibling records; paragraphs after a list header and cells
        after a table body become their children'''
        lst = None
        tbody = None
        for ref in refs:
            if ref.type in PARATYPES:
                continue
            if ref.type == 'Paragraph':
                self.paragraph(ref, lst.kids if lst is not None else
                               (out if tbody is None else out))
                continue
            lst = None
            if ref.type in LISTS:
                self.fields = []
                e = ref_element(ref)
                if ref.type == 'TableCell' and tbody is not None:
                    tbody.append(e)
                else:
                    tbody = None
                    out.append(e)
                self.group(ref.children, e.kids)
                lst = e
                continue
            tbody = None
            e = ref_element(ref)
            out.append(e)
            self.group(ref.children, e.kids)
            if ref.type == 'TableBody':
                tbody = self.Rows(e, ref)

    class Rows(object):
        def __init__(self, e, ref):
            self.e = e
            self.counts = list(ref.content['rowcols'])
            self.row = None
            self.left = 0
            self.covered()

        def covered(self):
            # rows without cells of their own
            while self.counts and not self.counts[0]:
                self.counts.pop(0)
                self.e.add(N('TableRow'))

        def append(self, cell):
            if not self.left:
                self.left = self.counts.pop(0)
                self.row = self.e.add(N('TableRow'))
            self.row.add(cell)
            self.left -= 1
            if not self.left:
                self.covered()

    def paragraph(self, ref, out):
        e = ref_element(ref)
        out.append(e)
        got = {}
        controls = []
        rest = []
        for c in ref.children:
            if c.type in PARATYPES:
                got[c.type] = c
            elif c.type in CONTROLS:
                controls.append(c)
            else:
                rest.append(c)
        self.group(rest, e.kids)
        text = got.get('ParaText')
        cs = got['ParaCharShape'].content['charshapes']
        ls = got['ParaLineSeg'].content['linesegs'] \
            if 'ParaLineSeg' in got else None
        for li, items in paragraph_lines(text, cs, ls or [DUMMY]):
            if ls is not None:
                seg = e.add(element('LineSeg', fields_of('LineSeg', ls[li])))
            else:
                seg = e.add(element('LineSeg', fields_of('LineSeg', DUMMY)))
                for k in ('height2', 'height85', 'a8', 'flags'):
                    seg.attrs[k] = '0'
            cur = [seg]

            def reopen(f):
                cur.append(cur[-1].add(ref_element(f)))
            for f in self.fields:
                reopen(f)
            for shape, item in items:
                if isinstance(item, str):
                    for lang, s in tokens(item):
                        cur[-1].add(N('Text', {'charshape-id': str(shape),
                                               'lang': lang}, s))
                    continue
                code = item['code']
                if code in layout.EXTENDED:
                    c = controls.pop(0)
                    if c.type in FIELDS:
                        self.fields.append(c)
                        reopen(c)
                        self.inner(c.children, cur[-1].kids)
                    else:
                        x = cur[-1].add(ref_element(c))
                        self.inner(c.children, x.kids)
                elif code == 4:
                    if self.fields:
                        self.fields.pop()
                        cur.pop()
                else:
                    a = {'name': layout.CTRLNAMES[code], 'code': str(code),
                         'kind': 'INLINE' if code in layout.INLINE
                         else 'CHAR', 'charshape-id': str(shape)}
                    if code in (9, 10, 13):
                        a['char'] = chr(code)
                    cur[-1].add(N('ControlChar', a))


def take_first(nodes, name):
    for i, n in enumerate(nodes):
        if n.name == name:
            del nodes[i]
            return n
        r = take_first(n.kids, name)
        if r is not None:
            return r


def columns(node):
    kids = []
    cur = None
    for k in node.kids:
        columns(k)
        if k.name == 'Paragraph' and node.name != 'Paragraph' and \
                k.ref.content['split'] & 2:
            cur = N('ColumnSet')
            kids.append(cur)
        (cur.kids if cur is not None else kids).append(k)
    node.kids = kids


def section(refs, section_id):
    '''list of nodes of one section'''
    roots = [r for r in refs if r.level == 0]
    s = Section(roots)
    secd = take_first(s.top, 'SectionDef')
    if secd is None:
        top = N('none')
        top.kids = s.top
        columns(top)
        return top.kids
    secd.attrs['section-id'] = str(section_id)
    secd.kids.extend(s.top)
    columns(secd)
    return [secd]


def docinfo(refs):
    e = N('DocInfo')

    def go(refs, out):
        for r in refs:
            x = ref_element(r)
            out.append(x)
            go(r.children, x.kids)
    go([r for r in refs if r.level == 0], e.kids)
    return e


def bodytext(sections):
    '''sections: [(idx, refs)] in numeric order'''
    b = N('BodyText')
    for idx, refs in sections:
        b.kids.extend(section(refs, idx))
    return b


UNIQUE = {'Paragraph': 'paragraph-id', 'TableControl': 'table-id',
          'GShapeObjectControl': 'gshape-id', 'ShapeComponent': 'shape-id'}


def number(root):
    n = {}
    for e in root.walk():
        if e.name in UNIQUE:
            i = n.get(e.name, 0)
            n[e.name] = i + 1
            e.attrs[UNIQUE[e.name]] = str(i)
    return root


def document(version, docinfo_refs, sections):
    root = N('HwpDoc', dict(version='.'.join(str(x) for x in version)))
    root.add(docinfo(docinfo_refs))
    root.add(bodytext(sections))
    return number(root)


# ----------------------------------------------------------------- compare
def compare(got, want, path='', skip=(), limit=5, keep=None):
    '''got: xml.etree element; want: N -> list of (mechanism, message)'''
    class L(list):
        def append(self, x):
            if keep is None or keep(x[0]):
                list.append(self, x)
    out = L()
    stack = [(got, want, '/' + want.name)]
    while stack and len(out) < limit:
        g, w, path = stack.pop()
        if g.tag != w.name:
            list.append(out, ('element:' + w.name,
                              '%s: got <%s>' % (path, g.tag)))
            continue
        ga = dict(g.attrib)
        for k, v in w.attrs.items():
            if k not in ga:
                if v is not ANY:
                    out.append(('attr:%s/@%s' % (w.name, k),
                                '%s: attribute %s missing (expected %r)' %
                                (path, k, v)))
            elif v is not ANY and ga[k] != v:
                out.append(('attr:%s/@%s' % (w.name, k),
                            '%s: @%s is %r, expected %r' % (path, k, ga[k],
                                                            v)))
        for k in ga:
            if k not in w.attrs:
                out.append(('attr:%s/@%s' % (w.name, k),
                            '%s: unexpected attribute %s=%r' % (path, k,
                                                                ga[k])))
        wt = clean(w.text or '')
        if (g.text or '') != wt:
            out.append(('text:' + w.name, '%s: text %r, expected %r' %
                        (path, g.text, wt)))
        gk = [k for k in g if k.tag not in skip]
        for k in g:
            if (k.tail or '').strip():
                out.append(('text:' + w.name, '%s: stray text %r' %
                            (path, k.tail)))
        if [k.tag for k in gk] != [k.name for k in w.kids]:
            out.append(('children:' + w.name,
                        '%s: children %s, expected %s' % (
                            path, [k.tag for k in gk],
                            [k.name for k in w.kids])))
        for i, (a, b) in reversed(list(enumerate(zip(gk, w.kids)))):
            if a.tag == b.name:
                stack.append((a, b, '%s/%s[%d]' % (path, b.name, i)))
    return list(out)
