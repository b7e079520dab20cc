# -*- coding: utf-8 -*-
'''Synthetic HWP v5 documents: well-nested record trees for every construct,
with plausible ("sane") or arbitrary ("wild") field values, and the compound
file around them.'''
import struct
from . import cfb, enc, layout, rectree
from .layout import TAG_BY_NAME as T
from .rectree import PARA, TEXT, CS, LS, RT, CTRL, LIST, SHAPE, TBODY, CDATA

MODERN = [(5, 0, 1, 7), (5, 0, 2, 2), (5, 0, 2, 4), (5, 0, 2, 5),
          (5, 0, 3, 0), (5, 0, 3, 4), (5, 1, 0, 0)]


class SaneGen(layout.Gen):
    '''field values as a word processor would write them'''

    def rint(self, size, signed):
        r = self.r
        x = r.random()
        if size == 1:
            v = r.randrange(0, 100)
        elif x < .2:
            v = 0
        elif x < .8:
            v = r.randrange(0, 3000)
        else:
            v = r.randrange(0, 30000)
        if signed and r.random() < .15:
            v = -v
        return v

    def prim(self, t):
        if t == 'COLORREF':
            return self.r.getrandbits(24)
        if t == 'DOUBLE':
            return self.r.choice([0.0, 1.0, -1.0, .5, .25, 1.5, 100.0])
        if t == 'WCHAR':
            return self.r.choice([0, 0x2d, 0x28, 0x29, 0x5b, 0xac00])
        return layout.Gen.prim(self, t)

    def flags(self, t):
        r = self.r
        size = struct.calcsize(layout.PRIM[t['flags']])
        v = 0
        for name, b in t['bits'].items():
            if b[0] >= size * 8:
                continue
            w = b[1] + 1 - b[0]
            if len(b) > 2:
                e = int(r.choice([k for k in b[2] if int(k) < 1 << w]))
            else:
                e = r.choice([0, 1]) if w == 1 else r.randrange(0, 3)
            v |= (e & ((1 << w) - 1)) << b[0]
        return v & (1 << 8 * size) - 1


class OdfGen(SaneGen):
    '''values every OpenDocument attribute can carry'''

    def rint(self, size, signed):
        return SaneGen.rint(self, size, False)


def setbits(t, v, **bits):
    for k, x in bits.items():
        b = t['bits'][k]
        w = b[1] + 1 - b[0]
        v = v & ~(((1 << w) - 1) << b[0]) | (x & ((1 << w) - 1)) << b[0]
    return v


def ftype(fields, name):
    for f in fields:
        if f['name'] == name:
            return f['type']
    raise KeyError(name)


GSO_FLAGS = ftype(layout.CONTROLS['gso ']['fields'], 'flags')
BINDATA_FLAGS = ftype(layout.TAGS[18]['fields'], 'flags')
PAGE_ATTR = ftype(layout.TAGS[73]['fields'], 'attr')
SPLIT = ftype(layout.TAGS[66]['fields'], 'split')
BF_FILL = ftype(layout.TAGS[20]['fields'], 'fillflags')


class Records(rectree.TreeGen):
    '''record list under construction'''

    def __init__(self, r, version, gen, leftover=0):
        rectree.TreeGen.__init__(self, r, version, 10 ** 9, leftover, gen)

    def text(self, parent, payload):
        '''ParaText record with the given payload'''
        return self.add(TEXT, parent, dict(chunks=payload))


FIELD_IDS = sorted(k for k, v in layout.CONTROLS.items()
                   if 'Field' in v['bases'])
CODE_OF = {'secd': 2, 'cold': 2, 'gso ': 0xb, 'tbl ': 0xb, 'tcmt': 0xf,
           'head': 0x10, 'foot': 0x10, 'fn  ': 0x11, 'en  ': 0x11,
           'atno': 0x12, 'nwno': 0x12, 'pgct': 0x15, 'pghd': 0x15,
           'pgnp': 0x15, 'bokm': 0x16, 'idxm': 0x16, 'tdut': 0x17,
           'tcps': 0x17}
for _k in FIELD_IDS:
    CODE_OF[_k] = 3
SIMPLE = ['atno', 'nwno', 'pgct', 'pghd', 'pgnp', 'bokm', 'idxm', 'tdut',
          'tcps']


class Features(object):
    '''what a document may contain (probabilities)'''
    table = .12
    gso = .1
    note = .08
    headfoot = .06
    comment = .03
    simple = .12
    field = .15
    chars = .25         # control characters between text runs
    unclosed = 0        # fields without end / ends without start
    novlineseg = .05    # paragraphs without line segments
    notext = .1
    caption = .3
    depth = 3
    objects = 60        # upper bound of tables, drawings, notes, ...
    paras = (1, 5)
    sections = (1, 3)
    shapes = ('$rec', '$pic', '$con', '$lin', '$ell', '$arc', '$pol', '$cur',
              '$ole')
    textbox = .7
    leftover = .1
    hostile = True      # hostile strings (markup, quotes, white space)
    astral = True
    wild = False
    sectiondef = True
    column = .2
    table_in_textbox = True
    note_in_note = True
    images = (0, 3)
    zero_row = .2
    odf = False         # values OpenDocument can represent
    xmlbad = 0          # code points XML cannot represent
    chain = 0           # a table in a table in a table ... this deep
    longtext = 0        # one paragraph with more than this many characters
    bigtable = 0        # one table with so many rows or columns
    manyfields = 0      # so many fields open at once, in one paragraph
    apart = False       # tables and drawings stand apart from the text
    formatting = False  # many different shapes, styles and page layouts
    oddstyles = 0       # styles whose names are no plain words
    badstyles = 0       # styles with names of rare symbols
    fillimages = False  # cell backgrounds from pictures

    def __init__(self, **kw):
        for k, v in kw.items():
            assert hasattr(Features, k), k
            setattr(self, k, v)


def large(r, longtext=(20000, 70000)):
    '''features of documents with much of something'''
    x = r.randrange(1, 8)
    return dict(objects=4, paras=(1, 3), sections=(1, 1), notext=.05,
                bigtable=r.randrange(257, 330) if x & 1 else 0,
                manyfields=r.randrange(9, 40) if x & 2 else 0,
                longtext=r.choice(longtext) if x & 4 else 0)


class DocGen(object):
    def __init__(self, r, version=None, f=None):
        self.r = r
        self.f = f or Features()
        self.version = tuple(version or r.choice(MODERN))
        cls = layout.Gen if self.f.wild else \
            OdfGen if self.f.odf else SaneGen
        self.gen = cls(r, self.version, hostile_str=self.f.hostile)
        self.bindata = {}
        self.n = 0
        self.nobjects = 0
        self.chained = 0
        self.longdone = False
        self.bigdone = False
        self.manydone = False

    # ---- strings -----------------------------------------------------
    def text(self, n=None):
        r = self.r
        n = r.choice([1, 1, 2, 3, 5, 8, 13]) if n is None else n
        s = layout.rtext(r, n, False, self.f.astral)
        if r.random() < .3:
            self.n += 1
            s += 'w%d' % self.n         # tell runs apart
        if self.f.xmlbad and r.random() < self.f.xmlbad:
            s += r.choice(['\ufffe', '\uffff'])
        return s

    def name(self):
        r = self.r
        self.n += 1
        return r.choice(['바탕글', 'Normal', 'Body text', '개요', 'A&B',
                         'x y(z)', 'p"q', "it's", 'a<b>c']) + str(self.n)

    def fontname(self):
        self.n += 1
        return self.r.choice(['바탕', '함초롬돋움', 'Times New Roman', 'A&B',
                              'x y(z)', "it's", 'a<b>c', '명조;',
                              '{고딕}']) + str(self.n)

    def stylename(self):
        r = self.r
        self.n += 1
        if r.random() < self.f.badstyles:
            return r.choice(['\ue0bc표', '별\u2b50', 'a\u2701'])
        if r.random() < self.f.oddstyles:
            return r.choice(['', '', '1st', '표(작은)', 'A.B', 'x>y', 'a,b',
                             'p:q', '50%', "it's", 'A & B', 'q"r', '#1',
                             '{x}', '-', 'Twin', 'Twin', '/* x */', 'a+b',
                             '본문 / 2', 'tab\there', 'a\\b', '*', 'A  B',
                             'Standard', 'Caption', 'A_B', '.9', '■제목', '① 항목',
                             '※참고', '②', '…'])
        return r.choice(['바탕글', 'Normal', 'Body text', '개요', 'Outline ',
                         'Page Number', 'x_y-', 'é']) + str(self.n)

    # ---- document information ----------------------------------------
    def docinfo(self, nsections):
        r = self.r
        f = self.f
        rec = Records(r, self.version, self.gen, f.leftover)
        rec.add(16, None, dict(section_count=nsections))
        langs = ['ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user']
        nfonts = {x: r.randrange(1, 4) for x in langs}
        self.nbf = r.randrange(1, 5)
        self.ncs = r.randrange(1, 6)
        if f.formatting:
            self.nbf, self.ncs = r.randrange(2, 7), r.randrange(3, 9)
        ntab = r.randrange(0, 3)
        nnum = r.randrange(0, 3)
        nbul = r.randrange(0, 3)
        self.nps = r.randrange(1, 5)
        self.nst = r.randrange(1, 5)
        if f.formatting:
            self.nps, self.nst = r.randrange(2, 8), r.randrange(2, 7)
            nbul = r.randrange(0, 4)
        nimg = r.randint(*f.images)
        over = dict(bindata=nimg, borderfills=self.nbf, charshapes=self.ncs,
                    tabdefs=ntab, numberings=nnum, bullets=nbul,
                    parashapes=self.nps, styles=self.nst)
        for x in langs:
            over[x + '_fonts'] = nfonts[x]
        ids = rec.add(17, None, over)
        self.embedded = []      # (1-based index, storage name)
        used = 0
        for i in range(nimg):
            kind = r.choice([1, 1, 1, 1, 0, 2]) if f.wild or \
                r.random() < .2 else 1
            fl = setbits(BINDATA_FLAGS, self.gen.flags(BINDATA_FLAGS),
                         storage=kind)
            over = dict(flags=fl)
            if kind == 1:
                used += r.choice([1, 1, 1, 9, 20, 250, 4096])
                ext = r.choice(['png', 'jpg', 'bmp', 'gif', 'ole', 'wmf',
                                'JPG', 'Png', 'jpeg', 'tiff'])
                over['bindata'] = dict(storage_id=used, ext=ext)
                n = 'BIN%04X.%s' % (used, ext)
                self.embedded.append((i + 1, n))
                self.bindata[n] = self.blob()
            rec.add(18, ids, over)
        for x in langs:
            for _ in range(nfonts[x]):
                rec.add(19, ids, dict(name=self.fontname() if f.formatting
                                      else self.name()))
        for _ in range(self.nbf):
            over = {}
            if nimg == 0 or not f.wild:
                fl = self.gen.flags(BF_FILL)
                over['fillflags'] = setbits(BF_FILL, fl, image=0)
                if f.fillimages and self.embedded and r.random() < .4:
                    over['fillflags'] = setbits(BF_FILL, fl, image=1)
                    over['fill_image'] = dict(
                        bindata_id=r.choice(self.embedded)[0],
                        flags=r.choice([5, 5, 5, 0, 6, 15]))
            rec.add(20, ids, over)
        for _ in range(self.ncs):
            ov = {}
            if not f.wild:
                ov['font_face'] = {x: r.randrange(nfonts[x]) for x in langs}
                ov['basesize'] = r.choice([800, 1000, 1234, 3200])
            if f.odf:
                ov['relative_size'] = {x: r.randrange(10, 251)
                                       for x in langs}
            rec.add(21, ids, ov)
        for _ in range(ntab):
            rec.add(22, ids)
        for _ in range(nnum):
            rec.add(23, ids)
        for _ in range(nbul):
            rec.add(24, ids, {} if f.wild else
                    dict(charshape_id=r.randrange(self.ncs),
                         char=r.choice([0xf06c, 0xf0a7, 0x25cf, 0x2d])))
        for _ in range(self.nps):
            ov = {}
            if not f.wild:
                ov = dict(tabdef_id=r.randrange(max(1, ntab)),
                          numbering_bullet_id=r.randrange(
                              0, max(1, min(nnum, nbul)) + 1),
                          borderfill_id=r.randrange(1, self.nbf + 1))
            if f.odf:
                ov['linespacing'] = r.randrange(1, 400)
            if f.formatting:
                ov['indent'] = r.choice([0, 0, 1, -1]) * r.randrange(9000)
                for x in ('left', 'right', 'top', 'bottom'):
                    # OpenDocument has no negative ones above and below
                    ov['doubled_margin_' + x] = r.choice(
                        [0, 0, 1, 1, -1 if x in ('left', 'right') else 1]
                    ) * r.randrange(9000)
                ov['numbering_bullet_id'] = r.randrange(nbul + 1)
            rec.add(25, ids, ov)
        self.styles = []
        for i in range(self.nst):
            ov = dict(local_name=self.name(), name=self.name(),
                      next_style_id=r.randrange(self.nst),
                      parashape_id=r.randrange(self.nps),
                      charshape_id=r.randrange(self.ncs))
            if f.formatting:
                ov['name'] = self.stylename()
                ov['local_name'] = self.stylename()
                ov['flags'] = 0     # of paragraphs
            rec.add(26, ids, ov)
        if r.random() < .5:
            rec.add(27, None)
        if r.random() < .8:
            c = rec.add(30, None)
            rec.add(31, c)
        if f.wild and r.random() < .3:
            rec.add(r.choice([32, 92, 94, 95, 200]), None)
        return rec

    def blob(self):
        r = self.r
        n = r.choice([0, 1, 10, 63, 48, 500, 4095, 4096, 5000])
        if r.random() < .5:
            b = bytes(r.getrandbits(8) for _ in range(n))
        else:
            b = (b'PNG' + bytes([r.getrandbits(8)])) * (n // 4)
        if r.random() < .4:
            # ends which are none
            ends = [b'', b'\0', b'\0' * 40, b'\n', b'\r\n', b' ', b'\x1a',
                    b'\xff\xd9\0', b'\xef\xbb\xbf']
            b = r.choice(ends) + b + r.choice(ends)
        return b

    # ---- body --------------------------------------------------------
    def section(self, first=True):
        r = self.r
        self.rec = Records(r, self.version, self.gen, self.f.leftover)
        self.fields = []
        n = r.randint(*self.f.paras)
        for i in range(n):
            ctl = []
            split = 0
            if i == 0 and self.f.sectiondef:
                ctl = ['secd', 'cold'] if r.random() < .9 else ['secd']
                split = 3 if len(ctl) == 2 else 1
            elif r.random() < self.f.column:
                ctl = ['cold']
                split = 2 | r.choice([0, 4, 8])
            elif r.random() < .15:
                split = r.choice([4, 8])
            self.para(None, 0, ctl, split, last=i == n - 1)
        return self.rec

    def paras(self, parent, depth, n=None):
        r = self.r
        saved, self.fields = self.fields, []
        n = n or r.choice([1, 1, 1, 2, 3])
        for i in range(n):
            self.para(parent, depth, [], 0, last=i == n - 1)
        self.fields = saved
        return n

    def para(self, parent, depth, first, split, last):
        '''one paragraph; parent: the record it is a child of'''
        r = self.r
        f = self.f
        items = [('ctl', c) for c in first]
        notext = not first and not self.fields and r.random() < f.notext
        if depth < f.chain and self.chained <= depth:
            self.chained = depth + 1
            items.append(('ctl', 'tbl '))
        if f.bigtable and not self.bigdone and not notext:
            items.append(('ctl', 'tbl '))
        if f.manyfields and not self.manydone and not notext:
            self.manydone = True
            for _ in range(f.manyfields):
                kind = r.choice(FIELD_IDS)
                self.fields.append(kind)
                items.append(('ctl', kind))
                if r.random() < .3:
                    items.append(('text', self.text()))
        huge = f.longtext and not self.longdone and not notext
        if huge:
            self.longdone = True
            unit = self.text(40)
            n = f.longtext // len(unit.encode('utf-16le')) * 2 + 2
            items.append(('text', ''.join('%d%s' % (i, unit)
                                          for i in range(n))))
        if not notext:
            for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
                x = r.random()
                if x < .55:
                    items.append(('text', self.text()))
                if r.random() < f.chars:
                    c = r.choice(sorted((layout.CHARS | layout.INLINE) -
                                        {0xd, 4}))
                    items.append(('chr', c))
                x = r.random()
                deep = depth < f.depth and self.nobjects < f.objects
                for prob, kind in ((f.table if deep else 0, 'tbl '),
                                   (f.gso if deep else 0, 'gso '),
                                   (f.note if deep else 0, 'note'),
                                   (f.headfoot if deep else 0, 'hf'),
                                   (f.comment if deep else 0, 'tcmt'),
                                   (f.simple, 'simple'),
                                   (f.field, 'field')):
                    if x < prob:
                        if kind not in ('simple', 'field'):
                            self.nobjects += 1
                        if kind == 'note':
                            if depth and not f.note_in_note:
                                break
                            kind = r.choice(['fn  ', 'en  '])
                        elif kind == 'hf':
                            kind = r.choice(['head', 'foot'])
                        elif kind == 'simple':
                            kind = r.choice(SIMPLE)
                        elif kind == 'field':
                            kind = r.choice(FIELD_IDS)
                            self.fields.append(kind)
                        items.append(('ctl', kind))
                        break
                    x -= prob
                if self.fields and r.random() < .5:
                    self.fields.pop()
                    items.append(('chr', 4))
                elif f.unclosed and r.random() < f.unclosed / 4:
                    items.append(('chr', 4))
            if last:
                while self.fields:
                    self.fields.pop()
                    if r.random() >= f.unclosed:
                        items.append(('chr', 4))
            if r.random() < .95 or not items:
                items.append(('chr', 0xd))
        # the text record
        payload = []
        pos = 0
        cuts = []           # allowed positions of shape/line starts
        for kind, x in items:
            cuts.append(pos)
            if kind == 'text':
                b = x.encode('utf-16le')
                cuts += list(range(pos + 1, pos + len(b) // 2))
                payload.append(b)
                pos += len(b) // 2
            else:
                if kind == 'ctl':
                    code = CODE_OF[x]
                    p = x.encode('latin1')[::-1] + b'\0' * 8
                else:
                    code = x
                    p = bytes(r.getrandbits(8) for _ in range(12))
                if code in layout.CHARS:
                    payload.append(struct.pack('<H', code))
                    pos += 1
                else:
                    payload.append(struct.pack('<H', code) + p +
                                   struct.pack('<H', code))
                    pos += 8
        payload = b''.join(payload)

        def starts(n):
            c = sorted(r.sample(cuts, min(n, len(cuts)))) if cuts else []
            if huge:
                near = [x for x in cuts if x % 32768 < 3 or
                        x % 32768 > 32765]
                c += r.sample(near, min(n, len(near)))
                c += r.sample(cuts[-50:], min(n, 3))
            return sorted(set([0] + c))
        cs = [[p, r.randrange(self.ncs)] for p in
              starts(r.choice([0, 0, 1, 1, 2, 3, 5]))]
        # shapes past the end of the text are harmless
        if r.random() < .05:
            cs.append([pos + 3, 0])
        ls = starts(r.choice([0, 0, 1, 2, 4]))
        nols = r.random() < f.novlineseg
        rt = r.choice([0, 0, 0, 1, 2])
        tx = ftype(layout.TAGS[66]['fields'], 'text')
        over = dict(text=setbits(tx, 0, chars=max(pos, 1),
                                 unknown=int(last)),
                    parashape_id=r.randrange(self.nps),
                    style_id=r.randrange(self.nst), split=split,
                    charshapes=len(cs), rangetags=rt,
                    linesegs=0 if nols else len(ls))
        add = self.rec.add
        p = add(PARA, parent, over)
        if items:
            self.rec.text(p, payload)
        add(CS, p, dict(charshapes=cs))
        if not nols:
            add(LS, p, dict(linesegs=[dict(chpos=x) for x in ls]))
        if rt:
            add(RT, p)
        for kind, x in items:
            if kind == 'ctl':
                self.control(p, x, depth + 1)
        return p

    def control(self, p, chid, depth):
        r = self.r
        f = self.f
        add = self.rec.add
        over = {}
        if chid in ('gso ', 'tbl '):
            over['flags'] = self.gen.flags(GSO_FLAGS)
            if f.apart:
                over['flags'] &= ~1
        if chid == 'tbl ' and f.odf:
            over['width'] = r.randrange(100, 40000)
        if chid in ('fn  ', 'en  '):
            self.n += 1
            over['number'] = self.n
        c = add(CTRL, p, over, chid)
        if chid == 'secd':
            ov = dict(width=59528, height=84188,
                      attr=setbits(PAGE_ATTR, 0, orientation=r.choice(
                          [0, 0, 1]))) if not f.wild else None
            if f.formatting:
                ov['width'] = r.randrange(20000, 90000)
                ov['height'] = r.randrange(20000, 90000)
            add(73, c, ov)
            add(74, c)
            add(74, c)
            for _ in range(3):
                add(75, c, {} if f.wild else
                    dict(borderfill_id=r.randrange(1, self.nbf + 1)))
            if r.random() < .2:
                add(CDATA, c)
        elif chid in FIELD_IDS:
            if chid == '%clk' and r.random() < .5:
                add(CDATA, c)
        elif chid in ('head', 'foot', 'fn  ', 'en  ', 'tcmt'):
            self.list(c, depth)
        elif chid == 'bokm':
            if r.random() < .7:
                add(CDATA, c)
        elif chid == 'tbl ':
            self.table(c, depth)
        elif chid == 'gso ':
            if r.random() < f.caption:
                self.list(c, depth)
            self.shape(c, depth, r.choice(f.shapes))
        return c

    def list(self, parent, depth, over=None, n=None):
        n = n or self.r.choice([1, 1, 1, 2, 3])
        o = dict(paragraphs=n)
        o.update(over or {})
        self.rec.add(LIST, parent, o)
        self.paras(parent, depth, n)

    def table(self, c, depth):
        r = self.r
        f = self.f
        if r.random() < f.caption:
            self.list(c, depth)
        rows = r.choice([1, 1, 2, 2, 3, 4])
        cols = r.choice([1, 2, 2, 3, 4])
        big = f.bigtable and not self.bigdone
        if big:
            self.bigdone = True
            depth = f.depth         # nothing within the cells
            rows, cols = r.choice([(f.bigtable, 1), (1, f.bigtable)])
        grid = {}
        cells = [[] for _ in range(rows)]
        for y in range(rows):
            for x in range(cols):
                if (y, x) in grid:
                    continue
                w = h = 1
                if big:
                    if r.random() < .02:
                        w = min(cols - x, 2)
                elif r.random() < .3:
                    w = r.randrange(1, cols - x + 1)
                    if f.zero_row:
                        h = r.randrange(1, rows - y + 1)
                        if r.random() < f.zero_row and x == 0:
                            w = cols
                while any((yy, xx) in grid for yy in range(y, y + h)
                          for xx in range(x, x + w)):
                    w -= 1
                for yy in range(y, y + h):
                    for xx in range(x, x + w):
                        grid[yy, xx] = 1
                cells[y].append((y, x, h, w))
        ov = dict(rows=rows, cols=cols, rowcols=[len(x) for x in cells])
        if not f.wild:
            ov['borderfill_id'] = r.randrange(1, self.nbf + 1)
        self.rec.add(TBODY, c, ov)
        for row in cells:
            for y, x, h, w in row:
                ov = dict(col=x, row=y, colspan=w, rowspan=h)
                if not f.wild:
                    ov['borderfill_id'] = r.randrange(1, self.nbf + 1)
                self.list(c, depth, ov)

    KINDS = {'$lin': 78, '$rec': 79, '$ell': 80, '$arc': 81, '$pol': 82,
             '$cur': 83, '$ole': 84, '$pic': 85, '$con': 86}

    def shape(self, parent, depth, chid):
        r = self.r
        f = self.f
        if chid == '$pic' and not self.embedded and not f.wild:
            chid = '$rec'
        if chid == '$con' and depth > f.depth + 2:
            chid = '$rec'
        ov = dict(chid=chid, chid0=chid)
        kids = []
        if chid == '$con':
            kids = [r.choice([x for x in f.shapes if x != '$con'] or
                             ['$rec']) for _ in range(r.randrange(1, 4))]
            kids = ['$rec' if k == '$pic' and not self.embedded and
                    not f.wild else k for k in kids]
            if r.random() < .2 and '$con' in f.shapes:
                kids[0] = '$con'
            ov['controls'] = kids
        if not f.wild:
            ov['scalerotations_count'] = 1
            ov['width'] = ov['initial_width'] = r.randrange(100, 30000)
            ov['height'] = ov['initial_height'] = r.randrange(100, 30000)
            if chid == '$rec':
                t = None
                for fd in layout.TAGS[76]['fields']:
                    if fd['name'] == 'fill_flags':
                        t = fd['type']
                ov['fill_flags'] = setbits(t, self.gen.flags(t),
                                           fill_image=0)
        s = self.rec.add(SHAPE, parent, ov)
        if chid == '$rec' and r.random() < f.textbox:
            save = f.table
            if not f.table_in_textbox:
                f.table = 0
            self.list(s, depth)
            f.table = save
        if chid == '$con':
            for k in kids:
                self.shape(s, depth + 1, k)
            return s
        ov = {}
        if chid == '$pic':
            if self.embedded:
                ov['picture'] = dict(bindata_id=r.choice(self.embedded)[0])
        elif chid == '$rec' and not f.wild:
            w, h = r.randrange(100, 9000), r.randrange(100, 9000)
            ov = dict(p0=dict(x=0, y=0), p1=dict(x=w, y=0),
                      p2=dict(x=w, y=h), p3=dict(x=0, y=h))
        self.rec.add(self.KINDS[chid], s, ov)
        return s

    # ---- whole document ----------------------------------------------
    def document(self):
        r = self.r
        f = self.f
        n = r.randint(*f.sections)
        doc = Document(self.version)
        doc.docinfo = self.docinfo(n)
        for i in range(n):
            doc.sections[i] = self.section()
        doc.bindata = self.bindata
        return doc


class Document(object):
    def __init__(self, version=(5, 0, 1, 7)):
        self.version = version
        self.docinfo = None         # Records
        self.sections = {}          # idx -> Records
        self.bindata = {}
        self.extra = {}             # path -> bytes (stored as is)
        self.flags = 1
        self.summary = None
        self.level = 9
        self.dist = None            # dict(seed, digest80, filler) or None
        self.scripts = {}           # name -> bytes (decoded)
        self.preview = '미리보기 <a&b>\r\n\U0001f600'

    @property
    def compressed(self):
        return bool(self.flags & 1)

    def pack(self, data):
        return enc.deflate(data, self.level) if self.compressed else data

    def streams(self):
        '''decoded content by path (as the library should show it)'''
        out = {}
        out['DocInfo'] = enc.records(self.docinfo.recs)
        base = 'ViewText' if self.dist else 'BodyText'
        for i, s in self.sections.items():
            out['%s/Section%d' % (base, i)] = enc.records(s.recs)
        for n, b in self.bindata.items():
            out['BinData/' + n] = b
        for n, b in self.scripts.items():
            out['Scripts/' + n] = b
        return out

    def protect(self, data, i=0):
        d = self.dist
        packed = self.pack(data)
        seed = (d['seed'] + i * 7919) & 0xffffffff
        return enc.dist_stream(enc.pad16(packed), seed, d['digest80'],
                               d['filler'])

    def header(self):
        fl = self.flags | (4 if self.dist else 0)
        return enc.header(self.version, fl)

    def tree(self):
        t = {}
        t['FileHeader'] = self.header()
        t['DocInfo'] = self.pack(enc.records(self.docinfo.recs))
        t['BodyText'] = {}
        for i, s in self.sections.items():
            data = enc.records(s.recs)
            if self.dist:
                t.setdefault('ViewText', {})['Section%d' % i] = \
                    self.protect(data, i)
                t['BodyText']['Section%d' % i] = self.pack(
                    enc.records(PLACEHOLDER))
            else:
                t['BodyText']['Section%d' % i] = self.pack(data)
        if self.bindata:
            t['BinData'] = {n: self.pack(b) for n, b in self.bindata.items()}
        if self.scripts:
            t['Scripts'] = {n: self.protect(b, 99) if self.dist else
                            self.pack(b) for n, b in self.scripts.items()}
        t['\x05HwpSummaryInformation'] = self.summary or SUMMARY
        t['PrvText'] = self.preview.encode('utf-16le')
        t['PrvImage'] = b'GIF89a' + bytes(range(256))
        for path, b in self.extra.items():
            d = t
            parts = path.split('/')
            for p in parts[:-1]:
                d = d.setdefault(p, {})
            d[parts[-1]] = b
        return t

    def build(self):
        return cfb.build(self.tree())

    # ---- references ---------------------------------------------------
    def refs(self):
        return self.docinfo.refs, sorted(
            (i, s.refs) for i, s in self.sections.items())

    def xml(self):
        from . import refxml
        d, s = self.refs()
        return refxml.document(self.version, d, s)


def _placeholder():
    t = '배포용 문서 PLACEHOLDER'.encode('utf-16le') + b'\r\0'
    n = len(t) // 2
    p = struct.pack('<IIHBBHHHI', n, 0, 0, 0, 3, 1, 0, 0, 0)
    return [(66, 0, p), (67, 1, t), (68, 1, struct.pack('<II', 0, 0))]


PLACEHOLDER = _placeholder()


def _summary():
    # an empty property set of the summary kind, title only
    title = '제목'.encode('utf-16le') + b'\0\0'
    val = struct.pack('<II', 0x1f, len(title) // 2) + title
    val += b'\0' * (-len(val) % 4)
    props = struct.pack('<II', 8 + 8 + len(val), 1) + \
        struct.pack('<II', 2, 16) + val
    fmtid = bytes.fromhex('60b6a29f6110d411b4c6006097c09d8c')
    hdr = struct.pack('<HHI', 0xfffe, 0, 0x20105) + fmtid + \
        struct.pack('<I', 1) + fmtid + struct.pack('<I', 48)
    return hdr + props


SUMMARY = _summary()


def nest(r, doc):
    '''storages within BinData -> {path below BinData: content}'''
    out = {}
    for _ in range(r.randint(1, 2)):
        d = r.choice(['Obj', 'Obj/Sub', 'ObjectPool', '_1'])
        names = sorted(doc.bindata) + ['BIN0001.png', 'CONTENTS', 'x.OLE']
        # not a compressed stream: streams of those are presented as stored
        b = b'\xff' + bytes(r.getrandbits(8) for _ in range(
            r.choice([0, 20, 5000])))
        out['%s/%s' % (d, r.choice(names))] = b
    for p, b in out.items():
        doc.extra['BinData/' + p] = b
    return out


def generate(r, version=None, **features):
    dist = features.pop('dist', None)
    flags = features.pop('flags', None)
    g = DocGen(r, version, Features(**features))
    d = g.document()
    d.f = g.f
    d.sane = not g.f.wild
    if flags is None:
        # zero padding of an uncompressed protected body would be read as
        # records, so those are always compressed
        flags = 1 if dist else r.choice([1, 1, 0])
    d.flags = flags
    if dist:
        d.dist = dict(seed=r.getrandbits(32),
                      digest80=bytes(r.getrandbits(8) for _ in range(80)),
                      filler=bytes(r.getrandbits(8) for _ in range(256)))
    return d
