# -*- coding: utf-8 -*-
'''Reference decoder and generator for record payloads, driven by the frozen
layout tables in layout.json (the format as documented), independent of the
library's type machinery.'''
import json
import os
import re
import struct

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       'layout.json'), encoding='utf-8') as f:
    L = json.load(f)

TAGS = {int(k): v for k, v in L['tags'].items()}
CONTROLS = L['controls']
LISTS = L['lists']
CTRLDATA = L['ctrldata']
STRUCTS = L['structs']
TAG_BY_NAME = {v['name']: k for k, v in TAGS.items()}
CHID_BY_NAME = {v['name']: k for k, v in CONTROLS.items()}

TAGNAMES = {
    16: 'HWPTAG_DOCUMENT_PROPERTIES', 17: 'HWPTAG_ID_MAPPINGS',
    18: 'HWPTAG_BIN_DATA', 19: 'HWPTAG_FACE_NAME', 20: 'HWPTAG_BORDER_FILL',
    21: 'HWPTAG_CHAR_SHAPE', 22: 'HWPTAG_TAB_DEF', 23: 'HWPTAG_NUMBERING',
    24: 'HWPTAG_BULLET', 25: 'HWPTAG_PARA_SHAPE', 26: 'HWPTAG_STYLE',
    27: 'HWPTAG_DOC_DATA', 28: 'HWPTAG_DISTRIBUTE_DOC_DATA',
    30: 'HWPTAG_COMPATIBLE_DOCUMENT', 31: 'HWPTAG_LAYOUT_COMPATIBILITY',
    32: 'HWPTAG_BEGIN_PLUS_16',
    66: 'HWPTAG_PARA_HEADER', 67: 'HWPTAG_PARA_TEXT',
    68: 'HWPTAG_PARA_CHAR_SHAPE', 69: 'HWPTAG_PARA_LINE_SEG',
    70: 'HWPTAG_PARA_RANGE_TAG', 71: 'HWPTAG_CTRL_HEADER',
    72: 'HWPTAG_LIST_HEADER', 73: 'HWPTAG_PAGE_DEF',
    74: 'HWPTAG_FOOTNOTE_SHAPE', 75: 'HWPTAG_PAGE_BORDER_FILL',
    76: 'HWPTAG_SHAPE_COMPONENT', 77: 'HWPTAG_TABLE',
    78: 'HWPTAG_SHAPE_COMPONENT_LINE', 79: 'HWPTAG_SHAPE_COMPONENT_RECTANGLE',
    80: 'HWPTAG_SHAPE_COMPONENT_ELLIPSE', 81: 'HWPTAG_SHAPE_COMPONENT_ARC',
    82: 'HWPTAG_SHAPE_COMPONENT_POLYGON', 83: 'HWPTAG_SHAPE_COMPONENT_CURVE',
    84: 'HWPTAG_SHAPE_COMPONENT_OLE', 85: 'HWPTAG_SHAPE_COMPONENT_PICTURE',
    86: 'HWPTAG_SHAPE_COMPONENT_CONTAINER', 87: 'HWPTAG_CTRL_DATA',
    88: 'HWPTAG_CTRL_EQEDIT', 90: 'HWPTAG_SHAPE_COMPONENT_TEXTART',
    91: 'HWPTAG_FORM_OBJECT', 92: 'HWPTAG_MEMO_SHAPE',
    93: 'HWPTAG_MEMO_LIST', 94: 'HWPTAG_FORBIDDEN_CHAR',
    95: 'HWPTAG_CHART_DATA', 115: 'HWPTAG_SHAPE_COMPONENT_UNKNOWN',
}

PRIM = {'UINT32': '<I', 'INT32': '<i', 'UINT16': '<H', 'INT16': '<h',
        'UINT8': '<B', 'INT8': '<b', 'WORD': '<H', 'BYTE': '<B',
        'DOUBLE': '<d', 'WCHAR': '<H', 'HWPUNIT': '<I', 'SHWPUNIT': '<i',
        'HWPUNIT16': '<h', 'COLORREF': '<i', 'BinStorageId': '<H'}

EXTENDED = {1, 2, 3, 0xb, 0xc, 0xe, 0xf, 0x10, 0x11, 0x12, 0x15, 0x16, 0x17}
INLINE = {4, 5, 6, 7, 8, 9, 0x13, 0x14}
CHARS = {0, 0xa, 0xd, 0x18, 0x1e, 0x1f}
CTRLNAMES = {
    0x00: 'NULL', 0x01: 'CTLCHR01', 0x02: 'SECTION_COLUMN_DEF',
    0x03: 'FIELD_START', 0x04: 'FIELD_END', 0x05: 'CTLCHR05',
    0x06: 'CTLCHR06', 0x07: 'CTLCHR07', 0x08: 'TITLE_MARK', 0x09: 'TAB',
    0x0a: 'LINE_BREAK', 0x0b: 'DRAWING_TABLE_OBJECT', 0x0c: 'CTLCHR0C',
    0x0d: 'PARAGRAPH_BREAK', 0x0e: 'CTLCHR0E', 0x0f: 'HIDDEN_EXPLANATION',
    0x10: 'HEADER_FOOTER', 0x11: 'FOOT_END_NOTE', 0x12: 'AUTO_NUMBER',
    0x13: 'CTLCHR13', 0x14: 'CTLCHR14', 0x15: 'PAGE_CTLCHR',
    0x16: 'BOOKMARK', 0x17: 'CTLCHR17', 0x18: 'HYPHEN',
    0x1e: 'NONBREAK_SPACE', 0x1f: 'FIXWIDTH_SPACE'}


class Short(Exception):
    '''payload too short; .unclear when the library is free to accept it'''

    def __init__(self, unclear=False):
        Exception.__init__(self)
        self.unclear = unclear
        self.at = None


class Bad(Exception):
    '''the payload is not decodable (e.g. unpaired surrogate)'''


class Buf(object):
    def __init__(self, data):
        self.d = data
        self.i = 0

    def take(self, n):
        if self.i + n > len(self.d):
            raise Short()
        r = self.d[self.i:self.i + n]
        self.i += n
        return r


def cut_text(data):
    '''chunks of a paragraph text payload'''
    n = len(data)
    out = []
    run = 0
    i = 0

    def flush(end):
        if run < end:
            try:
                s = data[run:end].decode('utf-16le')
            except UnicodeDecodeError:
                raise Bad()
            out.append(((run // 2, end // 2), s))
    while i < n:
        if i + 1 >= n:
            raise Bad()      # odd byte
        c = data[i] | data[i + 1] << 8
        if c > 0x1f:
            i += 2
            continue
        flush(i)
        if c in CHARS:
            out.append(((i // 2, i // 2 + 1), dict(code=c)))
            i += 2
        elif c in INLINE or c in EXTENDED:
            if i + 16 > n:
                raise Short(unclear=True)
            p = data[i + 2:i + 14]
            if c == 9:
                d = dict(code=c, param=dict(
                    width=struct.unpack('<I', p[:4])[0], unknown0=p[4],
                    unknown1=p[5], unknown2=p[6:]))
            else:
                d = dict(code=c, chid=p[3::-1].decode('latin1'), param=p[4:])
            out.append(((i // 2, i // 2 + 8), d))
            i += 16
        else:
            raise Bad()
        run = i
    flush(n)
    return out


class Ref(object):
    '''decoded record'''
    __slots__ = ('tag', 'level', 'payload', 'type', 'content', 'consumed',
                 'children', 'parent', 'seen_tb', 'bases', 'seqno', 'fields')

    def __init__(self, **kw):
        self.children = []
        self.seen_tb = False
        self.parent = None
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def leftover(self):
        return self.payload[self.consumed:]


def base_of(t):
    return t if isinstance(t, str) else t['flags']


def bits_of(t, v):
    return {k: (v >> b[0]) & ((1 << (b[1] + 1 - b[0])) - 1)
            for k, b in t['bits'].items()}


def flagbit(t, v, name):
    b = t['bits'][name]
    return (v >> b[0]) & ((1 << (b[1] + 1 - b[0])) - 1)


def cond_holds(cond, values, ftypes, parent_type):
    for c in cond.split('&'):
        if c == '@parent_gso':
            ok = parent_type == 'GShapeObjectControl'
        elif c.startswith('chid='):
            ok = values['chid'] == c[5:]
        else:
            neg = c.startswith('!')
            m, b = c.lstrip('!').split('.')
            ok = bool(flagbit(ftypes[m], values[m], b)) != neg
        if not ok:
            return False
    return True


def count_of(ref, values, ftypes, parent):
    if ref.startswith('^'):
        return parent.content[ref[1:]]
    m = re.match(r'(\w+)\.(\w+)-1$', ref)
    if m:
        return max(0, flagbit(ftypes[m.group(1)], values[m.group(1)],
                              m.group(2)) - 1)
    return values[ref]


class Decoder(object):
    def __init__(self, version):
        self.version = tuple(version)

    def leaf(self, t, buf):
        if t in PRIM:
            f = PRIM[t]
            return struct.unpack(f, buf.take(struct.calcsize(f)))[0]
        if t == 'BSTR':
            n, = struct.unpack('<H', buf.take(2))
            try:
                return buf.take(2 * n).decode('utf-16le')
            except UnicodeDecodeError:
                raise Bad()
        if t == 'CHID':
            return buf.take(4)[::-1].decode('latin1')
        if t.startswith('HexBytes'):
            return buf.take(int(t[9:-1])).hex()
        if t == 'ParaTextChunks':
            return cut_text(buf.take(len(buf.d) - buf.i))
        raise ValueError(t)

    def value(self, t, buf, values, ftypes, parent, ptype):
        if isinstance(t, str):
            at = buf.i
            try:
                return self.leaf(t, buf)
            except (Short, Bad) as e:
                e.at = at      # where the field begins
                raise
        if 'flags' in t:
            return self.value(t['flags'], buf, values, ftypes, parent, ptype)
        if 'struct' in t:
            return self.struct(STRUCTS[t['struct']], buf, parent, ptype)
        if 'array' in t:
            n = count_of(t['count'], values, ftypes, parent)
            return [self.value(t['array'], buf, values, ftypes, parent, ptype)
                    for _ in range(n)]
        if 'narray' in t:
            n = self.value(t['count'], buf, values, ftypes, parent, ptype)
            return [self.value(t['narray'], buf, values, ftypes, parent,
                               ptype) for _ in range(n)]
        if 'fixed' in t:
            return [self.value(t['fixed'], buf, values, ftypes, parent, ptype)
                    for _ in range(t['n'])]
        raise ValueError(t)

    def struct(self, fields, buf, parent, ptype, into=None, kept=None):
        values = {}
        ftypes = {}
        for f in fields:
            if f.get('version') and self.version < tuple(f['version']):
                continue
            if f.get('cond') and not cond_holds(f['cond'], values, ftypes,
                                                ptype):
                continue
            t = f['type']
            if isinstance(t, dict) and 'select' in t:
                m, b = t['select'].split('.')
                t = t['cases'].get(str(flagbit(ftypes[m], values[m], b)))
                if t is None:
                    continue
            values[f['name']] = self.value(t, buf, values, ftypes, parent,
                                           ptype)
            ftypes[f['name']] = t
            if kept is not None:
                kept.append((f['name'], t))
        if into is not None:
            into.update(values)
            return into
        return values

    def record(self, tag, level, payload, parent):
        ptype = parent.type if parent is not None else None
        buf = Buf(payload)
        kept = []
        base = TAGS.get(tag)
        r = Ref(tag=tag, level=level, payload=payload, parent=parent,
                bases=[])
        if base is None:
            r.type = 'UnknownTagModel'
            r.content = {}
            r.consumed = 0
            r.fields = []
            return r
        r.type = base['name']
        r.content = self.struct(base['fields'], buf, parent, ptype,
                                kept=kept)
        ext = None
        if r.type == 'Control':
            ext = CONTROLS.get(r.content['chid'])
        elif r.type == 'ListHeader' and parent is not None:
            ext = LISTS.get('%s/%d' % (ptype, parent.seen_tb))
        elif r.type == 'ControlData' and parent is not None:
            ext = CTRLDATA.get(ptype)
        if ext:
            self.struct(ext['fields'], buf, parent, ptype, into=r.content,
                        kept=kept)
            r.type = ext['name']
        r.consumed = buf.i
        r.fields = kept
        if parent is not None and ptype == 'TableControl' and \
                r.type == 'TableBody':
            parent.seen_tb = True
        return r

    def stream(self, recs):
        '''recs: iterable of (tag, level, payload) -> list of Ref'''
        out = []
        stack = []
        for seq, (tag, level, payload) in enumerate(recs):
            if level == 0:
                stack = []
            assert level <= len(stack)
            del stack[level:]
            parent = stack[-1] if stack else None
            r = self.record(tag, level, payload, parent)
            r.seqno = seq
            if parent is not None:
                parent.children.append(r)
            stack.append(r)
            out.append(r)
        return out


def canon(v):
    '''canonical comparable form of a decoded value (either side)'''
    if isinstance(v, bool):
        return ('bool', v)
    if isinstance(v, float):
        return ('f', struct.pack('<d', v))
    if isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        return str(v)
    if isinstance(v, bytes):
        return v
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    return ('?', type(v).__name__, repr(v))


# ---------------------------------------------------------------- generate
EDGE = {1: [0, 1, 0x7f, 0x80, 0xff], 2: [0, 1, 0x7fff, 0x8000, 0xffff],
        4: [0, 1, 0x7fffffff, 0x80000000, 0xffffffff]}

ALPHA = [
    'abcdefXYZ 0129', '한글가각힣', '漢字中文', 'ひらカナ', 'éüß',
    '<>&"\']]>', '\u00a0\u2003\u200b', '\U0001f600\U00020000\U0010ffff',
    '\ue000\uf8ff', 'ㄱㆎ\u1100\ua960', '\u0416\u05d0\u0e01',
    '\u3000\u3001\u300c', '-_=.:;/\\',
]
CONTROLS_IN_STR = '\t\n\r'


def rtext(r, n, hostile=False, astral=True):
    out = []
    a = r.choice(ALPHA)
    for _ in range(n):
        if r.random() < .3:
            a = r.choice(ALPHA)
        c = r.choice(a)
        if hostile and r.random() < .15:
            c = r.choice('\t\n\r \x7f\x85\u2028\ufeff')
        if not astral and ord(c) > 0xffff:
            c = 'z'
        out.append(c)
    return ''.join(out)


def bstr(s):
    b = s.encode('utf-16le')
    return struct.pack('<H', len(b) // 2) + b


class Gen(object):
    '''Random payload generator; over: {field name: value or callable}'''

    def __init__(self, r, version, hostile_str=False, maxcount=4, nan=False):
        self.r = r
        self.version = tuple(version)
        self.hostile = hostile_str
        self.maxcount = maxcount
        self.nan = nan

    def many(self, few, lots):
        '''how many: seldom more than usual'''
        r = self.r
        if type(self) is Gen and r.random() < .01:
            return r.choice(lots)
        return r.choice(few)

    def rint(self, size, signed):
        r = self.r
        x = r.random()
        if x < .3:
            v = r.choice(EDGE[size])
        elif x < .6:
            v = r.randrange(0, 20)
        else:
            v = r.getrandbits(8 * size)
        if signed and v >> (8 * size - 1):
            v -= 1 << (8 * size)
        return v

    def prim(self, t):
        r = self.r
        f = PRIM[t]
        if t == 'WCHAR' and r.random() < .3:
            return r.choice([0xfeff, 0xfffe, 0xffff, 0xd800, 0xdfff, 0x20,
                             9, 0xa, 0xd, 0x22, 0x26, 0x3c, 0x7f, 0x85,
                             0x2022, 0x2028, 0xac00, 0xf046, 0xf06c, 0xf0a7,
                             0xf0fc, 0xf0fd, 0xf0fe, 0xf0ff])
        if f == '<d':
            if self.nan and r.random() < .1:
                return r.choice([float('inf'), float('-inf')])
            return r.choice([0.0, 1.0, -1.0, .5, r.uniform(-1e6, 1e6),
                             r.random(), 1e-300, 1e300,
                             struct.unpack('<d', struct.pack(
                                 '<q', r.getrandbits(62)))[0]])
        return self.rint(struct.calcsize(f), f[1].islower())

    def flags(self, t):
        r = self.r
        size = struct.calcsize(PRIM[t['flags']])
        x = r.random()
        if x < .6 and t['bits']:
            v = 0
            for name, b in t['bits'].items():
                if b[0] >= size * 8:
                    continue
                w = b[1] + 1 - b[0]
                if len(b) > 2 and r.random() < .7:
                    e = int(r.choice(list(b[2])))
                else:
                    e = r.choice([0, 1, (1 << w) - 1, r.getrandbits(w)])
                v |= (e & ((1 << w) - 1)) << b[0]
            v &= (1 << (8 * size)) - 1
            return v
        if x < .8:
            return r.getrandbits(8 * size)
        return r.choice([0, (1 << 8 * size) - 1, 1 << r.randrange(8 * size)])

    def value(self, t, over, values, ftypes, parent, ptype, forced=None):
        '''-> (value, bytes)'''
        r = self.r
        if isinstance(t, str):
            if t in PRIM:
                v = forced if forced is not None else self.prim(t)
                return v, struct.pack(PRIM[t], v)
            if t == 'BSTR':
                s = forced if forced is not None else \
                    rtext(r, self.many([0, 0, 1, 2, 3, 7, 20],
                                       [255, 256, 300, 2047, 5000, 32768]),
                          self.hostile)
                return s, bstr(s)
            if t == 'CHID':
                s = forced if forced is not None else \
                    r.choice(['$rec', '$lin', '$con', '$pic', '$ell', '$ole',
                              'abcd', 'gso '])
                return s, s.encode('latin1')[::-1]
            if t.startswith('HexBytes'):
                b = forced if forced is not None else \
                    bytes(r.getrandbits(8) for _ in range(int(t[9:-1])))
                return b.hex(), b
            if t == 'ParaTextChunks':
                b = forced if forced is not None else self.text()
                return cut_text(b), b
            raise ValueError(t)
        if 'flags' in t:
            v = forced if forced is not None else self.flags(t)
            return v, struct.pack(PRIM[t['flags']], v)
        if 'struct' in t:
            if forced is not None:
                over = forced
            else:
                over = {}
            return self.struct(STRUCTS[t['struct']], over, parent, ptype)
        if 'array' in t:
            n = count_of(t['count'], values, ftypes, parent)
            it = t['array']
            pre = b''
        elif 'narray' in t:
            n = len(forced) if forced is not None else \
                self.many(range(self.maxcount + 1), [255, 256, 300])
            pre = struct.pack(PRIM[t['count']], n)
            it = t['narray']
        elif 'fixed' in t:
            n = t['n']
            it = t['fixed']
            pre = b''
        vs = []
        bs = [pre]
        for i in range(n):
            v, b = self.value(it, {}, values, ftypes, parent, ptype,
                              forced[i] if forced is not None and
                              i < len(forced) else None)
            vs.append(v)
            bs.append(b)
        return vs, b''.join(bs)

    def struct(self, fields, over, parent, ptype):
        values = {}
        ftypes = {}
        out = []
        over = dict(over or {})
        names = [f['name'] for f in fields]
        if 'scalerotations_count' in names:
            over.setdefault('scalerotations_count',
                            self.many(range(3), [255, 256, 300]))
        if 'rowcols' in names:
            over.setdefault('rows', self.many(range(5), [255, 256, 300]))
        if 'column0' in names and 'flags' not in over:
            ft = fields[names.index('flags')]['type']
            v = self.flags(ft)
            over['flags'] = v & ~0x3fc | self.many(range(6), [
                127, 128, 254, 255]) << 2
        for f in fields:
            if f.get('version') and self.version < tuple(f['version']):
                continue
            if f.get('cond') and not cond_holds(f['cond'], values, ftypes,
                                                ptype):
                continue
            t = f['type']
            if isinstance(t, dict) and 'select' in t:
                m, b = t['select'].split('.')
                t = t['cases'].get(str(flagbit(ftypes[m], values[m], b)))
                if t is None:
                    continue
            forced = over.get(f['name'])
            v, b = self.value(t, over, values, ftypes, parent, ptype, forced)
            values[f['name']] = v
            ftypes[f['name']] = t
            out.append(b)
        return values, b''.join(out)

    def text(self, n=None):
        '''a random paragraph text payload'''
        r = self.r
        out = []
        for _ in range(r.randrange(0, 8) if n is None else n):
            x = r.random()
            if x < .5:
                out.append(rtext(r, r.randrange(0, 9)).encode('utf-16le'))
            elif x < .75:
                out.append(struct.pack('<H', r.choice(sorted(CHARS))))
            else:
                c = r.choice(sorted(INLINE | EXTENDED))
                p = bytes(r.getrandbits(8) for _ in range(12))
                out.append(struct.pack('<H', c) + p + struct.pack('<H', c))
        return b''.join(out)

    def record(self, tag, parent=None, over=None, chid=None):
        '''-> (values, payload) of a record of the tag below parent (Ref)'''
        over = over or {}
        ptype = parent.type if parent is not None else None
        spec = TAGS[tag]
        o = dict(over)
        if chid is not None:
            o['chid'] = chid
        values, b = self.struct(spec['fields'], o, parent, ptype)
        ext = None
        if spec['name'] == 'Control':
            ext = CONTROLS.get(values['chid'])
        elif spec['name'] == 'ListHeader' and parent is not None:
            ext = LISTS.get('%s/%d' % (ptype, parent.seen_tb))
        elif spec['name'] == 'ControlData' and parent is not None:
            ext = CTRLDATA.get(ptype)
        if ext:
            v2, b2 = self.struct(ext['fields'], over, parent, ptype)
            values.update(v2)
            b += b2
        return values, b
