# -*- coding: utf-8 -*-
'''P13: summary information.  Property sets are encoded from known values
and every view of them is compared with those values.'''
import io
import os
import re
import sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cfb, cli, core, docgen, docs, propset, refxml
from vlib.propset import FT, KNOWN, LABELS, NAMED

STR = (2, 3, 4, 5, 6, 7, 8, 9, 18, 0x14)
TIME = (10, 11, 12, 13)
INT = (14, 15, 16, 19, 0x15)


class P13(core.Check):
    PROP = 'P13'
    RULE = ('one comparison = one value in one view of a summary stream; '
            'distinct = (property id, type, view)')
    CASE_TIMEOUT = 90
    N = 6

    def setup(self):
        cli.warm()

    def cases(self):
        c = [(k, core.SEED, i) for k, q, t in
             (('usual', 16, 300), ('any', 32, 700), ('damaged', 8, 150))
             for i in range(core.scale(q, t))]
        return c + [('file', os.path.basename(p)) for p in core.samples()]

    def minimum(self, counts):
        return {'streams': 200, 'accessor': 2500, 'value': 1500,
                'xml-property': 1500, 'text-line': 1500, 'missing': 300,
                'unknown-type': 100, 'dictionary': 100, 'filetime': 300,
                'damaged': 30}

    # -- generation ---------------------------------------------------------
    def text(self, r):
        n = r.choice([0, 1, 2, 5, 20, 200])
        pool = ['abc XYZ', '제목입니다', '漢字', 'é<&>"\'', '\U0001f600',
                ': ', '- ', '\t', 'None', '\u200b']
        return ''.join(r.choice(r.choice(pool)) for _ in range(n))

    def ft(self, r):
        return FT(r.choice([
            0, 1, 9, 10, 11, 0xffffffff, 0x100000000, 116444736000000000,
            129225153735400000, 129527708987755123,
            r.randrange(1 << 61), r.randrange(1 << 33),
            2650467743999999999, 2650467744000000000, 1 << 63,
            (1 << 64) - 1]))

    def prop(self, r, i, usual):
        code = 0x1f if i in STR else 0x40 if i in TIME else \
            3 if i in INT else r.choice([3, 0x1f, 0x40])
        if not usual and r.random() < .25:
            code = r.choice([3, 0x1f, 0x40, 0, 1, 2, 0xb, 0x1e, 0x41, 0x47,
                             0x101f, 0xffff])
        if code == 3:
            v = r.choice([0, 1, -1, 2147483647, -2147483648,
                          r.randrange(-1 << 31, 1 << 31)])
        elif code == 0x1f:
            v = self.text(r)
        elif code == 0x40:
            v = self.ft(r)
        else:
            v = r.randbytes(r.choice([0, 2, 4, 12]))
        return i, code, v

    def set(self, r, fmtid, usual):
        if usual:
            ids = list(STR) + list(TIME) + list(INT)
            if r.random() < .5:
                ids = [i for i in ids if r.random() < .8]
        else:
            ids = set(r.choice(list(LABELS) + [0x16, 0x17, 0x100,
                                               0x1000000, 0x7fffffff,
                                               0x80000001, 0xffffffff])
                      for _ in range(r.randint(0, 25)))
            ids.discard(0)
            ids = sorted(ids)
        d = None
        if r.random() < .6:
            d = [(i, r.choice(['n%d' % i, 'Title', '', 'x y<&>', 'caf\xe9']))
                 for i in set(r.choice(ids or [5]) if r.random() < .7 else
                              r.randrange(1, 1 << 32)
                              for _ in range(r.randint(0, 6)))]
        return propset.Set(fmtid, [self.prop(r, i, usual) for i in ids], d)

    # -- run ----------------------------------------------------------------
    def run(self, ctx, case):
        r = core.rng('P13', *case)
        if case[0] == 'file':
            s = docs.Sample(case[1])
            data = s.flat['\x05HwpSummaryInformation']
            sets, head = decode(data)
            self.observe(ctx, r, s.path, head, sets)
            return
        if case[0] == 'damaged':
            return self.damaged(ctx, r)
        usual = case[0] == 'usual'
        doc = docgen.generate(r, objects=1, paras=(1, 1), sections=(1, 1))
        for _ in range(self.N):
            sets = [self.set(r, propset.HWP, usual)]
            if not usual:
                k = r.random()
                other = self.set(r, r.randbytes(16), False)
                if k < .15:
                    sets.append(other)
                elif k < .25:
                    sets.insert(0, other)
                elif k < .3:
                    sets = []
            head = dict(version=r.choice([0, 1, 0xffff]),
                        system=r.choice([0x20105, 0, 0xffffffff]),
                        clsid=propset.HWP)
            doc.summary = propset.stream(r, sets, **head)
            path = docs.write(doc)
            self.observe(ctx, r, path, head, sets)
            core.rmdir(os.path.dirname(path))

    def observe(self, ctx, r, path, head, sets):
        import importlib
        ctx.ev('streams')
        mod = r.choice(['hwp5.filestructure', 'hwp5.xmlmodel'])
        h = importlib.import_module(mod).Hwp5File(path)
        try:
            info = h.summaryinfo
            ok, s = ctx.guard('read', lambda: info.propertySetStream)
            if not ok:
                return
            self.model(ctx, s, head, sets)
            self.accessors(ctx, info, sets)
            ok, lines = ctx.guard('text', lambda: list(info.plaintext_lines))
            if ok:
                self.listing(ctx, '\n'.join(lines) + '\n', head, sets)
            from hwp5.storage import ExtraItemStorage
            ok, t = ctx.guard('text', lambda: ExtraItemStorage(h)[
                '\x05HwpSummaryInformation.txt'].open().read())
            if ok:
                self.listing(ctx, t.decode('utf-8'), head, sets)
        finally:
            h.close()
        self.command(ctx, path, sets)
        if 'password' in os.path.basename(path):
            return              # the document itself cannot be read
        ok, data = ctx.guard('xml', docs.xml_bytes, path)
        if ok:
            root = docs.parse(data)
            ctx.eq('xml-count', len(root.findall('HwpSummaryInfo')), 1, '')
            self.xml(ctx, root.find('HwpSummaryInfo'), head, sets)

    def model(self, ctx, s, head, sets):
        ctx.eq('byteOrder', s.byteOrder, 0xfffe, '')
        ctx.eq('version', s.version, head['version'], '')
        ctx.eq('system', s.systemIdentifier, head['system'], '')
        ctx.eq('clsid', str(s.clsid), propset.uuid(head['clsid']), '')
        ctx.eq('sets', [str(p.fmtid) for p in s.propertysets],
               [propset.uuid(x.fmtid) for x in sets], 'sets')
        for p, w in zip(s.propertysets, sets):
            ids = [i for i, c, v in w.props]
            if w.dictionary is not None:
                ids.append(0)
            ctx.eq('ids', sorted(q.id for q in p.properties), sorted(ids),
                   'property ids')
            ctx.eq('set-offset', p.desc.offset, w.offset, '')
            known = w.fmtid == propset.HWP
            got = {q.id: q for q in p.properties}
            for i, c, v in w.props:
                q = got.get(i)
                if q is None:
                    continue
                ctx.ev('value')
                ctx.eq('label', q.idLabel, LABELS.get(i) if known else None,
                       'label of %#x' % i)
                ctx.eq('offset', q.desc.offset, w.offsets[i], '')
                ctx.eq('type-code', q.type.code, c, 'type of %#x' % i)
                if c == 0x40:
                    ctx.ev('filetime')
                    ctx.eq('value:filetime', q.value.value, int(v),
                           '%#x' % i)
                    if v.text() is not None:
                        ctx.eq('value:datetime', str(q.value.datetime),
                               v.text(), 'FILETIME %d' % v)
                else:
                    if c not in KNOWN:
                        ctx.ev('unknown-type')
                    ctx.eq('value:%#x' % c, q.value, propset.value(c, v),
                           'property %#x' % i)
                ctx.distinct(min(i, 0x30), c)
            if w.dictionary is not None and 0 in got:
                ctx.ev('dictionary')
                ctx.eq('dictionary', [(e.id, e.name) for e in
                                      got[0].value.entries], w.dictionary,
                       'dictionary')
                for i, n in w.dictionary:
                    ctx.eq('dictionary-get', got[0].value.get(i), n, '')
                ctx.eq('dictionary-get', got[0].value.get(0xfedcba98), None,
                       '')

    def hwpset(self, sets):
        for w in sets:
            if w.fmtid == propset.HWP:
                return {i: (c, v) for i, c, v in w.props}
        return {}

    def accessors(self, ctx, info, sets):
        w = self.hwpset(sets)
        for label, attr, i in NAMED:
            ok, v = ctx.guard('accessor:' + attr,
                              lambda: getattr(info, attr))
            if not ok:
                continue
            ctx.ev('accessor')
            if i not in w:
                ctx.ev('missing')
                ctx.eq('accessor-missing', v, None, attr)
            else:
                c, x = w[i]
                if c == 0x40:
                    v = getattr(v, 'value', v)
                    x = int(x)
                ctx.eq('accessor:' + attr, v, propset.value(c, x), attr)
            ctx.distinct(attr, w.get(i, (None,))[0])

    def shown(self, c, v):
        if c not in KNOWN:
            return 'None'
        if c == 0x40:
            return v.text()         # None: not representable
        return str(v)

    def command(self, ctx, path, sets):
        x = cli.run('hwp5proc', 'summaryinfo', path)
        ctx.check('command', x.code == 0, 'summaryinfo: %r' % x)
        w = self.hwpset(sets)
        want = ''
        for label, attr, i in NAMED:
            s = self.shown(*w[i]) if i in w else 'None'
            want += '%s: %s\n' % (label, '\0' if s is None else s)
        pat = re.escape(want).replace('\\\x00', '.*').replace('\0', '.*')
        ctx.check('command', re.fullmatch(pat, x.out.decode('utf-8')),
                  'summaryinfo prints %r, expected %r' %
                  (x.out.decode('utf-8'), want))

    def listing(self, ctx, text, head, sets):
        '''every property with its value at its offset, in order'''
        for s in ('0xfffe', '%d' % head['version'], '%08x' % head['system'],
                  propset.uuid(head['clsid'])):
            ctx.check('text-head', s in text.split('\n\n')[0], s)
        pos = 0
        for w in sets:
            known = w.fmtid == propset.HWP
            items = ['%08x: Property Set %s' % (w.offset,
                                                propset.uuid(w.fmtid))]
            ps = {i: (c, v) for i, c, v in w.props}
            for i in sorted(w.offsets, key=lambda i: w.offsets[i]):
                label = LABELS.get(i, '') if known else ''
                t = '%08x: %s(=0x%08x):' % (w.offset + w.offsets[i], label,
                                            i)
                if i in ps:
                    s = self.shown(*ps[i])
                    items.append('%s %s' % (t, '' if s is None else
                                            s + '\n'))
                else:
                    items.append(t)
                    items += ['- %s: %s\n' % e for e in w.dictionary]
            for t in items:
                ctx.ev('text-line')
                k = text.find(t, pos)
                if ctx.check('text', k >= 0, 'text listing lacks %r after '
                             '%d in %r' % (t, pos, text)):
                    pos = k + len(t) - 1

    def xml(self, ctx, e, head, sets):
        clean = refxml.clean
        s = e.find('PropertySetStream')
        ctx.eq('xml-stream', dict(s.attrib), {
            'byte-order': 'fffe', 'version': str(head['version']),
            'system-identifier': '%08x' % head['system'],
            'clsid': propset.uuid(head['clsid'])}, 'stream')
        got = s.findall('PropertySet')
        ctx.eq('xml-sets', [(g.get('fmtid'), g.get('offset')) for g in got],
               [(propset.uuid(w.fmtid), str(w.offset)) for w in sets],
               'sets')
        for g, w in zip(got, sets):
            known = w.fmtid == propset.HWP
            ps = {i: (c, v) for i, c, v in w.props}
            order = sorted(w.offsets, key=lambda i: w.offsets[i])
            if not ctx.eq('xml-properties', [p.get('id') for p in g],
                          [str(i) for i in order], 'properties'):
                continue
            for p, i in zip(g, order):
                want = {'id': str(i), 'offset': str(w.offsets[i])}
                if known and i in LABELS:
                    want['id-label'] = LABELS[i]
                have = dict(p.attrib)
                if i in ps:
                    c, v = ps[i]
                    want['type-code'] = '0x%04x' % c
                    if c in KNOWN:
                        want['type'] = KNOWN[c]
                        t = self.shown(c, v)
                        if t is None:
                            have.pop('value', None)
                        else:
                            want['value'] = clean(t)
                    ctx.eq('xml-kids', len(p), 0, 'children')
                else:
                    ctx.eq('xml-dictionary', [
                        (k.tag, k.get('id'), k.get('name')) for k in p],
                        [('DictionaryEntry', str(a), b)
                         for a, b in w.dictionary], 'dictionary')
                ctx.ev('xml-property')
                ctx.eq('xml-property', have, want, 'property %#x' % i)

    def damaged(self, ctx, r):
        '''a cut stream is reported, never shown with made-up values'''
        from hwp5.filestructure import Hwp5File
        from hwp5.dataio import ParseError
        doc = docgen.generate(r, objects=1, paras=(1, 1), sections=(1, 1))
        for _ in range(6):
            s = self.set(r, propset.HWP, True)
            data = propset.stream(r, [s])
            end = len(data)
            last = max(s.props, key=lambda p: s.offsets[p[0]])
            if s.dictionary is not None and \
                    s.offsets[0] > s.offsets[last[0]]:
                continue
            # bytes of the last value that matter
            b = propset.encode(last[1], last[2])
            need = len(b) if last[1] != 0x1f else 8 + 2 * len(
                (last[2] + '\0').encode('utf-16le')) // 2
            cut = s.offset + s.offsets[last[0]] + r.randrange(need)
            doc.summary = data[:cut]
            path = docs.write(doc)
            ctx.ev('damaged')
            h = Hwp5File(path)
            try:
                v = h.summaryinfo.propertySetStream
            except ParseError as e:
                ctx.check('damage-offset', e.offset is not None, 'offset')
            except Exception as e:
                ctx.fail('damage-other', 'cut at %d/%d: %s: %s' %
                         (cut, end, type(e).__name__, e))
            else:
                ctx.fail('damage-accepted', 'cut at %d of %d: read as %r' %
                         (cut, end, [p.value for p in
                                     v.propertysets[0].properties]))
            finally:
                h.close()
            x = cli.run('hwp5proc', 'summaryinfo', path)
            ctx.check('damage-accepted', x.code > 0,
                      'summaryinfo of a damaged stream: %r' % x)
            core.rmdir(os.path.dirname(path))


def decode(data):
    import struct
    order, ver, system = struct.unpack('<HHI', data[:8])
    n, = struct.unpack('<I', data[24:28])
    sets = []
    for k in range(n):
        fmtid = data[28 + 20 * k:44 + 20 * k]
        off, = struct.unpack('<I', data[44 + 20 * k:48 + 20 * k])
        size, m = struct.unpack('<II', data[off:off + 8])
        w = propset.Set(fmtid, [])
        w.offset = off
        for j in range(m):
            i, o = struct.unpack('<II', data[off + 8 + 8 * j:off + 16 +
                                             8 * j])
            w.offsets[i] = o
            p = off + o
            if i == 0:
                cnt, = struct.unpack('<I', data[p:p + 4])
                p += 4
                w.dictionary = []
                for _ in range(cnt):
                    a, l = struct.unpack('<II', data[p:p + 8])
                    w.dictionary.append(
                        (a, data[p + 8:p + 8 + l - 1].decode('latin1')))
                    p += 8 + l
                continue
            code, = struct.unpack('<I', data[p:p + 4])
            if code == 3:
                v, = struct.unpack('<i', data[p + 4:p + 8])
            elif code == 0x40:
                v = FT(struct.unpack('<Q', data[p + 4:p + 12])[0])
            elif code == 0x1f:
                l, = struct.unpack('<I', data[p + 4:p + 8])
                v = data[p + 8:p + 8 + 2 * l].decode('utf-16le')[:-1]
            else:
                v = b''
            w.props.append((i, code, v))
        sets.append(w)
    return sets, dict(version=ver, system=system, clsid=data[8:24])


if __name__ == '__main__':
    sys.exit(core.main(P13(), sys.argv[1:]))
