# -*- coding: utf-8 -*-
'''P04: paragraph text.  Monitors: partition of each text record at the model
level; text runs, shapes and line segments of the XML against a reference
built from the same bytes; conservation of text computed from raw payloads.'''
import io
import os
import re
import struct
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, docgen, enc, layout, rectree, refxml, xmlcheck


class Item(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        return io.BytesIO(self.data)


def dense_payload(r, n):
    '''text record body: runs and control characters in any order'''
    out = []
    for _ in range(n):
        x = r.random()
        if x < .5:
            s = layout.rtext(r, r.choice([1, 1, 2, 3, 7]), False, True)
            out.append(s.encode('utf-16le'))
        else:
            c = r.choice(sorted(layout.CHARS | layout.INLINE |
                                layout.EXTENDED))
            out.append(struct.pack('<H', c))
            if c not in layout.CHARS:
                # parameters may look like control characters themselves
                p = r.choice([b'\r\0\n\0\0\0\r\0\x0b\0\2\0',
                              bytes(r.getrandbits(8) for _ in range(12)),
                              b'\0' * 12, b'd ces\0\0\0\0\0\0\0'[:12]])
                out[-1] += p + struct.pack('<H', c)
    # units whose low or high byte looks like a control character
    if r.random() < .5:
        out.insert(r.randrange(len(out) + 1), r.choice(
            ['\u0d00', '\u0100\u0a00', '\u0900\u0d0d', '\u0200']
        ).encode('utf-16le'))
    return b''.join(out)


class P04(xmlcheck.XmlCheck):
    PROP = 'P04'
    RULE = ('one comparison = a text record partition, an XML node against '
            'the reference, or the conserved text of one paragraph; '
            'distinct = (chunk kinds, shape count, line count, astral, '
            'position classes) combinations')
    KINDS = [('chunks', 24, 400), ('text', 40, 700), ('field', 16, 300),
             ('mixed', 16, 300), ('long', 4, 60)]

    def minimum(self, counts):
        return {'paragraph': 400, 'partition': 300, 'split-by-shape': 30,
                'astral-paragraph': 20, 'long-paragraph': 2,
                'field-enclosed': 10}

    def features(self, kind, r):
        base = dict(depth=2, paras=(2, 8), notext=.05)
        if kind == 'text':
            base.update(table=0, gso=0, note=.02, chars=.5, field=.05)
        elif kind == 'long':
            # more characters than 16 bit numbers can count
            base.update(table=0, gso=0, paras=(1, 2), notext=0,
                        longtext=r.choice([40000, 70000, 140000]))
        elif kind == 'field':
            base.update(table=.05, gso=.03, field=.5, unclosed=r.choice(
                [0, .3, .6]), chars=.3)
        else:
            base.update(table=.15, gso=.1, note=.15, chars=.4)
        if r.random() < .3:
            base['xmlbad'] = .1
        return base

    # -- model level ----------------------------------------------------
    def run_chunks(self, ctx, r, case):
        from hwp5.binmodel import ModelStream
        for _ in range(40):
            ver = r.choice(rectree.VERSIONS)
            p = dense_payload(r, r.choice([1, 2, 4, 8, 20]))
            g = rectree.TreeGen(r, ver, 10 ** 6, 0)
            para = g.add(66, None, dict(charshapes=1, linesegs=0,
                                        rangetags=0))
            recs = [g.recs[0], (67, 1, p)]
            want = layout.cut_text(p)
            ok, models = ctx.guard('chunks-raised', lambda: list(
                ModelStream(Item(enc.records(recs)), ver).models()))
            if not ok:
                continue
            ctx.ev('partition')
            chunks = models[1]['content']['chunks']
            pos = 0
            for rg, c in chunks:
                if not ctx.check('partition', rg[0] == pos,
                                 'chunk %r does not start at %d (payload %s)'
                                 % (rg, pos, p.hex())):
                    break
                pos = rg[1]
            ctx.eq('partition', pos, len(p) // 2, 'end of the last chunk')
            ctx.eq('chunks', layout.canon(chunks), layout.canon(want),
                   'chunks of %s' % p.hex())
            ctx.distinct('chunks', tuple(
                c['code'] if isinstance(c, dict) else 's' for _, c in want))
            # text re-assembles
            text = b''.join(c.encode('utf-16le', 'surrogatepass')
                            for _, c in chunks if not isinstance(c, dict))
            ref = b''.join(p[a * 2:b * 2] for (a, b), c in want
                           if not isinstance(c, dict))
            ctx.eq('conserved-chunks', text, ref, 'text bytes of the chunks')

    # -- XML level ------------------------------------------------------
    def extra(self, ctx, r, path, root, want, doc, data):
        got = [e for e in root.iter('Paragraph')]
        ref = want.find('Paragraph')
        if not ctx.eq('paragraph-count', len(got), len(ref),
                      'number of paragraphs'):
            return
        for e, n in zip(got, ref):
            ctx.ev('paragraph')
            ch = {c.type: c for c in n.ref.children}
            p = ch['ParaText'].payload if 'ParaText' in ch else b''
            chunks = layout.cut_text(p)
            text = refxml.clean(''.join(c for _, c in chunks
                                        if not isinstance(c, dict)))
            codes = [c['code'] for _, c in chunks if isinstance(c, dict) and
                     c['code'] not in layout.EXTENDED and c['code'] != 4]
            out, cc = [], []
            stack = []
            nseg = 0
            for k in e:
                if k.tag != 'LineSeg':
                    continue
                nseg += 1
                todo = list(reversed(list(k)))
                while todo:
                    x = todo.pop()
                    if x.tag == 'Text':
                        out.append(x.text or '')
                    elif x.tag == 'ControlChar':
                        cc.append(int(x.get('code')))
                    elif x.tag in refxml.FIELDS:
                        ctx.ev('field-enclosed')
                        todo.extend(reversed(list(x)))
            ctx.eq('conserved-text', ''.join(out), text,
                   'text of paragraph %s' % e.get('paragraph-id'))
            ctx.eq('conserved-controlchars', cc, codes,
                   'control characters of paragraph %s' %
                   e.get('paragraph-id'))
            cs = ch['ParaCharShape'].content['charshapes']
            if len(p) > 0x20000:
                ctx.ev('long-paragraph')
            if len(cs) > 1:
                ctx.ev('split-by-shape')
            if any(ord(c) > 0xffff for c in text):
                ctx.ev('astral-paragraph')
            ctx.distinct('para', len(cs), nseg, len(codes),
                         len(text) > 0, any(ord(c) > 0xffff for c in text),
                         'ParaLineSeg' in ch)
        if got:
            ctx.sample('%s paragraphs, first text %r' % (
                len(got), ''.join(t.text or '' for t in
                                  root.iter('Text'))[:60]))


if __name__ == '__main__':
    sys.exit(core.main(P04(), sys.argv[1:]))
