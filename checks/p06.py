# -*- coding: utf-8 -*-
'''P06: field values in the document XML.  Monitors: every attribute of every
element against the reference formatting of the decoded field; embedded
binaries against stored bytes; an attribute-level pass over the public
formatting entry points for hostile strings.'''
import base64
import io
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, docgen, docs, layout, rectree, refxml, xmlcheck

VERS = [v for v in rectree.VERSIONS if v >= (5, 0, 0, 5)]


class P06(xmlcheck.XmlCheck):
    PROP = 'P06'
    RULE = ('one comparison = an XML element with all its attributes against '
            'the reference, a round-tripped string or an embedded stream; '
            'distinct = (element, attribute, class of value)')
    KINDS = [('wild', 40, 800), ('sane', 12, 200), ('embed', 12, 200),
             ('strings', 12, 200), ('kinds', 16, 200)]
    PER_CASE = 2

    def minimum(self, counts):
        return {'documents': 130, 'embedded': 10, 'hostile-string': 300,
                'element-kinds': 60}

    def features(self, kind, r):
        kw = dict(objects=25)
        if kind == 'wild':
            kw.update(wild=True, version=r.choice(VERS), images=(0, 6),
                      paras=(2, 6), xmlbad=r.choice([0, .1]),
                      leftover=r.choice([0, .2]))
        elif kind == 'embed':
            kw.update(images=(1, 8), paras=(1, 2), sections=(1, 1))
        elif kind == 'strings':
            kw.update(wild=True, version=r.choice(VERS), xmlbad=.3,
                      field=.5, simple=.4, table=.05, gso=.1)
        return kw

    def run_kinds(self, ctx, r, case):
        '''every control, shape and DocInfo record kind, arbitrary values'''
        ver = r.choice(VERS)
        doc = docgen.generate(
            r, version=ver, wild=True, simple=.35, field=.35, table=.2,
            gso=.25, note=.2, headfoot=.2, comment=.2, paras=(10, 16),
            sections=(1, 1), depth=1, objects=40, images=(2, 5), textbox=.4)
        path = docs.write(doc)
        self.observe(ctx, r, path, doc.xml(), doc, case)
        core.rmdir(os.path.dirname(path))

    def seen(self, ctx, e):
        for k, v in e.attrs.items():
            if v is refxml.ANY:
                continue
            cls = re.sub('[0-9]+', '9', v)[:6] if len(v) < 12 else 'long'
            ctx.distinct(e.name, k, cls if cls.isascii() else 'u')
            if not re.match(r'^[\w .#-]*$', v):
                ctx.ev('hostile-string')

    def extra(self, ctx, r, path, root, want, doc, data):
        ctx.ev('element-kinds', len(set(e.tag for e in root.iter())))
        # numbers: one rule, decimal
        emb = [e for e in root.iter('BinDataEmbedding')]
        ctx.check('embed-off', all(e.get('inline') is None and
                                   not (e.text or '').strip() for e in emb),
                  'binary data embedded without being requested')
        if not emb:
            return
        ok, d2 = ctx.guard('embed-raised', docs.xml_bytes, path, True)
        if not ok:
            return
        try:
            root2 = docs.parse(d2)
        except Exception as e:
            return ctx.fail('malformed-xml', 'with embedbin: %s' % e)
        if isinstance(doc, docs.Sample):
            store = {p.split('/', 1)[1]: doc.content(p) for p in doc.flat
                     if p.startswith('BinData/')}
        else:
            store = doc.bindata
        emb2 = [e for e in root2.iter('BinDataEmbedding')]
        ctx.eq('embed-count', len(emb2), len(emb), 'embedded entries')
        for e in emb2:
            name = '%s.%s' % (e.get('storage-id'), e.get('ext'))
            ctx.ev('embedded')
            ctx.eq('embed-inline', e.get('inline'), 'true', name)
            try:
                b = base64.b64decode(''.join((e.text or '').split()),
                                     validate=True)
            except Exception as x:
                ctx.fail('embed-base64', '%s: %s' % (name, x))
                continue
            ctx.eq('embed-bytes', b, store.get(name), 'content of ' + name)
            # apart from the data the trees are the same
            e.attrib.pop('inline', None)
            e.text = None
        want2 = want
        for mech, msg in refxml.compare(root2, want2, skip=xmlcheck.SKIP):
            ctx.fail('embed-' + mech, msg)


if __name__ == '__main__':
    sys.exit(core.main(P06(), sys.argv[1:]))
