# -*- coding: utf-8 -*-
'''P05: structure of the document XML.  Monitors: expat (well-formedness),
comparison with an independently built tree, and structural invariants
evaluated on the output alone.'''
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, docgen, docs, layout, refxml, xmlcheck

IDS = {'Paragraph': 'paragraph-id', 'TableControl': 'table-id',
       'GShapeObjectControl': 'gshape-id', 'ShapeComponent': 'shape-id'}


class P05(xmlcheck.XmlCheck):
    PROP = 'P05'
    RULE = ('one comparison = an XML node against the reference tree or one '
            'structural invariant; distinct = (parent, child sequence) '
            'shapes seen')
    KINDS = [('any', 24, 500), ('table', 20, 400), ('sections', 12, 150),
             ('columns', 12, 200), ('fields', 12, 250), ('deep', 10, 200),
             ('nosectiondef', 6, 80), ('dist', 6, 60), ('large', 3, 40)]
    PER_CASE = 3

    def minimum(self, counts):
        return {'documents': 200, 'row': 300, 'merged-cell': 50,
                'column-set': 50, 'many-sections': 10, 'nested-table': 10}

    def features(self, kind, r):
        if kind == 'table':
            return dict(table=.5, gso=.02, caption=.5, zero_row=.6,
                        paras=(1, 3), depth=2)
        if kind == 'sections':
            return dict(sections=r.choice([(0, 0), (9, 13), (10, 30)]),
                        paras=(1, 2), table=.02, gso=.02)
        if kind == 'columns':
            return dict(column=.6, paras=(2, 8), table=.2)
        if kind == 'fields':
            return dict(field=.6, unclosed=r.choice([0, .4]), table=.1,
                        note=.15, depth=2)
        if kind == 'deep':
            return dict(depth=4, table=.3, gso=.25, paras=(1, 2),
                        sections=(1, 1), textbox=1,
                        chain=r.choice([0, 0, r.randrange(20, 150)]))
        if kind == 'nosectiondef':
            return dict(sectiondef=False)
        if kind == 'dist':
            return dict(dist=True)
        if kind == 'large':
            return docgen.large(r)
        return {}

    def seen(self, ctx, e):
        if e.name == 'TableRow':
            ctx.ev('row')
        elif e.name == 'ColumnSet':
            ctx.ev('column-set')
        elif e.name == 'TableCell':
            if e.attrs['rowspan'] != '1' or e.attrs['colspan'] != '1':
                ctx.ev('merged-cell')
            if any(k.find('TableControl') for k in e.kids):
                ctx.ev('nested-table')
        ctx.distinct(e.name, tuple(k.name for k in e.kids)[:12])

    def extra(self, ctx, r, path, root, want, doc, data):
        # ids number the elements in document order
        for name, attr in sorted(IDS.items()):
            got = [e.get(attr) for e in root.iter(name)]
            ctx.eq('ids:' + name, got, [str(i) for i in range(len(got))],
                   '%s of the %s elements' % (attr, name))
        # paragraphs live in lists, sections or column sets
        for parent in root.iter():
            for k in parent:
                if k.tag == 'Paragraph':
                    ctx.check('owner', parent.tag in refxml.LISTS or
                              parent.tag in ('SectionDef', 'ColumnSet',
                                             'BodyText') or
                              not isinstance(doc, docs.Sample) and
                              not doc.sane, 'paragraph in <%s>' % parent.tag)
                if k.tag == 'TableCell':
                    ctx.eq('owner', parent.tag, 'TableRow', 'cell parent')
        # every table has its rows, each with the cells which start in it
        for t in root.iter('TableBody'):
            trs = [k for k in t if k.tag == 'TableRow']
            if isinstance(doc, docs.Sample) or doc.sane:
                ctx.eq('rows', len(trs), int(t.get('rows')),
                       'number of table rows')
            for i, tr in enumerate(trs):
                if not len(tr):
                    ctx.ev('covered-row')
                rows = set(c.get('row') for c in tr)
                ctx.check('rows', rows <= set([str(i)]) or
                          isinstance(doc, docs.Sample),
                          'cells of rows %s in table row %d' %
                          (sorted(rows), i))
        # sections in numeric order
        ids = [int(e.get('section-id')) for e in root.iter('SectionDef')]
        ctx.eq('section-order', ids, sorted(ids), 'section ids')
        if len(ids) >= 10:
            ctx.ev('many-sections')
        if isinstance(doc, docgen.Document):
            n = [e for e in root.find('BodyText')]
            if doc.f.sectiondef:
                ctx.eq('sections', ids, sorted(doc.sections), 'sections')
                ctx.check('sections', all(e.tag == 'SectionDef' for e in n),
                          'content outside of sections: %s' %
                          [e.tag for e in n][:5])


if __name__ == '__main__':
    sys.exit(core.main(P05(), sys.argv[1:]))
