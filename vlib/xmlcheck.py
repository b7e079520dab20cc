# -*- coding: utf-8 -*-
'''Document XML against the independently built tree (P04, P05, P06 share
the workload; each judges its own part).'''
from . import core, docgen, docs, rectree, refxml

SKIP = ('HwpSummaryInfo',)
WILD_VERSIONS = [v for v in rectree.VERSIONS if v >= (5, 0, 0, 5)]


class XmlCheck(core.Check):
    CASE_TIMEOUT = 120
    KINDS = []          # (kind, quick, thorough)

    def features(self, kind, r):
        raise NotImplementedError

    def cases(self):
        c = []
        for k, q, t in self.KINDS:
            c += [(k, core.SEED, i) for i in range(core.scale(q, t))]
        c += [('file', n) for n in docs.usable_samples()]
        return c

    def mine(self, mech):
        return True

    def run(self, ctx, case):
        if case[0] == 'file':
            s = docs.Sample(case[1])
            ctx.ev('fixture')
            return self.observe(ctx, core.rng('file', case[1]), s.path,
                                s.xml(), s, case)
        r = core.rng(self.PROP, *case)
        f = getattr(self, 'run_' + case[0], None)
        if f is not None:
            return f(ctx, r, case)
        for _ in range(self.PER_CASE):
            kw = self.features(case[0], r)
            doc = docgen.generate(r, **kw)
            path = docs.write(doc)
            try:
                self.observe(ctx, r, path, doc.xml(), doc, case)
            finally:
                core.rmdir(path.rsplit('/', 1)[0])

    PER_CASE = 3

    def observe(self, ctx, r, path, want, doc, case):
        ok, data = ctx.guard('xml-raised', docs.xml_bytes, path)
        if not ok:
            return
        try:
            root = docs.parse(data)
        except Exception as e:
            ctx.fail('malformed-xml', 'not well formed: %s' % e)
            return
        ctx.ev('documents')
        ctx.ev('elements', sum(1 for _ in root.iter()))
        ctx.counts['comparisons'] += sum(1 for _ in want.walk())
        for e in want.walk():
            self.seen(ctx, e)
        for mech, msg in refxml.compare(root, want, skip=SKIP,
                                        keep=self.mine):
            ctx.fail(mech, msg)
        self.extra(ctx, r, path, root, want, doc, data)

    def seen(self, ctx, e):
        pass

    def extra(self, ctx, r, path, root, want, doc, data):
        pass
