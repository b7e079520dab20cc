# -*- coding: utf-8 -*-
'''P17: language tagging.  A monitor of the runs yielded for a text, fed with
every code point in every kind of neighbourhood, with random texts, and with
the text runs of converted documents.'''
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, docgen, docs

# script classes: (first, last, class), by Unicode block; None: neutral
BLOCKS = [
    (0x0000, 0x0040, None), (0x0041, 0x024f, 'en'), (0x0250, 0x10ff, 'other'),
    (0x1100, 0x11ff, 'ko'), (0x1200, 0x2e7f, 'other'),
    (0x2e80, 0x2fdf, 'cn'), (0x2fe0, 0x2fff, 'other'),
    (0x3000, 0x303f, 'symbol'), (0x3040, 0x30ff, 'jp'),
    (0x3100, 0x312f, 'other'), (0x3130, 0x318f, 'ko'),
    (0x3190, 0x33ff, 'other'), (0x3400, 0x4dbf, 'cn'),
    (0x4dc0, 0x4dff, 'other'), (0x4e00, 0x9fff, 'cn'),
    (0xa000, 0xa95f, 'other'), (0xa960, 0xa97f, 'ko'),
    (0xa980, 0xabff, 'other'), (0xac00, 0xd7ff, 'ko'),
    (0xd800, 0xf8ff, 'other'), (0xf900, 0xfaff, 'cn'),
    (0xfb00, 0x10ffff, 'other')]
CLASS = [None] * 0x110000
for _a, _b, _c in BLOCKS:
    CLASS[_a:_b + 1] = [_c] * (_b + 1 - _a)
EDGES = sorted(set(x for a, b, c in BLOCKS for x in (a, b)))
REPS = {}
for _a, _b, _c in BLOCKS:
    REPS.setdefault(_c, []).append(chr((_a + _b) // 2 if _a > 0xff else
                                       _a + 0x21))
ONE = {k: v[0] for k, v in REPS.items()}


def cls(c):
    return CLASS[ord(c)]


def monitor(text, runs):
    '''None, or what is wrong with the runs of the text'''
    if ''.join(t for _, t in runs) != text:
        return 'lost', 'the runs join to another text'
    if any(not t for _, t in runs):
        return 'empty', 'an empty run'
    last = None
    for lang, t in runs:
        if lang == last:
            return 'adjacent', 'adjacent runs of the same tag %r' % lang
        if not isinstance(lang, str):
            return 'tag', 'tag %r' % (lang,)
        first = True
        for c in t:
            k = CLASS[ord(c)]
            if k is None:
                # follows what precedes it: begins a run only at the start
                if first and last is not None:
                    return 'neutral', 'neutral %r begins the run %r' % (c, t)
            elif k != lang:
                return 'class', '%r (U+%04X, %s) tagged %s' % (
                    c, ord(c), k, lang)
            first = False
        last = lang
    return None


class P17(core.Check):
    PROP = 'P17'
    RULE = ('one comparison = the runs of one text judged by the monitor; '
            'distinct = blocks of 4096 code points, neighbourhoods, class '
            'sequences of texts')
    CASE_TIMEOUT = 120

    def cases(self):
        q = core.scale(60, 1500)
        return [('points', b) for b in range(0, 0x110000, 0x4000)] + \
            [('edges', i) for i in range(len(EDGES))] + \
            [('texts', core.SEED, i) for i in range(q)] + \
            [('xml', core.SEED, i) for i in range(core.scale(30, 500))] + \
            [('file', n) for n in docs.usable_samples()]

    def minimum(self, counts):
        return {'points': 0x110000, 'texts': 20000, 'documents': 30,
                'runs': 2000, 'neighbourhoods': 60000}

    def run(self, ctx, case):
        getattr(self, 'run_' + case[0])(ctx, *case[1:])

    def judge(self, ctx, text):
        from hwp5.charsets import tokenize_unicode_by_lang as tokenize
        try:
            runs = list(tokenize(text))
        except Exception as e:
            return ctx.fail('raised', '%r: %r' % (text, e))
        ctx.counts['comparisons'] += 1
        bad = monitor(text, runs)
        if bad:
            ctx.fail('runs:' + bad[0], '%r -> %r: %s' % (
                text[:60], runs[:8], bad[1]))
        return runs

    def run_points(self, ctx, base):
        reps = list(ONE.values())
        n = core.scale(2, len(reps))
        for o in range(base, base + 0x4000):
            c = chr(o)
            self.judge(ctx, c)
            # in different company for neighbouring code points
            for k in range(n):
                a = reps[(o + k) % len(reps)]
                b = reps[(o // len(reps) + k) % len(reps)]
                self.judge(ctx, a + c + b + c)
                ctx.counts['neighbourhoods'] += 1
        ctx.ev('points', 0x4000)
        ctx.distinct('block', base >> 12)

    def run_edges(self, ctx, i):
        o = EDGES[i]
        near = [chr(x) for x in range(max(o - 2, 0), min(o + 3, 0x110000))]
        reps = [c for v in REPS.values() for c in v]
        for c in near:
            for a in reps + [chr(x) for x in EDGES]:
                for s in (a + c, c + a, a + ' ' + c, ' ' + c + '1' + a,
                          a + c + a, c + c + a, a + '\x00@' + c):
                    self.judge(ctx, s)
                    ctx.counts['texts'] += 1
        ctx.distinct('edge', o)

    def random(self, r, n):
        out = []
        while len(out) < n:
            x = r.random()
            if x < .35:
                c = chr(min(max(r.choice(EDGES) + r.choice([-1, 0, 0, 1]),
                                0), 0x10ffff))
            elif x < .6:
                c = r.choice(r.choice(list(REPS.values())))
            elif x < .8:
                c = chr(r.randrange(0x41))
            else:
                c = chr(r.randrange(r.choice([0x300, 0x10000, 0x110000])))
            out += [c] * r.choice([1, 1, 1, 2, 5])
        return ''.join(out)

    def run_texts(self, ctx, seed, i):
        r = core.rng('P17', 'texts', seed, i)
        for _ in range(300):
            s = self.random(r, r.choice([0, 1, 2, 3, 5, 8, 13, 40]))
            self.judge(ctx, s)
            ctx.counts['texts'] += 1
            if len(s) < 9:
                ctx.distinct('classes', tuple(map(cls, s)))
        self.judge(ctx, self.random(r, 20000))
        # only neutral characters: one run
        s = ''.join(chr(r.randrange(0x41)) for _ in range(r.choice(
            [1, 2, 50])))
        runs = self.judge(ctx, s)
        ctx.eq('runs:neutral', len(runs or []), 1, 'runs of %r' % s)
        ctx.eq('runs:empty', self.judge(ctx, ''), [], 'runs of no text')

    # -- documents -----------------------------------------------------------
    def run_xml(self, ctx, seed, i):
        r = core.rng('P17', 'xml', seed, i)

        def text(g, n=None):
            out = []
            for c in self.random(r, r.choice([1, 2, 3, 8, 20])):
                o = ord(c)
                # as XML can represent
                if o < 0x20 or 0xd800 <= o < 0xe000 or \
                        o in (0xfffe, 0xffff):
                    c = ' '
                out.append(c)
            return ''.join(out)
        g = docgen.DocGen(r, None, docgen.Features(
            table=.1, gso=.05, objects=8))
        g.text = lambda n=None: text(g, n)
        doc = g.document()
        path = docs.write(doc)
        self.document(ctx, path, doc.xml())
        core.rmdir(os.path.dirname(path))

    def run_file(self, ctx, name):
        s = docs.Sample(name)
        self.document(ctx, s.path, s.xml())

    def document(self, ctx, path, want):
        ok, data = ctx.guard('xml-raised', docs.xml_bytes, path)
        if not ok:
            return
        root = docs.parse(data)
        ctx.ev('documents')
        got = [(e.get('lang'), e.text or '') for e in root.iter('Text')]
        ctx.ev('runs', len(got))
        for lang, t in got:
            bad = monitor(t, [(lang, t)])
            ctx.counts['comparisons'] += 1
            if bad:
                ctx.fail('xml:' + bad[0], '%r: %s' % ((lang, t[:60]), bad[1]))
        ctx.eq('xml:runs', got, [(e.attrs['lang'], e.text or '')
                                 for e in want.walk() if e.name == 'Text'],
               'text runs of the document')


if __name__ == '__main__':
    sys.exit(core.main(P17(), sys.argv[1:]))
