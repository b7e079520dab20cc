# -*- coding: utf-8 -*-
'''P01: record streams.  Monitor: every view of a stream is compared, record
by record, with the sequence the generator wrote (or, for sample documents,
the sequence an independent splitter finds).'''
import io
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, enc, layout

EDGES = [0, 0, 1, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 0xff, 0x100, 0xffd,
         0xffe, 0xfff, 0x1000, 0x1001, 0x1ffe, 0x1fff, 0x2000]


class Item(object):
    def __init__(self, data):
        self.data = data
        self.opened = 0

    def open(self):
        self.opened += 1
        return io.BytesIO(self.data)


def tagname(t):
    return layout.TAGNAMES.get(t, 'HWPTAG%d' % (t - 16))


def unhex(lines):
    return bytes(int(x, 16) for line in lines for x in line.split())


class P01(core.Check):
    PROP = 'P01'
    RULE = ('one monitored comparison = one record of one view compared with '
            'the record written; distinct = (view, payload size class, '
            'position class)')
    CASE_TIMEOUT = 120

    def cases(self):
        n = core.scale(160, 2500)
        c = [('gen', core.SEED, i) for i in range(n)]
        c += [('big', core.SEED, i) for i in range(core.scale(6, 30))]
        c += [('model', core.SEED, i) for i in range(core.scale(40, 600))]
        c += [('file', os.path.basename(p)) for p in core.samples()]
        return c

    def minimum(self, counts):
        return {'rec:stream': 3000, 'rec:json': 1000, 'rec:range': 300,
                'rec:tree': 1000, 'reencoded': 150}

    def run(self, ctx, case):
        kind = case[0]
        if kind == 'file':
            return self.run_file(ctx, case[1])
        r = core.rng('P01', *case)
        recs = []
        if kind == 'gen':
            n = r.choice([0, 1, 2, 3, 10, 40, 80])
            mode = r.choice(['flat', 'tree', 'deep', 'any'])
            lv = 0
            for i in range(n):
                if r.random() < .6:
                    size = r.randrange(0, 40)
                else:
                    size = r.choice(EDGES)
                if mode == 'flat':
                    lv = 0
                elif mode == 'tree':
                    lv = r.randrange(0, min(lv + 2, 1024)) if i else 0
                elif mode == 'deep':
                    lv = min(1023, lv + r.choice([0, 1, 1, 1, 2, 5, 200])) \
                        if r.random() < .9 else 0
                else:
                    lv = r.choice([0, 1, 2, 3, 0x3ff, r.randrange(1024)])
                tag = r.choice([16, 66, 67, 71, 115, 0, 15, 0x3ff,
                                r.randrange(1024)])
                recs.append((tag, lv, self.bytes(r, size)))
        elif kind == 'big':
            for size in r.sample([0, 5, 0xfff, 70000, 1 << 20, (1 << 20) + 1,
                                  3 << 20, (1 << 24) + 3 if core.THOROUGH
                                  else 1 << 19], 4):
                recs.append((r.randrange(1024), r.choice([0, 1]),
                             self.bytes(r, size)))
        else:
            return self.run_models(ctx, r)
        data = b''
        canonical = True
        for t, l, p in recs:
            if kind == 'gen' and len(p) < 0xfff and r.random() < .02:
                import struct
                canonical = False
                data += struct.pack('<II', t | l << 10 | 0xfff << 20,
                                    len(p)) + p
            else:
                data += enc.record(t, l, p)
        self.views(ctx, r, data, recs, canonical)

    def bytes(self, r, size):
        k = r.random()
        if k < .2:
            return bytes([r.choice([0, 0xff, 0x0d])]) * size
        if size > 5000:
            blk = bytes(r.getrandbits(8) for _ in range(997))
            return (blk * (size // 997 + 1))[:size]
        return bytes(r.getrandbits(8) for _ in range(size))

    def run_file(self, ctx, name):
        from hwp5.recordstream import Hwp5File
        f = Hwp5File(os.path.join(core.SAMPLES, name))
        if f.header.flags.password:
            ctx.ev('skipped-password')
            return
        r = core.rng('P01f', name)
        for s in [f.docinfo] + [f.bodytext[k] for k in f.bodytext]:
            data = s.open().read()
            self.views(ctx, r, data, enc.split_records(data), True, stream=s)

    # -----------------------------------------------------------------
    def same(self, ctx, view, got, want, seq):
        t, l, p = want
        ctx.counts['rec:' + view] += 1
        ctx.distinct(view, min(len(p), 0x2000) if len(p) in EDGES else
                     len(p).bit_length(), min(seq, 3), l == 0)
        g = (got.get('seqno'), got['tagid'], got['level'], got['size'],
             bytes(got['payload']), got['tagname'])
        w = (seq, t, l, len(p), p, tagname(t))
        ctx.eq(view, g, w, 'record %d' % seq)

    def seq(self, ctx, view, got, recs, lo):
        got = list(got)
        if not ctx.eq(view + '-count', len(got), len(recs),
                      'number of records in the view'):
            return
        for i, (g, w) in enumerate(zip(got, recs)):
            self.same(ctx, view, g, w, lo + i)

    def json(self, ctx, view, objs, recs, lo):
        if sum(len(w[2]) for w in recs) > 200000:
            return
        ok, text = ctx.guard(view + '-json', lambda: objs.open().read())
        if not ok:
            return
        try:
            if isinstance(text, bytes):
                text = text.decode('utf-8')
            js = json.loads(text)
        except ValueError as e:
            ctx.fail(view + '-json-invalid', 'not valid JSON (%s): %s' %
                     (e, core.short(text, 100)))
            return
        if not ctx.eq(view + '-json-count', len(js), len(recs),
                      'records in JSON'):
            return
        for i, (g, w) in enumerate(zip(js, recs)):
            ctx.counts['rec:json'] += 1
            ctx.eq(view + '-json',
                   (g['seqno'], g['tagid'], g['level'], g['size'],
                    unhex(g['payload']), g['tagname']),
                   (lo + i, w[0], w[1], len(w[2]), w[2], tagname(w[0])),
                   'JSON record %d' % (lo + i))

    def views(self, ctx, r, data, recs, canonical, stream=None):
        from hwp5.recordstream import RecordStream, dump_record
        if stream is None:
            stream = RecordStream(Item(data), '5.0.1.7')
        ok, got = ctx.guard('stream', lambda: list(stream.records()))
        if ok:
            self.seq(ctx, 'stream', got, recs, 0)
            out = io.BytesIO()
            for g in got:
                dump_record(out, g)
            if canonical:
                ctx.counts['reencoded'] += 1
                ctx.check('reencode', out.getvalue() == data,
                          'dump_record output differs from the stream')
            else:
                ctx.check('reencode', out.getvalue() == enc.records(recs),
                          'dump_record output differs')
        n = len(recs)
        # index view
        idx = set([0, n - 1, n // 2] + [r.randrange(n) for _ in range(3)]
                  if n else [])
        for i in idx:
            ok, g = ctx.guard('index', stream.record, i)
            if ok and ctx.check('index', g is not None, 'record %d' % i):
                self.same(ctx, 'index', g, recs[i], i)
        for i in (n, n + 1, n + 100):
            ok, g = ctx.guard('index', stream.record, i)
            ctx.eq('index-out', g, None, 'record(%d) of %d' % (i, n))
        # range view
        rs = [(0, n), (0, 0), (n, n + 5), (n + 3, n + 9), (0, n + 7)]
        for _ in range(4):
            a = r.randrange(0, n + 2)
            rs.append((a, a + r.randrange(0, n + 2)))
        for a, b in rs:
            ok, g = ctx.guard('range', lambda: list(
                stream.records(range=(a, b))))
            if ok:
                self.seq(ctx, 'range', g, recs[a:b], a)
        a, b = r.choice(rs)
        self.json(ctx, 'range', stream.records_json(range=(a, b)),
                  recs[a:b], a)
        # top-level trees
        groups = []
        for i, w in enumerate(recs):
            if i == 0 or w[1] == 0:
                groups.append((i, []))
            groups[-1][1].append(w)
        for as_list in (True, False):
            ok, gg = ctx.guard('tree', lambda: [
                list(g) for g in stream.records_treegrouped(as_list)])
            if ok and ctx.eq('tree-count', len(gg), len(groups), 'trees'):
                for g, (lo, ws) in zip(gg, groups):
                    self.seq(ctx, 'tree', g, ws, lo)
        picks = set([0, len(groups) - 1] +
                    [r.randrange(len(groups)) for _ in range(2)]
                    if groups else [])
        for k in picks:
            lo, ws = groups[k]
            ok, g = ctx.guard('tree-one', stream.records_treegroup, k)
            if ok:
                self.seq(ctx, 'tree-one', g, ws, lo)
            ok, g = ctx.guard('tree-kw',
                              lambda: list(stream.records(treegroup=k)))
            if ok:
                self.seq(ctx, 'tree-kw', g, ws, lo)
            self.json(ctx, 'tree', stream.records_json(treegroup=k), ws, lo)
        for k in (len(groups), len(groups) + 4):
            ok, g = ctx.guard('tree-out', lambda: list(
                stream.records(treegroup=k)))
            ctx.eq('tree-out', g, [], 'records(treegroup=%d) of %d'
                   % (k, len(groups)))
            ok, g = ctx.guard('tree-out', stream.records_treegroup, k)
            ctx.check('tree-out', not g, 'treegroup %d of %d not empty: %r'
                      % (k, len(groups), g))
            self.json(ctx, 'tree-out', stream.records_json(treegroup=k),
                      [], 0)
        # whole-stream JSON, both entry points
        if sum(len(w[2]) for w in recs) < 400000:
            self.json(ctx, 'all', stream.records_json(), recs, 0)

            class O(object):
                open = staticmethod(stream.other_formats()['.records'])
            self.json(ctx, 'other', O, recs, 0)
        # and again: the views are repeatable
        ok, got = ctx.guard('stream', lambda: list(stream.records()))
        if ok:
            self.seq(ctx, 'stream', got, recs, 0)
        ctx.sample('%d records, %d trees, sizes %s' % (
            n, len(groups), [len(w[2]) for w in recs[:8]]))

    # -----------------------------------------------------------------
    def run_models(self, ctx, r):
        '''model views of a stream are the same partition'''
        from hwp5.binmodel import ModelStream
        recs = []
        ver = r.choice([(5, 0, 0, 0), (5, 0, 1, 7), (5, 0, 3, 4)])
        lv = -1
        opaque = [27, 31, 32, 79, 90, 91, 92, 93, 94, 95, 115, 86,
                  500, 29, 200]
        for i in range(r.choice([0, 1, 3, 12, 30])):
            lv = r.randrange(0, min(lv + 2, 9)) if lv >= 0 else 0
            t = r.choice(opaque)
            recs.append((t, lv, self.bytes(r, r.choice([0, 1, 7, 300, 4095]))
                         if t not in (31, 79) else self.bytes(r, 64)))
        s = ModelStream(Item(enc.records(recs)), ver)
        ok, got = ctx.guard('models', lambda: list(s.models()))
        if ok:
            self.seq(ctx, 'models', got, recs, 0)
        n = len(recs)
        for i in set(r.randrange(n) for _ in range(4)) if n else ():
            ok, g = ctx.guard('model-index', s.model, i)
            if ok and ctx.check('model-index', g is not None):
                self.same(ctx, 'model-index', g, recs[i], i)
        ok, g = ctx.guard('model-out', s.model, n + 1)
        ctx.eq('model-out', g, None, 'model(%d) of %d' % (n + 1, n))
        groups = []
        for i, w in enumerate(recs):
            if w[1] == 0:
                groups.append((i, []))
            groups[-1][1].append(w)
        ok, gg = ctx.guard('models-tree', lambda: [
            list(g) for g in s.models_treegrouped()])
        if ok and ctx.eq('models-tree-count', len(gg), len(groups)):
            for g, (lo, ws) in zip(gg, groups):
                self.seq(ctx, 'models-tree', g, ws, lo)
        for k in set(r.randrange(len(groups)) for _ in range(3)) \
                if groups else ():
            lo, ws = groups[k]
            ok, g = ctx.guard('models-treegroup',
                              lambda: list(s.models(treegroup=k)))
            if ok:
                self.seq(ctx, 'models-treegroup', g, ws, lo)
            self.json(ctx, 'models-treegroup', s.models_json(treegroup=k),
                      ws, lo)
        k = len(groups) + 1
        ok, g = ctx.guard('models-treegroup-out',
                          lambda: list(s.models(treegroup=k)))
        ctx.eq('models-treegroup-out', g, [], 'models(treegroup=%d)' % k)
        self.json(ctx, 'models', s.models_json(), recs, 0)
        ctx.ev('rec:tree', len(recs))


if __name__ == '__main__':
    sys.exit(core.main(P01(), sys.argv[1:]))
