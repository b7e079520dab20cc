# -*- coding: utf-8 -*-
'''P02: record payload decoding against the frozen layout tables.'''
import io
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, enc, layout, rectree


class Item(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        return io.BytesIO(self.data)


class P02(core.Check):
    PROP = 'P02'
    RULE = ('one comparison = one decoded record (type, content, unparsed '
            'remainder) or flag word compared with the layout; distinct = '
            '(record kind, version, set of fields present, remainder?)')
    CASE_TIMEOUT = 120

    def cases(self):
        c = [('tree', core.SEED, i) for i in range(core.scale(500, 9000))]
        c += [('kinds', core.SEED, i, v) for v in range(len(rectree.VERSIONS))
              for i in range(core.scale(3, 40))]
        c += [('file', os.path.basename(p)) for p in core.samples()]
        return c

    def minimum(self, counts):
        m = {'model': 8000, 'flags': 8000, 'unparsed': 300, 'event': 3000}
        for t in layout.TAGS.values():
            if t['name'] not in ('Control', 'ListHeader', 'ControlData'):
                m['type:' + t['name']] = 1
        for t in layout.CONTROLS.values():
            m['type:' + t['name']] = 1
        for t in layout.LISTS.values():
            m['type:' + t['name']] = 1
        return m

    def run(self, ctx, case):
        if case[0] == 'file':
            return self.run_file(ctx, case[1])
        r = core.rng('P02', *case)
        if case[0] == 'kinds':
            ver = rectree.VERSIONS[case[3]]
            g = rectree.TreeGen(r, ver, gen=layout.Gen(r, ver, nan=True))
            for t in layout.TAGS:
                if t in (68, 69, 70):
                    continue
                g.add(t)
            for chid in layout.CONTROLS:
                g.add(71, None, None, chid)
            for n in range(4):
                g.para(None, 9)
                c = g.add(71, None, None, 'tbl ')
                for t in (72, 77, 72, 72, 87):
                    g.add(t, c)
                c = g.add(71, None, None, 'gso ')
                for t in (72, 76, 77, 72):
                    s = g.add(t, c)
                for t in (72, 76, 85):
                    g.add(t, s)
                for chid in ('head', 'foot', 'bokm', '%clk', 'secd', 'fn  '):
                    c = g.add(71, None, None, chid)
                    g.add(72, c)
                    g.add(87, c)
                for chid in ('$rec', '$lin', '$con', '$pic'):
                    g.add(76, None, dict(chid=chid))
        else:
            ver = r.choice(rectree.VERSIONS)
            g = rectree.TreeGen(r, ver, gen=layout.Gen(r, ver))
            for _ in range(r.choice([1, 2, 3, 6])):
                g.tree()
        self.compare(ctx, r, ver, enc.records(g.recs), g.refs)

    def run_file(self, ctx, name):
        from hwp5.binmodel import Hwp5File
        f = Hwp5File(os.path.join(core.SAMPLES, name))
        if f.header.flags.password:
            return
        r = core.rng('P02f', name)
        ver = f.header.version
        for s in [f.docinfo] + [f.bodytext[k] for k in f.bodytext]:
            data = s.open().read()
            refs = layout.Decoder(ver).stream(enc.split_records(data))
            self.compare(ctx, r, ver, data, refs, s)
        # the same bytes under the other versions decode by the same rules
        # (or fail), as P03 monitors

    def model(self, ctx, m, ref, view):
        ctx.counts['model'] += 1
        ctx.counts['type:' + ref.type] += 1
        mech = '%s:%s' % (view, ref.type)
        ctx.distinct(ref.type, view, ctx.ver, tuple(sorted(ref.content)),
                     bool(ref.leftover))
        if not ctx.eq(mech + ':type', m['type'].__name__, ref.type,
                      'record %d type' % ref.seqno):
            return
        got = m['content']
        a, b = layout.canon(got), layout.canon(ref.content)
        if a != b:
            bad = sorted(set(a) ^ set(b)) if isinstance(a, dict) else 'kind'
            diff = bad or [k for k in b if a[k] != b[k]]
            k = diff[0] if diff else '?'
            ctx.fail('%s:%s' % (mech, k),
                     'record %d (%s, version %s): field(s) %s: got %s, '
                     'expected %s' % (ref.seqno, ref.type, ctx.ver, diff,
                                      core.short(a.get(k)),
                                      core.short(b.get(k))))
        ctx.counts['comparisons'] += 1
        if view != 'events':
            un = m.get('unparsed', b'')
            if ref.leftover:
                ctx.counts['unparsed'] += 1
            ctx.eq(mech + ':unparsed', bytes(un), ref.leftover,
                   'unparsed remainder')
            ctx.check(mech + ':unparsed', bool(un) or 'unparsed' not in m,
                      'empty remainder reported')
            ctx.eq(mech + ':payload', bytes(m['payload']), ref.payload)
        if a == b:
            for name, t in ref.fields:
                self.flags(ctx, mech, got[name], t)

    def flags(self, ctx, mech, v, t):
        if isinstance(t, str):
            return
        if 'flags' in t:
            ctx.counts['flags'] += 1
            want = layout.bits_of(t, int(v))
            ok, dv = ctx.guard(mech + ':flags', v.dictvalue)
            if not ok:
                return
            ctx.eq(mech + ':flags', {k: int(x) for k, x in dv.items()}, want,
                   'bit fields of 0x%x' % v)
            for k, b in t['bits'].items():
                bv = getattr(v, k, None)
                ctx.eq(mech + ':flags', int(bv) if bv is not None else None,
                       want[k], 'bit field %s' % k)
                if len(b) > 2:
                    name = b[2].get(str(want[k]))
                    ctx.eq(mech + ':enum', getattr(bv, 'name', '?'), name,
                           'name of %s=%d' % (k, want[k]))
        elif 'struct' in t:
            for f in layout.STRUCTS[t['struct']]:
                if f['name'] in v:
                    self.flags(ctx, mech, v[f['name']], f['type'])
        elif 'array' in t or 'narray' in t or 'fixed' in t:
            it = t.get('array') or t.get('narray') or t.get('fixed')
            for x in list(v)[:3]:
                self.flags(ctx, mech, x, it)

    def compare(self, ctx, r, ver, data, refs, stream=None):
        from hwp5.binmodel import ModelStream
        if stream is None:
            stream = ModelStream(Item(data), ver)
        ctx.ver = ver
        ok, ms = ctx.guard('models', lambda: list(stream.models()))
        if ok and ctx.eq('models-count', len(ms), len(refs)):
            for m, ref in zip(ms, refs):
                self.model(ctx, m, ref, 'models')
        # one top-level tree alone
        starts = [ref for ref in refs if ref.level == 0]
        for k in set(r.randrange(len(starts)) for _ in range(2)) \
                if starts else ():
            lo = starts[k].seqno
            hi = starts[k + 1].seqno if k + 1 < len(starts) else len(refs)
            ok, ms = ctx.guard('tree', lambda: list(
                stream.models(treegroup=k)))
            if ok and ctx.eq('tree-count', len(ms), hi - lo):
                for m, ref in zip(ms, refs[lo:hi]):
                    self.model(ctx, m, ref, 'tree')
        # event view
        if len(refs) < 400 and r.random() < .6:
            self.events(ctx, stream, refs)

    def events(self, ctx, stream, refs):
        from hwp5.binmodel import RecordModel
        from hwp5.treeop import STARTEVENT, ENDEVENT
        n = [0]
        off = [0]

        def walk():
            for ev, item in stream.parse_model_events():
                if item['type'] is RecordModel:
                    if ev is ENDEVENT:
                        ref = refs[n[0]]
                        n[0] += 1
                        self.model(ctx, item['model'], ref, 'events')
                        lo = item['leftover']
                        ctx.eq('events:leftover', (lo['offset'],
                                                   bytes(lo['bytes'])),
                               (ref.consumed, ref.leftover), ref.type)
                    else:
                        off[0] = 0
                elif ev is not STARTEVENT and ev is not ENDEVENT:
                    ctx.counts['event'] += 1
                    # leaf reads are contiguous and in order
                    ctx.check('events:offset', item['bin_offset'] >= off[0],
                              'offset %d after %d' % (item['bin_offset'],
                                                      off[0]))
                    off[0] = item['bin_offset']
        ok, _ = ctx.guard('events', walk)
        if ok:
            ctx.eq('events-count', n[0], len(refs))


if __name__ == '__main__':
    sys.exit(core.main(P02(), sys.argv[1:]))
