# -*- coding: utf-8 -*-
'''P03: damaged payloads.  Monitors: exception type/location, delivery of
earlier records, call counter (sys.setprofile) and allocation peak.'''
import io
import os
import struct
import sys
import tracemalloc
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, enc, layout, rectree

# calls allowed for one stream: measured maxima are below a tenth of this
CALLS_BASE = 60000
CALLS_PER_BYTE = 3000
CALLS_PER_RECORD = 60000
PEAK_BASE = 24 << 20
PEAK_PER_BYTE = 60000


class TooMuch(BaseException):
    pass


class Budget(object):
    def __init__(self, calls):
        self.left = calls
        self.used = 0

    def __call__(self, frame, event, arg):
        if event == 'call':
            self.used += 1
            if self.used > self.left:
                sys.setprofile(None)
                raise TooMuch()


class Item(object):
    def __init__(self, data):
        self.data = data

    def open(self):
        return io.BytesIO(self.data)


class P03(core.Check):
    PROP = 'P03'
    RULE = ('one comparison = outcome, location or budget of one damaged '
            'record; distinct = (record kind, damage kind, outcome)')
    CASE_TIMEOUT = 240
    TIMEOUT_IS_VIOLATION = True

    def cases(self):
        c = [('trunc', core.SEED, i) for i in range(core.scale(60, 900))]
        c += [('mutate', core.SEED, i) for i in range(core.scale(160, 3000))]
        c += [('counts', core.SEED, i) for i in range(core.scale(40, 300))]
        c += [('file', core.SEED, os.path.basename(p), i)
              for p in core.samples()
              for i in range(core.scale(1, 8))]
        return c

    def minimum(self, counts):
        return {'parse-error': 500, 'decoded': 300, 'budget': 200,
                'huge-count': 40}

    def run(self, ctx, case):
        r = core.rng('P03', *case)
        getattr(self, 'run_' + case[0])(ctx, r, case)

    # ------------------------------------------------------------------
    def observe(self, ctx, kind, ver, recs, refs, bad, peak=False,
                view='models'):
        '''recs: records; refs: reference decodings of recs[:len(refs)];
        bad: None (all decodable), ('error', i) - record i must fail,
        or ('maybe', i) - from record i on nothing is specified but the
        exception type.'''
        from hwp5.binmodel import ModelStream
        from hwp5.dataio import ParseError
        data = enc.records(recs)
        s = ModelStream(Item(data), ver)
        got = []
        err = None
        size = sum(len(x[2]) for x in recs)
        b = Budget(CALLS_BASE + CALLS_PER_RECORD * len(recs) +
                   CALLS_PER_BYTE * size)
        if peak:
            tracemalloc.start()
        sys.setprofile(b)
        try:
            try:
                if view == 'models':
                    for m in s.models():
                        got.append(m)
                elif view == 'groups':
                    # all the groups first, their models afterwards
                    for group in list(s.models_treegrouped()):
                        for m in group:
                            got.append(m)
                    ctx.counts['grouped'] += 1
                else:
                    from hwp5.binmodel import RecordModel
                    from hwp5.treeop import ENDEVENT
                    for ev, item in s.parse_model_events():
                        if item['type'] is RecordModel and ev is ENDEVENT:
                            got.append(item['model'])
            finally:
                sys.setprofile(None)
                if peak:
                    _, top = tracemalloc.get_traced_memory()
                    tracemalloc.stop()
        except ParseError as e:
            err = e
        except core.CaseTimeout:
            raise
        except TooMuch:
            ctx.fail('%s:work' % kind, 'more than %d calls for %d records, '
                     '%d payload bytes' % (b.left, len(recs), size),
                     recs=recs[-1:])
            return
        except MemoryError:
            ctx.fail('%s:memory' % kind, 'out of memory', recs=recs[-1:])
            return
        except BaseException as e:
            if not core.exc_from_repo(e):
                raise
            ctx.fail('%s:%s:escaped' % (view, kind),
                     '%s escapes instead of ParseError: %s' %
                     (type(e).__name__, e), recs=recs[-2:], ver=ver)
            return
        ctx.counts['budget'] += 1
        ctx.counts['calls'] += b.used
        if peak:
            ctx.check('%s:memory' % kind,
                      top < PEAK_BASE + PEAK_PER_BYTE * size,
                      'peak %d bytes for %d payload bytes' % (top, size))
        n = len(got)
        tag = recs[bad[1]][0] if bad and bad[1] < len(recs) else None
        name = layout.TAGS[tag]['name'] if tag in layout.TAGS else '-'
        ctx.distinct(view, kind, name, bad and bad[0], err is not None)
        if err is not None:
            ctx.counts['parse-error'] += 1
            if bad is None:
                ctx.fail('%s:%s:%s:spurious' % (view, kind, name),
                         'ParseError on decodable record %d: %s (%r)'
                         % (n, err, err.cause), recs=recs[n:n + 1], ver=ver)
                return
            rec = err.record
            if not ctx.check('%s:location' % view,
                             rec is not None and rec['seqno'] == n,
                             'ParseError.record is %r, failing record is %d'
                             % (rec and rec.get('seqno'), n)):
                return
            ctx.eq('%s:location-payload' % view, bytes(rec['payload']),
                   recs[n][2])
            ctx.eq('%s:location-treegroup' % view, err.treegroup,
                   sum(1 for x in recs[1:n + 1] if x[1] == 0),
                   'tree of the failing record')
            off = err.offset
            ctx.check('%s:offset' % view, isinstance(off, int) and
                      0 <= off <= len(recs[n][2]), 'offset %r' % (off,))
            if bad[0] == 'error':
                ctx.eq('%s:field' % view, off, bad[2],
                       'offset of the field which cannot be read (%s)' % name)
                ctx.eq('%s:%s:delivered' % (view, kind), n, bad[1],
                       'records delivered before the error')
            else:
                ctx.check('%s:%s:delivered' % (view, kind), n >= bad[1],
                          '%d records delivered, %d are sound' % (n, bad[1]))
        else:
            ctx.counts['decoded'] += 1
            if bad and bad[0] == 'error':
                ctx.fail('%s:%s:%s:accepted' % (view, kind, name),
                         'undecodable record %d accepted: %s' % (
                             bad[1], core.short(got[bad[1]].get('content')
                                                if bad[1] < n else None)),
                         recs=recs[bad[1]:bad[1] + 1], ver=ver)
                return
            ctx.eq('%s:%s:delivered' % (view, kind), n, len(recs),
                   'records delivered')
        for m, ref in list(zip(got, refs)):
            a, b_ = layout.canon(m['content']), layout.canon(ref.content)
            ctx.counts['comparisons'] += 1
            if m['type'].__name__ != ref.type or a != b_:
                ctx.fail('%s:%s:%s:value' % (view, kind, ref.type),
                         'record %d: got %s, expected %s' % (
                             ref.seqno, core.short(a), core.short(b_)))
                break

    def decode(self, ver, recs):
        '''reference verdict for a record list -> (refs, bad)'''
        dec = layout.Decoder(ver)
        refs = []
        stack = []
        for i, (t, l, p) in enumerate(recs):
            if l == 0:
                stack = []
            if l > len(stack):
                return refs, ('maybe', i)
            del stack[l:]
            parent = stack[-1] if stack else None
            if t in (68, 69, 70) and (parent is None or
                                      parent.type != 'Paragraph'):
                return refs, ('maybe', i)
            try:
                ref = dec.record(t, l, p, parent)
            except layout.Short as e:
                return refs, ('maybe' if e.unclear else 'error', i, e.at)
            except layout.Bad as e:
                return refs, ('error', i, e.at)
            ref.seqno = i
            refs.append(ref)
            stack.append(ref)
        return refs, None

    def both(self, ctx, r, kind, ver, recs, **kw):
        refs, bad = self.decode(ver, recs)
        if bad and bad[0] == 'maybe' and bad[1] < len(recs) and \
                recs[bad[1]][1] > (recs[bad[1] - 1][1] + 1 if bad[1] else 0):
            return        # nesting damaged, not a payload
        self.observe(ctx, kind, ver, recs, refs, bad, **kw)
        x = r.random()
        if x < .3:
            self.observe(ctx, kind, ver, recs, refs, bad, view='events')
        elif x < .6:
            self.observe(ctx, kind, ver, recs, refs, bad, view='groups')

    # ------------------------------------------------------------------
    def run_trunc(self, ctx, r, case):
        '''a record cut short at every offset'''
        ver = r.choice(rectree.VERSIONS)
        g = rectree.TreeGen(r, ver, maxrec=25, leftover=0)
        for _ in range(2):
            g.tree()
        if not g.recs:
            return
        i = r.randrange(len(g.recs))
        t, l, p = g.recs[i]
        cuts = range(len(p)) if len(p) < 60 else \
            sorted(r.sample(range(len(p)), 60))
        for c in cuts:
            recs = list(g.recs)
            recs[i] = (t, l, p[:c])
            self.both(ctx, r, 'trunc', ver, recs)

    def run_mutate(self, ctx, r, case):
        ver = r.choice(rectree.VERSIONS)
        g = rectree.TreeGen(r, ver, maxrec=20)
        for _ in range(2):
            g.tree()
        for _ in range(12):
            recs = list(g.recs)
            i = r.randrange(len(recs))
            t, l, p = recs[i]
            p = bytearray(p)
            k = r.choice(['flip', 'ff', 'cut', 'insert', 'random', 'zero',
                          'tag'])
            if k == 'flip' and p:
                for _ in range(r.randrange(1, 4)):
                    p[r.randrange(len(p))] ^= 1 << r.randrange(8)
            elif k == 'ff' and p:
                j = r.randrange(len(p))
                p[j:j + 4] = b'\xff' * len(p[j:j + 4])
            elif k == 'cut' and p:
                j = r.randrange(len(p))
                del p[j:j + r.randrange(1, 5)]
            elif k == 'insert':
                j = r.randrange(len(p) + 1)
                p[j:j] = bytes(r.getrandbits(8) for _ in
                               range(r.randrange(1, 6)))
            elif k == 'random':
                p = bytearray(r.getrandbits(8) for _ in
                              range(r.randrange(0, 80)))
            elif k == 'zero':
                p = bytearray(len(p))
            elif k == 'tag':
                t = r.choice(rectree.ALL_TAGS)
            recs[i] = (t, l, bytes(p))
            self.both(ctx, r, k, ver, recs, peak=r.random() < .1)

    def run_counts(self, ctx, r, case):
        '''element counts far beyond the payload'''
        ver = r.choice(rectree.VERSIONS)
        g = layout.Gen(r, ver)
        H = struct.pack

        def u(n, bits):
            return H('<I' if bits == 32 else '<H', n & ((1 << bits) - 1))
        big32 = r.choice([0xffffffff, 0x7fffffff, 0x80000000, 1 << 24,
                          100000])
        big16 = r.choice([0xffff, 0x8000, 0x7fff, 3000])
        tail = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 8, 64])))
        cases = []
        cases.append((22, u(0, 32) + u(big32, 32) + tail))
        _, p = g.record(20, None, dict(fillflags=4))
        i = 2 + 5 * 6 + 4 + 1 + 4 + 8 + 4
        cases.append((20, p[:i] + u(big32, 32) + tail))
        cases.append((82, u(big16, 16) + tail))
        cases.append((83, u(big16, 16) + tail))
        cases.append((19, b'\0' + u(big16, 16) + tail))
        cases.append((77, u(0, 32) + u(big16, 16) + u(2, 16) + b'\0' * 10 +
                      tail))
        if ver >= (5, 0, 0, 7):
            cases.append((77, u(0, 32) + u(0, 16) * 2 + b'\0' * 10 +
                          b'\0\0' + u(big16, 16) + tail))
        _, p = g.record(76, None, dict(chid='$con', scalerotations_count=0))
        cases.append((76, p[:-2 - 4 * struct.unpack('<H', p[-2:])[0]]
                      if False else p))
        p2 = bytearray(p)
        # scalerotations_count sits before the 48-byte translation matrix
        cases.append((76, bytes(p2[:40]) + u(big16, 16) + b'\0' * 48 + tail))
        for t, p in cases:
            ctx.counts['huge-count'] += 1
            self.both(ctx, r, 'counts', ver, [(27, 0, b'x'), (t, 0, p),
                                              (27, 0, b'y')], peak=True)
        for t, field in ((68, 'charshapes'), (69, 'linesegs'),
                         (70, 'rangetags')):
            _, p = g.record(66, None, {field: big16})
            ctx.counts['huge-count'] += 1
            self.both(ctx, r, 'counts', ver, [(66, 0, p), (t, 1, tail)],
                      peak=True)
        # records whose parent is missing or of another kind
        for t in (68, 69, 70):
            for pre in ([], [(27, 0, b'')], [(71, 0, b'abcd')]):
                self.both(ctx, r, 'orphan', ver,
                          pre + [(t, len(pre), tail)])
        for t in (72, 76, 87):
            _, p = g.record(t)
            self.both(ctx, r, 'orphan', ver, [(t, 0, p)])

    def run_file(self, ctx, r, case):
        from hwp5.binmodel import Hwp5File
        f = Hwp5File(os.path.join(core.SAMPLES, case[2]))
        if f.header.flags.password:
            return
        ver = f.header.version
        for s in [f.docinfo] + [f.bodytext[k] for k in f.bodytext][:2]:
            recs = enc.split_records(s.open().read())
            if len(recs) > 120:
                tops = [i for i, x in enumerate(recs) if x[1] == 0]
                a = r.choice(tops)
                recs = recs[a:a + 120]
            for _ in range(3):
                rs = list(recs)
                i = r.randrange(len(rs))
                t, l, p = rs[i]
                p = bytearray(p)
                k = r.choice(['cut', 'flip', 'version'])
                v = ver
                if k == 'cut' and p:
                    p = p[:r.randrange(len(p))]
                elif k == 'flip' and p:
                    p[r.randrange(len(p))] ^= 1 << r.randrange(8)
                else:
                    v = r.choice(rectree.VERSIONS)
                rs[i] = (t, l, bytes(p))
                self.both(ctx, r, 'file-' + k, v, rs)


if __name__ == '__main__':
    sys.exit(core.main(P03(), sys.argv[1:]))
