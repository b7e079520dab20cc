# -*- coding: utf-8 -*-
'''P14: results depend on the document alone.  The reference for every view
is computed in a process which has done nothing before; then histories,
interleavings, threads and environments are tried against it.'''
import io
import json
import os
import random
import subprocess
import sys
import threading
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cli, core, docgen, docs, enc, layout, views
from vlib.views import CHEAP, STEPS, fresh, view

ENVS = [
    dict(PYTHONHASHSEED='1'), dict(PYTHONHASHSEED='4242'),
    dict(LC_ALL='C', LANG='C'), dict(LC_ALL='C.UTF-8'),
    dict(LANG='ko_KR.UTF-8', LC_ALL=None, LANGUAGE='ko'),
    dict(TZ='Asia/Seoul'), dict(TZ='America/New_York'),
    dict(HOME='/nonexistent'), dict(PYTHONUTF8='1'),
    dict(PYTHONUNBUFFERED='1'), dict(COLUMNS='20', TERM='dumb'),
    dict(PAGER='false', PYTHONOPTIMIZE='1'),
]


class P14(core.Check):
    PROP = 'P14'
    RULE = ('one comparison = one view (or one interleaved iteration) '
            'against the view computed in a fresh process; distinct = '
            '(scenario, view, version) and interleaving digests')
    CASE_TIMEOUT = 120

    def setup(self):
        cli.warm()

    def cases(self):
        n = core.scale(1, 25)
        c = [(k, core.SEED, i) for k, q in (
            ('history', 12), ('interleave', 40), ('threads', 8),
            ('twice', 10), ('handed', 8), ('environ', 10),
            ('hashseed', 6), ('converters', 8))
            for i in range(q * n)]
        return c

    def minimum(self, counts):
        return {'reference': 180, 'history-op': 220, 'interleaved': 60,
                'steps': 3000, 'switches': 1500, 'threaded': 60,
                'again': 60, 'handed-out': 500, 'environment': 80,
                'unchanged': 60, 'abandoned': 5, 'failed-op': 10,
                'hash-seeds': 150, 'converted': 60}

    # -- documents ----------------------------------------------------------
    def docs(self, r, n, small=False):
        out = []
        kw = dict(objects=3, paras=(1, 4), sections=(1, 2)) if small else {}
        vers = list(docgen.MODERN) + [(5, 0, 0, 5), (5, 0, 0, 6),
                                      (5, 0, 0, 7), (5, 0, 1, 0),
                                      (5, 0, 1, 6), (5, 0, 2, 1)]
        r.shuffle(vers)
        for i in range(n):
            if r.random() < (.03 if small else .12):
                s = docs.usable_samples()
                out.append(docs.Sample(r.choice(s)).path)
                continue
            d = docgen.generate(r, version=vers[i % len(vers)],
                                dist=r.random() < .15, **kw)
            out.append(docs.write(d))
        return out

    def bad(self, r):
        '''a document which cannot be read to its end'''
        d = docgen.generate(r, version=r.choice(docgen.MODERN))
        data = bytearray(d.build())
        k = r.choice(['cut', 'noise', 'empty'])
        if k == 'cut':
            del data[r.randrange(600, len(data)):]
        elif k == 'noise':
            for _ in range(40):
                data[r.randrange(1536, len(data))] ^= 1 << r.randrange(8)
        else:
            data = bytearray(b'\0' * 64)
        return docs.write(bytes(data))

    def reference(self, ctx, path, kinds):
        out = {}
        for k in kinds:
            ctx.ev('reference')
            out[k] = fresh(lambda: view(k, path))
        return out

    def same(self, ctx, mech, what, got, want):
        '''want: a result of fresh()'''
        ctx.counts['comparisons'] += 1
        if got[:2] == want[:2] if got[0] == 'ok' else \
                got[:2] == want[:2]:
            return True
        if got[0] == want[0] == 'ok':
            a, b = got[1], want[1]
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
                     min(len(a), len(b)))
            msg = 'differs at item %d of %d/%d: %s / %s' % (
                i, len(a), len(b), core.short(a[i:i + 1], 200),
                core.short(b[i:i + 1], 200))
        else:
            msg = 'got %s, in a fresh process %s' % (
                core.short(got, 900), core.short(want, 300))
        ctx.fail(mech, '%s: %s' % (what, msg))
        return False

    def stat(self, paths):
        out = []
        for p in paths:
            st = os.stat(p)
            with open(p, 'rb') as f:
                out.append((p, st.st_size, st.st_mtime_ns, st.st_mode,
                            views.sha(f.read())))
        return out

    def run(self, ctx, case):
        r = core.rng('P14', *case)
        getattr(self, 'run_' + case[0])(ctx, r)

    def unchanged(self, ctx, before, paths):
        for b, a in zip(before, self.stat(paths)):
            ctx.ev('unchanged')
            ctx.eq('document-modified', a, b, 'document')

    # -- histories ----------------------------------------------------------
    def run_history(self, ctx, r):
        paths = self.docs(r, 4, r.random() < .7)
        bads = [self.bad(r) for _ in range(2)]
        before = self.stat(paths)
        kinds = [[r.choice(CHEAP) for _ in range(3)] for _ in paths]
        if r.random() < .35:
            kinds[0].append('html')
            kinds[1].append('odt')
        refs = [self.reference(ctx, p, k) for p, k in zip(paths, kinds)]
        ops = [('view', i, k) for i in range(len(paths))
               for k in kinds[i] * 2]
        ops += [('abandon', r.randrange(len(paths)), r.choice(STEPS))
                for _ in range(4)]
        ops += [('fail', r.randrange(len(bads)), r.choice(CHEAP))
                for _ in range(4)]
        r.shuffle(ops)
        seed = r.random()

        def scenario():
            rr = random.Random(seed)
            keep = []
            out = []
            for op, i, k in ops:
                if op == 'view':
                    try:
                        out.append(('ok', view(k, paths[i])))
                    except Exception as e:
                        out.append(('exc', type(e).__name__, repr(e)))
                    continue
                out.append(None)
                h = None
                try:
                    h = views.H5(paths[i] if op == 'abandon' else bads[i])
                    if op == 'fail':
                        views.VIEWS[k](h)
                    else:
                        it = views.steps(k, h)
                        for _ in range(rr.randrange(1, 40)):
                            next(it)
                        if rr.random() < .5:
                            keep.append(it)
                        elif rr.random() < .5:
                            it.close()
                except Exception:
                    pass
                finally:
                    if h is not None and op == 'fail':
                        h.close()
            return out
        res = fresh(scenario)
        if not self.ok(ctx, 'history', res):
            return
        for (op, i, k), got in zip(ops, res[1]):
            ctx.ev({'view': 'history-op', 'abandon': 'abandoned',
                    'fail': 'failed-op'}[op])
            if op == 'view':
                ctx.distinct('history', k, i)
                self.same(ctx, 'history:' + k, 'after %d other operations'
                          % ops.index((op, i, k)), got, refs[i][k])
        self.unchanged(ctx, before, paths)

    def ok(self, ctx, mech, res):
        if res[0] == 'ok':
            return True
        if res[3]:
            ctx.fail(mech, 'unexpected %s: %s' % (res[1], res[2]))
        else:
            raise core.HarnessError(res[2])
        return False

    # -- interleaved iterations --------------------------------------------
    def run_interleave(self, ctx, r):
        paths = self.docs(r, 3)
        jobs = []
        for _ in range(6):
            jobs.append((r.randrange(len(paths)), r.choice(STEPS)))
        shared = r.random() < .6    # iterations over one and the same object
        limit = r.choice([60, 250, 800])

        def alone(i, k):
            def f():
                h = views.H5(paths[i])
                out = []
                for x in views.steps(k, h):
                    out.append(x)
                    if len(out) >= limit:
                        break
                h.close()
                return [views.sha(repr(x)) for x in out]
            return f
        refs = {}
        for j in jobs:
            if j not in refs:
                ctx.ev('reference')
                refs[j] = fresh(alone(*j))
        seed = r.random()

        def scenario():
            rr = random.Random(seed)
            objs = {}
            its = []
            for i, k in jobs:
                if shared:
                    h = objs.setdefault(i, None) or views.H5(paths[i])
                    objs[i] = h
                else:
                    h = views.H5(paths[i])
                its.append([views.steps(k, h), []])
            live = list(range(len(its)))
            switches = 0
            order = []
            while live:
                n = rr.choice(live)
                for _ in range(rr.choice([1, 1, 2, 5, 20])):
                    it, out = its[n]
                    try:
                        out.append(views.sha(repr(next(it))))
                    except StopIteration:
                        live.remove(n)
                        break
                    except Exception as e:
                        out.append((type(e).__name__, str(e)[:300]))
                        live.remove(n)
                        break
                    if len(out) >= limit:
                        live.remove(n)
                        break
                switches += 1
                order.append(n)
            return [o for _, o in its], switches, views.sha(repr(order))
        res = fresh(scenario)
        if not self.ok(ctx, 'interleave', res):
            return
        outs, switches, digest = res[1]
        ctx.ev('switches', switches)
        ctx.distinct('order', digest)
        for (i, k), got in zip(jobs, outs):
            ctx.ev('interleaved')
            ctx.ev('steps', len(got))
            ctx.distinct('interleave', k, shared)
            want = refs[i, k]
            if want[0] != 'ok':
                continue
            self.same(ctx, 'interleave:' + k, '%s of document %d among %r' %
                      (k, i, jobs), ('ok', got), want)

    # -- threads ------------------------------------------------------------
    def run_threads(self, ctx, r):
        paths = self.docs(r, 3, True)
        kinds = ['records', 'models', 'modelsjson', 'xml', 'sectionxml',
                 'summary', 'header', 'streams', 'text']
        jobs = [(r.randrange(len(paths)), r.choice(kinds))
                for _ in range(8)]
        # the same new version in several threads at once
        jobs += [jobs[0]] * 2
        r.shuffle(jobs)
        refs = {}
        for i, k in jobs:
            if (i, k) not in refs:
                refs.update({(i, k): self.reference(ctx, paths[i],
                                                    [k])[k]})
        seed = r.random()
        pause = r.choice([.0005, .002, .01])
        mode = r.choice(['delays', 'delays', 'switch'])

        def scenario():
            sys.setswitchinterval(1e-6 if mode == 'switch' else 1e-4)
            out = [None] * len(jobs)
            start = threading.Barrier(len(jobs))

            def tracer(rr):
                # injected delays inside the library's own functions
                left = [250]

                def trace(frame, event, arg):
                    if left[0] and rr.random() < pause and \
                            core.SRC in frame.f_code.co_filename:
                        left[0] -= 1
                        time.sleep(rr.choice([0, 0, .0005, .002]))
                    return None
                return trace

            def work(n, i, k):
                rr = random.Random(repr((seed, n)))
                try:
                    start.wait(30)
                    if mode == 'delays':
                        sys.setprofile(tracer(rr))
                    try:
                        out[n] = ('ok', view(k, paths[i]))
                    finally:
                        sys.setprofile(None)
                except Exception as e:
                    out[n] = ('exc', type(e).__name__, repr(e))
            ts = [threading.Thread(target=work, args=(n, i, k), daemon=True)
                  for n, (i, k) in enumerate(jobs)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(70)
            return out
        res = fresh(scenario)
        if not self.ok(ctx, 'threads', res):
            return
        for (i, k), got in zip(jobs, res[1]):
            ctx.ev('threaded')
            ctx.distinct('threads', k, mode)
            if got is None:
                raise core.Stuck('a thread did not finish')
            self.same(ctx, 'threads:' + k, '%s while %d threads run' %
                      (k, len(jobs)), got, refs[i, k])

    # -- the same view twice -------------------------------------------------
    def run_twice(self, ctx, r):
        for path in self.docs(r, 2):
            before = self.stat([path])
            kinds = r.sample(CHEAP, 5)
            refs = self.reference(ctx, path, kinds)
            seq = kinds * 2
            r.shuffle(seq)

            def scenario():
                h = views.H5(path)
                out = []
                for k in seq:
                    try:
                        out.append(('ok', views.VIEWS[k](h)))
                    except Exception as e:
                        out.append(('exc', type(e).__name__, repr(e)))
                h.close()
                return out
            res = fresh(scenario)
            if not self.ok(ctx, 'twice', res):
                continue
            for n, (k, got) in enumerate(zip(seq, res[1])):
                ctx.ev('again')
                ctx.distinct('twice', k)
                self.same(ctx, 'twice:' + k, '%s of one object after %r' %
                          (k, seq[:n]), got, refs[k])
            self.unchanged(ctx, before, [path])

    # -- converters with other options in the same process -------------------
    METHODS = [(c, e, m) for c, ms in (
        ('TextTransform', ['text']), ('HTMLTransform', ['xhtml', 'css']),
        ('ODTTransform', ['styles', 'content', 'single_document']))
        for e in (False, True) for m in ms]

    def run_converters(self, ctx, r):
        paths = self.docs(r, 1, True)
        # the options matter for documents with pictures
        paths += [docs.write(docgen.generate(
            r, odf=True, table_in_textbox=False, images=(1, 3), gso=.5,
            shapes=('$pic',), objects=6)) for _ in range(2)]
        before = self.stat(paths)

        def make(c, e):
            from hwp5.hwp5html import HTMLTransform
            from hwp5.hwp5odt import ODTTransform
            from hwp5.hwp5txt import TextTransform
            return locals()[c](embedbin=e)

        def convert(t, m, h):
            out = io.BytesIO()
            try:
                getattr(t, 'transform_hwp5_to_' + m)(h, out)
            except Exception as e:
                return 'exc', type(e).__name__
            return 'ok', views.sha(out.getvalue()), len(out.getvalue())

        def alone(c, e, m, path):
            def f():
                h = views.H5(path)
                try:
                    return convert(make(c, e), m, h)
                finally:
                    h.close()
            return f
        jobs = [r.choice(self.METHODS) + (r.randrange(len(paths)),)
                for _ in range(4)]
        # the same output from converters of either kind
        for c, m in (('ODTTransform', 'content'),
                     ('ODTTransform', 'single_document')):
            i = r.randrange(1, len(paths))
            jobs += [(c, False, m, i), (c, True, m, i)]
        refs = {}
        for j in jobs:
            if j not in refs:
                refs[j] = fresh(alone(j[0], j[1], j[2], paths[j[3]]))
        order = jobs * 2
        r.shuffle(order)
        early = r.random() < .6

        def scenario():
            ts = {}
            hs = [views.H5(p) for p in paths]
            if early:
                for c, e, m, i in order:
                    if (c, e) not in ts:
                        ts[c, e] = make(c, e)
            out = []
            for c, e, m, i in order:
                if (c, e) not in ts:
                    ts[c, e] = make(c, e)
                out.append(convert(ts[c, e], m, hs[i]))
            for h in hs:
                h.close()
            return out
        res = fresh(scenario)
        if not self.ok(ctx, 'converters', res):
            return
        for n, (j, got) in enumerate(zip(order, res[1])):
            ctx.ev('converted')
            ctx.distinct('converters', j[:3], early)
            self.same(ctx, 'converters:' + j[2], '%r after %r' % (
                j, order[:n]), ('ok', got), refs[j])
        self.unchanged(ctx, before, paths)

    # -- objects handed out earlier ------------------------------------------
    def run_handed(self, ctx, r):
        path, other = self.docs(r, 2)
        ops = [r.choice(CHEAP) for _ in range(4)]

        def scenario():
            h = views.H5(path)
            from hwp5.binmodel import model_to_json
            got = []
            for n, p in views.parts(h):
                got += list(p.records())
                got += list(p.models())
            ev = [x for n, p in views.parts(h)
                  for x in p.parse_model_events()]
            got += [i for e, i in ev]
            a = [deep(x) for x in got]
            for k in ops:
                try:
                    views.VIEWS[k](h)
                except Exception:
                    pass
                try:
                    view(k, other)
                except Exception:
                    pass
            from hwp5.recordstream import record_to_json
            for x in got:
                if 'payload' in x and 'content' in x:
                    model_to_json(x)
                elif 'payload' in x:
                    record_to_json(x)
            b = [deep(x) for x in got]
            bad = [i for i, (x, y) in enumerate(zip(a, b)) if x != y]
            first = views.VIEWS['models'](views.H5(path))
            # what was handed out is the caller's: changing it changes
            # nothing that is read afterwards
            for x in got:
                spoil(x)
            second = views.VIEWS['models'](views.H5(path))
            third = views.VIEWS['models'](h)
            return len(got), [(a[i][:300], b[i][:300]) for i in bad[:2]], \
                first, second, third
        res = fresh(scenario)
        if not self.ok(ctx, 'handed', res):
            return
        n, bad, first, second, third = res[1]
        ctx.ev('handed-out', n)
        ctx.check('handed-out', not bad, 'objects handed out before were '
                  'changed by %r: %r' % (ops, bad))
        self.same(ctx, 'handed-spoiled', 'reading after the caller changed '
                  'what it got', ('ok', second), ('ok', first))
        self.same(ctx, 'handed-spoiled', 'reading after the caller changed '
                  'what it got', ('ok', third), ('ok', first))

    # -- environments --------------------------------------------------------
    def commands(self, r, path, d):
        o = lambda n: os.path.join(d, n)
        c = [('hwp5proc', 'xml', path), ('hwp5proc', 'models', path),
             ('hwp5proc', 'ls', path), ('hwp5proc', 'ls', '--vstreams', path),
             ('hwp5proc', 'records', path, 'DocInfo'),
             ('hwp5proc', 'records', '--simple', path, 'DocInfo'),
             ('hwp5proc', 'summaryinfo', path),
             ('hwp5proc', 'header', path), ('hwp5proc', 'version', path),
             ('hwp5proc', 'find', '--tag', 'HWPTAG_PARA_TEXT', path),
             ('hwp5proc', 'cat', path, 'PrvText'),
             ('hwp5proc', 'cat', '--vstreams', path, 'PrvText.utf8'),
             ('hwp5proc', 'unpack', '--vstreams', path, o('unpacked')),
             ('hwp5txt', path), ('hwp5txt', '--output', o('t.txt'), path),
             ('hwp5html', '--output', o('html'), path),
             ('hwp5html', '--css', path), ('hwp5html', '--html', path),
             ('hwp5odt', '--output', o('o.odt'), path),
             ('hwp5odt', '--content', path), ('hwp5odt', '--styles', path)]
        return r.sample(c, 3)

    def outcome(self, args, d, env, cwd):
        os.mkdir(d)
        x = cli.real(*args, env=env, cwd=cwd, timeout=80)
        files = []
        for root, ds, fs in os.walk(d):
            for n in fs:
                p = os.path.join(root, n)
                if n.endswith('.odt'):
                    from zipfile import ZipFile
                    z = ZipFile(p)
                    files += [(i.filename, views.sha(z.read(i)))
                              for i in z.infolist()]
                    z.close()
                    continue
                with open(p, 'rb') as f:
                    files.append((os.path.relpath(p, d),
                                  views.sha(f.read())))
            for n in ds:
                files.append((os.path.relpath(os.path.join(root, n), d),
                              None))
        return x, sorted(files, key=repr)

    def run_environ(self, ctx, r):
        path, = self.docs(r, 1)
        before = self.stat([path])
        top = core.newdir('env')
        base = None
        place = os.path.join(top, 'dest')
        cmds = self.commands(r, path, place)
        for args in cmds:
            # the same name of the file and destination, seen from elsewhere
            envs = [dict(PYTHONHASHSEED='0')] + r.sample(ENVS, 3)
            ref = None
            for n, env in enumerate(envs):
                env = dict(env)
                cwd = top
                if n:
                    env.setdefault('PYTHONHASHSEED',
                                   str(r.randrange(1, 10 ** 9)))
                    env['TMPDIR'] = os.path.join(top, 'tmp %d' % n)
                    if not os.path.isdir(env['TMPDIR']):
                        os.mkdir(env['TMPDIR'])
                    cwd = r.choice(['/', top, os.path.dirname(path)])
                x, files = self.outcome(args, place, env, cwd)
                core.rmdir(place)
                got = (x.code, views.sha(x.out), files)
                if ref is None:
                    ref = got
                    out = x.out
                    continue
                ctx.ev('environment')
                ctx.distinct('environ', args[:2], sorted(envs[n].items()))
                ctx.eq('environment', got, ref, '%r with %r in %s (%s)' % (
                    [a for a in args if a != path], envs[n], cwd,
                    x.err[-300:]))
            # as a relative path
            if 'find' in args:
                continue        # shows the name it was given
            rel = [os.path.basename(path) if a == path else a for a in args]
            x, files = self.outcome(rel, place, {}, os.path.dirname(path))
            core.rmdir(place)
            ctx.ev('environment')
            ctx.eq('relative-path', (x.code, views.sha(x.out), files), ref,
                   '%r' % (rel,))
        self.unchanged(ctx, before, [path])


    def run_hashseed(self, ctx, r):
        '''every view, computed by interpreters of different hash seeds'''
        path, = self.docs(r, 1, r.random() < .5)
        before = self.stat([path])
        ref = None
        for seed in ['0'] + [str(r.randrange(1, 1 << 32)) for _ in range(3)]:
            try:
                p = subprocess.run(
                    [sys.executable, '-B', '-m', 'vlib.views', path],
                    cwd=core.VERIF, stdout=subprocess.PIPE,
                    stderr=subprocess.PIPE, timeout=core.patience(100),
                    env=dict(os.environ, PYTHONHASHSEED=seed))
            except subprocess.TimeoutExpired:
                raise core.Stuck('views are not taken in time')
            if p.returncode != 0:
                err = p.stderr.decode()[-3000:]
                if core.SRC in err:
                    ctx.fail('runs', 'hash seed %s: %s' % (seed, err[-600:]))
                    return
                raise core.HarnessError(err[-600:])
            got = json.loads(p.stdout.decode())
            if ref is None:
                ref = got
                continue
            ctx.eq("hashseed:views", sorted(got), sorted(ref), "views")
            for k in sorted(ref):
                ctx.ev('hash-seeds')
                ctx.distinct('hashseed', k)
                ctx.eq('hashseed:' + k, got.get(k), ref[k],
                       '%s with PYTHONHASHSEED=%s' % (k, seed))
        self.unchanged(ctx, before, [path])


def deep(x, depth=0):
    if depth > 12:
        return '...'
    if isinstance(x, dict):
        return '{%s}' % ','.join(sorted(
            '%r:%s' % (k, deep(v, depth + 1)) for k, v in x.items()
            if k not in ('exception',)))
    if isinstance(x, (list, tuple)):
        return '[%s]' % ','.join(deep(v, depth + 1) for v in x)
    if isinstance(x, type):
        return x.__name__
    if isinstance(x, (int, float, str, bytes)) or x is None:
        return repr(x)
    return type(x).__name__


def spoil(x):
    if isinstance(x, dict):
        vs = [v for k, v in x.items() if k in ('content', 'value',
                                               'payload')]
        for v in vs:
            spoil(v)
        for k in list(x):
            if k in ('content', 'value', 'payload', 'tagid', 'level',
                     'seqno', 'size', 'tagname', 'name'):
                x[k] = None
        x['spoiled'] = True
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        del x[:]


if __name__ == '__main__':
    sys.exit(core.main(P14(), sys.argv[1:]))
