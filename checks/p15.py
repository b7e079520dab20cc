# -*- coding: utf-8 -*-
'''P15: failures are reported and leave no residue.  Every file operation of
every command is monitored by a preloaded shim and made to fail in turn; the
outcome is compared with the undisturbed run.'''
import errno
import os
import shutil
import stat
import struct
import subprocess
import sys
import zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cfb, cli, core, docgen, docs, enc, faults, views
from vlib.faults import OPS

PLAUSIBLE = {
    'openr': [errno.EACCES, errno.EMFILE, errno.EIO],
    'openw': [errno.EACCES, errno.ENOSPC, errno.EMFILE],
    'read': [errno.EIO, -1], 'write': [errno.ENOSPC, errno.EIO, -1, 'full'],
    'close': [errno.EIO, errno.ENOSPC], 'unlink': [errno.EACCES],
    'mkdir': [errno.EACCES, errno.ENOSPC], 'rmdir': [errno.EACCES],
    'rename': [errno.EACCES], 'seek': [errno.EIO]}
ERRNAME = dict(errno.errorcode)
ERRNAME.update({-1: 'short', 'full': 'ENOSPC for good'})


# documents every converter accepts
ODF = dict(odf=True, table_in_textbox=False,
           shapes=('$rec', '$pic', '$con', '$lin'))


class P15(core.Check):
    PROP = 'P15'
    RULE = ('one comparison = the outcome of one disturbed run: exit status, '
            'output, temporary files, descriptors, source; distinct = '
            '(command, operation, place, error)')
    CASE_TIMEOUT = 200

    def setup(self):
        faults.build()
        cli.warm()

    def cases(self):
        c = []
        for k, q, t in (('fault', 21, 240), ('damage', 48, 500),
                        ('helper', 6, 60), ('leak', 6, 60),
                        ('dest', 6, 60)):
            c += [(k, core.SEED, i) for i in range(core.scale(q, t))]
        return c

    def minimum(self, counts):
        return {'faults': 400, 'fired': 400, 'reported': 150,
                'unharmed': 100, 'damaged': 150, 'leak-ops': 100,
                'helper': 30, 'dest': 30, 'op:write': 60, 'op:read': 60,
                'op:openw': 20, 'op:openr': 20}

    def run(self, ctx, case):
        r = core.rng('P15', *case)
        getattr(self, 'run_' + case[0])(ctx, r, case[2])

    # -- a place to run in ---------------------------------------------------
    def room(self, doc):
        top = core.newdir('room')
        for n in ('doc', 'tmp', 'dest', 'cwd'):
            os.mkdir(os.path.join(top, n))
        path = docs.write(doc, os.path.join(top, 'doc', 'doc.hwp'))
        return top, path

    def snapshot(self, top, skip=()):
        out = {}
        for root, ds, fs in os.walk(top):
            ds[:] = [d for d in ds if os.path.join(root, d) not in skip]
            for n in ds + fs:
                p = os.path.join(root, n)
                st = os.lstat(p)
                if stat.S_ISREG(st.st_mode):
                    with open(p, 'rb') as f:
                        out[os.path.relpath(p, top)] = \
                            (st.st_mode, views.sha(f.read()))
                else:
                    out[os.path.relpath(p, top)] = (st.st_mode,)
        return out

    def product(self, dest):
        '''what the run produced'''
        out = {}
        for root, ds, fs in os.walk(dest):
            for n in ds:
                out[os.path.relpath(os.path.join(root, n), dest)] = None
            for n in fs:
                p = os.path.join(root, n)
                k = os.path.relpath(p, dest)
                if n.endswith('.odt'):
                    from zipfile import ZipFile, BadZipFile
                    try:
                        z = ZipFile(p)
                        out[k] = [(i.filename, views.sha(z.read(i)))
                                  for i in z.infolist()]
                        z.close()
                    except (BadZipFile, zlib.error, EOFError) as e:
                        out[k] = 'broken: %s' % e
                    continue
                with open(p, 'rb') as f:
                    out[k] = views.sha(f.read())
        return out

    COMMANDS = [
        ('hwp5txt', '@'), ('hwp5txt', '--output', 'D/o.txt', '@'),
        ('hwp5html', '--output', 'D/o', '@'), ('hwp5html', '--css', '@'),
        ('hwp5html', '--html', '--output', 'D/o.html', '@'),
        ('hwp5odt', '--output', 'D/o.odt', '@'),
        ('hwp5odt', '--content', '--output', 'D/c.xml', '@'),
        ('hwp5odt', '--document', '@'),
        ('hwp5odt', '--embed-image', '--styles', '@'),
        ('hwp5proc', 'xml', '--no-validate-wellformed', '@'),
        ('hwp5proc', 'xml', '--output', 'D/o.xml', '@'),
        ('hwp5proc', 'xml', '--embedbin', '@'),
        ('hwp5proc', 'unpack', '@', 'D/u'),
        ('hwp5proc', 'unpack', '--vstreams', '@', 'D/u'),
        ('hwp5proc', 'unpack', '--ole', '@', 'D/u'),
        ('hwp5proc', 'cat', '@', 'BodyText/Section0'),
        ('hwp5proc', 'cat', '--vstreams', '@', 'BodyText.xml'),
        ('hwp5proc', 'models', '@', 'BodyText/Section0'),
        ('hwp5proc', 'records', '--raw', '@', 'DocInfo'),
        ('hwp5proc', 'ls', '--vstreams', '@'),
        ('hwp5proc', 'find', '--tag', '67', '@')]

    # -- faults --------------------------------------------------------------
    def run_fault(self, ctx, r, n):
        doc = docgen.generate(r, **ODF, objects=3, paras=(1, 3), sections=(1, 2),
                              dist=r.random() < .15)
        cmd = self.COMMANDS[n % len(self.COMMANDS)]
        top, path = self.room(doc)
        dest = os.path.join(top, 'dest')
        tmp = os.path.join(top, 'tmp')
        if r.random() < .7 and cmd[0] == 'hwp5html' and '--output' in cmd \
                and '--html' not in cmd:
            stale = True        # an older result is replaced
        else:
            stale = False
        args = [path if a == '@' else a.replace('D/', dest + '/')
                for a in cmd]
        prefixes = [os.path.join(top, x) for x in ('doc', 'tmp', 'dest',
                                                   'cwd')]
        prefixes += [os.path.join(core.SRC, 'hwp5', 'xsl'),
                     os.path.join(core.SRC, 'hwp5', 'odf-relaxng')]
        names = ['doc', 'tmp', 'dest', 'cwd', 'xsl', 'rng', 'stdout']
        srv = faults.Server()
        q = dict(args=args, cwd=os.path.join(top, 'cwd'), tmp=tmp,
                 prefixes=prefixes)

        def again(**kw):
            for d in (dest, tmp, q['cwd']):
                shutil.rmtree(d)
                os.mkdir(d)
            if stale:
                os.mkdir(dest + '/o')
                with open(dest + '/o/old.html', 'w') as f:
                    f.write('old')
            before = self.snapshot(top, (dest,))
            a = srv.ask(**dict(q, **kw))
            return before, a
        before, ref = again()
        if ref['code'] != 0 or ref.get('killed'):
            ctx.fail('healthy', '%r: exit %r, %s' % (cmd, ref['code'],
                                                     ref['err'][-600:]))
            srv.close()
            return
        self.tidy(ctx, cmd, 'undisturbed', top, dest, before, ref, False)
        want = (ref['out'], self.product(dest))
        ops = list(enumerate(ref['ops']))
        if '--output' in cmd or cmd[1] == 'unpack':
            ctx.check('product', want[1], 'nothing was produced')
        else:
            ctx.check('product', want[0], 'nothing was printed')
        # every kind of operation at every place first, then at random
        first = {}
        for k, o in ops:
            first.setdefault(o, []).append(k)
        plan = []
        for o, ks in sorted(first.items()):
            for e in PLAUSIBLE[OPS[o // 16]]:
                for k in {ks[0], ks[-1], r.choice(ks)}:
                    plan.append((k, e))
        r.shuffle(plan)
        most = core.scale(40, 160)
        plan = plan[:most]
        while len(plan) < min(most, 3 * len(ops)):
            k, o = r.choice(ops)
            plan.append((k, r.choice(PLAUSIBLE[OPS[o // 16]])))
        for k, e in plan:
            o = ref['ops'][k]
            op, place = OPS[o // 16], names[o % 16]
            kw = dict(nth=k, errno=e)
            if e == 'full':
                kw.update(errno=errno.ENOSPC, sticky=o // 16)
            before, a = again(**kw)
            ctx.ev('faults')
            ctx.ev('op:' + op)
            what = '%r: %s on %s (operation %d, %s)' % (
                list(cmd), ERRNAME[e], place, k, op)
            if a.get('killed'):
                ctx.fail('fault:hang', '%s: ended with %r' % (what,
                                                              a['code']))
                continue
            if a['fired'] < 0:
                continue
            ctx.ev('fired')
            ctx.distinct(cmd[:2], op, place, e)
            got = (a['out'], self.product(dest))
            if a['code'] == 0:
                ctx.ev('unharmed')
                ctx.check('fault:%s:success' % op, got == want, '%s: reported '
                          'as a success, but %s' % (what,
                                                    diff(got, want)))
            else:
                ctx.ev('reported')
                ctx.check('fault:%s:silent' % op, a['err'].strip(),
                          '%s: exit %r without a message' % (what,
                                                             a['code']))
                ctx.check('fault:%s:short' % op, e != -1, '%s: a short '
                          'transfer is no failure: %s' % (what,
                                                          a['err'][-500:]))
            self.tidy(ctx, cmd, what, top, dest, before, a,
                      op in ('unlink', 'rmdir'))
        srv.close()
        core.rmdir(top)

    def tidy(self, ctx, cmd, what, top, dest, before, a, unlinked):
        now = self.snapshot(top, (dest,))
        if unlinked:
            now = {k: v for k, v in now.items() if not k.startswith('tmp/')}
        ctx.eq('residue', sorted(set(now.items()) ^ set(before.items())), [],
               '%s: changed outside the destination' % what)
        ctx.eq('descriptors', a['fds'], {}, '%s: left open' % what)
        ok = (dest + '/', os.path.join(top, 'tmp') + '/')
        bad = []
        for p in a['writes']:
            q = os.path.normpath(os.path.join(a['cwd'], p))
            if not (q + '/').startswith(ok) and q not in ('/dev/null',):
                bad.append(p)
        ctx.eq('outside', bad, [], '%s: written outside' % what)

    # -- damaged documents ---------------------------------------------------
    def run_damage(self, ctx, r, n):
        from vlib import rectree
        kind = ['payload', 'stream', 'deflate', 'missing', 'notdoc',
                'header'][n % 6]
        doc = docgen.generate(r, **ODF, objects=2, paras=(1, 3), sections=(1, 2),
                              flags=1 if kind == 'deflate' else
                              r.choice([0, 1]))
        tree = doc.tree()
        comp = doc.flags & 1
        data = None

        def pack(b):
            return enc.deflate(b) if comp else b
        inner = {}
        for name in ('DocInfo', 'BodyText/Section0'):
            x = tree
            for p in name.split('/'):
                x = x[p]
            inner[name] = zlib.decompress(x, -15) if comp else x
        name = r.choice(sorted(inner))

        def put(b):
            if '/' in name:
                a, b_ = name.split('/')
                tree[a][b_] = b
            else:
                tree[name] = b
        recs = enc.split_records(inner[name])
        if kind == 'payload':
            bad = None
            from checks.p03 import P03
            for _ in range(60):
                i = r.randrange(len(recs))
                t, l, p = recs[i][:3]
                if not p:
                    continue
                new = [x[:3] for x in recs]
                new[i] = (t, l, p[:r.randrange(len(p))])
                refs, bad = P03().decode(doc.version, new)
                if bad and bad[0] == 'error':
                    break
                bad = None
            if not bad:
                return
            put(pack(enc.records(new)))
            what = 'record %d (tag %d) of %s cut to %d of %d bytes' % (
                i, t, name, len(new[i][2]), len(p))
        elif kind == 'stream':
            b = inner[name]
            x = r.random()
            if x < .5:
                cut = r.randrange(1, len(b))
            else:
                # within or just behind the header of the last record, which
                # may have an extended size
                big = x > .7
                cut = len(b) + r.choice([4, 4, r.randrange(1, 9)] if big
                                        else [1, 2, 3, 4])
                b += enc.records([(r.choice([27, 99]), 0, b'x' * (
                    5000 if big else 9))])
            try:
                enc.split_records(b[:cut])
                ends = True
            except Exception:
                ends = False
            if ends:
                cut -= 1
                try:
                    enc.split_records(b[:cut])
                    return
                except Exception:
                    pass
            put(pack(b[:cut]))
            what = '%s ends within a record, at %d' % (name, cut)
        elif kind == 'deflate':
            if not comp:
                return
            raw = tree[name] if '/' not in name else \
                tree['BodyText']['Section0']
            raw = raw[:r.randrange(1, len(raw))]
            try:
                enc.split_records(raw)
                return      # the fallback for streams stored uncompressed
            except Exception:
                pass
            put(raw)
            what = 'compressed %s cut to %d bytes' % (name, len(raw))
        elif kind == 'missing':
            name = r.choice(['DocInfo', 'BodyText'])
            del tree[name]
            what = 'no ' + name
        elif kind == 'header':
            b = bytearray(tree['FileHeader'])
            if r.random() < .5:
                b[r.randrange(17)] ^= 1 << r.randrange(7)
            else:
                b = b[:r.randrange(40)]
            tree['FileHeader'] = bytes(b)
            what = 'FileHeader %r' % bytes(b[:40])
        else:
            data = r.choice([b'', b'\0' * 5000, b'PK\3\4' + b'x' * 600,
                             r.randbytes(3000), cfb.build({})])
            what = 'not a document: %r...' % data[:20]
        top, path = self.room(data if data is not None else cfb.build(tree))
        dest = os.path.join(top, 'dest')
        converters = [c for c in self.COMMANDS[:12]]
        for cmd in r.sample(converters, 5) + [
                ('hwp5proc', 'find', '@')] * (kind != 'header'):
            shutil.rmtree(dest)
            os.mkdir(dest)
            before = self.snapshot(top, (dest,))
            args = [path if a == '@' else a.replace('D/', dest + '/')
                    for a in cmd]
            x = cli.run(*args, cwd=os.path.join(top, 'cwd'),
                        env=dict(TMPDIR=os.path.join(top, 'tmp')),
                        hook=lambda: settmp(os.path.join(top, 'tmp')))
            ctx.ev('damaged')
            ctx.distinct('damage', kind, cmd[:2])
            if cmd[1] == '--css' and kind != 'notdoc' and False:
                continue
            ctx.check('damage:success', x.code > 0, '%s: %r ends with '
                      'exit %r' % (what, cmd, x))
            ctx.check('damage:silent', x.err.strip(), '%s: %r says nothing' %
                      (what, cmd))
            now = self.snapshot(top, (dest,))
            ctx.eq('damage:residue', sorted(set(now.items()) ^
                                            set(before.items())), [],
                   '%s: %r: changed outside the destination' % (what, cmd))
        core.rmdir(top)

    # -- failing helper programs ---------------------------------------------
    def run_helper(self, ctx, r, n):
        doc = docgen.generate(r, **ODF, objects=2, paras=(1, 3), sections=(1, 1))
        top, path = self.room(doc)
        dest = os.path.join(top, 'dest')
        bin_ = os.path.join(top, 'bin')
        os.mkdir(bin_)
        real = {n: shutil.which(n) for n in ('xsltproc', 'xmllint')}
        kinds = {
            'exit': '#!/bin/sh\n[ "$1" = --version ] && exit 0\nexit 3\n',
            'partial': '#!/bin/sh\n[ "$1" = --version ] && exit 0\n'
                       '%s "$@" | head -c 200\nexit 5\n',
            'killed': '#!/bin/sh\n[ "$1" = --version ] && exit 0\n'
                      '%s "$@" | head -c 300\nkill -9 $$\n',
            'early': '#!/bin/sh\n[ "$1" = --version ] && exit 0\n'
                     'exec <&-\nexit 1\n',
            'late': '#!/bin/sh\n[ "$1" = --version ] && exit 0\n'
                    '%s "$@"\nexit 9\n'}
        srv = faults.Server()
        for cmd, who, off in (
                (('hwp5proc', 'xml', '@'), 'xmllint', []),
                (('hwp5proc', 'xml', '--output', 'D/x', '@'), 'xmllint', []),
                (('hwp5odt', '--output', 'D/o.odt', '@'), 'xmllint',
                 ['_lxml']),
                (('hwp5odt', '--content', '@'), 'xmllint', ['_lxml']),
                (('hwp5odt', '--output', 'D/o.odt', '@'), 'xsltproc',
                 ['_lxml']),
                (('hwp5html', '--output', 'D/h', '@'), 'xsltproc',
                 ['_lxml']),
                (('hwp5txt', '--output', 'D/t', '@'), 'xsltproc',
                 ['_lxml']),
                (('hwp5txt', '@'), 'xsltproc', ['_lxml'])):
            for kind in r.sample(sorted(kinds), 2):
                text = kinds[kind]
                p = os.path.join(bin_, who)
                with open(p, 'w') as f:
                    f.write(text % real[who] if '%s' in text else text)
                os.chmod(p, 0o755)
                shutil.rmtree(dest)
                os.mkdir(dest)
                before = self.snapshot(top, (dest,))
                a = srv.ask(
                    args=[path if x == '@' else x.replace('D/', dest + '/')
                          for x in cmd], cwd=os.path.join(top, 'cwd'),
                    tmp=os.path.join(top, 'tmp'), prefixes=[], disable=off,
                    env=dict(PATH=bin_ + ':' + os.environ['PATH']))
                os.unlink(p)
                before.pop('bin/' + who)
                ctx.ev('helper')
                ctx.distinct('helper', cmd[:2], who, kind)
                what = '%r with %s failing (%s)' % (list(cmd), who, kind)
                if a.get('killed'):
                    ctx.fail('helper:hang', what)
                    continue
                ctx.check('helper:success', a['code'] != 0, '%s: exit 0' %
                          what)
                self.tidy(ctx, cmd, what, top, dest, before, a, False)
        srv.close()
        core.rmdir(top)

    # -- repeated operations in one process ----------------------------------
    def run_leak(self, ctx, r, n):
        good = [docs.write(docgen.generate(r, **ODF, objects=2, paras=(1, 2),
                                           sections=(1, 1),
                                           dist=r.random() < .3))
                for _ in range(2)]
        bad = []
        for _ in range(2):
            d = docgen.generate(r, **ODF, objects=2, paras=(1, 2), sections=(1, 1))
            t = d.tree()
            t['BodyText']['Section0'] = t['BodyText']['Section0'][:-9]
            bad.append(docs.write(cfb.build(t)))
        t = cfb.build({'x': b'y' * 5000})
        bad.append(docs.write(t))
        bad.append(docs.write(b'nothing'))
        tmp = core.newdir('ltmp')
        ops = [(r.choice(views.CHEAP + ['html', 'odt']), p)
               for p in good + bad for _ in range(3)]
        r.shuffle(ops)

        def scenario():
            import gc
            import warnings
            from vlib.faultserver import fds
            settmp(tmp)
            out = []
            warned = []
            warnings.simplefilter('always', ResourceWarning)
            warnings.showwarning = lambda m, c, f, l, file=None, line=None: \
                warned.append(str(m)) if c is ResourceWarning else None
            for k, p in ops[:3]:
                try:
                    views.view(k, p)
                except Exception:
                    pass
            gc.collect()
            before = fds()
            del warned[:]
            for k, p in ops:
                try:
                    views.view(k, p)
                    ok = True
                except Exception:
                    ok = False
                gc.collect()
                now = {a: b for a, b in fds().items() if a not in before
                       and not b.startswith('/proc/')}
                out.append((ok, sorted(now.values()), list(warned),
                            os.listdir(tmp)))
                del warned[:]
            return out
        res = views.fresh(scenario)
        if res[0] != 'ok':
            if res[3]:
                ctx.fail('leak', 'unexpected %s: %s' % (res[1], res[2]))
                return
            raise core.HarnessError(res[2])
        for (k, p), (ok, open_, warned, left) in zip(ops, res[1]):
            ctx.ev('leak-ops')
            ctx.distinct('leak', k, ok)
            what = '%s of a %s document' % (k, 'good' if ok else 'damaged')
            ctx.eq('leak:descriptors', open_, [], '%s: left open' % what)
            ctx.eq('leak:warnings', warned, [], '%s: not closed' % what)
            ctx.eq('leak:temporary', left, [], '%s: left behind' % what)

    # -- destinations ----------------------------------------------------------
    def run_dest(self, ctx, r, n):
        doc = docgen.generate(r, **ODF, objects=2, paras=(1, 2), sections=(1, 1))
        top, path = self.room(doc)
        cwd = os.path.join(top, 'cwd')
        dest = os.path.join(top, 'dest')

        def go(mech, cmd, want, **kw):
            before = self.snapshot(top)
            args = [path if a == '@' else a for a in cmd]
            kw.setdefault('cwd', cwd)
            x = cli.run(*args, hook=lambda: settmp(os.path.join(top, 'tmp')),
                        **kw)
            now = self.snapshot(top)
            ctx.ev('dest')
            ctx.distinct('dest', mech, cmd[:2])
            ctx.eq('dest:source', now.get('doc/doc.hwp'),
                   before['doc/doc.hwp'], '%r: the document' % (cmd,))
            ctx.check('dest:tmp', not [k for k in now
                                       if k.startswith('tmp/')],
                      '%r: temporary files' % (cmd,))
            if want == 'fail':
                ctx.check('dest:' + mech, x.code > 0 and x.err.strip(),
                          '%r: %r' % (cmd, x))
            else:
                ctx.check('dest:' + mech, x.code == 0, '%r: %r' % (cmd, x))
            return x, set(now.items()) ^ set(before.items())
        # nowhere to write to
        for cmd in [('hwp5txt', '--output', dest + '/no/x', '@'),
                    ('hwp5html', '--output', dest + '/no/x', '@'),
                    ('hwp5odt', '--output', dest + '/no/x', '@'),
                    ('hwp5odt', '--content', '--output', dest + '/no/x',
                     '@'),
                    ('hwp5proc', 'xml', '--output', dest + '/no/x', '@'),
                    ('hwp5proc', 'unpack', '@', dest + '/no/x'),
                    ('hwp5txt', '--output', dest, '@'),
                    ('hwp5odt', '--output', dest, '@'),
                    ('hwp5proc', 'xml', '--output', dest, '@')]:
            x, ch = go('nowhere', cmd, 'fail')
            ctx.eq('dest:nowhere', sorted(ch), [], '%r: changed' % (cmd,))
        # a destination which is, or holds, the document
        for cmd in [('hwp5html', '--output', os.path.join(top, 'doc'), '@'),
                    ('hwp5html', '--output', top, '@')]:
            x, ch = go('source', cmd, 'fail')
            ctx.eq('dest:source', sorted(ch), [], '%r: changed' % (cmd,))
            if not os.path.exists(path):
                return
        # a link to a folder of something else
        other = os.path.join(top, 'dest', 'other')
        os.mkdir(other)
        for n in ('index.xhtml', 'mine.txt'):
            with open(os.path.join(other, n), 'w') as f:
                f.write('mine')
        link = os.path.join(top, 'dest', 'link')
        os.symlink(other, link)
        mine = self.snapshot(other)
        x = cli.run('hwp5html', '--output', link, path)
        now = self.snapshot(link)
        ctx.ev('dest')
        if x.code == 0:
            ctx.check('dest:link', 'mine.txt' not in now, 'success, and '
                      'the result is mixed with %r' % sorted(now))
        else:
            ctx.eq('dest:link', self.snapshot(other), mine,
                   'failed, and changed what is there')
        shutil.rmtree(other)
        os.unlink(link)
        # default destinations: in the working directory, named after it
        for cmd, name in ((('hwp5odt', '@'), 'doc.odt'),
                          (('hwp5html', '@'), 'doc'),
                          (('hwp5proc', 'unpack', '@'), 'doc')):
            x, ch = go('default', cmd, 'ok')
            ctx.check('dest:default', ch and all(
                k == 'cwd/' + name or k.startswith('cwd/%s/' % name)
                for k, v in ch), '%r: changed %r' % (cmd, sorted(ch)[:5]))
            shutil.rmtree(cwd)
            os.mkdir(cwd)
        # the device is full (a real interpreter with its real exit)
        for cmd in r.sample([c for c in self.COMMANDS
                             if 'D/' not in ' '.join(c)], 4) + \
                [('hwp5proc', 'xml', '@')]:
            args = [path if a == '@' else a for a in cmd]
            code = 'import sys; from %s import main; sys.argv[0]=%r; ' \
                'sys.exit(main())' % (cli.MAINS[args[0]], args[0])
            with open('/dev/full', 'wb') as f:
                p = subprocess.run(
                    [sys.executable, '-B', '-c', code] + args[1:], stdout=f,
                    stdin=subprocess.DEVNULL, stderr=subprocess.PIPE,
                    cwd=cwd, env=dict(os.environ, PYTHONPATH=core.SRC,
                                      TMPDIR=os.path.join(top, 'tmp')))
            ctx.ev('dest')
            ctx.distinct('full', cmd[:2])
            mech = 'dest:full'
            if cmd[1] == 'xml' and '--no-validate-wellformed' not in cmd:
                mech = 'dest:full:xmllint'  # written by xmllint itself
            ctx.check(mech, p.returncode != 0, '%r to a full device: '
                      'exit 0' % (cmd,))
        core.rmdir(top)


def settmp(path):
    import tempfile
    tempfile.tempdir = path


def diff(got, want):
    if got[0] != want[0]:
        return 'printed %d bytes instead of %d' % (len(got[0]), len(want[0]))
    a, b = got[1], want[1]
    return ', '.join('%s: %s instead of %s' % (
        k, core.short(a.get(k, 'missing'), 100),
        core.short(b.get(k, 'nothing'), 100))
        for k in sorted(set(a) | set(b)) if a.get(k, 0) != b.get(k, 0))[:500]


if __name__ == '__main__':
    sys.exit(core.main(P15(), sys.argv[1:]))
