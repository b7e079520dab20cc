# -*- coding: utf-8 -*-
'''P18: unpacking.  Trees with ordinary and hostile names are unpacked in a
jail; what was created is compared with the tree, everything around the
destination with what it was before.'''
import collections
import io
import os
import shutil
import sys
import zipfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cfb, cli, core, docgen, docs, enc, jail, trees, views

HOSTILE = ['..', '.', '../up', '../../up2', '/abs', '//abs2', 'a/b', 'a/../b',
           '../../../../../../tmp/x', './c', '/', '../', '..\\win', '\x05Ctl',
           '\x01\x02', 'new\nline', 'tab\t', 'esc\x1b[31m', '\x05', 'x\x05y',
           '../doc.hwp', '/etc/passwd', '...', '~/x', '../cwd/f', '..//..',
           '\x1f/..', 'a/', '../dest2/x']
LEGAL = [n for n in HOSTILE if '/' not in n]
DESTS = ['out', 'out put', '가나다', 'x\x05y', 'a.b', '%s', '-n', "q'q", '~',
         '\x05', 'deep/er', 'out/', './out', '../cwd/out', 'sub/../out']


class P18(core.Check):
    PROP = 'P18'
    RULE = ('one comparison = one unpacked tree (names, kinds, bytes) or the '
            'surroundings of one destination; distinct = (operation, name '
            'class, destination) and tree digests')
    CASE_TIMEOUT = 90

    def setup(self):
        cli.warm()
        import hwp5.hwp5html, hwp5.hwp5odt  # noqa
        from hwp5.hwp5html import HTMLTransform  # noqa

    def cases(self):
        n = core.scale(1, 25)
        return [(k, core.SEED, i) for k, q in (
            ('tree', 24), ('names', 30), ('dest', 16), ('html', 10),
            ('odt', 10)) for i in range(q * n)]

    def minimum(self, counts):
        return {'unpacked': 250, 'streams': 2500, 'storages': 500,
                'hostile-names': 150, 'destinations': 60, 'converted': 20,
                'stale-files': 50,
                'jailed': 150}

    def run(self, ctx, case):
        r = core.rng('P18', *case)
        getattr(self, 'run_' + case[0])(ctx, r)

    # -- places --------------------------------------------------------------
    def place(self, data):
        top = jail.room()
        for n in ('doc', 'cwd', 'cwd/sub', 'cwd/deep', 'around', 'tmp',
                  'dest2', 'up'):
            os.mkdir(os.path.join(top, n))
            with open(os.path.join(top, n, 'f'), 'w') as f:
                f.write('keep ' + n)
        path = docs.write(data, os.path.join(top, 'doc', 'doc.hwp'))
        jail.give(top)
        return top, path

    def scan(self, top, skip):
        out = {}
        for root, ds, fs in os.walk(top):
            ds[:] = [d for d in ds if os.path.join(root, d) != skip]
            for n in ds:
                out[os.path.join(root, n)] = None
            for n in fs:
                with open(os.path.join(root, n), 'rb') as f:
                    out[os.path.join(root, n)] = views.sha(f.read())
        return out

    def load(self, d):
        '''a directory as a tree'''
        out = {}
        for n in os.listdir(d):
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[n] = 'link'
            elif os.path.isdir(p):
                out[n] = self.load(p)
            else:
                with open(p, 'rb') as f:
                    out[n] = f.read()
        return out

    # -- the oracle ----------------------------------------------------------
    def plain(self, n):
        return n not in ('', '.', '..') and '/' not in n and \
            not any(c < ' ' for c in n)

    def compare(self, ctx, mech, want, got, path=''):
        '''every stream and storage once; ordinary names as they are'''
        names = set(want)
        rest = dict(got)
        odd = []
        good = True
        for n, x in want.items():
            m = n
            if '\x05' in n and self.plain(n.replace('\x05', '')) \
                    and n.replace('\x05', '') and \
                    n.replace('\x05', '_05') not in names:
                m = n.replace('\x05', '_05')
            elif not self.plain(n):
                odd.append((n, x))
                continue
            if m not in rest:
                return ctx.fail(mech + ':missing', '%r lacks %r (as %r); '
                                'there: %r' % (path, n, m, sorted(rest)))
            y = rest.pop(m)
            good = self.item(ctx, mech, path + n, x, y)
        if odd:
            ctx.ev('hostile-names', len(odd))
            left = collections.Counter(digest(y) for y in rest.values())
            need = collections.Counter(digest(x) for n, x in odd)
            ctx.eq(mech + ':hostile', dict(left - need), {},
                   '%r: unexpected items %r for the names %r' %
                   (path, sorted(rest), [n for n, x in odd]))
            ctx.eq(mech + ':hostile', dict(need - left), {},
                   '%r: missing items for the names %r; there: %r' %
                   (path, [n for n, x in odd], sorted(rest)))
            for n in rest:
                ctx.check(mech + ':printable', not any(
                    c < ' ' for c in n), '%r: name %r' % (path, n))
        else:
            ctx.eq(mech + ':extra', sorted(rest), [], '%r: unexpected' %
                   path)
        return good

    def item(self, ctx, mech, path, x, y):
        if isinstance(x, dict):
            ctx.ev('storages')
            if not isinstance(y, dict):
                return ctx.fail(mech + ':kind', '%r is no folder' % path)
            return self.compare(ctx, mech, x, y, path + '/')
        ctx.ev('streams')
        if isinstance(y, dict):
            return ctx.fail(mech + ':kind', '%r is a folder' % path)
        return ctx.eq(mech + ':bytes', len(y), len(x), 'size of %r' % path) \
            and ctx.check(mech + ':bytes', x == y, '%r differs' % path)

    def lib_tree(self, path, vstreams):
        '''what the library shows (judged by P10)'''
        from hwp5.storage import ExtraItemStorage, is_storage
        h = views.H5(path)

        def walk(s):
            out = {}
            for n in s:
                x = s[n]
                if is_storage(x):
                    out[n] = walk(x)
                else:
                    f = x.open()
                    out[n] = f.read()
                    f.close()
            return out
        try:
            return walk(ExtraItemStorage(h) if vstreams else h)
        finally:
            h.close()

    def unpack(self, ctx, mech, top, path, dest, args, want, how='command',
               expect='ok'):
        '''dest: as given; relative to top/cwd'''
        cwd = os.path.join(top, 'cwd')
        real = os.path.normpath(os.path.join(cwd, dest)) if dest else \
            os.path.join(cwd, os.path.splitext(os.path.basename(path))[0])
        before = self.scan(top, real)
        old = self.load(real) if os.path.isdir(real) else {}

        def command():
            import logging
            import tempfile
            from hwp5.hwp5proc import main
            logging.disable(logging.CRITICAL)
            tempfile.tempdir = os.path.join(top, 'tmp')
            # -- : destinations may begin with a dash
            sys.argv = ['hwp5proc', 'unpack'] + args + ['--', path] + \
                ([dest] if dest else [])
            return main()

        def library():
            from hwp5.storage import ExtraItemStorage, unpack
            from hwp5.storage.ole import OleStorage
            import tempfile
            tempfile.tempdir = os.path.join(top, 'tmp')
            if not os.path.isdir(dest):
                os.mkdir(dest)
            if '--ole' in args:
                h = OleStorage(path)
            else:
                h = views.H5(path)
            s = ExtraItemStorage(h) if '--vstreams' in args else h
            unpack(s, dest)
            h.close()
        res, refused, writes = jail.run(
            command if how == 'command' else library,
            [real, os.path.join(top, 'tmp')], cwd)
        ctx.ev('jailed')
        ctx.ev('unpacked')
        what = '%s %s into %r' % (how, args, dest)
        ctx.eq('containment:attempt', refused, [], '%s: attempted' % what)
        ctx.eq('containment:changed', sorted(set(self.scan(
            top, real).items()) ^ set(before.items()), key=repr), [],
            '%s: changed outside' % what)
        good = res[0] == 'ok' and not res[1] or \
            res[0] == 'exit' and not res[1]
        if want is None or illegal(want):
            # names the container format forbids (or streams which are no
            # records, viewed): contained, or refused
            ctx.ev('illegal-names')
            return
        if not ctx.check(mech + ':failed', good, '%s: %r' % (what, res)):
            return
        got = self.load(real)
        ours = set(n.replace('\x05', '_05') for n in want)
        for n in old:
            if n not in ours:
                ctx.eq('existing', digest(got.pop(n, b'')), digest(old[n]),
                       '%s: existing %r' % (what, n))
        self.compare(ctx, mech, want, got)
        ctx.distinct(mech, how, tuple(args), dest if dest in DESTS else '')

    def wanted(self, path, tree, flags, args, undist=docs.undist):
        if '--ole' in args:
            return tree
        if '--vstreams' in args:
            if illegal(tree):
                return None
            try:
                return self.lib_tree(path, True)
            except Exception:
                return None     # no documents: their items have no views
        return trees.default_view(tree, flags, undist)

    # -- cases -----------------------------------------------------------------
    def one(self, ctx, r, pool, mech, dests=None):
        doc = docgen.generate(r, objects=2, paras=(1, 2), sections=(1, 2),
                              dist=r.random() < .2, flags=r.choice([0, 1]))
        hostile = HOSTILE if r.random() < .4 else LEGAL
        if mech == 'names':
            pool = pool + hostile * 2
        tree = trees.hostile(r, doc, pool)
        if mech == 'names':
            used = set(n.lower() for n in tree)
            for _ in range(r.randint(1, 4)):
                n = trees.name(r, used, hostile)
                tree[n] = trees.subtree(r, 2, pool, 4) if r.random() < .4 \
                    else trees.blob(r, r.choice([0, 5, 100, 5000]))
            for top in ('BinData', 'DocOptions'):
                if r.random() < .5:
                    d = tree.setdefault(top, {})
                    n = trees.name(r, set(x.lower() for x in d), hostile)
                    d[n] = doc.pack(trees.blob(r, 50)) if r.random() < .5 \
                        else trees.subtree(r, 1, pool)
        clash(tree)
        top, path = self.place(cfb.build(tree))
        flags = doc.flags | (4 if doc.dist else 0)
        for args in ([], ['--vstreams'], ['--ole']):
            if '--vstreams' in args and flags & 5 == 4:
                continue        # padding follows the records
            want = self.wanted(path, tree, flags, args)
            for dest in (dests or ['out']):
                self.unpack(ctx, mech, top, path, dest, args, want,
                            r.choice(['command', 'library']))
                real = os.path.normpath(os.path.join(top, 'cwd', dest))
                if os.path.isdir(real) and real.startswith(top + '/cwd/'):
                    shutil.rmtree(real)
        ctx.distinct('tree', digest(tree))
        core.rmdir(top)

    def run_tree(self, ctx, r):
        self.one(ctx, r, trees.PLAIN, 'tree')

    def run_names(self, ctx, r):
        self.one(ctx, r, trees.PLAIN, 'names')

    def run_dest(self, ctx, r):
        dests = r.sample(DESTS, 4)
        ctx.ev('destinations', len(dests))
        self.one(ctx, r, trees.PLAIN, 'dest', dests)
        # destinations: default, existing, absolute
        doc = docgen.generate(r, objects=1, paras=(1, 2), sections=(1, 1))
        tree = doc.tree()
        for n in ('Empty', 'Other'):
            tree.setdefault('DocOptions', {})[n] = b'' if n == 'Empty' \
                else trees.blob(r)
        if r.random() < .5:
            tree.setdefault('BinData', {})['BIN9999.png'] = doc.pack(b'')
        top, path = self.place(cfb.build(tree))
        want = trees.default_view(tree, doc.flags, docs.undist)
        self.unpack(ctx, 'dest', top, path, '', [], want)
        self.unpack(ctx, 'dest', top, path, os.path.join(top, 'around'), [],
                    want)
        # again over the first result, and over files left by others
        self.unpack(ctx, 'dest', top, path, '', [], want)
        real = os.path.join(top, 'cwd', 'doc')
        for root, ds, fs in os.walk(real):
            for n in fs:
                if r.random() < .7:
                    with open(os.path.join(root, n), r.choice(
                            ['ab', 'wb'])) as f:
                        f.write(b'stale' * r.choice([1, 1000, 30000]))
                    ctx.ev('stale-files')
        self.unpack(ctx, 'stale', top, path, 'doc', [], want,
                    r.choice(['command', 'library']))
        ctx.ev('destinations', 4)
        core.rmdir(top)

    def bindata(self, r, pool):
        doc = docgen.generate(r, odf=True, objects=3, paras=(1, 3),
                              sections=(1, 1), table_in_textbox=False,
                              gso=.4, shapes=('$pic', '$con'),
                              images=(1, 3))
        tree = doc.tree()
        d = tree.setdefault('BinData', {})
        used = set(n.lower() for n in d)
        for _ in range(r.randint(1, 5)):
            n = trees.name(r, used, pool)
            d[n] = trees.subtree(r, 2, pool) if r.random() < .3 else \
                doc.pack(trees.blob(r, r.choice([0, 5, 100, 9000])))
        clash(tree)
        view = trees.default_view(tree, doc.flags | (4 if doc.dist else 0),
                                  docs.undist)
        return tree, view['BinData']

    def run_html(self, ctx, r):
        pool = trees.PLAIN + \
            (HOSTILE if r.random() < .3 else LEGAL) * 2
        tree, want = self.bindata(r, pool)
        top, path = self.place(cfb.build(tree))
        cwd = os.path.join(top, 'cwd')
        dest = r.choice(['out', '', 'x\x05y', 'deep/out'])
        real = os.path.join(cwd, dest or 'doc')
        before = self.scan(top, real)

        def go():
            import tempfile
            import logging
            from hwp5.hwp5html import main
            logging.disable(logging.CRITICAL)
            tempfile.tempdir = os.path.join(top, 'tmp')
            sys.argv = ['hwp5html'] + (['--output', dest] if dest else []) \
                + [path]
            return main()
        self.convert(ctx, 'html', go, top, real, cwd, before, want)
        if illegal(want):
            return core.rmdir(top)
        if os.path.isdir(real):
            got = self.load(real)
            ctx.eq('html:files', sorted(got), ['bindata', 'index.xhtml',
                                               'styles.css'], 'files')
            self.compare(ctx, 'html', want, got.get('bindata', {}))
        core.rmdir(top)

    def convert(self, ctx, mech, go, top, real, cwd, before, want):
        res, refused, writes = jail.run(go, [real, os.path.join(top, 'tmp')],
                                        cwd)
        ctx.ev('jailed')
        ctx.ev('converted')
        ctx.eq('containment:attempt', refused, [], '%s: attempted' % mech)
        ctx.eq('containment:changed', sorted(set(self.scan(
            top, real).items()) ^ set(before.items()), key=repr), [],
            '%s: changed outside' % mech)
        good = res[0] in ('ok', 'exit') and not res[1]
        if illegal(want):
            ctx.ev('illegal-names')
            return
        ctx.check(mech + ':failed', good, '%s: %r' % (mech, res))

    def run_odt(self, ctx, r):
        pool = trees.PLAIN + \
            (HOSTILE if r.random() < .3 else LEGAL) * 2
        tree, want = self.bindata(r, pool)
        top, path = self.place(cfb.build(tree))
        cwd = os.path.join(top, 'cwd')
        real = os.path.join(cwd, 'o.odt')
        before = self.scan(top, real)
        before.pop(real, None)

        def go():
            import tempfile
            import logging
            from hwp5.hwp5odt import main
            logging.disable(logging.CRITICAL)
            tempfile.tempdir = os.path.join(top, 'tmp')
            sys.argv = ['hwp5odt', '--output', real, path]
            return main()
        res, refused, writes = jail.run(go, [real, os.path.join(top, 'tmp')],
                                        cwd)
        ctx.ev('jailed')
        ctx.ev('converted')
        ctx.eq('containment:attempt', refused, [], 'odt: attempted')
        now = self.scan(top, real)
        now.pop(real, None)
        ctx.eq('containment:changed', sorted(set(now.items()) ^
                                             set(before.items()),
                                             key=repr), [],
               'odt: changed outside')
        if illegal(want):
            ctx.ev('illegal-names')
            return core.rmdir(top)
        if not ctx.check('odt:failed', res[0] in ('ok', 'exit') and
                         not res[1], 'odt: %r' % (res,)):
            return
        # the package as an archive: extracting it must stay inside, too
        got = {}
        z = zipfile.ZipFile(real)
        for i in z.infolist():
            parts = i.filename.split('/')
            ctx.check('odt:names', '..' not in parts and '.' not in parts and
                      '' not in parts and not any(c < ' ' for c in
                                                  i.filename),
                      'member %r' % i.filename)
            if parts[0] == 'bindata':
                d = got
                for p in parts[1:-1]:
                    d = d.setdefault(p, {})
                d[parts[-1]] = z.read(i)
        z.close()
        self.compare(ctx, 'odt', prune(want), prune(got))
        core.rmdir(top)


def prune(t):
    '''without empty folders: archives need not show them'''
    out = {}
    for n, x in t.items():
        if isinstance(x, dict):
            x = prune(x)
            if not x:
                continue
        out[n] = x
    return out


def illegal(t):
    return any('/' in n or isinstance(x, dict) and illegal(x)
               for n, x in t.items())


def clash(t):
    '''no two names which become the same when made printable'''
    seen = set()
    for n in list(t):
        m = ''.join(c if c >= ' ' and c not in '/' else '_%02x' % ord(c)
                    for c in n).lower()
        if m in seen:
            del t[n]
            continue
        seen.add(m)
        if isinstance(t[n], dict):
            clash(t[n])


def digest(x):
    if isinstance(x, dict):
        # names inside may be changed
        return views.sha(repr(sorted(digest(y) for y in x.values())))
    if isinstance(x, str):
        return x
    return views.sha(b'f' + x)


if __name__ == '__main__':
    sys.exit(core.main(P18(), sys.argv[1:]))
