# -*- coding: utf-8 -*-
'''P16: the inspection commands against the records the document was built
from (and, for decoded values, the library in a fresh process).'''
import io
import json
import os
import re
import sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cfb, cli, core, docgen, docs, enc, layout, rectree, views

SIZES = [0, 1, 2, 3, 15, 16, 17, 100, 4094, 4095, 4096, 70000]
FLAGS = ['compressed', 'password', 'distributable', 'script', 'drm',
         'xmltemplate_storage', 'history', 'cert_signed', 'cert_encrypted',
         'cert_signature_extra', 'cert_drm', 'ccl']


def tagname(t):
    return layout.TAGNAMES.get(t, 'HWPTAG%d' % (t - 16))


def unhex(lines):
    tokens = [x for line in lines for x in line.split(' ') if x]
    if any(len(x) != 2 for x in tokens):
        raise ValueError('no two hexadecimal digits: %r' % (lines,))
    return bytes(int(x, 16) for x in tokens)


def strict(text):
    def bad(c):
        raise ValueError('no JSON: %s' % c)
    return json.loads(text, parse_constant=bad)


class P16(core.Check):
    PROP = 'P16'
    RULE = ('one comparison = one printed record, model, element, line or '
            'byte string against the document; distinct = (command, format, '
            'selector, source, relation of the selector to the stream)')
    CASE_TIMEOUT = 100

    def setup(self):
        cli.warm()
        import hwp5.xmldump_flat  # noqa

    def cases(self):
        n = core.scale(1, 25)
        return [(k, core.SEED, i) for k, q in (
            ('records', 26), ('models', 18), ('find', 12), ('xml', 12),
            ('meta', 12), ('file', 5), ('tty', 2), ('nan', 1))
            for i in range(q * n)]

    def minimum(self, counts):
        return {'records': 3000, 'models': 3000, 'found': 1200, 'xml': 40,
                'flat-records': 500, 'flat-items': 2000, 'piped': 120,
                'empty-selection': 80, 'header': 10, 'version': 10,
                'summary': 10, 'tty': 2, 'events': 800,
                'incomplete': 25}

    def run(self, ctx, case):
        r = core.rng('P16', *case)
        getattr(self, 'run_' + case[0])(ctx, r)

    def proc(self, ctx, mech, *args, **kw):
        x = cli.run('hwp5proc', *args, **kw)
        ctx.ev('commands')
        if not ctx.check(mech + ':failed', x.code == 0, '%s: %r' %
                         (' '.join(map(str, args)), x)):
            return None
        return x.out

    # -- sources -----------------------------------------------------------
    def arbitrary(self, r):
        '''a document whose record streams hold any records'''
        doc = docgen.generate(r, objects=1, paras=(1, 1), sections=(1, 1),
                              flags=r.choice([0, 1]))
        tree = doc.tree()
        streams = {}
        names = ['DocInfo'] + ['BodyText/Section%d' % i for i in range(
            r.randint(1, 3))]
        if r.random() < .3:
            names.append('BodyText/Section%d' % r.choice([7, 10, 12]))
        for n in names:
            recs = []
            lv = -1
            big = r.random() < .2
            for i in range(r.choice([0, 1, 2, 5, 12, 25])):
                lv = 0 if lv < 0 else r.choice(
                    [0, lv, lv, lv + 1, r.randint(0, lv + 1)])
                size = r.choice(SIZES if big else SIZES[:8])
                recs.append((r.choice([r.randrange(1024),
                                       r.randrange(16, 100)]), lv,
                             bytes(r.getrandbits(8) for _ in range(
                                 min(size, 64))) * (size // 64 + 1)))
                recs[-1] = recs[-1][:2] + (recs[-1][2][:size],)
            streams[n] = recs
            d = tree
            for p in n.split('/')[:-1]:
                d = d[p]
            d[n.split('/')[-1]] = doc.pack(enc.records(recs))
        return docs.write(cfb.build(tree)), streams

    def alias(self, r, n):
        if n == 'DocInfo':
            return r.choice(['docinfo', n])
        if n.startswith('BodyText/Section') and r.random() < .5:
            return 'bodytext/' + n[len('BodyText/Section'):]
        return n

    # -- records -----------------------------------------------------------
    def selections(self, r, recs):
        n = len(recs)
        groups = []
        for i, w in enumerate(recs):
            if i == 0 or w[1] == 0:
                groups.append([])
            groups[-1].append(i)
        out = [([], range(n), 'all')]
        for _ in range(5):
            a = r.choice([0, n, n - 1, r.randrange(n + 3)])
            a = max(a, 0)
            b = max(r.choice([a, a + 1, n, n + 3, r.randrange(n + 3)]), 0)
            if b < a:
                a, b = b, a
            out.append((['--range', '%d-%d' % (a, b)],
                        range(n)[a:b], 'range'))
        for _ in range(2):
            a = max(r.choice([0, n, n - 1, n + 9, r.randrange(n + 1)]), 0)
            out.append((['--range', '%d' % a], range(n)[a:a + 1], 'one'))
        for _ in range(3):
            g = max(r.choice([0, len(groups) - 1, len(groups),
                              r.randrange(len(groups) + 2)]), 0)
            out.append((['--treegroup', '%d' % g],
                        groups[g] if g < len(groups) else [], 'tree'))
        return out

    def records(self, ctx, what, fmt, out, recs, idx):
        '''what was printed against the records of these indexes'''
        ctx.ev('records', max(len(idx), 1))
        if not len(idx):
            ctx.ev('empty-selection')
        mech = 'records:' + (fmt or 'default').strip('-')
        want = [recs[i] for i in idx]
        if fmt == '--raw':
            return ctx.check(mech, out == enc.records(want),
                             '%s: differs' % what) or \
                ctx.eq(mech, enc.split_records(out), want, what)
        if fmt == '--raw-payload':
            return ctx.eq(mech, core.short(out), core.short(b''.join(
                w[2] for w in want)), what) and ctx.check(
                    mech, out == b''.join(w[2] for w in want), what)
        if fmt == '--raw-header':
            full = enc.records(want)
            heads = b''.join(enc.records([w])[:8 if len(w[2]) >= 4095
                                              else 4] for w in want)
            assert len(heads) + sum(len(w[2]) for w in want) == len(full)
            return ctx.eq(mech, out, heads, what)
        text = out.decode('utf-8')
        if fmt == '--simple':
            got = []
            indents = {}
            for line in text.splitlines():
                m = re.match(r'^(\d+)( *)(\S+)$', line)
                if not m:
                    return ctx.fail(mech, '%s: line %r' % (what, line))
                got.append((int(m.group(1)), m.group(3)))
                if len(got) <= len(want):
                    indents.setdefault(want[len(got) - 1][1], set()).add(
                        len(m.group(2)))
            ctx.eq(mech, got, [(i, tagname(recs[i][0])) for i in idx], what)
            widths = [indents[k] for k in sorted(indents)]
            ctx.check(mech, all(len(w) == 1 for w in widths) and
                      sorted(map(min, widths)) == list(map(min, widths)) and
                      len(set(map(min, widths))) == len(widths),
                      '%s: indentation %r' % (what, indents))
            return
        js = self.json(ctx, mech, what, text)
        if js is None:
            return
        got = [(j['seqno'], j['tagid'], j['tagname'], j['level'], j['size'],
                unhex(j['payload'])) for j in js]
        ctx.eq(mech, got, [(i, recs[i][0], tagname(recs[i][0]), recs[i][1],
                            len(recs[i][2]), recs[i][2]) for i in idx], what)

    def json(self, ctx, mech, what, text):
        try:
            js = strict(text)
        except ValueError as e:
            return ctx.fail(mech + ':json', '%s: not valid JSON (%s): %s' %
                            (what, e, core.short(text, 100))) and None
        if not ctx.check(mech + ':json', isinstance(js, list), what):
            return None
        return js

    FORMATS = [None, '--json', '--simple', '--raw', '--raw-header',
               '--raw-payload']

    def run_records(self, ctx, r):
        path, streams = self.arbitrary(r)
        for n, recs in streams.items():
            sel = self.selections(r, recs)
            for opt, idx, kind in sel:
                fmts = r.sample(self.FORMATS, 2) if kind != 'all' \
                    else self.FORMATS
                for fmt in fmts:
                    args = opt + ([fmt] if fmt else [])
                    r.shuffle(args) if not opt else None
                    what = 'records %s %s' % (n, args)
                    name = self.alias(r, n)
                    a = ['records'] + (args + [path, name] if
                                       r.random() < .5 else
                                       [path, name] + args)
                    out = self.proc(ctx, 'records', *a)
                    if out is None:
                        continue
                    self.records(ctx, what, fmt, out, recs, list(idx))
                    ctx.distinct('records', fmt, kind, 'file',
                                 len(idx) == 0, len(idx) == len(recs))
            # raw output, all or a part, piped back in
            for opt, idx, kind in [sel[0]] + r.sample(sel[1:], 2):
                raw = self.proc(ctx, 'records', 'records', '--raw', path, n,
                                *opt)
                if raw is None:
                    continue
                again = [recs[i] for i in idx]
                for opt2, idx2, kind2 in r.sample(
                        self.selections(r, again), 2):
                    fmt = r.choice(self.FORMATS)
                    args = opt2 + ([fmt] if fmt else [])
                    out = self.proc(ctx, 'piped', 'records', *args,
                                    stdin=raw)
                    ctx.ev('piped')
                    if out is not None:
                        self.records(ctx, '%s | records %s' % (opt, args),
                                     fmt, out, again, list(idx2))
                        ctx.distinct('records', fmt, kind2, 'stdin',
                                     len(idx2) == 0)
        core.rmdir(os.path.dirname(path))

    # -- models ------------------------------------------------------------
    def modelled(self, r, version=None):
        '''a document of every kind of record the models know'''
        version = version or r.choice(rectree.VERSIONS)
        doc = docgen.generate(r, version=version, objects=1, paras=(1, 1),
                              sections=(1, 1), flags=r.choice([0, 1]))
        tree = doc.tree()
        streams = {}
        names = ['DocInfo'] + ['BodyText/Section%d' % i for i in range(
            r.choice([1, 2, 3]))]
        for n in names:
            g = rectree.TreeGen(r, version, leftover=.2, maxrec=30,
                                gen=layout.Gen(r, version))
            for _ in range(r.choice([1, 2, 4])):
                g.tree()
            streams[n] = g
            d = tree
            for p in n.split('/')[:-1]:
                d = d[p]
            d[n.split('/')[-1]] = doc.pack(enc.records(g.recs))
        return docs.write(cfb.build(tree)), streams, version

    def library(self, path, n):
        def go():
            from hwp5.binmodel import model_to_json
            h = views.H5(path)
            x = h
            for p in n.split('/'):
                x = x[p]
            return [model_to_json(m, sort_keys=True) for m in x.models()]
        return views.fresh(go)

    def model_selections(self, r, refs):
        n = len(refs)
        groups = []
        for i, ref in enumerate(refs):
            if ref.level == 0:
                groups.append([])
            groups[-1].append(i)
        out = [([], list(range(n)), 'all')]
        for _ in range(3):
            a = max(r.choice([0, n - 1, n, n + 5, r.randrange(n + 1)]), 0)
            out.append((['--seqno', '%d' % a], list(range(n)[a:a + 1]),
                        'seqno'))
            g = max(r.choice([0, len(groups) - 1, len(groups),
                              len(groups) + 3, r.randrange(len(groups) + 1)
                              ]), 0)
            out.append((['--treegroup', '%d' % g],
                        groups[g] if g < len(groups) else [], 'tree'))
        return out

    def models(self, ctx, r, what, fmt, out, g, idx, lib):
        refs = g.refs
        ctx.ev('models', max(len(idx), 1))
        if not idx:
            ctx.ev('empty-selection')
        mech = 'models:' + (fmt or 'default').strip('-')
        text = out.decode('utf-8')
        if fmt in (None, '--json'):
            js = self.json(ctx, mech, what, text)
            if js is None:
                return
            got = [(j['seqno'], j['type'], j['tagname'], j['level'],
                    unhex(j['payload']), unhex(j.get('unparsed', [])))
                   for j in js]
            ctx.eq(mech, got, [(i, refs[i].type, tagname(g.recs[i][0]),
                                refs[i].level, refs[i].payload,
                                refs[i].leftover) for i in idx], what)
            if lib is not None and len(js) == len(idx):
                for i, j in zip(idx, js):
                    ctx.eq(mech + ':content', json.dumps(
                        j, sort_keys=True), json.dumps(json.loads(
                            lib[i]), sort_keys=True),
                        '%s: model %d' % (what, i))
        elif fmt == '--simple':
            got = []
            for line in text.splitlines():
                m = re.match(r'^(\d+) ( *)(\S+)$', line)
                if not m:
                    return ctx.fail(mech, '%s: line %r' % (what, line))
                got.append((int(m.group(1)), len(m.group(2)), m.group(3)))
            ctx.eq(mech, [x[::2] for x in got],
                   [(i, refs[i].type) for i in idx], what)
            w = {}
            for x, i in zip(got, idx):
                w.setdefault(refs[i].level, set()).add(x[1])
            ctx.check(mech, all(len(x) == 1 for x in w.values()) and
                      [min(w[k]) for k in sorted(w)] == sorted(
                          min(x) for x in w.values()),
                      '%s: indentation %r' % (what, w))

    def formatted(self, r):
        parts = []
        fields = ['seqno', 'level', 'tagname', 'type', 'tagid', 'size']
        for f in r.sample(fields, r.randint(1, 4)):
            parts.append(f)
        seps = [r.choice([' ', '\\t', ' 한글 ', ': ', 'é', '\\u2192', '%%',
                          '\\x41', 'ÿ', '\U0001f600']) for _ in parts]
        fmt = ''.join('%%(%s)s%s' % (p, s) for p, s in zip(parts, seps)) + \
            '\\n'

        def want(i, ref, rec):
            d = dict(seqno=i, level=ref.level, tagname=tagname(rec[0]),
                     type=ref.type, tagid=rec[0], size=len(rec[2]))
            real = {'\\t': '\t', '\\u2192': '\u2192', '%%': '%',
                    '\\x41': 'A'}
            return ''.join('%s%s' % (d[p], real.get(s, s))
                           for p, s in zip(parts, seps)) + '\n'
        return fmt, want

    def run_models(self, ctx, r):
        path, streams, ver = self.modelled(r)
        for n, g in streams.items():
            lib = self.library(path, n)
            if not ctx.check('library', lib[0] == 'ok', '%r' % (lib,)):
                continue
            lib = lib[1]
            sel = self.model_selections(r, g.refs)
            raw = enc.records(g.recs)
            for opt, idx, kind in sel:
                for fmt in (None, '--json', '--simple', '--format',
                            '--events') if kind == 'all' else r.sample(
                        [None, '--json', '--simple', '--format',
                         '--events'], 3):
                    args = list(opt)
                    want = None
                    if fmt == '--format':
                        f, want = self.formatted(r)
                        args += ['--format', f]
                    elif fmt:
                        args += [fmt]
                    what = 'models %s %s' % (n, args)
                    kw = {}
                    if r.random() < .35:
                        kw['stdin'] = raw
                        a = args + [r.choice(['-V', '--file-format-version']
                                             ), '%d.%d.%d.%d' % ver]
                        ctx.ev('piped')
                    else:
                        a = args + [path, self.alias(r, n)]
                    out = self.proc(ctx, 'models', 'models', *a, **kw)
                    if out is None:
                        continue
                    ctx.distinct('models', fmt, kind, 'stdin' in kw,
                                 not idx)
                    if want:
                        ctx.ev('models', len(idx))
                        ctx.eq('models:format', out.decode('utf-8'),
                               ''.join(want(i, g.refs[i], g.recs[i])
                                       for i in idx), what)
                    elif fmt == '--events':
                        self.events(ctx, what, out.decode('utf-8'), g, idx)
                    else:
                        self.models(ctx, r, what, fmt, out, g, idx, lib)
        core.rmdir(os.path.dirname(path))

    def events(self, ctx, what, text, g, idx):
        '''each selected record begins and ends once, in order'''
        starts, ends = [], []
        leaves = 0
        last = 0
        for line in text.splitlines():
            m = re.match(r'^ +(STARTEVENT|ENDEVENT) Record (\d+) '
                         r'level=(\d+) (\S+)$', line)
            if m:
                t = (int(m.group(2)), int(m.group(3)), m.group(4))
                (starts if m.group(1) == 'STARTEVENT' else ends).append(t)
                ctx.ev('events')
                last = 0
                continue
            m = re.match(r'^([0-9a-f]{4,}) \S', line)
            if m and len(starts) == len(ends) + 1:
                leaves += 1
                ctx.check('models:events', int(m.group(1), 16) >= last,
                          '%s: offsets %r' % (what, line))
                last = int(m.group(1), 16)
        want = [(i, g.refs[i].level, tagname(g.recs[i][0])) for i in idx]
        ctx.eq('models:events', starts, want, what)
        ctx.eq('models:events', ends, want, what)
        ctx.eq('models:events:leftover', text.count('\nleftover:\n'),
               sum(bool(g.refs[i].leftover) for i in idx), what)

    # -- find --------------------------------------------------------------
    def run_find(self, ctx, r):
        files = []
        for _ in range(r.choice([1, 2, 3])):
            path, streams, ver = self.modelled(r)
            if r.random() < .3:
                new = os.path.join(os.path.dirname(path), r.choice(
                    ['한글 문서.hwp', 'a b.hwp', "it's.hwp"]))
                os.rename(path, new)
                path = new
            files.append((path, streams))
        allm = [(p, n, i, g.refs[i], g.recs[i]) for p, s in files
                for n, g in s.items() for i in range(len(g.refs))]
        types = sorted(set(m[3].type for m in allm))
        tags = sorted(set(m[4][0] for m in allm))
        for _ in range(10):
            args = []
            cond = []
            x = r.random()
            if x < .3:
                t = r.choice(types + ['NoSuchModel'])
                args += ['--model', t]
                cond.append(lambda m, t=t: m[3].type == t)
            elif x < .75:
                t = r.choice(tags + [23, 99, 1023])
                args += ['--tag', '%d' % t if r.random() < .5
                         else tagname(t)]
                cond.append(lambda m, t=t: m[4][0] == t)
            if r.random() < .4:
                args.append('--incomplete')
                cond.append(lambda m: bool(m[3].leftover))
                ctx.ev('incomplete')
            fmt = None
            if r.random() < .4:
                fmt = r.choice(['%(seqno)s|%(type)s|%(filename)s',
                                '찾음 %(stream)s %(seqno)d %(tagname)s',
                                '%(tagid)s %(level)s%% %(size)s'])
                args += ['--format', fmt]
            dump = r.random() < .2
            if dump:
                args.append('--dump')
            paths = [p for p, s in files]
            kw = {}
            a = list(args)
            if r.random() < .4:
                a.append('--from-stdin')
                end = r.choice(['\n', ''])
                kw['stdin'] = ('\n'.join(paths) + end).encode('utf-8')
            elif r.random() < .5:
                a = paths + a
            else:
                a = a + paths
            what = 'find %s%s' % (args, ' from stdin' if kw else '')
            out = self.proc(ctx, 'find', 'find', *a, **kw)
            if out is None:
                continue
            want = [m for m in allm if all(c(m) for c in cond)]
            ctx.ev('found', len(want))
            if not want:
                ctx.ev('empty-selection')
            ctx.distinct('find', args[0] if args else '', fmt,
                         '--incomplete' in args, bool(kw), dump, not want)
            text = out.decode('utf-8')
            lines = [(fmt or '%(filename)s %(stream)s %(seqno)s %(tagname)s '
                      '%(type)s') % dict(
                filename=m[0], stream=m[1], seqno=m[2],
                tagname=tagname(m[4][0]), type=m[3].type, tagid=m[4][0],
                level=m[3].level, size=len(m[4][2])) for m in want]
            if not dump:
                ctx.eq('find:lines', text.splitlines(), lines, what)
                continue
            # lines with the models dumped between them
            rest = text
            for line, m in zip(lines, want):
                if not ctx.check('find:dump', rest.startswith(line + '\n'),
                                 '%s: expected %r, got %r' % (
                                     what, line, rest[:200])):
                    break
                rest = rest[len(line) + 1:]
                try:
                    js, end = json.JSONDecoder().raw_decode(rest)
                except ValueError as e:
                    ctx.fail('find:dump', '%s: no JSON: %s: %r' % (
                        what, e, rest[:100]))
                    break
                ctx.eq('find:dump', (js['seqno'], js['type'],
                                     unhex(js['payload'])),
                       (m[2], m[3].type, m[3].payload), what)
                rest = rest[end:]
                # the events of the record, up to the next line
                k = rest.find('\n' + lines[len(lines)]) \
                    if len(lines) > len(want) else -1
                nxt = lines[want.index(m) + 1] if want.index(m) + 1 < len(
                    lines) else None
                k = rest.find('\n' + nxt + '\n{') if nxt else -1
                if nxt and not ctx.check('find:dump', k >= 0,
                                         '%s: %r missing' % (what, nxt)):
                    break
                rest = rest[k + 1:] if nxt else ''
        for p, s in files:
            core.rmdir(os.path.dirname(p))

    # -- xml ---------------------------------------------------------------
    def dumped(self, path, embedbin):
        return views.fresh(lambda: docs.xml_bytes(path, embedbin))

    def run_xml(self, ctx, r):
        doc = docgen.generate(r, dist=r.random() < .2)
        path = docs.write(doc)
        self.xml(ctx, r, path)
        self.flat(ctx, r, path, doc)
        core.rmdir(os.path.dirname(path))

    def xml(self, ctx, r, path):
        for embed in (False, True):
            lib = self.dumped(path, embed)
            if not ctx.check('library', lib[0] == 'ok', '%r' % (lib,)):
                return
            want = ET.canonicalize(lib[1].decode('utf-8'))
            for _ in range(2):
                args = ['--embedbin'] if embed else []
                decl = r.random() < .5
                if not decl:
                    args.append('--no-xml-decl')
                check = r.random() < .6
                if not check:
                    args.append('--no-validate-wellformed')
                if r.random() < .4:
                    args += ['--format', 'nested']
                dest = None
                if r.random() < .4:
                    dest = os.path.join(core.newdir('xml'), 'o.xml')
                    if r.random() < .5:
                        with open(dest, 'w') as f:
                            f.write('old content ' * 5000)
                    args += ['--output', dest]
                r.random() < .5 and args.reverse and None
                what = 'xml %s' % args
                out = self.proc(ctx, 'xml', 'xml', *(args + [path]))
                if out is None:
                    continue
                ctx.ev('xml')
                if dest:
                    ctx.eq('xml:stdout', out, b'', what)
                    with open(dest, 'rb') as f:
                        out = f.read()
                    core.rmdir(os.path.dirname(dest))
                self.same_xml(ctx, 'xml', what, out, want)
                self.decl(ctx, what, out, decl)
                ctx.distinct('xml', embed, decl, check, bool(dest))

    def decl(self, ctx, what, out, decl):
        ctx.eq('xml:declaration', out.lstrip().startswith(b'<?xml'), decl,
               '%s: declaration' % what)
        ctx.eq('xml:declarations', out.count(b'<?xml '), int(decl), what)

    def same_xml(self, ctx, mech, what, out, want, strip=False):
        try:
            got = ET.canonicalize(out.decode('utf-8'), strip_text=strip)
        except (ValueError, ET.ParseError) as e:
            return ctx.fail(mech + ':malformed', '%s: %s: %r' %
                            (what, e, out[:80]))
        if got == want:
            ctx.counts['comparisons'] += 1
            return
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b),
                 min(len(got), len(want)))
        ctx.fail(mech, '%s: differs at %d: %r / %r' % (
            what, i, got[max(i - 60, 0):i + 60], want[max(i - 60, 0):i + 60]))

    def flat(self, ctx, r, path, doc=None):
        '''every record once, with every value decoded from it'''
        args = ['--format', 'flat']
        decl = r.random() < .6
        if not decl:
            args.append('--no-xml-decl')
        if r.random() < .4:
            args.append('--no-validate-wellformed')
        what = 'xml %s' % args
        out = self.proc(ctx, 'flat', 'xml', *(args + [path]))
        if out is None:
            return
        self.decl(ctx, what, out, decl)
        try:
            root = ET.fromstring(out)
        except ET.ParseError as e:
            return ctx.fail('flat:malformed', '%s: %s' % (what, e))

        def go():
            from hwp5.binmodel import RecordModel, ParaTextChunks
            h = views.H5(path)
            out = []
            for name, s in [('DocInfo', h.docinfo)] + [
                    (n, h.bodytext[n]) for n in h.bodytext]:
                recs = []
                for ev, item in s.parse_model_events():
                    if item['type'] is RecordModel:
                        x = item['record']
                        if ev.__name__ == 'STARTEVENT':
                            recs.append(([str(x[k]) for k in (
                                'tagname', 'tagid', 'seqno', 'level',
                                'size')], []))
                    elif ev is None:
                        if item['type'] is ParaTextChunks:
                            for (a, b), t in item['value']:
                                recs[-1][1].append((
                                    str(item['bin_offset'] + a * 2),
                                    str(t)))
                        else:
                            recs[-1][1].append((str(item['bin_offset']),
                                                str(item['value'])))
                out.append((name, recs))
            return out, h.fileheader.version
        lib = views.fresh(go)
        if not ctx.check('library', lib[0] == 'ok', '%r' % (lib,)):
            return
        parts, ver = lib[1]
        ctx.eq('flat:version', root.get('version'), '%d.%d.%d.%d' % ver,
               what)
        got = [('DocInfo', root.find('DocInfo'))] + [
            (s.get('name'), s) for s in root.findall('Section')]
        if not ctx.eq('flat:streams', [n for n, x in got],
                      [n for n, x in parts], what):
            return
        from vlib.xmlcheck import SKIP  # noqa
        illegal = re.compile('[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff'
                             '\ud800-\udfff]')
        for (n, x), (_, recs) in zip(got, parts):
            g = [[e.get(k) for k in ('tagname', 'tagid', 'seqno', 'level',
                                     'size')] for e in x.iter('Record')]
            ctx.ev('flat-records', len(g))
            if not ctx.eq('flat:records', g, [a for a, b in recs],
                          '%s: %s' % (what, n)):
                continue
            for e, (a, items) in zip(x.iter('Record'), recs):
                gi = [(i.get('offset'), i.get('value'))
                      for i in e.iter('item')]
                ctx.ev('flat-items', len(gi))
                ctx.eq('flat:items', gi, [(o, illegal.sub('', v))
                                          for o, v in items],
                       '%s: %s record %s' % (what, n, a))
        if doc is not None and not doc.dist:
            for n, refs in [('DocInfo', doc.docinfo)] + [
                    ('Section%d' % i, s) for i, s in
                    sorted(doc.sections.items())]:
                x = dict(got).get(n)
                if x is None:
                    ctx.fail('flat:streams', '%s: no %s' % (what, n))
                    continue
                ctx.eq('flat:records', [
                    (e.get('tagname'), e.get('level'), e.get('size'))
                    for e in x.iter('Record')], [
                    (tagname(t), str(l), str(len(p)))
                    for t, l, p in refs.recs], '%s: %s' % (what, n))

    # -- header, version, summary --------------------------------------------
    def run_meta(self, ctx, r):
        for _ in range(3):
            doc = docgen.generate(r, objects=1, paras=(1, 1),
                                  sections=(1, 1))
            ver = r.choice([doc.version, (5, r.randrange(3), r.randrange(256),
                                          r.randrange(256))])
            flags = r.choice([doc.flags, r.getrandbits(32),
                              1 << r.randrange(32)])
            tree = doc.tree()
            tree['FileHeader'] = enc.header(ver, flags)
            path = docs.write(cfb.build(tree))
            x = self.proc(ctx, 'version', 'version', path)
            if x is not None:
                ctx.ev('version')
                ctx.eq('version', x, b'%d.%d.%d.%d\n' % ver, 'version')
            x = self.proc(ctx, 'header', 'header', path)
            if x is not None:
                ctx.ev('header')
                want = {n: str(flags >> i & 1) for i, n in enumerate(FLAGS)}
                want['signature'] = 'HWP Document File'
                want['version'] = '%d.%d.%d.%d' % ver
                got = {}
                for line in x.decode('utf-8').splitlines():
                    k, _, v = line.partition(': ')
                    ctx.check('header:twice', k not in got, line)
                    got[k] = {'True': '1', 'False': '0'}.get(v, v)
                ctx.eq('header', got, want, 'header of flags %#x' % flags)
            ctx.distinct('header', flags & 0xfff)
            if not flags & 2:
                self.summary(ctx, path)
            core.rmdir(os.path.dirname(path))

    def summary(self, ctx, path):
        def go():
            h = views.H5(path)
            from hwp5.summaryinfo import HwpSummaryInfoTextFormatter
            return list(HwpSummaryInfoTextFormatter().formatTextLines(
                h.summaryinfo)), str(h.summaryinfo.title)
        lib = views.fresh(go)
        if not ctx.check('library', lib[0] == 'ok', '%r' % (lib,)):
            return
        x = self.proc(ctx, 'summary', 'summaryinfo', path)
        if x is None:
            return
        ctx.ev('summary')
        text = x.decode('utf-8')
        ctx.eq('summary', text, ''.join(s + '\n' for s in lib[1][0]),
               'summaryinfo')
        ctx.check('summary:title', lib[1][1] in text, 'title %r not in %r' %
                  (lib[1][1], text[:200]))

    # -- fixtures ------------------------------------------------------------
    def run_file(self, ctx, r):
        s = docs.Sample(r.choice(docs.usable_samples()))
        n = r.choice(['DocInfo', 'BodyText/Section0'])
        data = s.content(n)
        recs = enc.split_records(data)
        for opt, idx, kind in self.selections(r, recs):
            fmt = r.choice(self.FORMATS)
            out = self.proc(ctx, 'records', 'records', s.path,
                            self.alias(r, n), *(opt + ([fmt] if fmt
                                                       else [])))
            if out is not None:
                self.records(ctx, '%s: records %s %s' % (s.name, opt, fmt),
                             fmt, out, recs, list(idx))
        self.xml(ctx, r, s.path)
        self.flat(ctx, r, s.path)
        self.summary(ctx, s.path)
        x = self.proc(ctx, 'version', 'version', s.path)
        ctx.eq('version', x, b'%d.%d.%d.%d\n' % s.version, s.name)

    # -- a terminal --------------------------------------------------------
    def run_tty(self, ctx, r):
        doc = docgen.generate(r, objects=2, paras=(1, 3), sections=(1, 1))
        path = docs.write(doc)
        lib = self.dumped(path, False)
        for args in ([], ['--no-validate-wellformed'])[r.randrange(2):]:
            x = cli.terminal('hwp5proc', 'xml', *(args + [path]))
            ctx.ev('tty')
            ctx.eq('tty:exit', x.code, 0, 'xml %s on a terminal: %r' %
                   (args, x))
            self.same_xml(ctx, 'tty', 'xml %s on a terminal' % args, x.out,
                          ET.canonicalize(lib[1].decode('utf-8'),
                                          strip_text=True), strip=True)
            ctx.distinct('tty', tuple(args))
        core.rmdir(os.path.dirname(path))

    # -- numbers JSON has no notation for ------------------------------------
    def run_nan(self, ctx, r):
        import struct
        ver = (5, 0, 1, 7)
        g = rectree.TreeGen(r, ver, leftover=0, gen=layout.Gen(r, ver))
        g.add(rectree.SHAPE)
        t, l, p = g.recs[0]
        # the doubles of the matrices
        for k in range(len(p) - 8, 0, -1):
            q = p[:k] + struct.pack('<d', float('nan')) + p[k + 8:]
            ref = layout.Decoder(ver).record(t, l, q, None)
            if 'nan' in repr(ref.content):
                break
        else:
            raise core.HarnessError('no double found')
        x = cli.run('hwp5proc', 'models', '-V', '5.0.1.7',
                    stdin=enc.records([(t, l, q)]))
        ctx.ev('nan')
        try:
            strict(x.out.decode('utf-8'))
        except ValueError as e:
            ctx.fail('models:json:nan', 'models: a matrix element NaN is '
                     'printed as what is no JSON (%s)' % e)


if __name__ == '__main__':
    sys.exit(core.main(P16(), sys.argv[1:]))
