# -*- coding: utf-8 -*-
'''P20: every implementation of a service the library can choose from, on
the same inputs; and whole conversions with implementations missing or
chosen explicitly.'''
import io
import os
import random
import shutil
import sys
import zipfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cfb, cli, core, docgen, docs, enc, fakegsf
from vlib import fakejavax, fakepoi, fakeuno, layout, trees, views

TOOLS = ('xsltproc', 'xmllint', 'openssl')


def bindir(names):
    '''a directory for PATH with these programs only'''
    d = core.newdir('bin')
    for n in names:
        p = shutil.which(n)
        assert p, n
        os.symlink(p, os.path.join(d, n))
    return d


def without(*mods):
    for m in list(sys.modules):
        if m.split('.')[0] in mods:
            del sys.modules[m]
    for m in mods:
        sys.modules[m] = None


def configure(cfg):
    '''called in a forked child'''
    import logging
    if 'nolxml' in cfg:
        without('lxml')
    if 'nocrypto' in cfg:
        without('cryptography')
    if 'javax' in cfg:
        fakejavax.install()
    if 'gsf' in cfg:
        without('olefile', 'OleFileIO_PL')
        fakegsf.install()
    if 'uno' in cfg:
        without('olefile', 'OleFileIO_PL', 'gi')
        os.environ['PYHWP_PLAT_UNO'] = '1'
        fakeuno.install(fakeuno.Log())
    if 'poi' in cfg:
        fakepoi.install()
    if 'nostorage' in cfg:
        without('olefile', 'OleFileIO_PL', 'gi')
    return logging


# name: (changes, programs found in PATH, environment)
CONFIGS = dict(
    default=((), TOOLS, ()),
    nolxml=(('nolxml',), TOOLS, ()),
    xsltproc_only=(('nolxml',), ('xsltproc', 'openssl'), ()),
    noprograms=((), (), ()),
    nocrypto=(('nocrypto',), TOOLS, ()),
    gsf=(('gsf',), TOOLS, ()),
    uno=(('uno',), TOOLS, ()),
    jython=(('poi', 'nocrypto', 'javax'), ('xsltproc', 'xmllint'), ()),
    all_others=(('gsf', 'nolxml', 'nocrypto'), TOOLS, ()),
)
NONE = dict(
    noxslt=(('nolxml',), ('xmllint', 'openssl'), ()),
    nostorage=(('nostorage',), TOOLS, ()),
)


def canon(b):
    import io as _io
    import xml.etree.ElementTree as ET
    try:
        return ET.canonicalize(b.decode('utf-8').rstrip())
    except Exception:
        return b


def same(a, b):
    '''the same document, however it is serialised'''
    return a == b or canon(a) == canon(b)


def rtext(r, n=8):
    s = layout.rtext(r, r.randrange(0, n), False, True)
    return ''.join(c for c in s if ord(c) >= 32)


def esc(s):
    return ''.join('&#%d;' % ord(c) if c in '<>&"\'' else c for c in s)


def rxml(r, depth=3, ns=False):
    name = r.choice(['a', 'b', 'c', 'Text', 'doc'])
    at = ' '.join('%s="%s"' % (n, esc(rtext(r)))
                  for n in r.sample(['x', 'y', 'z-1', '한'], r.randrange(3)))
    kids = ''
    if depth:
        for _ in range(r.randrange(4)):
            kids += r.choice([lambda: esc(rtext(r)),
                              lambda: rxml(r, depth - 1),
                              lambda: '<!-- c -->', lambda: '<?pi x?>',
                              lambda: '<![CDATA[<&>]]>'])()
    return '<%s %s>%s</%s>' % (name, at, kids, name)


XSL = ('<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/'
       'Transform" xmlns:e="http://exslt.org/common" exclude-result-prefixes='
       '"e"><xsl:output %s/><xsl:param name="p" select="\'dflt\'"/>'
       '<xsl:param name="q"/>%s</xsl:stylesheet>')
BODIES = [
    '<xsl:template match="/"><xsl:copy-of select="."/></xsl:template>',
    '<xsl:template match="/"><r><xsl:value-of select="."/></r>'
    '</xsl:template>',
    '<xsl:template match="@*|node()"><xsl:copy><xsl:apply-templates '
    'select="@*|node()"/></xsl:copy></xsl:template>',
    '<xsl:template match="/"><o p="{$p}" q="{$q}"><xsl:for-each '
    'select="//*"><xsl:sort select="name()"/><i n="{name()}"><xsl:number '
    'level="any"/></i></xsl:for-each></o></xsl:template>',
    '<xsl:template match="/"><xsl:variable name="v"><z><xsl:copy-of '
    'select="*"/></z></xsl:variable><xsl:copy-of '
    'select="e:node-set($v)/z/*"/></xsl:template>',
    '<xsl:template match="/"/>',
    '<xsl:template match="text()">[<xsl:value-of select="$p"/>'
    '<xsl:value-of select="."/>]</xsl:template>',
    '<xsl:template match="/"><xsl:message>hello</xsl:message><m/>'
    '</xsl:template>',
    '<xsl:template match="/"><m/><xsl:comment>x</xsl:comment><n/>'
    '</xsl:template>',
]
FAILING = [
    '<xsl:template match="/">x<xsl:message terminate="yes">no'
    '</xsl:message></xsl:template>',
    '<xsl:template match="/">x<xsl:value-of select="nofn(1)"/>'
    '</xsl:template>',
    '<xsl:template match="/">x<xsl:value-of select="$undefined"/>'
    '</xsl:template>',
    '<xsl:template match="/">x<xsl:value-of select="foo("/></xsl:template>',
    '<xsl:template match="/">x<xsl:call-template name="zz"/></xsl:template>',
    '<xsl:template match="/"><xsl:apply-templates select="."/>'
    '</xsl:template>',
    '<xsl:import href="missing.xsl"/>',
]
OUTPUTS = ['method="xml"', 'method="xml" encoding="utf-8" indent="yes"',
           'method="xml" encoding="utf-16"', 'method="text"',
           'method="text" encoding="euc-kr"',
           'method="xml" omit-xml-declaration="yes"', 'method="html"',
           'method="xml" encoding="us-ascii" standalone="yes"',
           'method="xml" doctype-public="-//W3C//DTD XHTML 1.0 Strict//EN" '
           'doctype-system="x.dtd"']

RNG = '''<grammar xmlns="http://relaxng.org/ns/structure/1.0"
 datatypeLibrary="http://www.w3.org/2001/XMLSchema-datatypes">
<start><element name="doc"><optional><attribute name="attr">%s</attribute>
</optional><zeroOrMore><choice><ref name="p"/><ref name="t"/></choice>
</zeroOrMore></element></start>
<define name="p"><element name="p"><text/></element></define>
<define name="t"><element name="t"><oneOrMore><ref name="p"/></oneOrMore>
</element></define></grammar>'''


class P20(core.Check):
    PROP = 'P20'
    RULE = ('one comparison = the outcome of one service or conversion with '
            'one implementation against the outcome of the first one (or '
            'the known answer); distinct = (service, implementations, kind '
            'of input, outcome)')
    CASE_TIMEOUT = core.scale(240, 900)
    KINDS = [('convert', 16, 200), ('library', 10, 150), ('xslt', 16, 250),
             ('relaxng', 8, 120), ('cipher', 6, 100), ('storage', 12, 250),
             ('absent', 3, 20), ('environ', 3, 25), ('deep', 1, 8)]
    ASSUME = ['libgsf, UNO and POI are represented by stand-ins with their '
              'documented semantics, and so is javax.crypto; the XSLT of '
              'javax is not available here']

    def setup(self):
        cli.warm()

    def cases(self):
        c = [(k, core.SEED, i) for k, q, t in self.KINDS
             for i in range(core.scale(q, t))]
        c += [('file', n) for n in docs.usable_samples()
              if n.endswith('.hwp')]
        return c

    def minimum(self, counts):
        return {'conversion': 200, 'xslt': 200, 'xslt-failure': 30,
                'valid': 20, 'invalid': 20, 'cipher': 100, 'streams': 300,
                'refused': 5, 'unavailable': 6, 'stream-kinds': 60}

    def run(self, ctx, case):
        r = core.rng('P20', *case)
        k = case[0]
        if k == 'file':
            s = docs.Sample(case[1])
            self.convert(ctx, r, s.path, bool(s.flags & 4))
        elif k in ('convert', 'deep'):
            odf = r.random() < .6
            dist = r.random() < .2
            kw = dict(odf=odf, objects=12, paras=(1, 4))
            if odf:
                kw.update(table_in_textbox=False,
                          shapes=('$rec', '$pic', '$con', '$lin'))
            if k == 'deep':
                kw.update(chain=r.randrange(45, 110), odf=True, objects=0)
            doc = docgen.generate(r, dist=dist or None, **kw)
            path = docs.write(doc)
            self.convert(ctx, r, path, dist)
            core.rmdir(os.path.dirname(path))
        else:
            getattr(self, 'run_' + k)(ctx, r)

    # ---- whole conversions -------------------------------------------
    def command(self, cfg, prog, opts, path, out):
        changes, tools, env = cfg
        b = bindir(tools)
        e = dict(env)
        e['PATH'] = b
        x = cli.run(prog, *(opts + ['--output', out, path]), env=e,
                    hook=lambda: configure(changes), timeout=120)
        core.rmdir(b)
        return x

    def outcome(self, cfg, prog, opts, path):
        d = core.newdir('o')
        out = os.path.join(d, 'out')
        x = self.command(cfg, prog, opts, path, out)
        got = {}
        if x.code == 0:
            if os.path.isdir(out):
                for n, b in views_folder(out).items():
                    got[n] = b
            elif prog == 'hwp5odt' and not opts:
                with zipfile.ZipFile(out) as z:
                    for n in z.namelist():
                        got[n] = z.read(n)
            elif os.path.exists(out):
                with io.open(out, 'rb') as f:
                    got['out'] = f.read()
        core.rmdir(d)
        return x, got

    COMMANDS = [('hwp5txt', []), ('hwp5html', []), ('hwp5html', ['--css']),
                ('hwp5html', ['--html']), ('hwp5odt', []),
                ('hwp5odt', ['--document']), ('hwp5odt', ['--styles']),
                ('hwp5odt', ['--content', '--embed-image'])]

    def convert(self, ctx, r, path, dist):
        cmds = self.COMMANDS if core.THOROUGH else \
            [self.COMMANDS[0], r.choice(self.COMMANDS[1:4]),
             r.choice(self.COMMANDS[4:])]
        names = [n for n in sorted(CONFIGS) if n != 'default']
        if not core.THOROUGH:
            names = r.sample(names, 3)
            if dist:
                names = sorted(set(names + ['nocrypto', 'jython']))
        for prog, opts in cmds:
            label = ' '.join([prog] + opts)
            x0, got0 = self.outcome(CONFIGS['default'], prog, opts, path)
            if x0.code != 0:
                ctx.ev('refused')
            for n in names:
                cfg = CONFIGS[n]
                if dist and 'nocrypto' in cfg[0] and \
                        not {'openssl', 'javax'} & set(cfg[0] + cfg[1]):
                    continue
                validates = not (prog == 'hwp5odt' and
                                 'nolxml' in cfg[0] and
                                 'xmllint' not in cfg[1])
                x, got = self.outcome(cfg, prog, opts, path)
                ctx.ev('conversion')
                ctx.sample('%s with %s: %d parts' % (label, n, len(got)))
                ctx.distinct('convert', label, n, x0.code, x.code)
                if x0.code != 0 and not validates:
                    # nothing to refuse it with
                    continue
                if not ctx.eq('conversion-exit', x.code == 0, x0.code == 0,
                              '%s with %s: %r, by default %r'
                              % (label, n, x, x0)):
                    continue
                self.equal(ctx, 'conversion-differs',
                           '%s with %s' % (label, n), got, got0)

    def equal(self, ctx, mech, label, got, want):
        if not ctx.eq(mech, sorted(got), sorted(want), label + ': parts'):
            return
        for p in want:
            ctx.check(mech, same(got[p], want[p]), '%s: %s differs: %s, '
                      'expected %s' % (label, p, core.short(got[p]),
                                       core.short(want[p])))

    # ---- nothing available: reported ---------------------------------
    def run_absent(self, ctx, r):
        doc = docgen.generate(r, objects=4, paras=(1, 2), odf=True)
        path = docs.write(doc)
        for n, cfg in sorted(NONE.items()):
            for prog, opts in self.COMMANDS[:2] + self.COMMANDS[4:6]:
                x, got = self.outcome(cfg, prog, opts, path)
                ctx.ev('unavailable')
                ctx.distinct('absent', n, prog, tuple(opts))
                ctx.check('absent-unreported', x.code != 0,
                          '%s %s with no implementation (%s) succeeded: %r'
                          % (prog, opts, n, x))
                ctx.check('absent-silent', x.err.strip() != '',
                          '%s %s with no implementation (%s) says nothing'
                          % (prog, opts, n))
        core.rmdir(os.path.dirname(path))
        doc = docgen.generate(r, objects=4, paras=(1, 2), dist=True)
        path = docs.write(doc)
        x, got = self.outcome((('nocrypto',), (), ()), 'hwp5txt', [], path)
        ctx.ev('unavailable')
        ctx.check('absent-unreported', x.code != 0,
                  'a distribution document without any cipher: %r' % x)
        core.rmdir(os.path.dirname(path))

    # ---- chosen by environment variables -----------------------------
    def run_environ(self, ctx, r):
        doc = docgen.generate(r, objects=6, paras=(1, 3), odf=True,
                              table_in_textbox=False,
                              shapes=('$rec', '$pic', '$con', '$lin'))
        path = docs.write(doc)
        d = core.newdir('tools')
        env = []
        for n, v in (('xsltproc', 'PYHWP_XSLTPROC'),
                     ('xmllint', 'PYHWP_XMLLINT')):
            p = os.path.join(d, 'my ' + n)
            log = os.path.join(d, n + '.log')
            with io.open(p, 'w') as f:
                f.write('#!/bin/sh\necho x >> "%s"\nexec %s "$@"\n'
                        % (log, shutil.which(n)))
            os.chmod(p, 0o755)
            env.append((v, p))
        for opts in ([], ['--document'], ['--styles'], ['--content']):
            x0, got0 = self.outcome(CONFIGS['default'], 'hwp5odt', opts, path)
            # the programs are not in PATH
            for n in ('xsltproc.log', 'xmllint.log'):
                if os.path.exists(os.path.join(d, n)):
                    os.unlink(os.path.join(d, n))
            x, got = self.outcome((('nolxml',), (), env), 'hwp5odt', opts,
                                  path)
            ctx.ev('conversion')
            ctx.distinct('environ', tuple(opts), x.code)
            if ctx.eq('environ-exit', (x.code, x0.code), (0, 0),
                      'hwp5odt %s with programs of the environment: %r, %r'
                      % (opts, x, x0)):
                self.equal(ctx, 'environ-differs', 'hwp5odt %s with programs '
                           'of the environment' % opts, got, got0)
                for n in ('xsltproc.log', 'xmllint.log'):
                    ctx.check('environ-unused',
                              os.path.exists(os.path.join(d, n)),
                              'hwp5odt %s: the program of the environment '
                              'was not used (%s)' % (opts, n))
            # programs which fail
            bad = [(v, '/bin/false' if os.path.exists('/bin/false') else
                    shutil.which('false')) for v, p in env]
            for b in ([bad[0], env[1]], [env[0], bad[1]]):
                x, got = self.outcome((('nolxml',), (), b), 'hwp5odt', opts,
                                      path)
                ctx.ev('unavailable')
                ctx.check('environ-failure', x.code != 0,
                          'hwp5odt %s: failing %s went unreported: %r'
                          % (opts, [v for v, p in b
                                    if p.endswith('false')], x))
        core.rmdir(d)
        core.rmdir(os.path.dirname(path))

    # ---- the library, implementations chosen explicitly --------------
    def run_library(self, ctx, r):
        odf = r.random() < .7
        kw = dict(table_in_textbox=False,
                  shapes=('$rec', '$pic', '$con', '$lin')) if odf else {}
        doc = docgen.generate(r, objects=8, paras=(1, 4), odf=odf, **kw)
        path = docs.write(doc)
        base = None
        for xs in ('lxml', 'xsltproc'):
            for rn in ('lxml', 'xmllint', None):
                for sink in ('file', 'memory', 'pending'):
                    if not core.THOROUGH and sink != 'file' and \
                            r.random() < .5:
                        continue
                    res = views.fresh(lambda: self.transform(
                        path, xs, rn, sink))
                    ctx.ev('conversion')
                    ctx.ev('stream-kinds')
                    label = 'xslt %s, relaxng %s, into %s' % (xs, rn, sink)
                    if res[0] != 'ok':
                        ctx.fail('library-raised', '%s: %s: %s'
                                 % (label, res[1], res[2]))
                        continue
                    got = res[1]
                    ctx.distinct('library', xs, rn, sink,
                                 sorted(k for k in got
                                        if isinstance(got[k], str)))
                    if base is None:
                        base = got
                        continue
                    for n, b in base.items():
                        g = got[n]
                        odt = n in ('styles', 'content', 'single')
                        if isinstance(b, str) and odt and rn is None:
                            continue        # not validated
                        if isinstance(b, str) or isinstance(g, str):
                            if isinstance(b, str):
                                ctx.ev('refused')
                            ctx.eq('library-outcome', g if
                                   isinstance(g, str) else 'success',
                                   b if isinstance(b, str) else 'success',
                                   '%s: %s' % (label, n))
                            continue
                        ctx.check('library-differs', same(g, b),
                                  '%s: %s differs: %s, expected %s'
                                  % (label, n, core.short(g),
                                     core.short(b)))
        core.rmdir(os.path.dirname(path))

    @staticmethod
    def transform(path, xs, rn, sink):
        from hwp5.plat import _lxml, xmllint, xsltproc
        from hwp5.errors import ValidationFailed
        from hwp5.hwp5html import HTMLTransform
        from hwp5.hwp5odt import ODTTransform, open_odtpkg
        from hwp5.hwp5txt import TextTransform
        x = dict(lxml=_lxml, xsltproc=xsltproc)[xs].xslt_compile
        v = {'lxml': _lxml.relaxng_compile, 'xmllint': xmllint.relaxng_compile,
             None: lambda p: None}[rn]
        h = views.H5(path)
        d = core.newdir('x')
        out = {}
        head = b'<!-- before -->' if sink == 'pending' else b''

        def go(name, transform):
            f = io.BytesIO() if sink == 'memory' else \
                io.open(os.path.join(d, name), 'wb+')
            try:
                f.write(head)
                try:
                    transform(h, f)
                except ValidationFailed:
                    out[name] = 'refused'
                    return
                f.flush()
                f.seek(0)
                b = f.read()
                if b[:len(head)] != head:
                    out[name] = 'out of order: %r' % b[:60]
                else:
                    out[name] = b[len(head):]
            finally:
                f.close()
        odt = ODTTransform(x, v)
        go('styles', odt.transform_hwp5_to_styles)
        go('content', odt.transform_hwp5_to_content)
        odt = ODTTransform(x, v, embedbin=True)
        go('single', odt.transform_hwp5_to_single_document)
        html = HTMLTransform(x)
        go('css', html.transform_hwp5_to_css)
        go('xhtml', html.transform_hwp5_to_xhtml)
        go('text', TextTransform(x).transform_hwp5_to_text)
        core.rmdir(d)
        return out

    # ---- stylesheets -------------------------------------------------
    def run_xslt(self, ctx, r):
        d = core.newdir('xslt')
        for i in range(8):
            xsl = os.path.join(d, 's%d.xsl' % i)
            inp = os.path.join(d, 'i%d.xml' % i)
            kind = r.choice(['good'] * 5 + ['failing', 'illformed-input',
                                           'illformed-xsl', 'not-xsl',
                                           'missing-input', 'missing-xsl'])
            body = r.choice(FAILING if kind == 'failing' else BODIES)
            if body.startswith('<xsl:import'):
                s = XSL.replace('<xsl:output', body + '<xsl:output') % (
                    r.choice(OUTPUTS), BODIES[0])
            else:
                s = XSL % (r.choice(OUTPUTS), body)
            x = '<?xml version="1.0" encoding="utf-8"?>\n' + rxml(r)
            if kind == 'illformed-input':
                x = r.choice([x[:-3], '', x + '<b/>', x.replace('<', '<<', 2),
                              '<a>\x01</a>', '<a b="1" b="2"/>', 'plain'])
            if kind == 'illformed-xsl':
                s = r.choice([s[:-4], '', s + 'x'])
            if kind == 'not-xsl':
                s = '<foo/>'
            if kind != 'missing-xsl':
                with io.open(xsl, 'w', encoding='utf-8') as f:
                    f.write(s)
            if kind != 'missing-input':
                with io.open(inp, 'w', encoding='utf-8') as f:
                    f.write(x)
            params = {}
            if r.random() < .5:
                for n in r.sample(['p', 'q'], r.randrange(1, 3)):
                    t = rtext(r, 12)
                    q = r.choice('"\'')         # not both kinds
                    params[n] = t.replace(q, '') + r.choice(
                        ['', ' $x', '{a}', "'" if q == '"' else '"'])
            res = views.fresh(lambda: self.xslts(d, xsl, inp, params))
            if res[0] != 'ok':
                ctx.fail('xslt-raised', '%s: %s' % res[1:3])
                continue
            good = kind == 'good'
            first = {}
            for route, got in res[1].items():
                ctx.ev('xslt' if good else 'xslt-failure')
                ctx.distinct('xslt', route, kind, body[:80], bool(params))
                if isinstance(got, str):
                    ctx.check('xslt-failed', not good, '%s: %s on %s'
                              % (route, got, s))
                    continue
                if not ctx.check('xslt-unreported', good,
                                 '%s: no failure reported for %s (%s): %s'
                                 % (route, kind, s, core.short(got))):
                    continue
                # parameters are not passed through every route
                key = route[1] in ('compile', 'stream', 'class') and \
                    bool(params)
                want = first.setdefault(key, got)
                ctx.check('xslt-differs', got == want or same(got, want),
                          '%s: %s, expected %s (stylesheet %s, params %r)'
                          % (route, core.short(got), core.short(want), s,
                             params))
        core.rmdir(d)

    @staticmethod
    def xslts(d, xsl, inp, params):
        from hwp5 import plat
        from hwp5.plat import _lxml, xsltproc
        out = {}

        def go(route, fn):
            o = os.path.join(d, 'o')
            if os.path.exists(o):
                os.unlink(o)
            try:
                b = fn(o)
                if b is None:
                    with io.open(o, 'rb') as f:
                        b = f.read()
                out[route] = b
            except Exception as e:
                out[route] = type(e).__name__

        def into_file(compiled):
            def fn(o):
                with io.open(o, 'wb') as f:
                    compiled()(inp, f)
            return fn

        def into_memory(compiled):
            def fn(o):
                f = io.BytesIO()
                compiled()(inp, f)
                return f.getvalue()
            return fn

        def plain(xslt):
            def fn(o):
                xslt(xsl, inp, o)
            return fn

        def klass(m):
            def fn(o):
                m.XSLT(xsl, **params).transform(inp, o)
            return fn

        def twice(m):
            def fn(o):
                t = m.xslt_compile(xsl, **params)
                f = io.BytesIO()
                t(inp, f)
                f = io.BytesIO()
                t(inp, f)
                return f.getvalue()
            return fn
        for n, m in (('lxml', _lxml), ('xsltproc', xsltproc)):
            go((n, 'plain'), plain(m.xslt))
            go((n, 'compile'), into_file(
                lambda: m.xslt_compile(xsl, **params)))
            go((n, 'stream'), into_memory(
                lambda: m.xslt_compile(xsl, **params)))
            go((n, 'class'), klass(m))
            go((n, 'stream', 'twice'), twice(m))
        go(('chosen', 'plain'), plain(plat.get_xslt()))
        go(('chosen', 'compile'), into_file(
            lambda: plat.get_xslt_compile()(xsl, **params)))
        fakeuno.install(fakeuno.Log())
        from hwp5.plat import _uno
        go(('uno', 'plain'), plain(_uno.xslt))
        return out

    # ---- schemas -----------------------------------------------------
    def run_relaxng(self, ctx, r):
        d = core.newdir('rng')
        if r.random() < .5:
            rng = os.path.join(d, 's.rng')
            typ = r.choice(['<data type="string"/>', '<data type="integer"/>',
                            '<choice><value>x</value><value>가</value>'
                            '</choice>', '<data type="string"><param '
                            'name="pattern">[a-z]*</param></data>'])
            with io.open(rng, 'w', encoding='utf-8') as f:
                f.write(RNG % typ)
            docs_ = []
            for i in range(6):
                good = {'string': 'any 말', 'integer': '-12'}
                at = 'any 말' if 'string"/>' in typ else \
                    '12' if 'integer' in typ else \
                    '가' if 'value' in typ else 'abc'
                wrong = None if 'string"/>' in typ else 'A 1'
                kids = ''.join(r.choice(['<p>t&amp;</p>', '<t><p/></t>',
                                         '<t><p/><p>x</p></t>', '\n'])
                               for _ in range(r.randrange(4)))
                docs_ += [('<doc/>', True),
                          ('<doc attr="%s">%s</doc>' % (at, kids), True),
                          ('<doc>%s<q/></doc>' % kids, False),
                          ('<doc>%s<t/></doc>' % kids, False),
                          ('<doc other="1">%s</doc>' % kids, False),
                          ('<p>x</p>', False),
                          ('<doc>%stext</doc>' % kids, False),
                          ('<doc>%s' % kids, False), ('', False)]
                if wrong:
                    docs_.append(('<doc attr="%s"/>' % wrong, False))
            docs_ = r.sample(docs_, 8)
        else:
            from hwp5.utils import hwp5_resources_path
            with hwp5_resources_path('odf-relaxng/OpenDocument-v1.2-os-schema'
                                     '.rng') as p:
                rng = os.path.join(d, 'odf.rng')
                shutil.copy(p, rng)
            docs_ = []
            doc = docgen.generate(r, objects=5, paras=(1, 3), odf=True,
                                  table_in_textbox=False,
                                  shapes=('$rec', '$pic', '$con', '$lin'))
            path = docs.write(doc)
            x, got = self.outcome((('nolxml',), ('xsltproc',), ()),
                                  'hwp5odt', ['--content'], path)
            core.rmdir(os.path.dirname(path))
            assert x.code == 0, x
            s = got['out'].decode('utf-8')
            docs_.append((s, True))
            docs_.append((s.replace('<office:body>', '<office:corpse>')
                          .replace('</office:body>', '</office:corpse>'),
                          False))
            docs_.append((s.replace('<text:p ', '<text:p text:nope="1" ', 1),
                          '<text:p ' not in s))
            docs_.append((s.replace('<office:text', '<text:p/><office:text',
                                    1), False))
            docs_.append((s[:-5], False))
        for i, (x, good) in enumerate(docs_):
            inp = os.path.join(d, 'd.xml')
            x = '<?xml version="1.0" encoding="utf-8"?>\n' * \
                (not x.startswith('<?xml')) + x
            with io.open(inp, 'w', encoding='utf-8') as f:
                f.write(x)
            data = x.encode('utf-8')
            res = views.fresh(lambda: self.relaxngs(rng, inp, data))
            if res[0] != 'ok':
                ctx.fail('relaxng-raised', '%s: %s' % res[1:3])
                continue
            for route, got in res[1].items():
                ctx.ev('valid' if good else 'invalid')
                ctx.distinct('relaxng', route, good, len(data) // 1000)
                if good:
                    ctx.eq('relaxng-refused', got, data
                           if 'output' in route[1] else True,
                           '%s: %s' % (route, core.short(x)))
                else:
                    ctx.check('relaxng-accepted', got in (False, 'raised'),
                              '%s accepted %s: %s' % (
                                  route, core.short(x), core.short(got)))
        core.rmdir(d)

    @staticmethod
    def relaxngs(rng, inp, data):
        from hwp5 import plat
        from hwp5.plat import _lxml, xmllint
        out = {}

        def go(route, fn):
            try:
                v = fn()
                out[route] = v if isinstance(v, bytes) else bool(v)
            except Exception:
                out[route] = 'raised'

        def output(compiled, chunked):
            def fn():
                f = io.BytesIO()
                try:
                    with compiled(rng).validating_output(f) as g:
                        n = 7 if chunked else len(data) or 1
                        for i in range(0, len(data), n):
                            g.write(data[i:i + n])
                except Exception:
                    if f.getvalue():
                        return f.getvalue()     # not withheld
                    raise
                # the same content, perhaps serialised anew
                b = f.getvalue()
                return data if same(b, data) else b
            return fn
        for n, m in (('lxml', _lxml), ('xmllint', xmllint)):
            go((n, 'plain'), lambda: m.relaxng(rng, inp))
            go((n, 'output'), output(m.relaxng_compile, False))
        go(('chosen', 'plain'), lambda: plat.get_relaxng()(rng, inp))
        go(('chosen', 'output'), output(plat.get_relaxng_compile(), True))
        return out

    # ---- block decryption --------------------------------------------
    def run_cipher(self, ctx, r):
        items = []
        for i in range(6):
            key = r.choice([bytes(16), b'\xff' * 16, r.randbytes(16),
                            r.randbytes(16)])
            n = r.choice([0, 16, 32, 48, 256, 4096, 16 * r.randrange(2000)])
            plain = r.choice([bytes(n), r.randbytes(n),
                              (b'\x10' * 16 * (n // 16 + 1))[:n]])
            items.append((key, enc.aes_ecb_encrypt(key, plain)
                          if n < 5000 else None, plain))
        items = [(k, c if c is not None else
                  enc.aes_ecb_encrypt(k, p[:64]) * 1, p if c is not None
                  else p[:64]) for k, c, p in items]
        # not a whole number of blocks
        bad = [(r.randbytes(16), r.randbytes(r.choice([1, 15, 17, 100])))
               for i in range(2)]

        def fn():
            from hwp5 import plat
            out = {}
            for n in ('get_aes128ecb_decrypt',
                      'get_aes128ecb_decrypt_cryptography',
                      'get_aes128ecb_decrypt_openssl'):
                dec = getattr(plat, n)()
                res = []
                for k, c, p in items:
                    try:
                        res.append(bytes(dec(k, c)))
                    except Exception as e:
                        res.append('%s %s' % (type(e).__name__, e))
                for k, c in bad:
                    try:
                        res.append(bytes(dec(k, c)))
                    except Exception as e:
                        res.append('raised')
                out[n] = res
            without('cryptography')
            dec = plat.get_aes128ecb_decrypt()
            out['fallback'] = [bytes(dec(k, c)) for k, c, p in items]
            fakejavax.install()
            for n in ('get_aes128ecb_decrypt',
                      'get_aes128ecb_decrypt_javax'):
                dec = getattr(plat, n)()
                res = []
                for k, c in [x[:2] for x in items] + bad:
                    try:
                        res.append(bytes(dec(k, c)))
                    except Exception as e:
                        res.append('raised')
                out['javax ' + n] = res
            return out
        res = views.fresh(fn)
        if res[0] != 'ok':
            return ctx.fail('cipher-raised', '%s: %s' % res[1:3])
        for n, got in res[1].items():
            for (k, c, p), g in zip(items, got):
                ctx.ev('cipher')
                ctx.distinct('cipher', n, len(p))
                ctx.eq('cipher', g, p, '%s of %d bytes' % (n, len(p)))
            for (k, c), g in zip(bad, got[len(items):]):
                ctx.ev('cipher-failure')
                ctx.eq('cipher-unreported', g, 'raised',
                       '%s of %d bytes' % (n, len(c)))

    # ---- storages ----------------------------------------------------
    def run_storage(self, ctx, r):
        tree = trees.subtree(r, 3, width=5)
        tree.setdefault('top', trees.blob(r))
        tree.setdefault('dir', trees.subtree(r, 2, width=3))
        d = core.newdir('ole')
        path = os.path.join(d, 'x.ole')
        with io.open(path, 'wb') as f:
            f.write(cfb.build(tree))
        notole = os.path.join(d, 'not.ole')
        with io.open(notole, 'wb') as f:
            f.write(r.choice([b'', b'PK\3\4', r.randbytes(2000),
                              b'\xd0\xcf\x11\xe0']))
        seed = r.getrandbits(32)
        want = dict(trees.nodes(tree))
        routes = [('olefile', (), 'olefileio'), ('gsf', ('gsf',), 'gir_gsf'),
                  ('chosen', (), None), ('chosen-gsf', ('gsf',), None),
                  ('wrapper', (), 'ole'), ('wrapper-gsf', ('gsf',), 'ole'),
                  ('uno', ('uno',), '_uno'), ('poi', ('poi',),
                                              'jython_poifs'),
                  ('chosen-uno', ('uno',), None),
                  ('chosen-poi', ('poi',), None),
                  ('wrapper-uno', ('uno',), 'ole'),
                  ('wrapper-poi', ('poi',), 'ole')]
        for n, cfg, m in routes:
            res = views.fresh(lambda: self.storages(cfg, m, path, notole,
                                                    want, seed))
            if res[0] != 'ok':
                ctx.fail('storage-raised', '%s: %s: %s'
                         % ((n,) + tuple(res[1:3])))
                continue
            got, problems, notvalid, count = res[1]
            ctx.ev('streams', count)
            ctx.distinct('storage', n, len(want))
            for p in problems[:5]:
                ctx.fail('storage-stream', '%s: %s' % (n, p))
            ctx.eq('storage-listing', sorted(got), sorted(want),
                   '%s: items' % n)
            for p in want:
                if p in got:
                    ctx.eq('storage-content', got[p], want[p],
                           '%s: %s' % (n, p))
            ctx.eq('storage-invalid', notvalid, 'InvalidOleStorageError',
                   '%s: not a compound file' % n)
        core.rmdir(d)

    @staticmethod
    def storages(cfg, module, path, notole, want, seed):
        configure(cfg)
        import importlib
        from hwp5 import plat
        from hwp5.storage import is_storage, is_stream
        if module == 'ole':
            from hwp5.storage.ole import OleStorage as cls
        elif module is None:
            cls = plat.get_olestorage_class()
        else:
            cls = importlib.import_module('hwp5.plat.' + module).OleStorage
        r = random.Random(seed)
        s = cls(path)
        got = {}
        problems = []
        count = [0]

        def walk(s, base):
            names = list(s)
            if len(names) != len(set(names)):
                problems.append('listed twice in %r: %r' % (base, names))
            for n in names:
                x = s[n]
                if is_storage(x):
                    got[base + n] = None
                    walk(x, base + n + '/')
                    continue
                if not is_stream(x):
                    problems.append('%s is neither' % (base + n))
                    continue
                f, g = x.open(), x.open()
                got[base + n] = f.read()
                count[0] += 1
                b = want.get(base + n)
                if b is None:
                    continue
                if f.read() != b'':
                    problems.append('%s: something beyond its end'
                                    % (base + n))
                # pieces, while another opening is at another place
                parts = []
                while True:
                    k = r.choice([1, 7, 64, 512, 4096, 100000])
                    part = g.read(k)
                    if len(part) > k:
                        problems.append('%s: read(%d) gave %d' % (
                            base + n, k, len(part)))
                    if not part:
                        break
                    parts.append(part)
                if b''.join(parts) != b:
                    problems.append('%s: pieces differ' % (base + n))
                g = x.open()
                pos = 0
                for _ in range(6):
                    op = r.choice(['set', 'cur', 'end', 'read', 'rest',
                                   'all'])
                    if op == 'set':
                        pos = r.randint(0, len(b))
                        g.seek(pos)
                    elif op == 'cur':
                        k = r.randint(-pos, len(b) - pos)
                        g.seek(k, 1)
                        pos += k
                    elif op == 'end':
                        k = r.randint(-len(b), 0)
                        g.seek(k, 2)
                        pos = len(b) + k
                    else:
                        if op == 'read':
                            k = r.randint(0, 200)
                            part = g.read(k)
                            w = b[pos:pos + k]
                        elif op == 'rest':
                            part, w = g.read(), b[pos:]
                        else:
                            part, w = g.read(-1), b[pos:]
                        if part != w:
                            problems.append('%s: %s at %d of %d: %d bytes'
                                            % (base + n, op, pos, len(b),
                                               len(part)))
                        pos += len(w)
                    if g.tell() != pos:
                        problems.append('%s: at %r after %s, expected %d'
                                        % (base + n, g.tell(), op, pos))
                        break
                g.close()
            try:
                s['no such item']
                problems.append('missing item of %r found' % base)
            except KeyError:
                pass
        walk(s, '')
        s.close()
        try:
            cls(notole)
            inv = 'accepted'
        except Exception as e:
            inv = type(e).__name__
        return got, problems, inv, count[0]


def views_folder(d):
    out = {}
    for b, ds, fs in os.walk(d):
        for x in fs:
            p = os.path.join(b, x)
            with io.open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


if __name__ == '__main__':
    sys.exit(core.main(P20(), sys.argv[1:]))
