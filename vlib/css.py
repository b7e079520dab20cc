# -*- coding: utf-8 -*-
'''A small CSS engine: enough to compute the declared formatting of elements
of a page (cascade, specificity, inheritance of the usual properties).'''
import re


def chunks(text, stops):
    '''split at the stop characters outside of strings and parentheses;
    yields (part, stop)'''
    out = []
    depth = 0
    quote = None
    i = 0
    while i < len(text):
        c = text[i]
        if quote:
            if c == '\\' and i + 1 < len(text):
                out.append(c)
                i += 1
                c = text[i]
            elif c == quote or c == '\n':
                quote = None
        elif c == '/' and text[i:i + 2] == '/*' and not depth:
            j = text.find('*/', i + 2)
            i = len(text) if j < 0 else j + 2
            continue
        elif c in '"\'':
            quote = c
        elif c == '(':
            depth += 1
        elif c == ')':
            depth = max(0, depth - 1)
        elif c in stops and not depth:
            yield ''.join(out), c
            out = []
            i += 1
            continue
        out.append(c)
        i += 1
    yield ''.join(out), ''


PROP = re.compile(r'-?[A-Za-z_][A-Za-z0-9_-]*$')
SIDES = ('top', 'right', 'bottom', 'left')


def declarations(text):
    '''[(property, value)], shorthands expanded, malformed ones dropped'''
    out = []
    for part, _ in chunks(text, ';'):
        k, c, v = part.partition(':')
        k = k.strip().lower()
        v = v.strip()
        if not c or not PROP.match(k) or not v:
            continue
        if v.count('"') % 2 or v.count("'") % 2 and '"' not in v:
            continue
        if k.startswith('-') or v.startswith('-moz') or \
                v.startswith('-webkit'):
            continue        # of one browser
        if k in ('margin', 'padding'):
            w = v.split()
            if not 1 <= len(w) <= 4:
                continue
            w = {1: w * 4, 2: w * 2, 3: w + w[1:2], 4: w}[len(w)]
            out += [('%s-%s' % (k, s), x) for s, x in zip(SIDES, w)]
        elif k == 'border':
            out += [('border-' + s, v) for s in SIDES]
        elif k == 'text-decoration':
            line = [x for x in v.split() if x in (
                'underline', 'overline', 'line-through', 'none')]
            if not line:
                continue
            out += [('text-decoration-line', ' '.join(line)),
                    ('text-decoration-color', 'currentcolor'),
                    ('text-decoration-style', 'solid')]
        else:
            out.append((k, v))
    return out


IDENT = r'-?(?:[A-Za-z_]|[^\x00-\x7f]|\\.)(?:[A-Za-z0-9_-]|[^\x00-\x7f]|\\.)*'
SIMPLE = re.compile(r'([.#]|::?)?(%s|\*)' % IDENT)
INHERITED = ('color', 'font-weight', 'font-style', 'font-size',
             'font-family', 'line-height', 'text-align', 'text-indent',
             'caption-side')


def compound(s):
    '''-> (tag or None, classes, pseudo-classes) or None (invalid)'''
    tag = None
    classes = []
    pseudo = []
    i = 0
    while i < len(s):
        m = SIMPLE.match(s, i)
        if not m:
            return None
        kind, name = m.group(1), re.sub(r'\\(.)', r'\1', m.group(2))
        if kind == '.':
            classes.append(name)
        elif kind is None and i == 0:
            tag = None if name == '*' else name
        elif kind == ':' and name in ('first-child', 'last-child'):
            pseudo.append(name)
        elif kind == '::':
            pseudo.append('::' + name)
        else:
            return None
        i = m.end()
    return tag, classes, pseudo


def selector(s):
    '''-> list of (combinator, compound), rightmost first; None: invalid'''
    words = re.findall(r'(?:\\.|[^\s>])+|>', s)
    out = []
    comb = ' '
    for w in reversed(words):
        if w == '>':
            if comb == '>' or not out:
                return None
            comb = '>'
            continue
        c = compound(w)
        if c is None:
            return None
        out.append((comb, c))
        comb = ' '
    return out if out and comb == ' ' else None


class Sheet(object):
    def __init__(self):
        self.rules = []     # (specificity, order, selector, declarations)
        self.dropped = []

    def add(self, text):
        prelude = None
        for part, stop in chunks(text, '{}'):
            if stop == '{':
                prelude = part.strip()
            elif stop == '}':
                if prelude is not None:
                    self.rule(prelude, part)
                prelude = None

    def rule(self, prelude, body):
        sels = [selector(p) for p, _ in chunks(prelude, ',')]
        if None in sels or not sels:
            self.dropped.append(prelude)
            return
        decl = declarations(body)
        for s in sels:
            a = sum(len(c[1]) + len([p for p in c[2] if p[:2] != '::'])
                    for _, c in s)
            b = sum((c[0] is not None) +
                    len([p for p in c[2] if p[:2] == '::']) for _, c in s)
            self.rules.append(((a, b), len(self.rules), s, decl))


class Page(object):
    '''computed formatting of the elements of an ElementTree'''

    def __init__(self, root, sheets):
        self.parent = {c: p for p in root.iter() for c in p}
        self.sheet = Sheet()
        for s in sheets:
            self.sheet.add(s)
        self.rules = sorted(self.sheet.rules, key=lambda x: x[:2])
        self.cache = {}
        self.fast = {}
        for i, (_, _, s, decl) in enumerate(self.rules):
            tag, classes, pseudo = s[0][1]
            key = classes[-1] if classes else tag
            self.fast.setdefault(key, []).append(i)

    def simple(self, e, c, pseudo):
        tag, classes, ps = c
        if tag is not None and e.tag.rsplit('}')[-1] != tag:
            return False
        have = (e.get('class') or '').split()
        if any(x not in have for x in classes):
            return False
        for p in ps:
            if p.startswith('::'):
                if p != pseudo:
                    return False
                continue
            up = self.parent.get(e)
            if up is None or up[0 if p == 'first-child' else -1] is not e:
                return False
        if pseudo and pseudo not in ps:
            return False
        return True

    def matches(self, e, s, pseudo):
        if not self.simple(e, s[0][1], pseudo):
            return False
        return self.climb(self.parent.get(e), s[0][0], s[1:])

    def climb(self, up, comb, rest):
        if not rest:
            return True
        # the combinator belongs to the compound on its left
        c, comp = rest[0]
        while up is not None:
            if self.simple(up, comp, None) and \
                    self.climb(self.parent.get(up), None, rest[1:]):
                return True
            if c == '>':
                return False
            up = self.parent.get(up)
        return False

    def own(self, e, pseudo=None):
        '''declared on the element itself'''
        key = (e, pseudo)
        if key not in self.cache:
            out = {}
            have = (e.get('class') or '').split()
            idx = set(self.fast.get(e.tag.rsplit('}')[-1], []))
            idx.update(self.fast.get(None, []))
            for c in have:
                idx.update(self.fast.get(c, []))
            for i in sorted(idx):
                _, _, s, decl = self.rules[i]
                if self.matches(e, s, pseudo):
                    out.update(decl)
            if not pseudo:
                out.update(declarations(e.get('style') or ''))
            self.cache[key] = out
        return self.cache[key]

    def get(self, e, prop, default=None):
        v = self.own(e).get(prop)
        if v is not None:
            return v
        if prop in INHERITED:
            up = self.parent.get(e)
            if up is not None:
                return self.get(up, prop, default)
        return default
