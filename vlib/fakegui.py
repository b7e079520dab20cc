# -*- coding: utf-8 -*-
'''Stand-ins for the window toolkits of the viewer (GObject introspection:
Gtk 3 and WebKit 1; PySide), with the documented behaviour of the calls, which
record what a user would see.  Nothing is drawn.'''
import inspect
import os
import re
import sys
import types
from urllib.parse import urlsplit, unquote

SIZES = [(800, 600), (10, 10), (5000, 9000), (300, 400), (1024, 800),
         (299, 801), (1025, 399)]


class Log(object):
    def __init__(self):
        self.shown = []         # what views show while the main loop runs
        self.mains = 0
        self.sizes = []         # (page, window) sizes
        self.stopped = []       # navigations which were not let through
        self.problems = []

    def as_dict(self):
        return dict(self.__dict__)


def path_of(url):
    p = urlsplit(url)
    if p.scheme != 'file' or p.netloc not in ('', 'localhost') or \
            p.query or p.fragment:
        return None
    return unquote(p.path)


def folder(path):
    out = {}
    for root, ds, fs in os.walk(path):
        for n in fs:
            p = os.path.join(root, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, path)] = f.read()
    return out


def text(x):
    if not isinstance(x, str):
        raise TypeError('Must be string, not %s' % type(x).__name__)
    return x


class Widget(object):
    def __init__(self, *a, **k):
        self.kids = []
        self.handlers = {}
        self.visible = False

    def add(self, kid, *a, **k):
        self.kids.append(kid)

    pack_start = pack_end = add_with_viewport = add

    def connect(self, name, fn, *data):
        self.handlers.setdefault(name, []).append((fn, data))
        return len(self.handlers[name])

    def emit(self, name, *args):
        return [fn(self, *(args + data))
                for fn, data in self.handlers.get(name, ())]

    def walk(self):
        yield self
        for k in self.kids:
            for x in k.walk():
                yield x

    def show_all(self):
        for x in self.walk():
            x.visible = True

    def show(self):
        self.visible = True

    def present(self):
        self.visible = True

    def __getattr__(self, name):
        if name.startswith('set_'):
            return lambda *a, **k: None
        raise AttributeError(name)


def evaluate(script, values):
    '''the few scripts understood -> the address gone to'''
    m = re.match(r'\s*(?:window\.|document\.)?location(?:\.href)?\s*=(.*)$',
                 script.strip().rstrip(';'), re.S)
    if not m:
        return None
    out = ''
    for term in m.group(1).split('+'):
        term = term.strip()
        if re.match(r'^"[^"]*"$|^\'[^\']*\'$', term):
            out += term[1:-1]
        elif term in values:
            out += str(values[term])
        else:
            return None
    return out


def install_gi(log, pages, crash=False):
    '''pages: the (width, height) of the page at each of its loads'''
    windows = []
    now = [pages[0]]

    class Window(Widget):
        def __init__(self, *a, **k):
            Widget.__init__(self)
            self.size = None
            windows.append(self)

        def resize(self, w, h):
            self.size = (w, h)

    class Request(object):
        def __init__(self, uri):
            self.uri = uri

        def get_uri(self):
            return self.uri

    class WebView(Widget):
        loaded = None

        def load_string(self, content, mime, encoding, base):
            self.loaded = dict(content=text(content), mime=text(mime),
                               encoding=text(encoding), base=text(base))

        load_html_string = lambda self, content, base: \
            self.load_string(content, 'text/html', 'utf-8', base)

        def load_uri(self, uri):
            self.loaded = dict(uri=text(uri))

        open = load_uri

        def execute_script(self, script):
            w, h = now[0]
            to = evaluate(text(script), {
                'document.body.scrollWidth': w,
                'document.body.scrollHeight': h})
            if to is None:
                return
            got = self.emit('navigation-requested', self, Request(to))
            if any(got):
                log.stopped.append(to)
            else:
                log.problems.append('the page went to %r' % to)

    class Gtk(types.ModuleType):
        pass
    gtk = Gtk('gi.repository.Gtk')
    for n in ('ScrolledWindow', 'VBox', 'HBox', 'Box', 'Grid', 'Viewport'):
        setattr(gtk, n, type(n, (Widget,), {}))
    gtk.Window = Window
    gtk.Orientation = types.SimpleNamespace(VERTICAL=1, HORIZONTAL=0)
    gtk.WindowType = types.SimpleNamespace(TOPLEVEL=0, POPUP=1)
    gtk.init = lambda argv=None: (True, argv)

    def main():
        log.mains += 1
        for w in windows:
            for x in w.walk():
                if isinstance(x, WebView) and w.visible and x.visible and \
                        x.loaded:
                    record(log, x.loaded)
        if crash:
            raise RuntimeError('the window system went away')
        for w in windows:
            for x in w.walk():
                if not isinstance(x, WebView):
                    continue
                for now[0] in pages:
                    w.size = None
                    x.emit('load-finished', x)
                    if w.size:
                        log.sizes.append((now[0], w.size))
                for to in ('file:///a/b.html#c', 'http://example.com/x:y',
                           'about:blank'):
                    if any(x.emit('navigation-requested', x, Request(to))):
                        log.problems.append('does not follow %s' % to)
    gtk.main = main
    gtk.main_quit = lambda *a: None
    webkit = types.ModuleType('gi.repository.WebKit')
    webkit.WebView = WebView
    gi = types.ModuleType('gi')
    rep = types.ModuleType('gi.repository')
    gi.repository = rep
    gi.require_version = lambda n, v: None
    rep.Gtk = gtk
    rep.WebKit = webkit
    sys.modules.update({'gi': gi, 'gi.repository': rep,
                        'gi.repository.Gtk': gtk,
                        'gi.repository.WebKit': webkit})


def install_pyside(log, crash=False):
    state = dict(windows=[], app=None)

    class QUrl(object):
        def __init__(self, s):
            self.s = text(s)

        def toString(self):
            return self.s

        @classmethod
        def fromLocalFile(cls, p):
            from urllib.request import pathname2url
            return cls('file://' + pathname2url(p))

    class QApplication(object):
        def __init__(self, argv):
            state['app'] = self

        def exec_(self):
            log.mains += 1
            for w in state['windows']:
                for v in w.kids:
                    v.finish()
                if w.visible:
                    for v in w.kids:
                        if v.loaded:
                            record(log, v.loaded)
            if crash:
                raise RuntimeError('the window system went away')
            return 0

    class QWidget(object):
        def __init__(self, parent=None):
            if state['app'] is None:
                raise RuntimeError('QWidget: Must construct a QApplication '
                                   'before a QPaintDevice')
            self.kids = []
            self.visible = False

        def show(self):
            self.visible = True

        showNormal = showMaximized = show

        def __getattr__(self, name):
            if re.match('(set|resize|raise|activate|move|adjust)', name):
                return lambda *a: None
            raise AttributeError(name)

    class QMainWindow(QWidget):
        def __init__(self, *a):
            QWidget.__init__(self, *a)
            state['windows'].append(self)

        def setCentralWidget(self, v):
            self.kids = [v]

    class Signal(object):
        def __init__(self):
            self.fns = []

        def connect(self, fn):
            self.fns.append(fn)

        def emit(self, *args):
            for fn in self.fns:
                # slots get as many of the arguments as they take
                for n in range(len(args), -1, -1):
                    try:
                        inspect.signature(fn).bind(*args[:n])
                    except TypeError:
                        continue
                    fn(*args[:n])
                    break

    class QWebView(QWidget):
        loaded = None

        def __init__(self, parent=None):
            QWidget.__init__(self, parent)
            self.loadFinished = Signal()
            self.loadStarted = Signal()

        def load(self, url):
            self.loaded = dict(uri=url.s)

        setUrl = load

        def setHtml(self, html, base=None):
            self.loaded = dict(content=text(html), mime='text/html',
                               encoding='utf-8', base=base.s if base else '')

        def finish(self):
            self.loadStarted.emit()
            self.loadFinished.emit(True)

    mods = {}
    for name, d in (('QtCore', dict(QUrl=QUrl)),
                    ('QtGui', dict(QApplication=QApplication,
                                   QMainWindow=QMainWindow)),
                    ('QtWebKit', dict(QWebView=QWebView))):
        m = types.ModuleType('PySide.' + name)
        m.__dict__.update(d)
        mods['PySide.' + name] = m
    top = types.ModuleType('PySide')
    for n, m in mods.items():
        setattr(top, n.split('.')[1], m)
    mods['PySide'] = top
    sys.modules.update(mods)


def record(log, loaded):
    '''what the view shows now: page and the files it can refer to'''
    if 'uri' in loaded:
        p = path_of(loaded['uri'])
        if p is None or not os.path.isfile(p):
            log.problems.append('nothing at %r' % loaded['uri'])
            return
        with open(p, 'rb') as f:
            page = f.read()
        base = os.path.dirname(p)
    else:
        if loaded['encoding'].lower() not in ('utf-8', 'utf8'):
            log.problems.append('encoding %r' % loaded['encoding'])
        page = loaded['content'].encode('utf-8')
        base = path_of(loaded['base'])
        if base is None:
            log.problems.append('base %r' % loaded['base'])
            return
        # relative addresses are resolved against what is before the last /
        base = base.rpartition('/')[0]
        if not os.path.isdir(base):
            log.problems.append('no folder at %r' % loaded['base'])
            return
    log.shown.append((page, folder(base)))


def forbid(*names):
    '''these can not be imported'''
    for n in names:
        sys.modules[n] = None
