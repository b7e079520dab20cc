# -*- coding: utf-8 -*-
'''Every view of a document as comparable data, and forked execution.'''
import hashlib
import io
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import traceback
from . import core


def fresh(fn, timeout=80):
    """Runs fn in a forked child; returns ('ok', value) or
    ('exc', type name, text, from_repo)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(core.patience(timeout))
            try:
                v = ('ok', fn())
            except Exception as e:
                v = ('exc', type(e).__name__,
                     '%s\n%s' % (e, traceback.format_exc()[-1500:]),
                     core.exc_from_repo(e) or core.misshapen(e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(v, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data and os.WIFSIGNALED(st) and os.WTERMSIG(st) in (
            signal.SIGALRM, signal.SIGSEGV, signal.SIGABRT):
        raise core.Stuck('no result: ended by signal %d' % os.WTERMSIG(st))
    if not data:
        raise core.HarnessError('forked child ended without a result: %#x'
                                % st)
    return pickle.loads(data)


def sha(b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogatepass')
    return hashlib.sha1(b).hexdigest()[:16]


def H5(path):
    from hwp5.xmlmodel import Hwp5File
    return Hwp5File(path)


def parts(h):
    yield 'DocInfo', h.docinfo
    for i in h.bodytext.section_indexes():
        yield 'Section%d' % i, h.bodytext.section(i)


def record_repr(rec):
    return repr(sorted((k, v) for k, v in rec.items()))


def slurp(f):
    try:
        return f.read()
    finally:
        f.close()


def v_records(h):
    return [sha(record_repr(rec)) for n, p in parts(h)
            for rec in p.records()]


def v_models(h):
    from hwp5.binmodel import model_to_json
    return [sha(model_to_json(m, sort_keys=True)) for n, p in parts(h)
            for m in p.models()]


def v_modelsjson(h):
    return [sha(slurp(p.models_json().open())) for n, p in parts(h)]


def v_recordsjson(h):
    return [sha(slurp(p.records_json().open())) for n, p in parts(h)]


def v_xml(h):
    out = io.BytesIO()
    h.xmlevents().dump(out)
    return [sha(x) for x in out.getvalue().split(b'<Paragraph ')]


def v_xmlembed(h):
    out = io.BytesIO()
    h.xmlevents(embedbin=True).dump(out)
    return [sha(x) for x in out.getvalue().split(b'<Paragraph ')]


def v_sectionxml(h):
    return [sha(slurp(p.xmlevents().open())) for n, p in parts(h)]


def v_summary(h):
    i = h.summaryinfo
    return [str(x) for x in (i.title, i.subject, i.author, i.keywords,
                             i.comments, i.lastSavedBy, i.revisionNumber,
                             i.lastPrintedTime, i.createdTime,
                             i.lastSavedTime, i.numberOfPages, i.dateString,
                             i.numberOfParagraphs)] + list(i.plaintext_lines)


def v_header(h):
    f = h.fileheader
    return [repr(sorted(f.value.items())), repr(h.header.version),
            repr(h.header.flags), str(h.preview_text.text)]


def v_streams(h):
    from hwp5.storage import ExtraItemStorage, iter_storage_leafs
    s = ExtraItemStorage(h)
    out = []
    for name in sorted(iter_storage_leafs(s)):
        x = s
        for p in name.split('/'):
            x = x[p]
        f = x.open()
        try:
            out.append((name, sha(f.read())))
        finally:
            f.close()
    return out


_T = {}


def transform(kind):
    '''the converter objects are kept, as a converting service would'''
    from hwp5.hwp5html import HTMLTransform
    from hwp5.hwp5odt import ODTTransform
    from hwp5.hwp5txt import TextTransform
    if kind not in _T:
        _T[kind] = {'text': TextTransform, 'html': HTMLTransform,
                    'odt': ODTTransform}[kind]()
    return _T[kind]


def v_text(h):
    out = io.BytesIO()
    with tempfile.TemporaryFile() as f:
        transform('text').transform_hwp5_to_text(h, f)
        f.seek(0)
        return [sha(x) for x in f.read().split(b'\n')]


def v_html(h):
    d = tempfile.mkdtemp(prefix='html')
    try:
        transform('html').transform_hwp5_to_dir(h, d)
        out = []
        for root, ds, fs in os.walk(d):
            for n in fs:
                p = os.path.join(root, n)
                with open(p, 'rb') as f:
                    out.append((os.path.relpath(p, d), sha(f.read())))
        return sorted(out)
    finally:
        shutil.rmtree(d)


def v_odt(h):
    from zipfile import ZipFile
    from hwp5.hwp5odt import open_odtpkg
    fd, p = tempfile.mkstemp(suffix='.odt')
    os.close(fd)
    try:
        with open_odtpkg(p) as pkg:
            transform('odt').transform_hwp5_to_package(h, pkg)
        z = ZipFile(p)
        try:
            return [(i.filename, sha(z.read(i))) for i in z.infolist()]
        finally:
            z.close()
    finally:
        os.unlink(p)


VIEWS = {n[2:]: f for n, f in list(globals().items()) if n.startswith('v_')}
CHEAP = ['records', 'recordsjson', 'models', 'modelsjson', 'xml', 'xmlembed', 'sectionxml',
         'summary', 'header', 'streams', 'text']


def view(name, path):
    h = H5(path)
    try:
        return VIEWS[name](h)
    finally:
        h.close()


# -- stepwise iterators over a document ------------------------------------
def steps(kind, h):
    '''a generator handing out one comparable item at a time'''
    if kind == 'records':
        for n, p in parts(h):
            for rec in p.records():
                yield record_repr(rec)
    elif kind == 'models':
        from hwp5.binmodel import model_to_json
        for n, p in parts(h):
            for m in p.models():
                yield model_to_json(m, sort_keys=True)
    elif kind == 'groups':
        for n, p in parts(h):
            for g in p.models_treegrouped():
                yield len(list(g))
    elif kind == 'xml':
        for c in h.xmlevents().bytechunks():
            yield c
    elif kind == 'binevents':
        for n, p in parts(h):
            for ev, item in p.parse_model_events():
                yield ev.__name__ if ev else None, item.get('name'), \
                    item.get('bin_offset')
    elif kind == 'bytes':
        for name in ['FileHeader', 'DocInfo', 'BodyText/Section0']:
            x = h
            for p in name.split('/'):
                x = x[p]
            f = x.open()
            while True:
                b = f.read(97)
                if not b:
                    break
                yield b
            f.close()
    elif kind == 'json':
        for n, p in parts(h):
            for c in p.models_json().generate():
                yield c


STEPS = ['records', 'models', 'groups', 'xml', 'binevents', 'bytes', 'json']


def _main():
    import json
    import logging
    import sys
    logging.disable(logging.CRITICAL)
    out = {}
    for k in sorted(VIEWS):
        try:
            out[k] = view(k, sys.argv[1])
        except Exception as e:
            out[k] = [type(e).__name__, str(e)[:300]]
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    _main()
