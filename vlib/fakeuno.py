# -*- coding: utf-8 -*-
'''A stand-in for an office suite reached through PyUNO (not installed here):
the few services the library asks for, with the behaviour their documentation
and sources give, on top of the independent compound file reader, zipfile,
expat and libxslt.  Nothing is shown.'''
import io
import os
import sys
import threading
import time
import types
import zipfile
from urllib.parse import quote, unquote, urlsplit
from . import cfb


class Exception_(Exception):
    '''com.sun.star.uno.Exception'''

    def __init__(self, Message='', Context=None):
        Exception.__init__(self, Message)
        self.Message = Message
        self.Context = Context


class IOException(Exception_):
    pass


class NoSuchElementException(Exception_):
    pass


class BufferSizeExceededException(IOException):
    pass


class NotConnectedException(IOException):
    pass


class ByteSequence(object):
    def __init__(self, value):
        if isinstance(value, ByteSequence):
            value = value.value
        if not isinstance(value, bytes):
            raise TypeError('Expected bytes object or ByteSequence, got %s'
                            % type(value).__name__)
        self.value = value

    def __len__(self):
        return len(self.value)

    def __eq__(self, other):
        return isinstance(other, ByteSequence) and self.value == other.value


    def __getitem__(self, i):
        return self.value[i]

    def __add__(self, other):
        return ByteSequence(self.value +
                            getattr(other, 'value', other))


class Struct(object):
    names = ()

    def __init__(self, *values):
        for n in self.names:
            setattr(self, n, None)
        for n, v in zip(self.names, values):
            setattr(self, n, v)


def struct(name, *names):
    return type(name, (Struct,), dict(names=names))


class Enum(object):
    def __init__(self, typename, value):
        self.typeName, self.value = typename, value


def url_of(path):
    return 'file://' + quote(path)


def path_of(url):
    p = urlsplit(url)
    if p.scheme != 'file' or p.query or p.fragment:
        raise Exception_('not a file: %r' % url)
    return unquote(p.path)


def slurp(stream, size=32000):
    '''what OStorageHelper::CopyInputToOutput does'''
    out = []
    while True:
        n, seq = stream.readBytes(ByteSequence(b''), size)
        b = seq.value
        if n != len(b) or n > size:
            raise IOException('%d bytes, %d announced' % (len(b), n))
        out.append(b)
        if n < size:
            return b''.join(out)


def sought(stream):
    '''the content, read as packages and compound files are: in pieces found
    by their positions'''
    data = slurp(stream)
    n = len(data)
    if stream.getLength() != n or stream.getPosition() != n:
        raise IOException('%d bytes, length %d, position %d' % (
            n, stream.getLength(), stream.getPosition()))
    stream.seek(0)
    for at, skip, size in ((0, 8, 8), (n // 2, n // 4, 22), (n // 3, 1, 512),
                           (max(n - 30, 0), 0, 22)):
        if at + skip > n:
            continue
        stream.seek(at)
        stream.skipBytes(skip)
        if stream.getLength() != n or stream.getPosition() != at + skip:
            raise IOException('at %d instead of %d' % (
                stream.getPosition(), at + skip))
        k, seq = stream.readBytes(ByteSequence(b''), size)
        if seq.value != data[at + skip:at + skip + size]:
            raise IOException('other bytes at %d' % (at + skip))
    stream.seek(n)
    return data


class TempFile(object):
    '''com.sun.star.io.TempFile: an input stream which can be sought'''
    SupportedServiceNames = ('com.sun.star.io.TempFile',)

    def getSupportedServiceNames(self):
        return self.SupportedServiceNames

    def supportsService(self, name):
        return name in self.SupportedServiceNames

    Position = property(lambda self: self.getPosition(),
                        lambda self, n: self.seek(n))
    Length = property(lambda self: self.getLength())

    def __init__(self, data, log):
        self._f = io.BytesIO(data)
        self._log = log
        log.opened += 1

    def _check(self):
        if self._f is None:
            raise NotConnectedException()

    def readBytes(self, seq, n):
        if not isinstance(seq, ByteSequence):
            raise TypeError('ByteSequence')
        self._check()
        if n < 0:
            raise BufferSizeExceededException()
        b = self._f.read(n)
        return len(b), ByteSequence(b)

    readSomeBytes = readBytes

    def skipBytes(self, n):
        self._check()
        self._f.seek(n, 1)

    def available(self):
        self._check()
        return len(self._f.getbuffer()) - self._f.tell()

    def seek(self, n):
        self._check()
        if n < 0 or n > len(self._f.getbuffer()):
            raise Exception_('IllegalArgumentException')
        self._f.seek(n)

    def getPosition(self):
        self._check()
        return self._f.tell()

    def getLength(self):
        self._check()
        return len(self._f.getbuffer())

    def closeInput(self):
        self._check()
        self._f = None
        self._log.closed += 1


class OleSimpleStorage(object):
    SupportedServiceNames = ('com.sun.star.embed.OLESimpleStorage',)

    def getSupportedServiceNames(self):
        return self.SupportedServiceNames

    def supportsService(self, name):
        return name in self.SupportedServiceNames

    def hasElements(self):
        return bool(self.getElementNames())

    def __init__(self, tree, log):
        self._tree = tree
        self._log = log

    def getElementNames(self):
        if self._tree is None:
            raise Exception_('no compound file')
        return tuple(self._tree)

    ElementNames = property(getElementNames)

    def hasByName(self, name):
        return name in self.getElementNames()

    def getByName(self, name):
        if self._tree is None:
            raise Exception_('no compound file')
        if name not in self._tree:
            raise NoSuchElementException(name)
        x = self._tree[name]
        if isinstance(x, dict):
            return OleSimpleStorage(x, self._log)
        return TempFile(x, self._log)

    def dispose(self):
        self._tree = None


class ZipStorage(object):
    def __init__(self, data, log):
        try:
            z = zipfile.ZipFile(io.BytesIO(data))
        except zipfile.BadZipFile as e:
            raise IOException('%s' % e)
        self.parts = dict((n, z.read(n)) for n in z.namelist())
        self._log = log

    @property
    def ElementNames(self):
        return tuple(sorted(set(n.split('/')[0] for n in self.parts)))

    getElementNames = lambda self: self.ElementNames

    def hasByName(self, name):
        return name in self.ElementNames

    def openStreamElement(self, name, mode):
        if name not in self.parts:
            raise NoSuchElementException(name)
        return TempFile(self.parts[name], self._log)

    def dispose(self):
        self.parts = {}


class Transformer(object):
    '''com.sun.star.comp.documentconversion.LibXSLTTransformer'''

    def __init__(self, args, log):
        self.args = dict((a.Name, a.Value) for a in args)
        self.listeners = []
        self.InputStream = self.OutputStream = None
        self.log = log

    def addListener(self, x):
        self.listeners.append(x)

    def removeListener(self, x):
        self.listeners.remove(x)

    def setInputStream(self, x):
        self.InputStream = x

    def setOutputStream(self, x):
        self.OutputStream = x

    def start(self):
        for x in self.listeners:
            x.started()
        t = threading.Thread(target=self.work)
        t.daemon = True
        t.start()

    def tell(self, event, *args):
        '''tell the listeners; what waits for them may go on at any time'''
        for x in list(self.listeners):
            fn = getattr(x, event)
            if self.log.slow:
                sys.settrace(slow)
            try:
                fn(*args)
            finally:
                sys.settrace(None)

    def work(self):
        from lxml import etree
        try:
            if self.log.slow:
                time.sleep(.01)
            fail = self.log.fail
            self.log.started += 1
            if self.log.nth not in (0, self.log.started):
                fail = None
            xslt = etree.XSLT(etree.parse(path_of(
                self.args['StylesheetURL'])))
            r = xslt(etree.fromstring(
                slurp(self.InputStream),
                etree.XMLParser(huge_tree=True)))
            b = bytes(r)
            if fail in ('xslt', 'terminated'):
                # with what has been written until then
                self.OutputStream.writeBytes(ByteSequence(
                    b[:len(b) * self.log.written // 4]))
                if fail == 'terminated':
                    return self.tell('terminated')
                raise IOException('xslt')
            for i in range(0, len(b), 4096):
                self.OutputStream.writeBytes(ByteSequence(b[i:i + 4096]))
            self.OutputStream.flush()
            self.OutputStream.closeOutput()
            self.log.transforms += 1
        except Exception as e:
            return self.tell('error', Exception_('%s' % e))
        self.tell('closed')


def slow(frame, event, arg):
    '''a thread which others overtake after every line'''
    if event == 'line':
        time.sleep(.002)
    return slow


class Log(object):
    def __init__(self, services=('xslt',), fail=None):
        self.services = services    # optional ones which are there
        self.fail = fail            # the part of an import which fails
        self.slow = False           # the transformer's thread
        self.nth = 0                # the transformation which fails, or all
        self.written = 0            # quarters it has written by then
        self.started = 0
        self.opened = self.closed = 0
        self.transforms = 0
        self.implementations = {}


class Document(object):
    '''a new text document'''

    def __init__(self, log):
        self.log = log
        self.metadata = []
        self.parts = {}

    def loadMetadataFromStorage(self, storage, uri, handler):
        if not isinstance(storage, ZipStorage):
            raise TypeError('XStorage')
        self.metadata.append(storage.parts.get('manifest.rdf'))


class Importer(object):
    def __init__(self, part, args, log):
        self.part = part
        self.args = args
        self.log = log
        self.target = None

    def setTargetDocument(self, doc):
        self.target = doc


class Parser(object):
    handler = None

    def setDocumentHandler(self, x):
        self.handler = x

    def parseStream(self, source):
        import xml.etree.ElementTree as ET
        b = slurp(source.aInputStream)
        h = self.handler
        if h.log.fail == h.part:
            raise Exception_('SAXException')
        try:
            c = ET.canonicalize(b.decode(source.sEncoding or 'utf-8'))
        except ET.ParseError as e:
            raise Exception_('SAXException: %s' % e)
        if not isinstance(h.target, Document):
            raise Exception_('no document')
        graphics = [a for a in h.args if isinstance(a, Graphics)]
        h.target.parts.setdefault(h.part, []).append(
            (c, dict(graphics[0].storage.parts) if graphics else None))


class Graphics(object):
    def __init__(self, storage):
        self.storage = storage


class StorageFactory(object):
    def __init__(self, log):
        self.log = log

    def createInstanceWithArguments(self, args):
        stream, mode = args
        if not hasattr(stream, 'seek') or not hasattr(stream, 'getLength'):
            raise Exception_('XSeekable')
        stream.seek(0)
        n = stream.getLength()
        data = sought(stream)
        if len(data) != n:
            raise IOException('%d bytes, length is %d' % (len(data), n))
        return ZipStorage(data, self.log)


class SimpleFileAccess(object):
    def __init__(self, log):
        self.log = log

    def exists(self, url):
        return os.path.exists(path_of(url))

    def openFileRead(self, url):
        try:
            with io.open(path_of(url), 'rb') as f:
                return TempFile(f.read(), self.log)
        except EnvironmentError as e:
            raise IOException('%s' % e)


class Broker(object):
    def __init__(self, log):
        self.log = log

    def createContentIdentifier(self, url):
        return url

    def queryContent(self, url):
        return Content(url, self.log)


class Content(object):
    def __init__(self, url, log):
        self.url, self.log = url, log

    def execute(self, command, handle, env):
        if command.Name != 'open':
            raise Exception_('UnsupportedCommand')
        try:
            with io.open(path_of(self.url), 'rb') as f:
                data = f.read()
        except EnvironmentError as e:
            raise IOException('%s' % e)
        command.Argument.Sink.setInputStream(TempFile(data, self.log))


class ServiceManager(object):
    def __init__(self, log):
        self.log = log
        self.AvailableServiceNames = ()

    def createInstanceWithContext(self, name, context):
        return self.create(name, (), context)

    def createInstanceWithArgumentsAndContext(self, name, args, context):
        return self.create(name, tuple(args), context)

    def create(self, name, args, context):
        log = self.log
        if not isinstance(context, Context):
            raise TypeError('XComponentContext')
        assert name.startswith('com.sun.star.'), name
        n = name[len('com.sun.star.'):]
        if n == 'embed.OLESimpleStorage':
            stream, = args
            data = sought(stream)
            try:
                if data[:8] != b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1':
                    raise ValueError('no signature')
                tree = cfb.read(data)
            except Exception:
                tree = None
            return OleSimpleStorage(tree, log)
        if n == 'embed.StorageFactory':
            return StorageFactory(log)
        if n in ('comp.documentconversion.LibXSLTTransformer',
                 'comp.JAXTHelper'):
            return Transformer(args, log) if 'xslt' in log.services else None
        if n == 'ucb.SimpleFileAccess':
            return SimpleFileAccess(log)
        if n == 'ucb.UniversalContentBroker':
            return Broker(log)
        if n == 'beans.PropertySet':
            return types.SimpleNamespace()
        if n == 'rdf.URI':
            return args[0]
        if n == 'comp.Svx.GraphicImportHelper':
            return Graphics(*args)
        if n == 'xml.sax.Parser':
            return Parser()
        if n.startswith('comp.Writer.XMLOasis') and n.endswith('Importer'):
            return Importer(n[len('comp.Writer.XMLOasis'):-len('Importer')],
                            args, log)
        return None


class Context(object):
    def __init__(self, log):
        self.ServiceManager = ServiceManager(log)


INTERFACES = {
    'embed': (),
    'io': ('XInputStream', 'XSeekable', 'XOutputStream', 'XStreamListener',
           'XActiveDataSink'),
    'lang': ('XInitialization',),
    'document': ('XFilter', 'XImporter', 'XExtendedFilterDetection'),
    'task': ('XJobExecutor',),
}


def install(log):
    context = Context(log)
    mods = {}

    def module(name):
        m = mods[name] = types.ModuleType(name)
        return m
    uno = module('uno')
    uno.getComponentContext = lambda: context
    uno.systemPathToFileUrl = url_of
    uno.fileUrlToSystemPath = path_of
    uno.ByteSequence = ByteSequence
    uno.Enum = Enum

    def getClass(name):
        __import__(name.rpartition('.')[0])
        return getattr(mods[name.rpartition('.')[0]],
                       name.rpartition('.')[2])
    uno.getClass = getClass
    uno.createUnoStruct = lambda name, *a: getClass(name)(*a)
    uno.getConstantByName = getClass
    uno.invoke = lambda obj, name, args: getattr(obj, name)(*args)
    helper = module('unohelper')
    helper.systemPathToFileUrl = url_of
    helper.fileUrlToSystemPath = path_of
    helper.Base = type('Base', (object,), {})

    class ImplementationHelper(object):
        def addImplementation(self, cls, name, services):
            log.implementations[name] = (cls, tuple(services))
    helper.ImplementationHelper = ImplementationHelper
    for n in ('com', 'com.sun', 'com.sun.star', 'com.sun.star.xml'):
        module(n).__path__ = []
    for n, names in INTERFACES.items():
        m = module('com.sun.star.' + n)
        for i in names:
            setattr(m, i, type(i, (object,), {}))
    m = mods['com.sun.star.io']
    for c in (IOException, BufferSizeExceededException,
              NotConnectedException):
        setattr(m, c.__name__, c)
    m = module('com.sun.star.beans')
    m.NamedValue = struct('NamedValue', 'Name', 'Value')
    m.PropertyValue = struct('PropertyValue', 'Name', 'Handle', 'Value',
                             'State')
    m = module('com.sun.star.embed.ElementModes')
    m.READ, m.SEEKABLE, m.SEEKABLEREAD, m.WRITE = 1, 2, 3, 4
    m = module('com.sun.star.uno')
    m.Exception = Exception_
    m.RuntimeException = type('RuntimeException', (Exception_,), {})
    module('com.sun.star.container').NoSuchElementException = \
        NoSuchElementException
    module('com.sun.star.xml.sax').InputSource = struct(
        'InputSource', 'aInputStream', 'sEncoding', 'sPublicId', 'sSystemId')
    m = module('com.sun.star.ucb')
    module('com.sun.star.ucb.OpenMode').DOCUMENT = 2
    m.Command = struct('Command', 'Name', 'Handle', 'Argument')
    m.OpenCommandArgument2 = struct('OpenCommandArgument2', 'Mode',
                                    'Priority', 'Sink')
    for n, m in mods.items():
        if '.' in n:
            p, _, k = n.rpartition('.')
            setattr(mods[p], k, m)
    sys.modules.update(mods)
    return context


class FileStream(TempFile):
    '''the input stream of a media descriptor'''

    def __init__(self, data, log=None):
        TempFile.__init__(self, data, log or Log())


def propseq(**kw):
    P = sys.modules['com.sun.star.beans'].PropertyValue
    return tuple(P(k, 0, v, None) for k, v in kw.items())


__all__ = ['install', 'Log', 'Document', 'FileStream', 'propseq', 'os']
