# -*- coding: utf-8 -*-
'''A stand-in for Apache POI's POIFS as Jython shows it (neither is installed
here), on top of the independent compound file reader.  Semantics as
documented: skip() goes forward only and stops at the end, read() fills an
array and gives -1 at the end.'''
import io
import os
import sys
import types
from . import cfb


class IOException(Exception):
    def getMessage(self):
        return '%s' % self


class FileNotFoundException(IOException):
    pass


class FileInputStream(object):
    def __init__(self, path):
        path = getattr(path, '_path', path)
        if not os.path.isfile(path):
            raise FileNotFoundException('%s (No such file)' % path)
        self._f = io.open(path, 'rb')

    def close(self):
        self._f.close()


class File(object):
    def __init__(self, path):
        self._path = path

    def getAbsolutePath(self):
        return os.path.abspath(self._path)

    def exists(self):
        return os.path.exists(self._path)


class Array(object):
    '''a Java array of bytes'''

    def __init__(self, n):
        if n < 0:
            raise ValueError('NegativeArraySizeException: %d' % n)
        self._b = bytearray(n)

    def __len__(self):
        return len(self._b)

    def tostring(self):
        return bytes(self._b)

    def __getitem__(self, i):
        # bytes are signed
        if isinstance(i, slice):
            x = Array(0)
            x._b = self._b[i]
            return x
        return (self._b[i] ^ 0x80) - 0x80


class Entry(object):
    directoryEntry = documentEntry = False

    def __init__(self, name, node):
        self._name, self._node = name, node

    def getName(self):
        return self._name

    name = property(getName)

    def isDirectoryEntry(self):
        return self.directoryEntry

    def isDocumentEntry(self):
        return self.documentEntry


class DirectoryEntry(Entry):
    directoryEntry = True

    def getEntries(self):
        return iter([make(n, x) for n, x in self._node.items()])

    entries = property(getEntries)

    def getEntryNames(self):
        return set(self._node)

    def getEntryCount(self):
        return len(self._node)

    def hasEntry(self, name):
        return name in self._node

    __iter__ = getEntries

    def createDocumentInputStream(self, x):
        return DocumentInputStream(
            self.getEntry(x) if isinstance(x, str) else x)

    def getEntry(self, name):
        if name not in self._node:
            raise FileNotFoundException('no such entry: "%s"' % name)
        return make(name, self._node[name])


class DocumentEntry(Entry):
    documentEntry = True

    def getSize(self):
        return len(self._node)

    size = property(getSize)


def make(name, node):
    return (DirectoryEntry if isinstance(node, dict) else
            DocumentEntry)(name, node)


class POIFSFileSystem(object):
    def __init__(self, fis):
        if isinstance(fis, File):
            fis = FileInputStream(fis)
        data = fis._f.read()
        fis.close()
        if data[:8] != b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1':
            raise IOException('Invalid header signature')
        try:
            self._tree = cfb.read(data)
        except Exception as e:
            raise IOException('%s' % e)

    def getRoot(self):
        return DirectoryEntry('Root Entry', self._tree)

    root = property(getRoot)

    def close(self):
        pass

    def createDocumentInputStream(self, name):
        return self.getRoot().createDocumentInputStream(name)


class DocumentInputStream(object):
    def __init__(self, entry):
        self._b = entry._node
        self._pos = self._mark = 0
        self._closed = False

    def _check(self):
        if self._closed:
            raise IOException('cannot perform requested operation on a '
                              'closed stream')

    def available(self):
        self._check()
        return len(self._b) - self._pos

    def mark(self, limit):
        self._mark = self._pos

    def markSupported(self):
        return True

    def reset(self):
        self._pos = self._mark

    def skip(self, n):
        self._check()
        if n < 0:
            return 0
        to = min(self._pos + n, len(self._b))
        n, self._pos = to - self._pos, to
        return n

    def readFully(self, array, start=0, count=None):
        if count is None:
            count = len(array)
        if count > self.available():
            raise IOException('Buffer underrun')
        self.read(array, start, count)

    def read(self, array=None, start=0, count=None):
        self._check()
        if array is None:
            b = self._b[self._pos:self._pos + 1]
            self._pos += len(b)
            return b[0] if b else -1
        if count is None:
            count = len(array)
        if start < 0 or count < 0 or start + count > len(array):
            raise IOException("can't read past buffer boundaries")
        if count == 0:
            return 0
        if self._pos >= len(self._b):
            return -1
        b = self._b[self._pos:self._pos + count]
        array._b[start:start + len(b)] = b
        self._pos += len(b)
        return len(b)

    def close(self):
        self._closed = True


def install():
    names = {
        'java.io': (File, FileInputStream, IOException, FileNotFoundException),
        'org.apache.poi.poifs.filesystem': (
            POIFSFileSystem, DirectoryEntry, DocumentEntry,
            DocumentInputStream),
    }
    mods = {}
    for name, classes in names.items():
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            n = '.'.join(parts[:i])
            if n not in mods:
                mods[n] = types.ModuleType(n)
                mods[n].__path__ = []
                if i > 1:
                    setattr(mods['.'.join(parts[:i - 1])], parts[i - 1],
                            mods[n])
        for c in classes:
            setattr(mods[name], c.__name__, c)
    jarray = mods['jarray'] = types.ModuleType('jarray')

    def zeros(n, code):
        assert code == 'b'
        return Array(n)
    jarray.zeros = zeros
    sys.modules.update(mods)
