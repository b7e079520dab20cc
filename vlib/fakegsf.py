# -*- coding: utf-8 -*-
'''A stand-in for the GObject bindings of libgsf (not installed here), on
top of the independent compound file reader.  Semantics as documented by
libgsf: children are new inputs each time, streams have -1 children, reading
more than what remains gives nothing.'''
import io
import os
import sys
import types
from . import cfb


class Error(RuntimeError):
    '''GLib.Error'''


class Size(int):
    def __call__(self):
        return int(self)


class SeekType(object):
    CUR = 0
    SET = 1
    END = 2


class Input(object):
    def __init__(self, data=b'', name=None):
        self._data = data
        self._name = name
        self._pos = 0

    @property
    def size(self):
        return Size(len(self._data))

    def name(self):
        return self._name

    def tell(self):
        return self._pos

    def remaining(self):
        return len(self._data) - self._pos

    def eof(self):
        return self._pos >= len(self._data)

    def read(self, n):
        if n < 0:
            raise OverflowError('%d not in range 0 to 2^64' % n)
        if n == 0 or self._pos + n > len(self._data):
            return None
        b = self._data[self._pos:self._pos + n]
        self._pos += n
        return b

    def seek(self, offset, whence):
        pos = {SeekType.SET: 0, SeekType.CUR: self._pos,
               SeekType.END: len(self._data)}[whence] + offset
        if pos < 0 or pos > len(self._data):
            return True         # an error
        self._pos = pos
        return False

    def dup(self):
        x = type(self).__new__(type(self))
        x.__dict__.update(self.__dict__)
        return x


class InputGio(Input):
    @classmethod
    def new_for_path(cls, path):
        if not os.path.isfile(path):
            raise Error('%s: no such file' % path)
        with io.open(path, 'rb') as f:
            return cls(f.read(), path)


class InputStdio(InputGio):
    @classmethod
    def new(cls, path):
        return cls.new_for_path(path)


class InputMemory(Input):
    @classmethod
    def new(cls, data, *a):
        return cls(bytes(data))


class Infile(Input):
    pass


class InfileMSOle(Infile):
    _tree = None

    @classmethod
    def new(cls, source):
        if source._data[:8] != b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1':
            raise Error('No OLE2 signature')
        try:
            tree = cfb.read(source._data)
        except Exception as e:
            raise Error('%s' % e)
        return cls._make(tree, None)

    @classmethod
    def _make(cls, node, name):
        x = cls(b'' if isinstance(node, dict) else node, name)
        x._tree = node if isinstance(node, dict) else None
        return x

    def num_children(self):
        return -1 if self._tree is None else len(self._tree)

    def name_by_index(self, i):
        names = list(self._tree or ())
        return names[i] if 0 <= i < len(names) else None

    def child_by_index(self, i):
        n = self.name_by_index(i)
        return None if n is None else self.child_by_name(n)

    def child_by_name(self, name):
        t = self._tree or {}
        return self._make(t[name], name) if name in t else None


def install():
    gi = types.ModuleType('gi')
    repo = types.ModuleType('gi.repository')
    gsf = types.ModuleType('gi.repository.Gsf')
    glib = types.ModuleType('gi.repository.GLib')
    for c in (Input, InputGio, InputStdio, InputMemory, Infile,
              InfileMSOle):
        setattr(gsf, c.__name__, c)
    glib.SeekType = SeekType
    glib.Error = glib.GError = Error
    gi.require_version = lambda *a: None
    gi.repository = repo
    repo.Gsf, repo.GLib = gsf, glib
    sys.modules.update({'gi': gi, 'gi.repository': repo,
                        'gi.repository.Gsf': gsf,
                        'gi.repository.GLib': glib})
