# -*- coding: utf-8 -*-
'''Encoder and reference reading of summary property sets.'''
import datetime
import struct

HWP = bytes.fromhex('60b6a29f6110d411b4c6006097c09d8c')
HWP_STR = '9fa2b660-1061-11d4-b4c6-006097c09d8c'
LABELS = {0: 'PID_DICTIONARY', 1: 'PID_CODEPAGE', 0x80000000: 'PID_LOCALE',
          0x80000003: 'PID_BEHAVIOR'}
for _i, _n in enumerate('TITLE SUBJECT AUTHOR KEYWORDS COMMENTS TEMPLATE '
                        'LASTAUTHOR REVNUMBER EDITTIME LASTPRINTED '
                        'CREATE_DTM LASTSAVE_DTM PAGECOUNT WORDCOUNT '
                        'CHARCOUNT THUMBNAIL APPNAME SECURITY'.split()):
    LABELS[_i + 2] = 'PIDSI_' + _n
LABELS[0x14] = 'HWPPIDSI_DATE_STR'
LABELS[0x15] = 'HWPPIDSI_PARACOUNT'
NAMED = [('Title', 'title', 2), ('Subject', 'subject', 3),
         ('Author', 'author', 4), ('Keywords', 'keywords', 5),
         ('Comments', 'comments', 6), ('Last saved by', 'lastSavedBy', 8),
         ('Revision Number', 'revisionNumber', 9),
         ('Last Printed at', 'lastPrintedTime', 11),
         ('Created at', 'createdTime', 12),
         ('Last saved at', 'lastSavedTime', 13),
         ('Number of pages', 'numberOfPages', 14),
         ('Date', 'dateString', 0x14),
         ('Number of paragraphs', 'numberOfParagraphs', 0x15)]
KNOWN = {3: 'VT_I4', 0x1f: 'VT_LPWSTR', 0x40: 'VT_FILETIME'}


def uuid(b):
    a, c, d = struct.unpack('<IHH', b[:8])
    return '%08x-%04x-%04x-%s-%s' % (a, c, d, b[8:10].hex(), b[10:].hex())


class FT(int):
    '''a file time'''
    def text(self):
        us = int(self) // 10
        if us > 265046774399999999:
            return None         # beyond year 9999
        return str(datetime.datetime(1601, 1, 1) +
                   datetime.timedelta(days=us // 86400000000,
                                      microseconds=us % 86400000000))


def encode(code, v):
    if code == 3:
        return struct.pack('<Ii', code, v)
    if code == 0x40:
        return struct.pack('<IQ', code, int(v))
    if code == 0x1f:
        b = (v + '\0').encode('utf-16le')
        return struct.pack('<II', code, len(b) // 2) + b + \
            b'\0' * (-len(b) % 4)
    return struct.pack('<I', code) + v


def value(code, v):
    return v if code in KNOWN else None


class Set(object):
    '''props: [(id, code, value)]; dictionary: [(id, name)] or None'''
    def __init__(self, fmtid, props, dictionary=None):
        self.fmtid = fmtid
        self.props = props
        self.dictionary = dictionary
        self.offset = None
        self.offsets = {}

    def build(self, r):
        '''bytes of the set; the order of the descriptors and of the values
        are independent'''
        blobs = [(i, encode(c, v)) for i, c, v in self.props]
        if self.dictionary is not None:
            d = struct.pack('<I', len(self.dictionary))
            for i, n in self.dictionary:
                b = n.encode('latin1') + b'\0'
                d += struct.pack('<II', i, len(b)) + b
            blobs.append((0, d))
        order = list(blobs)
        r.shuffle(order)
        pos = 8 + 8 * len(blobs)
        body = b''
        for i, b in order:
            gap = r.choice([0, 0, 0, 4, 3])
            body += b'\xee' * gap
            self.offsets[i] = pos + len(body)
            body += b
        desc = [(i, self.offsets[i]) for i, b in blobs]
        r.shuffle(desc)
        return struct.pack('<II', pos + len(body), len(blobs)) + b''.join(
            struct.pack('<II', *x) for x in desc) + body


def stream(r, sets, version=0, system=0x20105, clsid=HWP):
    head = struct.pack('<HHI', 0xfffe, version, system) + clsid + \
        struct.pack('<I', len(sets))
    pos = len(head) + 20 * len(sets)
    descs = b''
    body = b''
    for s in sets:
        s.offset = pos + len(body)
        descs += s.fmtid + struct.pack('<I', s.offset)
        body += s.build(r)
    return head + descs + body
