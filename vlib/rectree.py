# -*- coding: utf-8 -*-
'''Random record trees over every record kind (not only well-formed
documents), with the reference decoding of each record.'''
from . import layout

VERSIONS = [(5, 0, 0, 0), (5, 0, 0, 4), (5, 0, 0, 5), (5, 0, 0, 6),
            (5, 0, 0, 7), (5, 0, 0, 8), (5, 0, 1, 6), (5, 0, 1, 7),
            (5, 0, 1, 8), (5, 0, 2, 1), (5, 0, 2, 2), (5, 0, 2, 3),
            (5, 0, 2, 4), (5, 0, 2, 5), (5, 0, 2, 6), (5, 0, 2, 255),
            (5, 0, 3, 0), (5, 0, 3, 1), (5, 0, 3, 3), (5, 0, 3, 4),
            (5, 0, 3, 5), (5, 0, 5, 0), (5, 1, 0, 0), (5, 1, 0, 1)]

PARA, TEXT, CS, LS, RT, CTRL, LIST = 66, 67, 68, 69, 70, 71, 72
SHAPE, TBODY, CDATA = 76, 77, 87
ALL_TAGS = sorted(layout.TAGS)
UNKNOWN_TAGS = [29, 33, 89, 96, 200, 500, 1000]


class TreeGen(object):
    def __init__(self, r, version, maxrec=60, leftover=.15, gen=None):
        self.r = r
        self.version = version
        self.dec = layout.Decoder(version)
        self.gen = gen or layout.Gen(r, version)
        self.recs = []
        self.refs = []
        self.maxrec = maxrec
        self.leftover = leftover

    def add(self, tag, parent=None, over=None, chid=None):
        level = parent.level + 1 if parent is not None else 0
        if tag in layout.TAGS:
            values, p = self.gen.record(tag, parent, over, chid)
        else:
            values, p = {}, bytes(self.r.getrandbits(8) for _ in
                                  range(self.r.randrange(20)))
        n = len(p)
        if tag in layout.TAGS and tag != TEXT and \
                self.r.random() < self.leftover:
            p += bytes(self.r.getrandbits(8) for _ in range(
                self.r.choice([1, 2, 3, 4, 9, 40])))
        ref = self.dec.record(tag, level, p, parent)
        # generator and decoder must agree (self-check of the reference)
        if tag in layout.TAGS:
            assert layout.canon(ref.content) == layout.canon(values), \
                (ref.type, ref.content, values)
            assert ref.consumed == n
        ref.seqno = len(self.recs)
        if parent is not None:
            parent.children.append(ref)
        self.recs.append((tag, level, p))
        self.refs.append(ref)
        return ref

    def full(self):
        return len(self.recs) >= self.maxrec

    def tree(self, depth=0):
        r = self.r
        x = r.random()
        if x < .55:
            self.para(None, depth)
        elif x < .8:
            self.add(r.choice(ALL_TAGS_TOP), None)
        elif x < .85:
            self.add(r.choice(UNKNOWN_TAGS), None)
        elif x < .9:
            self.add(LIST, None)
        elif x < .95:
            self.control(None, depth)
        else:
            self.shape(None, depth)

    def para(self, parent, depth):
        r = self.r
        counts = dict(charshapes=r.choice([0, 1, 2, 3]),
                      rangetags=r.choice([0, 0, 1, 2]),
                      linesegs=r.choice([0, 1, 2]))
        p = self.add(PARA, parent, counts)
        if r.random() < .8:
            self.add(TEXT, p)
        if r.random() < .9:
            self.add(CS, p)
        if r.random() < .9:
            self.add(LS, p)
        if r.random() < .4:
            self.add(RT, p)
        while r.random() < .55 and not self.full():
            self.control(p, depth + 1)

    def control(self, parent, depth):
        r = self.r
        x = r.random()
        if x < .25:
            chid = 'tbl '
        elif x < .45:
            chid = 'gso '
        elif x < .9:
            chid = r.choice(sorted(layout.CONTROLS))
        else:
            chid = r.choice(['$rec', 'eqed', 'xyzw', '%\xff\x00a', 'form'])
        c = self.add(CTRL, parent, None, chid)
        for _ in range(r.randrange(0, 5)):
            if self.full() or depth > 6:
                break
            x = r.random()
            if x < .35:
                lst = self.add(LIST, c)
                if r.random() < .15:
                    self.add(LIST, lst)
                elif r.random() < .4:
                    self.para(lst, depth + 1)
            elif x < .55:
                self.add(TBODY, c)
            elif x < .68:
                self.add(CDATA, c)
            elif x < .85:
                self.shape(c, depth + 1)
            elif x < .93:
                self.para(c, depth + 1)
            else:
                self.add(r.choice([73, 74, 75, 88, 91, 95, 200]), c)
        return c

    def shape(self, parent, depth):
        r = self.r
        s = self.add(SHAPE, parent)
        for _ in range(r.randrange(0, 4)):
            if self.full() or depth > 7:
                break
            x = r.random()
            if x < .3:
                self.add(LIST, s)
                if r.random() < .5:
                    self.para(s, depth + 1)
            elif x < .5:
                self.shape(s, depth + 1)
            elif x < .6:
                self.add(TBODY, s)
            elif x < .7:
                self.control(s, depth + 1)
            elif x < .75:
                self.add(CDATA, s)
            else:
                self.add(r.choice([78, 79, 80, 81, 82, 83, 84, 85, 86, 90,
                                   115]), s)
        return s


ALL_TAGS_TOP = [t for t in ALL_TAGS if t not in (CS, LS, RT)]
