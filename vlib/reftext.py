# -*- coding: utf-8 -*-
'''Reference plain text of a document (from the reference tree).'''
from . import refxml


def plain(root):
    out = []

    def go(n):
        if n.name == 'Paragraph':
            for k in n.kids:
                go(k)
            out.append('\n')
        elif n.name == 'Text':
            out.append(refxml.clean(n.text or ''))
        elif n.name == 'TableControl':
            out.append('\n<표>\n')
        elif n.name == 'GShapeObjectControl':
            out.append('\n<그림>\n')
        elif n.name != 'ControlChar':
            for k in n.kids:
                go(k)
    for n in root.kids:
        if n.name == 'BodyText':
            go(n)
    return ''.join(out)
