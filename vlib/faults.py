# -*- coding: utf-8 -*-
import json
import os
import subprocess
import sys
from . import core
from .faultserver import OPS   # noqa

_shim = None


def build():
    '''compile the injector'''
    global _shim
    _shim = os.path.join(core.scratch(), 'faultshim.so')
    src = os.path.join(core.VERIF, 'native', 'faultshim.c')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', _shim, src,
                    '-ldl'], check=True)


class Server(object):
    def __init__(self):
        self.private = core.newdir('fsrv')
        env = dict(os.environ)
        env['LD_PRELOAD'] = _shim
        env['VERIF_SHIM'] = _shim
        env['VERIF_SCRATCH'] = self.private
        env['PYTHONPATH'] = core.SRC
        self.p = subprocess.Popen(
            [sys.executable, '-B', os.path.join(core.VERIF, 'vlib',
                                                'faultserver.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env)

    def ask(self, **q):
        q['private'] = self.private
        self.p.stdin.write((json.dumps(q) + '\n').encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise core.HarnessError('fault server ended')
        a = json.loads(line)
        a['out'] = a['out'].encode('latin1')
        if 'seen' not in a:
            a['killed'] = True
        return a

    def close(self):
        self.p.stdin.close()
        self.p.wait()
        core.rmdir(self.private)
