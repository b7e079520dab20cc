# -*- coding: utf-8 -*-
'''Runs commands of the repository with file operations monitored and, on
request, one of them failing.  Started under LD_PRELOAD=faultshim.so; reads
one JSON request per line from standard input, answers one per line.'''
import ctypes
import gc
import json
import os
import sys
import tempfile
import warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import cli, core, jail  # noqa

OPS = ['openr', 'openw', 'read', 'write', 'close', 'unlink', 'mkdir',
       'rmdir', 'rename', 'seek']


def fds():
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            out[int(n)] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass
    return out


def serve():
    shim = ctypes.CDLL(os.environ['VERIF_SHIM'])
    shim.shim_seen.restype = ctypes.c_long
    shim.shim_arm.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int]
    shim.shim_op.argtypes = [ctypes.c_long]
    shim.shim_prefix.argtypes = [ctypes.c_char_p]
    os.environ.pop('LD_PRELOAD', None)  # not for grandchildren
    answer = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    cli.warm()
    import logging
    logging.disable(logging.CRITICAL)
    for line in sys.stdin:
        q = json.loads(line)
        res = os.path.join(q['private'], 'result.json')
        if os.path.exists(res):
            os.unlink(res)
        state = {}

        def hook():
            if q.get('disable'):
                import importlib
                for m in q['disable']:
                    mod = importlib.import_module('hwp5.plat.' + m)
                    mod.is_enabled = lambda: False
                    mod.enabled = False
            tempfile.tempdir = q['tmp']
            os.environ['TMPDIR'] = q['tmp']
            for p in q['prefixes']:
                shim.shim_prefix(p.encode())
            shim.shim_fd(1, len(q['prefixes']), 1)
            w = state['warnings'] = []
            warnings.simplefilter('always', ResourceWarning)
            warnings.showwarning = lambda m, c, f, l, file=None, line=None: \
                w.append('%s (%s:%s)' % (m, f, l)) \
                if c is ResourceWarning else None
            writes = state['writes'] = []
            state['on'] = True

            def audit(name, args):
                if not state['on']:
                    return
                if name == 'open':
                    path, mode, flags = args
                    if flags & (os.O_WRONLY | os.O_RDWR) and \
                            isinstance(path, (str, bytes)):
                        writes.append(os.fsdecode(path))
                elif name.startswith('os.'):
                    writes.extend(jail.changed(name, args))
            state['fds'] = fds()
            sys.addaudithook(audit)
            shim.shim_arm(q.get('nth', -1), q.get('errno', 0),
                          q.get('sticky', -1))

        def after():
            shim_seen = shim.shim_seen()
            fired = shim.shim_fired()
            ops = [shim.shim_op(k) for k in range(min(shim_seen, 20000))]
            shim.shim_disarm()
            state['on'] = False
            gc.collect()
            new = {k: v for k, v in fds().items()
                   if k not in state.get('fds', {}) and
                   not v.startswith('/proc/')}
            with open(res, 'w') as f:
                json.dump(dict(seen=shim_seen, fired=fired, ops=ops,
                               fds=new, warnings=state.get('warnings', []),
                               cwd=os.getcwd(),
                               writes=state.get('writes', [])), f)
        r = cli.run(q['args'][0], *q['args'][1:], cwd=q['cwd'],
                    env=q.get('env'), hook=hook, after=after,
                    stdin=q.get('stdin', '').encode('latin1'),
                    timeout=q.get('timeout', 40))
        out = dict(code=r.code, out=r.out.decode('latin1'), err=r.err)
        if os.path.exists(res):
            with open(res) as f:
                out.update(json.load(f))
            os.unlink(res)
        answer.write(json.dumps(out) + '\n')
        answer.flush()


if __name__ == '__main__':
    serve()
