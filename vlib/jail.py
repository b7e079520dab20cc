# -*- coding: utf-8 -*-
'''Runs code of the repository where an escaped write can reach nothing real:
in a child without privileges which owns only its scratch directory, with an
audit hook which records and refuses every change elsewhere.'''
import os
import pickle
import signal
import sys
import traceback
from . import core

NOBODY = 65534
# arguments which are changed: (path, descriptor of its directory)
CHANGES = {
    'os.mkdir': ((0, 2),), 'os.remove': ((0, 1),), 'os.rmdir': ((0, 1),),
    'os.rename': ((0, 2), (1, 3)), 'os.link': ((0, 2), (1, 3)),
    'os.symlink': ((1, 2),), 'os.truncate': ((0, None),),
    'os.chmod': ((0, 2),), 'os.chown': ((0, 3),), 'os.utime': ((0, 3),),
    'shutil.rmtree': ((0, None),), 'shutil.copyfile': ((1, None),),
    'shutil.move': ((0, None), (1, None))}


def changed(name, args):
    '''paths which an audited call changes; those relative to an open
    directory become absolute'''
    out = []
    for i, k in CHANGES.get(name, ()):
        p = args[i]
        if isinstance(p, int):
            continue    # an open descriptor
        p = os.fsdecode(p)
        fd = args[k] if k is not None and k < len(args) else None
        if isinstance(fd, int) and fd >= 0 and not os.path.isabs(p):
            try:
                p = os.path.join(os.readlink('/proc/self/fd/%d' % fd), p)
            except OSError:
                pass
        out.append(p)
    return out


def run(fn, allowed, cwd, timeout=60):
    '''fn in the jail -> (outcome, refused, writes): outcome ('ok', value),
    ('exit', code) or ('exc', type, text, from_repo).'''
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(core.patience(timeout))
            null = os.open(os.devnull, os.O_RDWR)
            for n in (0, 1, 2):
                os.dup2(null, n)
            os.chdir(cwd)
            try:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
            except OSError:
                pass
            refused = []
            writes = []
            on = [True]
            ok = tuple(os.path.realpath(a) for a in allowed)

            def inside(p):
                if isinstance(p, bytes):
                    p = os.fsdecode(p)
                if not isinstance(p, str):
                    return True     # an open descriptor
                # where the change would happen
                d, b = os.path.split(os.path.abspath(p))
                q = os.path.join(os.path.realpath(d), b)
                writes.append(q)
                if q in ('/dev/null',):
                    return True
                return any(q == a or q.startswith(a + '/') for a in ok)

            def audit(name, args):
                if not on[0]:
                    return
                bad = None
                if name == 'open':
                    if args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT |
                                  os.O_TRUNC) and not inside(args[0]):
                        bad = args[0]
                elif name in CHANGES:
                    for p in changed(name, args):
                        if not inside(p):
                            bad = p
                elif name in ('os.kill', 'os.killpg', 'os.system'):
                    bad = name
                if bad is not None:
                    refused.append((name, repr(bad)))
                    raise PermissionError(13, 'refused: %s %r' % (name, bad))
            sys.addaudithook(audit)
            try:
                v = ('ok', fn())
            except SystemExit as e:
                v = ('exit', e.code)
            except Exception as e:
                v = ('exc', type(e).__name__, '%s\n%s' % (
                    e, traceback.format_exc()[-1200:]), core.exc_from_repo(e) or core.misshapen(e))
            on[0] = False
            with os.fdopen(w, 'wb') as f:
                pickle.dump((v, refused, writes), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data and os.WIFSIGNALED(st) and os.WTERMSIG(st) in (
            signal.SIGALRM, signal.SIGSEGV, signal.SIGABRT):
        raise core.Stuck('no result: ended by signal %d' % os.WTERMSIG(st))
    if not data:
        raise core.HarnessError('jailed child ended without a result: %#x'
                                % st)
    return pickle.loads(data)


def room():
    '''a directory the jailed child may use'''
    os.chmod(core.scratch(), 0o711)
    d = core.newdir('jail')
    os.chmod(d, 0o755)
    return d


def give(path):
    '''make the child its owner'''
    for root, ds, fs in os.walk(path):
        for n in [root] + [os.path.join(root, x) for x in ds + fs]:
            try:
                os.chown(n, NOBODY, NOBODY)
            except OSError:
                pass
