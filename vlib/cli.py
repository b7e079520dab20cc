# -*- coding: utf-8 -*-
'''Runs the console commands of the repository, in a forked child (fast) or
as a separate interpreter, with streams captured and state observed.'''
import io
import os
import pty
import re
import select
import signal
import subprocess
import sys
import tempfile
import traceback
import tty
from . import core

MAINS = dict(hwp5proc='hwp5.hwp5proc', hwp5txt='hwp5.hwp5txt',
             hwp5odt='hwp5.hwp5odt', hwp5html='hwp5.hwp5html')


class Result(object):
    def __init__(self, code, out, err, tb=None):
        self.code = code
        self.out = out
        self.err = err
        self.tb = tb

    @property
    def failed(self):
        return self.code != 0

    def __repr__(self):
        return 'exit %r, stdout %s, stderr %s' % (
            self.code, core.short(self.out, 120),
            core.short(self.err[-400:], 400))


def warm():
    '''import everything once so that forked children are quick'''
    import importlib
    for m in list(MAINS.values()) + ['hwp5.transforms', 'lxml.etree',
                                     'hwp5.xmlmodel', 'hwp5.storage.ole',
                                     'hwp5.proc.ls', 'hwp5.proc.cat',
                                     'hwp5.proc.records', 'hwp5.proc.find',
                                     'hwp5.proc.models', 'hwp5.proc.xml',
                                     'hwp5.proc.unpack', 'hwp5.proc.rawunz',
                                     'hwp5.proc.diststream',
                                     'hwp5.proc.summaryinfo',
                                     'hwp5.proc.header',
                                     'hwp5.proc.version']:
        importlib.import_module(m)


def run(prog, *args, **kw):
    '''stdin: bytes; cwd; env: dict of changes; hook: called in the child
    before main(); timeout.'''
    stdin = kw.pop('stdin', b'')
    cwd = kw.pop('cwd', None)
    env = kw.pop('env', None) or {}
    hook = kw.pop('hook', None)
    timeout = kw.pop('timeout', 60)
    final = kw.pop('final', None)       # called after main()
    after = kw.pop('after', None)       # called once streams are flushed
    assert not kw, kw
    d = core.newdir('cli')
    names = [os.path.join(d, x) for x in ('in', 'out', 'err')]
    with open(names[0], 'wb') as f:
        f.write(stdin)
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(core.patience(timeout))
            fi = os.open(names[0], os.O_RDONLY)
            fo = os.open(names[1], os.O_WRONLY | os.O_CREAT)
            fe = os.open(names[2], os.O_WRONLY | os.O_CREAT)
            for a, b in ((fi, 0), (fo, 1), (fe, 2)):
                os.dup2(a, b)
                os.close(a)
            sys.stdin = io.TextIOWrapper(io.open(0, 'rb', closefd=False),
                                         encoding='utf-8')
            sys.stdout = io.TextIOWrapper(io.open(1, 'wb', closefd=False),
                                          encoding='utf-8')
            sys.stderr = io.TextIOWrapper(io.open(2, 'wb', closefd=False),
                                          encoding='utf-8',
                                          errors='backslashreplace',
                                          write_through=True)
            for k, v in env.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            if cwd:
                os.chdir(cwd)
            import logging
            logging.disable(logging.NOTSET)
            sys.setrecursionlimit(1000)
            logging.getLogger('hwp5').handlers = []
            sys.argv = [prog] + [str(a) for a in args]
            code = _main(prog, hook)
            if final is not None:
                final()
        except BaseException:
            try:
                traceback.print_exc()
            except BaseException:
                pass
        finally:
            try:
                sys.stdout.flush()
            except BaseException as e:
                code = code or 120
                try:
                    sys.stderr.write('Exception ignored: %r\n' % e)
                except BaseException:
                    pass
            try:
                sys.stderr.flush()
            except BaseException:
                pass
            if after is not None:
                after()
            os._exit(code & 0xff)
    _, st = os.waitpid(pid, 0)
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
    with open(names[1], 'rb') as f:
        out = f.read()
    with open(names[2], 'rb') as f:
        err = f.read().decode('utf-8', 'replace')
    core.rmdir(d)
    return Result(code, out, err,
                  err if 'Traceback (most recent' in err else None)


def _main(prog, hook):
    import importlib
    try:
        if hook is not None:
            hook()
        m = importlib.import_module(MAINS[prog])
        rc = m.main()
        # console_scripts: sys.exit(main())
        if rc is None:
            return 0
        if isinstance(rc, int):
            return rc
        sys.stderr.write('%s\n' % (rc,))
        return 1
    except SystemExit as e:
        if e.code is None:
            return 0
        if isinstance(e.code, int):
            return e.code
        sys.stderr.write('%s\n' % (e.code,))
        return 1
    except BaseException:
        traceback.print_exc()
        return 1


def real(prog, *args, **kw):
    '''a separate interpreter, as installed'''
    env = dict(os.environ)
    for k, v in (kw.pop('env', None) or {}).items():
        if v is None:
            env.pop(k, None)
        else:
            env[k] = v
    env['PYTHONPATH'] = core.SRC
    env.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    code = 'import sys; from %s import main; sys.argv[0]=%r; ' \
        'sys.exit(main())' % (MAINS[prog], prog)
    p = subprocess.run([sys.executable, '-B', '-c', code] +
                       [str(a) for a in args],
                       input=kw.pop('stdin', b''), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env,
                       timeout=kw.pop('timeout', 60), **kw)
    err = p.stderr.decode('utf-8', 'replace')
    return Result(p.returncode, p.stdout, err,
                  err if 'Traceback (most recent' in err else None)


ESCAPES = re.compile(rb'\x1b\[[0-9;]*m')


def terminal(prog, *args, **kw):
    '''a separate interpreter, its output being shown on a terminal through
    a pager which copies; -> Result whose out is what was shown, without
    colours'''
    pager = kw.pop('pager', 'cat')
    timeout = core.patience(kw.pop('timeout', 120))
    assert not kw, kw
    master, slave = pty.openpty()
    tty.setraw(slave)
    env = dict(os.environ, PAGER=pager, PYTHONPATH=core.SRC,
               PYTHONDONTWRITEBYTECODE='1')
    code = 'import sys; from %s import main; sys.argv[0]=%r; ' \
        'sys.exit(main())' % (MAINS[prog], prog)
    with tempfile.TemporaryFile() as err:
        p = subprocess.Popen([sys.executable, '-B', '-c', code] +
                             [str(a) for a in args],
                             stdin=subprocess.DEVNULL, stdout=slave,
                             stderr=err, env=env)
        os.close(slave)
        out = []
        while True:
            if not select.select([master], [], [], timeout)[0]:
                p.kill()
                break
            try:
                d = os.read(master, 65536)
            except OSError:
                break
            if not d:
                break
            out.append(d)
        os.close(master)
        rc = p.wait()
        err.seek(0)
        e = err.read().decode('utf-8', 'replace')
    return Result(rc, ESCAPES.sub(b'', b''.join(out)), e,
                  e if 'Traceback (most recent' in e else None)


def same_document(a, b):
    '''two XML texts, apart from how they are indented -> None if they are
    the same, else what differs'''
    import xml.etree.ElementTree as ET
    out = []
    for x in (a, b):
        try:
            out.append(ET.canonicalize(x.decode('utf-8'), strip_text=True))
        except (ValueError, ET.ParseError) as e:
            return 'no XML: %r, %s' % (e, core.short(x, 200))
    if out[0] == out[1]:
        return None
    k = len(os.path.commonprefix(out))
    return '%r, expected %r' % (out[0][max(0, k - 40):k + 60],
                                out[1][max(0, k - 40):k + 60])
