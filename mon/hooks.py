"""
Observation hooks attached from outside (no edit of the repository needed)
"""
import contextlib
import importlib
import os
import sys

import numpy as np

from mon.core import Inconclusive


def verify_target(repo):
    import rf
    base = os.path.realpath(os.path.dirname(rf.__file__))
    if not base.startswith(os.path.realpath(repo) + os.sep):
        raise Inconclusive('rf is imported from %s instead of %s' %
                           (base, repo))


@contextlib.contextmanager
def observe_calls(ctx, targets):
    """
    Count call, return and exception events of functions.

    :param targets: list of (object, attribute name)
    """
    old = []

    def wrap(name, f):
        def wrapper(*args, **kwargs):
            ctx.ev('call:' + name)
            try:
                ret = f(*args, **kwargs)
            except BaseException:
                ctx.ev('raise:' + name)
                raise
            ctx.ev('return:' + name)
            return ret
        return wrapper
    try:
        for obj, attr in targets:
            if not hasattr(obj, attr):
                continue
            f = getattr(obj, attr)
            old.append((obj, attr, f))
            setattr(obj, attr, wrap(attr, f))
        yield
    finally:
        for obj, attr, f in old[::-1]:
            setattr(obj, attr, f)


class FPMonitor(object):

    """Record floating point errors (overflow, invalid) during calls"""

    def __init__(self):
        self.errors = []

    def write(self, msg):
        self.errors.append(msg)

    def __enter__(self):
        self.olderr = np.seterr(over='log', invalid='log', divide='log',
                                under='ignore')
        self.oldcall = np.seterrcall(self)
        return self

    def __exit__(self, *args):
        np.seterr(**self.olderr)
        np.seterrcall(self.oldcall)


class FileAudit(object):

    """
    Record all file system changing operations of the process.

    An audit hook cannot be removed, therefore use it in the (forked) process
    of a single case chunk and switch it with `active`.
    """

    WRITE_FLAGS = (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC |
                   os.O_APPEND)
    CHANGES = {'os.remove': 1, 'os.rename': 2, 'os.mkdir': 1, 'os.rmdir': 1,
               'os.truncate': 1, 'os.link': 2, 'os.symlink': 2,
               'os.chmod': 1, 'os.chown': 1, 'shutil.rmtree': 1,
               'shutil.move': 2, 'shutil.copyfile': 0, 'os.utime': 1,
               'subprocess.Popen': 0, 'os.system': 0, 'os.exec': 0,
               'os.posix_spawn': 0, 'socket.connect': 0}

    def __init__(self):
        self.active = False
        self.log = []
        self.reads = []
        sys.addaudithook(self._hook)

    def _hook(self, event, args):
        if not self.active:
            return
        try:
            if event == 'open':
                path, mode, flags = args
                if isinstance(path, int):
                    return
                path = os.fsdecode(path)
                if (isinstance(mode, str) and any(c in mode for c in 'wax+')
                        or isinstance(flags, int) and
                        flags & self.WRITE_FLAGS):
                    self.log.append(('open', os.path.abspath(path)))
                else:
                    self.reads.append(os.path.abspath(path))
            elif event in self.CHANGES:
                n = self.CHANGES[event]
                paths = [os.path.abspath(os.fsdecode(a)) for a in args[:n]
                         if not isinstance(a, int)]
                self.log.append((event,) + tuple(
                    paths if n else [str(a)[:200] for a in args]))
        except Exception as ex:  # never disturb the code under test
            self.log.append(('audit-error', repr(ex)))

    def __enter__(self):
        self.log, self.reads = [], []
        self.active = True
        return self

    def __exit__(self, *args):
        self.active = False


def tree(path):
    """{relative path: (size, bytes hash)} of a directory tree"""
    import hashlib
    out = {}
    for root, dirs, files in os.walk(path):
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), path) + '/'] = None
        for f in files:
            fname = os.path.join(root, f)
            with open(fname, 'rb') as fh:
                out[os.path.relpath(fname, path)] = hashlib.sha1(
                    fh.read()).hexdigest()
    return out
