"""File system effects of this process, seen through the interpreter's audit events.

install() once per process; then with watch(root, fn) every event that creates, changes or removes
something is reported to fn(kind, path) before it happens.  An effect outside root is refused.
"""
import os
import sys

_S = {'fn': None, 'root': None, 'ok': False, 'busy': False}

WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
ONE = {'os.remove': 'unlink', 'os.rmdir': 'rmdir', 'os.mkdir': 'mkdir', 'os.utime': 'utime', 'os.truncate': 'write', 'os.chmod': 'utime',
       'os.chown': 'utime', 'os.setxattr': 'utime'}
TWO = {'os.rename': 'rename', 'os.link': 'link', 'os.symlink': 'symlink'}


def _path(p):
    if isinstance(p, int):
        try:
            return os.readlink('/proc/self/fd/%d' % p)
        except OSError:
            return ''
    p = os.fsdecode(p)
    d, b = os.path.split(os.path.abspath(p.rstrip('/') or '/') if b'..' not in os.fsencode(p) else p.rstrip('/'))
    return os.path.join(os.path.realpath(d), b) if b not in ('..', '.') else os.path.realpath(p)


def _hook(event, args):
    fn = _S['fn']
    if fn is None or _S['busy']:
        return
    if event == 'open':
        path, mode, flags = args
        if path is None or isinstance(path, int) or not isinstance(flags, int) or not flags & WRITE:
            return
        eff = [('write', path)]
    elif event in ONE:
        eff = [(ONE[event], args[0])]
    elif event in TWO:
        eff = [(TWO[event], args[1])] + ([('unlink', args[0])] if event == 'os.rename' else [])
    else:
        return
    _S['busy'] = True
    try:
        for kind, p in eff:
            p = _path(p)
            if p in ('/dev/null', ''):
                continue
            fn(kind, p)
            root = _S['root']
            if root and p != root and not p.startswith(root + '/'):
                raise PermissionError(13, 'refused by the harness', p)
    finally:
        _S['busy'] = False


def install():
    """Start listening (hooks cannot be removed)."""
    if not _S['ok']:
        sys.addaudithook(_hook)
        _S['ok'] = True


class watch(object):
    """Context in which effects are reported to fn."""

    def __init__(self, root, fn):
        self.root, self.fn = os.path.realpath(root) if root else None, fn

    def __enter__(self):
        install()
        _S['root'], _S['fn'] = self.root, self.fn

    def __exit__(self, *a):
        _S['fn'] = None
