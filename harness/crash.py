"""Process death at a chosen moment: run a function in a forked child that ends abruptly.

The child counts the lines executed in the code under test and the file-handling modules it uses, and the
file system effects; at the n-th one it ends with os._exit (no clean-up, buffers lost).
"""
import os
import sys

WATCH = ('resync', 'shutil.py', 'configparser.py')


def run(fn, n=None, limit=60, marks=None):
    """Run fn in a child; it dies at moment n (None: never). Returns (died, moments, result of fn in brief).

    marks: a list that gets the moments at which something is about to change in the file system.
    """
    import common
    import effects
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            import signal
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            count = [0]
            root = os.path.realpath(common.REPO) + '/'

            def tick():
                count[0] += 1
                if n is not None and count[0] == n:
                    os._exit(77)

            def trace(frame, event, arg):
                f = frame.f_code.co_filename
                if f.startswith(root) or f.endswith(WATCH[1:]):
                    if event == 'line':
                        tick()
                    return trace
                return None
            seen = []
            if marks is not None:
                effects.install()
                effects._S.update(root=None, fn=lambda kind, path: seen.append(count[0]))
            sys.settrace(trace)
            try:
                fn()
                out = 'ok'
            except Exception as e:
                out = 'fatal %s: %s' % (type(e).__name__, str(e)[:200])
            sys.settrace(None)
            out = '%d %s %s' % (count[0], ','.join(str(x) for x in seen[:500]) or '-', out)
            os.write(w, out.encode('utf-8', 'replace'))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        data += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    if rc == 77:
        return True, n, None
    if rc != 0:
        raise common.MachineryError('child ended with %d' % rc)
    k, seen, out = data.decode('utf-8', 'replace').split(' ', 2)
    if marks is not None and seen != '-':
        marks.extend(int(x) for x in seen.split(','))
    return False, int(k), out
