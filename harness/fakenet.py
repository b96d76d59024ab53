"""Scripted network below Python's http.client: connections made in this process end here.

Faults come at once instead of after real time-outs.
"""
import io
import socket
import ssl
import time
from urllib.parse import urlsplit


class Net(object):
    """routes: URL -> response or list of responses (used up one per request, the last one stays).

    A response is a dict: status, body, headers, fault. Faults: ctimeout, refused (while connecting),
    rtimeout (no answer), btimeout (half the body, then none), trunc, reset (no answer), breset (half the
    body), badstatus. As the URL is not known when connecting, faults while connecting are taken from the
    only URL of the host that has a route.
    """

    def __init__(self):
        self.routes = {}
        self.log = []
        self.connects = []
        self.default = {'status': 404, 'body': b'not found'}

    def install(self):
        """Replace the making of connections in this process."""
        import os
        for k in list(os.environ):
            if k.lower().endswith('_proxy'):
                del os.environ[k]
        socket.create_connection = self.connect
        ssl.SSLContext.wrap_socket = lambda ctx, sock, *a, **k: sock.secure(k.get('server_hostname'))
        import urllib.request
        urllib.request.install_opener(None)

    def reset(self, routes=None):
        """New scenario."""
        self.routes = dict(routes or {})
        self.log = []
        self.connects = []

    def connect(self, address, timeout=None, source_address=None, **kw):
        """Stand-in for socket.create_connection."""
        host, port = address[0], address[1]
        self.connects.append((host, port, timeout, time.monotonic()))
        mine = [u for u in self.routes if urlsplit(u).hostname == host]
        if len(mine) == 1:
            r = self.peek(mine[0])
            if r and r.get('fault') in ('ctimeout', 'refused'):
                self.take(mine[0])
                self.log.append(('CONNECT', mine[0], {}, time.monotonic(), timeout))
                if r['fault'] == 'ctimeout':
                    raise socket.timeout('timed out')
                raise ConnectionRefusedError(111, 'Connection refused')
        return Sock(self, host, port, timeout)

    def peek(self, url):
        """Next response for url."""
        r = self.routes.get(url)
        if isinstance(r, list):
            r = r[0] if r else None
        return {'body': r} if isinstance(r, bytes) else r

    def take(self, url):
        """Next response for url, used up."""
        r = self.routes.get(url)
        out = self.peek(url)
        if isinstance(r, list) and len(r) > 1:
            r.pop(0)
        return out

    def requests(self):
        """URLs requested."""
        return [x[1] for x in self.log]


class Sock(object):
    """One connection."""

    def __init__(self, net, host, port, timeout):
        self.net, self.host, self.port, self.timeout = net, host, port, timeout
        self.scheme = 'http'
        self.sent = b''
        self.answer = None

    def secure(self, name):
        """The same as TLS connection."""
        self.scheme = 'https'
        return self

    def setsockopt(self, *a):
        """No options."""

    def settimeout(self, t):
        """Remember the time-out."""
        self.timeout = t

    def gettimeout(self):
        """The time-out."""
        return self.timeout

    def close(self):
        """Nothing to close."""

    def shutdown(self, *a):
        """Nothing to shut down."""

    def fileno(self):
        """No descriptor."""
        return -1

    def sendall(self, data, flags=0):
        """Take the request."""
        self.sent += bytes(data)
        if b'\r\n\r\n' not in self.sent or self.answer is not None:
            return
        lines = self.sent.split(b'\r\n\r\n')[0].decode('latin-1').split('\r\n')
        method, path, _ = lines[0].split(' ')
        headers = {}
        for x in lines[1:]:
            k, v = x.split(':', 1)
            headers[k.strip().lower()] = v.strip()
        dflt = 443 if self.scheme == 'https' else 80
        url = '%s://%s%s%s' % (self.scheme, self.host, '' if self.port == dflt else ':%d' % self.port, path)
        self.net.log.append((method, url, headers, time.monotonic(), self.timeout))
        r = self.net.take(url)
        if callable(r):
            r = r()
        r = r or self.net.default
        self.answer = Raw(method, r)

    send = sendall

    def makefile(self, mode='rb', *a, **k):
        """The answer as a file."""
        return io.BufferedReader(self.answer)


class Raw(io.RawIOBase):
    """Bytes of an answer, then perhaps an error."""

    def __init__(self, method, r):
        super().__init__()
        fault, body, status = r.get('fault'), r.get('body', b''), r.get('status', 200)
        self.then = None
        if fault in ('rtimeout', 'reset'):
            self.data = b''
            self.then = fault
            return
        if fault == 'badstatus':
            self.data = b'garbage garbage\r\n\r\n'
            return
        head = ['HTTP/1.1 %d Reason' % status]
        hs = {k.lower(): v for k, v in r.get('headers', {}).items()}
        for k, v in r.get('headers', {}).items():
            head.append('%s: %s' % (k, v))
        if 'content-length' not in hs and not r.get('nolength'):
            head.append('Content-Length: %d' % len(body))
        head.append('Connection: close')
        self.data = ('\r\n'.join(head) + '\r\n\r\n').encode('latin-1')
        if method != 'HEAD':
            half = fault in ('btimeout', 'trunc', 'breset')
            self.data += body[:len(body) // 2] if half else body
            self.then = fault if fault in ('btimeout', 'breset') else None
        elif fault in ('btimeout', 'breset'):
            self.then = fault

    def readable(self):
        """Yes."""
        return True

    def readinto(self, b):
        """Some bytes, end or error."""
        if not self.data:
            if self.then in ('rtimeout', 'btimeout'):
                raise socket.timeout('timed out')
            if self.then in ('reset', 'breset'):
                raise ConnectionResetError(104, 'Connection reset by peer')
            return 0
        n = min(len(b), len(self.data), 8192)
        b[:n] = self.data[:n]
        self.data = self.data[n:]
        return n
