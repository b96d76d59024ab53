"""Loopback HTTP server used as proxy for every host name, with scripted answers and faults."""
import http.server
import os
import socket
import struct
import threading
import time


class Web(object):
    """Scripted web.

    routes: url -> response or list of responses (used up one per request, the last one stays).
    A response is a dict: status, body, headers, fault. Faults: timeout (no answer until the client
    gives up), bodytimeout (half the body, then silence), truncate (full Content-Length, half the
    body), reset (connection reset), badstatus (garbage status line), chunktrunc (chunked body cut),
    late, bodylate (as timeout and bodytimeout, but known at once, see patch_timeouts).
    """

    def __init__(self):
        self.routes = {}
        self.log = []
        self.lock = threading.Lock()
        self.before = None
        self.silent = set()
        web = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = 'HTTP/1.0'

            def log_message(self, *a):
                pass

            def handle_one_request(self):
                try:
                    http.server.BaseHTTPRequestHandler.handle_one_request(self)
                except OSError:
                    self.close_connection = True

            def do_GET(self):
                web._serve(self)

            do_HEAD = do_GET
            do_CONNECT = do_GET
            do_POST = do_GET

        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 64

            def handle_error(self, *a):
                pass
        self.srv = S(('127.0.0.1', 0), H)
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, kwargs={'poll_interval': 5}, daemon=True).start()

    def patch_timeouts(self):
        """Let reading in this process time out where a scripted connection falls silent, without waiting."""
        silent, real = self.silent, socket.SocketIO.readinto

        def readinto(self, b):
            port = self._sock.getsockname()[1] if silent and self._sock.family == socket.AF_INET else None
            try:
                n = real(self, b)
            except OSError:
                if port not in silent:
                    raise
                n = 0
            if n == 0 and len(b) and port in silent:
                silent.discard(port)
                raise socket.timeout('timed out')
            return n
        socket.SocketIO.readinto = readinto

    def use_as_proxy(self):
        """Set the environment so that urllib sends all http requests here."""
        for k in list(os.environ):
            if k.lower().endswith('_proxy'):
                del os.environ[k]
        os.environ['http_proxy'] = 'http://127.0.0.1:%d' % self.port
        os.environ['https_proxy'] = 'http://127.0.0.1:%d' % self.port
        import urllib.request
        urllib.request.install_opener(None)

    def reset(self, routes=None):
        """New scenario."""
        with self.lock:
            self.routes = dict(routes or {})
            self.log = []

    def requests(self, method=None):
        """URLs requested so far, in order."""
        with self.lock:
            return [r[1] for r in self.log if method is None or r[0] == method]

    def _serve(self, h):
        url = h.path
        with self.lock:
            self.log.append((h.command, url, {k.lower(): v for k, v in h.headers.items()}, time.monotonic()))
            r = self.routes.get(url)
            if isinstance(r, list):
                r = r.pop(0) if len(r) > 1 else (r[0] if r else None)
        if self.before:
            self.before(h.command, url)
        if callable(r):
            r = r()
        if r is None:
            r = {'status': 404, 'body': b'not found'}
        if isinstance(r, bytes):
            r = {'body': r}
        fault = r.get('fault')
        body = r.get('body', b'')
        sock = h.connection
        if fault == 'timeout':
            self._stall(sock)
            return
        if fault == 'late':
            self.silent.add(h.client_address[1])
            h.close_connection = True
            return
        if fault == 'reset':
            sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            h.close_connection = True
            try:
                sock.shutdown(socket.SHUT_RD)
            except OSError:
                pass
            sock.close()
            return
        if fault == 'badstatus':
            h.wfile.write(b'garbage garbage\r\n\r\n')
            return
        status = r.get('status', 200)
        if fault == 'chunktrunc':
            h.wfile.write(b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n')
            h.wfile.write(b'%x\r\n' % (len(body) + 10) + body)
            return
        h.send_response(status)
        for k, v in r.get('headers', {}).items():
            h.send_header(k, v)
        if 'content-length' not in [k.lower() for k in r.get('headers', {})]:
            h.send_header('Content-Length', str(len(body)))
        h.end_headers()
        if h.command == 'HEAD':
            return
        if fault in ('truncate', 'bodytimeout', 'bodylate'):
            if fault == 'bodylate':
                self.silent.add(h.client_address[1])
            h.wfile.write(body[:r.get('cut', len(body) // 2)])
            h.wfile.flush()
            if fault == 'bodytimeout':
                self._stall(sock)
            return
        h.wfile.write(body)

    @staticmethod
    def _stall(sock):
        # until the client closes, at most a few seconds
        sock.settimeout(5)
        try:
            while sock.recv(1024):
                pass
        except OSError:
            pass
