"""Drives the real synchronization client through one abstract case of Sync.tla and observes it."""
import ast
import hashlib
import json
import logging
import os
import random
import re
import shutil
import time
from xml.sax.saxutils import escape, quoteattr

import common
import effects
import web

NOT = -1
PARTIAL = -7
NOW = 1000000
MARK = {}
JUNK = ('yesterday', '2011-13-01', '2011-02-03T10:00', 'x', '2011-02-03T04:05:06Y')
STATE = '.resync-client-status.cfg'

SM = 'http://www.sitemaps.org/schemas/sitemap/0.9'
RS = 'http://www.openarchives.org/rs/terms/'

NAME_POOLS = [
    ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l'],
    ['d1/a.txt', 'd1/b.txt', 'd1/d2/c', 'd3/x/y/z', 'e', 'f.xml', 'g/1', 'g/2', 'h/h', 'i.i', 'j', 'k'],
    ['10', '9', 'B', 'Z.zip', '_u', 'a', 'a.b', 'a0', 'ab', 'b~', 'c-c', 'd'],
    ['a%20b', 'a&b', 'a+b', 'a;p=1', 'a=b', "it's", 'p(1)', 'q?x=1&y=2', 'r?x=2', 's[1]', 't*', 'u^v'],
    ['%C3%A9', '%E2%82%AC/x', 'a..b', 'a.b.c', 'b...', 'c,d', 'd@e', 'e!', 'f$', 'g:h', 'h|i', 'z'],
    ['.hidden', 'A', 'AA', 'Aa', 'B', 'a', 'aA', 'aa', 'aaa', 'b', 'ba', 'manifest.xml'],
]


class Cap(logging.Handler):
    """Collects log messages."""

    def __init__(self):
        logging.Handler.__init__(self)
        self.msgs = []

    def emit(self, record):
        """Keep the message."""
        self.msgs.append(record.getMessage())


def init_worker():
    """Pool initializer: import the code under test, start the web."""
    common.use_repo()
    w = web.Web()
    w.use_as_proxy()
    w.patch_timeouts()
    MARK['web'] = w
    import resync.client  # noqa
    lg = logging.getLogger('resync')
    lg.setLevel(logging.DEBUG)
    lg.propagate = False
    cap = Cap()
    lg.handlers = [cap]
    MARK['cap'] = cap
    logging.getLogger('resync.client').setLevel(logging.DEBUG)


def w3c(ts, nofrac=False):
    """W3C datetime of a time, independent of the code under test."""
    whole = int(ts // 1)
    micro = int(round((ts - whole) * 1e6))
    s = time.strftime('%Y-%m-%dT%H:%M:%S', time.gmtime(whole))
    if micro:
        s += '.%06d' % micro
    return s + 'Z'


class Conc(object):
    """A concretisation: how abstract resources, versions and times become real ones."""

    def __init__(self, seed, n, local=None, kind=None):
        rng = random.Random(seed)
        self.seed = seed
        pool = rng.choice(NAME_POOLS)
        names = sorted(rng.sample(pool, min(n, len(pool)))) if n <= len(pool) else None
        if names is None:
            names = sorted(['r%03d/%s' % (i, rng.choice('xyz')) for i in range(n)])
        self.local = rng.random() < 0.15 if local is None else local
        if self.local:
            # local source: names are file names, URI is the path
            below = rng.random() < 0.4
            names = sorted('%sn%02d%s' % ('%s%d/' % (rng.choice(['d', 'e']), i) if below else '', i, rng.choice(['', '.txt', ' x', '#1', '%41', '?q', '&', 'é'])) for i in range(n))
        if seed.endswith('/clash'):
            # the path of one is a directory on the path of the other
            self.local = False
            names = rng.choice([['a', 'a/b'], ['d/x', 'd/x/y/z'], ['f.txt', 'f.txt/g.txt']])
        self.scheme = 'http://'
        self.host = rng.choice(['src.example.org', 'a.b.example.com:8080', 'localhost', 'h-1.example'])
        self.path = rng.choice(['', '/data', '/x/y', '/d.at+a(1)'])
        self.dstname = rng.choice(['dst', 'd/e', 'out.dir', 'des(t)+', 'src.example.org'])
        self.trail = rng.choice(['', '/'])
        self.style = rng.choice(['pair', 'eq', 'eqabs', 'pairabs'])
        # names must be sorted as full URIs are: same prefix, so plain sort is right
        self.names = names
        self.base = rng.choice([1000000000, 1234567890, 946684800, 1399999999])
        self.frac = rng.choice([0, 0, 0.5, 0.25, 0.999999, 0.000001, 0.125])
        self.sizes = rng.choice([(5, 9), (64, 65), (1, 2), (70000, 70001), (33000, 100), (9, 5)])
        if rng.random() < 0.25:
            self.sizes = (rng.randint(4, 3000), rng.randint(3001, 5000))
        if self.sizes == (1, 2):
            self.sizes = (7, 8)
        self.explicit = rng.random() < 0.3
        self.index = rng.random() < 0.15
        self.pretty = rng.random() < 0.5
        self.extra_md = rng.random() < 0.3
        self.digest = rng.choice(['md5', 'sha-1', 'sha-256'])
        self.mtime_shift = rng.random() < 0.3
        self.prefix = rng.choice(['rs', 'x'])
        self.tz = rng.choice(['UTC', 'UTC', 'America/New_York', 'Asia/Kolkata'])

    def content(self, u, v):
        """Bytes of version v of resource u."""
        size = self.sizes[v % 2]
        tag = ('%d:%d|' % (u, v)).encode()
        h = hashlib.sha256(tag + str(self.seed).encode()).digest()
        return (bytes([u % 256, v % 256]) + h * (size // 32 + 1))[:size]

    def ts(self, t):
        """Source time of abstract time t."""
        return self.base + 10 * t + self.frac

    def mtime(self, t):
        """Modification time a copy of a resource with time t gets."""
        return self.base + 10 * t

    def abs_time(self, ts):
        """Abstract time of a source time (None if it is none)."""
        x = (ts - self.base - self.frac) / 10
        return int(round(x)) if abs(x - round(x)) < 1e-5 else None


def listing_xml(conc, rows, capability, pretty, root='urlset', item='url', prefix='rs', extra=''):
    """Independent writer. rows: list of dicts uri, lastmod, md (dict)."""
    nl = '\n' if pretty else ''
    out = ["<?xml version='1.0' encoding='UTF-8'?>\n",
           '<%s xmlns="%s" xmlns:%s="%s">%s' % (root, SM, prefix, RS, nl),
           '<%s:md capability="%s"%s/>%s' % (prefix, capability, extra, nl)]
    for r in rows:
        out.append('<%s><loc>%s</loc>' % (item, escape(r['uri'])))
        if r.get('lastmod'):
            out.append('<lastmod>%s</lastmod>' % r['lastmod'])
        if r.get('md'):
            out.append('<%s:md %s/>' % (prefix, ' '.join('%s=%s' % (k, quoteattr(str(v))) for k, v in r['md'].items())))
        for ln in r.get('ln', []):
            out.append('<%s:ln %s/>' % (prefix, ' '.join('%s=%s' % (k, quoteattr(v)) for k, v in ln.items())))
        out.append('</%s>%s' % (item, nl))
    out.append('</%s>\n' % root)
    return ''.join(out).encode('utf-8')


HASHES = {'md5': hashlib.md5, 'sha-1': hashlib.sha1, 'sha-256': hashlib.sha256}


class World(object):
    """Scratch directory, source and client of one scenario."""

    def __init__(self, conc, n):
        self.c = conc
        self.n = n
        self.w = MARK['web']
        self.inway = []
        os.environ['TZ'] = conc.tz
        time.tzset()
        self.root = os.path.join(common.worker_dir(), 's')
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(os.path.join(self.root, 'cwd'))
        self.cwd = os.path.join(self.root, 'cwd')
        os.chdir(self.cwd)
        # something next to the destination that must never be touched
        with open(os.path.join(self.root, 'bystander'), 'w') as fh:
            fh.write('x')
        with open(os.path.join(self.cwd, 'a'), 'w') as fh:
            fh.write('bystander in cwd')
        os.utime(os.path.join(self.cwd, 'a'), (5, 5))
        self.dst = os.path.join(self.cwd, conc.dstname)
        self.srcdir = os.path.join(self.root, 'source dir')
        if conc.local:
            os.makedirs(self.srcdir)
            self.prefix = self.srcdir
        else:
            self.prefix = conc.scheme + conc.host + conc.path
        self.routes = {}
        self.w.reset()
        self.raw0 = None
        self.client_kw = {}

    # ---- source side
    def uri(self, u):
        """URI of resource u."""
        return self.prefix + '/' + self.c.names[u - 1]

    def publish(self, url, data):
        """Make data available at url."""
        if self.c.local:
            with open(url, 'wb') as fh:
                fh.write(data)
        else:
            self.routes[url] = {'body': data}

    def row(self, u, v, t, rlen, digests, md=None):
        """Listing row."""
        r = {'uri': self.uri(u), 'md': dict(md or {})}
        if t != NOT:
            r['lastmod'] = w3c(self.c.ts(t))
        if v:
            if rlen:
                r['md']['length'] = len(self.c.content(u, v))
            if digests:
                r['md']['hash'] = ' '.join('%s:%s' % (d, HASHES[d](self.c.content(u, v)).hexdigest()) for d in digests)
        return r

    def set_listing(self, rl, rlen=True, digests=()):
        """Publish the Resource List."""
        c = self.c
        rows = [self.row(u + 1, e['v'], e['t'], rlen, digests) for u, e in enumerate(rl) if e['v']]
        random.Random(str(c.seed) + 'order').shuffle(rows)
        extra = ' at="%s"' % w3c(c.ts(500)) if c.extra_md else ''
        self.list_urls = [self.prefix + '/resourcelist.xml']
        if c.index and not c.local and len(rows) > 1:
            h = len(rows) // 2
            parts = [rows[:h], rows[h:]]
            irows = []
            for i, p in enumerate(parts):
                u = self.prefix + '/part-%d.xml' % i
                self.publish(u, listing_xml(c, p, 'resourcelist', c.pretty, prefix=c.prefix, extra=extra))
                irows.append({'uri': u})
            self.publish(self.prefix + '/resourcelist.xml',
                         listing_xml(c, irows, 'resourcelist', c.pretty, 'sitemapindex', 'sitemap', prefix=c.prefix))
        else:
            self.publish(self.prefix + '/resourcelist.xml',
                         listing_xml(c, rows, 'resourcelist', c.pretty, prefix=c.prefix, extra=extra))

    def set_changes(self, cl, rlen=True, digests=(), ver=None, name='changelist.xml', short=()):
        """Publish the Change List; ver(u): version described by non-deletions."""
        c = self.c
        rows = []
        for e in cl:
            md = {'change': e['ch']}
            if e['t'] != NOT:
                md['datetime'] = w3c(c.ts(e['t']))
            v = ver(e['u']) if (ver and e['ch'] != 'deleted') else 0
            rows.append(self.row(e['u'], v, e['m'], rlen, digests, md))
            if e['u'] in short and 'length' in rows[-1]['md']:   # what is listed is as long as what will arrive
                rows[-1]['md']['length'] = self.cut(e['u'], rows[-1]['md']['length'])
        extra = ' from="%s"' % w3c(c.ts(0)) if c.extra_md else ''
        self.publish(self.prefix + '/' + name, listing_xml(c, rows, 'changelist', c.pretty, prefix=c.prefix, extra=extra))

    def cut(self, u, n):
        """Where a transfer of n bytes for resource u ends early."""
        return random.Random('%s/c%d' % (self.c.seed, u)).choice([n // 2, n // 2, 0, max(0, n - 1)])

    def serve(self, src, fault=None):
        """Make the source serve its content, with faults."""
        c = self.c
        self.clear()
        for i, e in enumerate(src):
            u = i + 1
            f = fault[i] if fault else 'ok'
            url = self.uri(u)
            if c.local:
                if os.path.lexists(url):
                    os.unlink(url)
                if e['v'] and f == 'ok':
                    os.makedirs(os.path.dirname(url), exist_ok=True)
                    with open(url, 'wb') as fh:
                        fh.write(c.content(u, e['v']))
                continue
            url = url.split('#')[0]
            if f == '404':
                k = random.Random('%s/%d' % (c.seed, u)).choice(['404', '500', 'reset', 'badstatus', '403', '410', 'late', 'late'])
                self.routes[url] = {'fault': k} if k in ('reset', 'badstatus', 'late') else {'status': int(k), 'body': b'no'}
            elif f == 'trunc':
                k = random.Random('%s/t%d' % (c.seed, u)).choice(['truncate', 'truncate', 'chunktrunc', 'bodylate'])
                body = c.content(u, e['v'] or 1)
                cut = self.cut(u, len(body))
                if k == 'chunktrunc':
                    body = body[:cut]
                self.routes[url] = {'fault': k, 'body': body, 'cut': cut}
            elif e['v']:
                self.routes[url] = {'body': c.content(u, e['v']),
                                    'headers': {'Last-Modified': 'Thu, 01 Jan 1998 00:00:00 GMT'}}
            else:
                self.routes.pop(url, None)

    # ---- destination side
    def obstruct(self, u, v):
        """Instead of the source refusing it, let there be something in the way of the local copy of resource u."""
        parts = self.c.names[u - 1].split('/')
        top = os.path.join(self.dst, parts[0])
        way = random.Random('%s/o%d' % (self.c.seed, u)).choice(['no', 'no', 'here', 'above'])
        if way == 'above' and not (self.c.local and len(parts) > 1 and sum(n.split('/')[0] == parts[0] for n in self.c.names) == 1):
            way = 'here'      # (whether it is asked for before is not said: seen only with local files)
        if way == 'no' or os.path.lexists(self.path(u)) or parts[-1] in ('', '.', '..') or (way == 'above' and os.path.lexists(top)):
            return
        if way == 'above':
            os.symlink('nowhere', top)
            self.inway.append(top)
        else:
            os.makedirs(self.path(u))
            self.inway.append(self.path(u))
        if self.c.local:
            os.makedirs(os.path.dirname(self.uri(u)), exist_ok=True)
            with open(self.uri(u), 'wb') as fh:
                fh.write(self.c.content(u, v or 1))
        else:
            self.routes[self.uri(u).split('#')[0]] = {'body': self.c.content(u, v or 1)}

    def clear(self):
        """Take away what was in the way."""
        for p in self.inway:
            try:
                os.unlink(p) if os.path.islink(p) else os.rmdir(p)
            except OSError:
                pass
        self.inway = []

    def path(self, u):
        """Local file of resource u."""
        return self.dst + '/' + self.c.names[u - 1]

    def put(self, u, v, t):
        """Set local copy."""
        p = self.path(u)
        if os.path.lexists(p):
            os.unlink(p)
        if v == 0:
            return
        os.makedirs(os.path.dirname(p), exist_ok=True)
        data = self.c.content(u, 1)[:3] if v == PARTIAL else self.c.content(u, v)
        with open(p, 'wb') as fh:
            fh.write(data)
        if t != NOW:
            m = self.c.mtime(t)
            if self.c.mtime_shift:
                ns = m * 10**9 + int(self.c.frac * 10**9) // 1000 * 1000
                os.utime(p, ns=(ns, ns))
            else:
                os.utime(p, (m, m))

    def set_dst(self, dst):
        """Set all local copies."""
        os.makedirs(self.dst, exist_ok=True)
        for i, e in enumerate(dst):
            self.put(i + 1, e['v'], e['t'])

    def client(self, o=None, hashes=None, **kw):
        """A real client set up for this world."""
        from resync.client import Client
        o = o or {}
        c = Client(hashes=hashes, dryrun=bool(o.get('dry')), **kw)
        src, dst = self.prefix + self.c.trail, (self.dst if 'abs' in self.c.style else self.c.dstname) + self.c.trail
        if '=' in src or '=' in dst:
            raise common.MachineryError('bad concretisation')
        c.set_mappings([src, dst] if 'pair' in self.c.style else ['%s=%s' % (src, dst)])
        if self.c.explicit:
            c.sitemap_name = self.prefix + '/resourcelist.xml'
        c.ignore_failures = bool(o.get('ign'))
        c.noauth = bool(o.get('noauth'))
        c.tries = 2
        c.timeout = 20
        return c

    def site(self):
        """Name under which the state is stored: the Resource List location."""
        return self.client().sitemap

    def set_state(self, st):
        """Store the state."""
        from resync.client_state import ClientState
        if st:
            ClientState().set_state(self.site(), self.c.ts(st))

    def get_state(self):
        """Stored state as abstract time (0 none, -99 not a known time)."""
        from resync.client_state import ClientState
        os.chdir(self.cwd)
        v = ClientState().get_state(self.site())
        if v is None:
            return 0
        t = self.c.abs_time(v)
        return -99 if t is None else t

    def raw(self):
        """Everything below the scratch root except the source: path -> (kind, bytes, mtime)."""
        out = {}
        for d, dirs, files in os.walk(self.root):
            if d.startswith(self.srcdir):
                continue
            out[d] = ('dir',)
            for f in files:
                p = os.path.join(d, f)
                st = os.lstat(p)
                if os.path.islink(p) and not os.path.exists(p):
                    out[p] = ('link',)
                    continue
                with open(p, 'rb') as fh:
                    out[p] = ('file', fh.read(), st.st_mtime_ns)
        out.pop(self.srcdir, None)
        return out

    def observe_dst(self):
        """Abstract destination and list of anomalies."""
        dst, odd = [], []
        known = {}
        for i in range(self.n):
            known[os.path.normpath(self.path(i + 1))] = i + 1
        dst = [{'v': 0, 't': 0} for _ in range(self.n)]
        raw = self.raw()
        for p, e in raw.items():
            if e[0] != 'file':
                continue
            u = known.get(os.path.normpath(p))
            if u is None:
                if p in (os.path.join(self.root, 'bystander'), os.path.join(self.cwd, 'a')):
                    continue
                if p == os.path.join(self.cwd, '.resync-client-status.cfg'):
                    continue
                odd.append('unexpected file ' + os.path.relpath(p, self.root))
                continue
            v = next((k for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15) if e[1] == self.c.content(u, k)), PARTIAL)
            x = (e[2] / 1e9 - self.c.base) / 10
            if e[2] / 1e9 > time.time() - 3600:
                t = NOW
            elif abs(x - round(x)) < 1e-6 or (self.c.mtime_shift and abs(x - self.c.frac / 10 - round(x - self.c.frac / 10)) < 1e-6):
                t = int(round(x)) if abs(x - round(x)) < 1e-6 else int(round(x - self.c.frac / 10))
            else:
                t = -98
            dst[u - 1] = {'v': v, 't': t}
        for p, want in ((os.path.join(self.root, 'bystander'), b'x'), (os.path.join(self.cwd, 'a'), b'bystander in cwd')):
            if raw.get(p, ('', b''))[1] != want:
                odd.append('file outside the destination changed: ' + os.path.relpath(p, self.root))
        return dst, odd

    def parse_events(self, msgs):
        """Events logged for automated analysis."""
        uris = {self.uri(i + 1): i + 1 for i in range(self.n)}
        out = []
        for m in msgs:
            if not m.startswith('Event: '):
                continue
            try:
                e = ast.literal_eval(m[7:])
                out.append({'u': uris[e['uri']], 'ch': e['change']})
            except (ValueError, SyntaxError, KeyError, TypeError):
                out.append({'u': 0, 'ch': 'unreadable'})
        return out

    def run(self, fn):
        """Run one client operation; returns observation dict."""
        cap = MARK['cap']
        cap.msgs = []
        if not self.c.local:
            self.w.reset(self.routes)
        os.chdir(self.cwd)
        before = self.raw()
        exc, crashed = None, False
        known = {os.path.realpath(self.path(i + 1)) for i in range(self.n)}
        strange = set()

        def note(kind, p):
            # files other than local copies that the run works on
            if kind not in ('mkdir', 'rmdir') and p not in known and STATE not in os.path.basename(p) and p.startswith(os.path.realpath(self.root) + '/'):
                strange.add(p)
        try:
            with effects.watch(None, note):
                fn()
            out = 'ok'
        except Exception as e:  # any error ends the run
            out = 'fatal'
            exc = '%s: %s' % (type(e).__name__, str(e)[:300])
            # (what the commands report as an error, anything else they die of)
            crashed = not {'ClientFatalError', 'ClientError'} & {t.__name__ for t in type(e).__mro__}
        os.chdir(self.cwd)
        after = self.raw()
        dst, odd = self.observe_dst()
        if crashed:
            odd.append('dies of ' + exc)
        uris = {self.uri(i + 1).split('#')[0]: i + 1 for i in range(self.n)} if not self.c.local else {}
        reqs = [] if self.c.local else self.w.requests()
        return {'out': out, 'exc': exc, 'dst': dst, 'st': self.get_state(), 'odd': odd,
                'gets': once([uris[r] for r in reqs if r in uris]), 'reqs': len(reqs),
                'status': parse_status(cap.msgs), 'events': self.parse_events(cap.msgs), 'pure': before == after, 'local': self.c.local,
                'strange': sorted(strange), 'msgs': cap.msgs,
                'diff': [os.path.relpath(p, self.root) for p in sorted(set(before) | set(after))
                         if before.get(p) != after.get(p)][:5]}


def once(reqs):
    """Requests with repetitions (after time-outs) left out."""
    return [u for i, u in enumerate(reqs) if i == 0 or reqs[i - 1] != u]


def parse_status(msgs):
    """Status lines in the form of the specification."""
    out = []
    for m in msgs:
        k = re.match(r'Status:\s+(.*?) \((?:same=(\d+), )?[^=]*=(\d+), [^=]*=(\d+), [^=]*=(\d+)\)\s*$', m)
        if k:
            out.append({'name': k.group(1), 'same': int(k.group(2)) if k.group(2) else NOT, 'created': int(k.group(3)),
                        'updated': int(k.group(4)), 'deleted': int(k.group(5))})
        elif m.startswith('Status:'):
            out.append({'name': 'unparsable ' + m, 'same': 0, 'created': 0, 'updated': 0, 'deleted': 0})
    return out


def needs_http(case):
    """True if the case has faults that only HTTP can show."""
    return any(f == 'trunc' for f in case['o']['fault'])


def prepare(case, conc):
    """The world of a case; returns it and a function that runs the client once."""
    n = len(case['dst'])
    w = World(conc, n)
    o = case['o']
    digests = [conc.digest] if o['cmp'] else ()
    hashes = [conc.digest] if o['cmp'] else None
    os.makedirs(w.dst, exist_ok=True)
    w.set_listing(case['rl'], o['rlen'], digests)
    if case['op'] == 'inc':
        w.set_changes(case['cl'], o['rlen'], digests, ver=lambda u: case['src'][u - 1]['v'] or 1,
                      short=[u for u, f in enumerate(o['fault'], 1) if f == 'trunc' and random.Random('%s/s%d' % (conc.seed, u)).random() < 0.4])
    w.serve(case['src'], o['fault'])
    w.set_dst(case['dst'])
    w.set_state(case['st'])
    pre = w.observe_dst()
    if pre[0] != case['dst']:
        raise common.MachineryError('cannot set up %r: got %r (%s)' % (case['dst'], pre, conc.seed))
    for u, f in enumerate(o['fault'], 1):
        if f == '404' and not any(e['u'] == u and e['ch'] == 'deleted' for e in case['cl']):
            w.obstruct(u, case['src'][u - 1]['v'])

    def op():
        c = w.client(o, hashes)
        rng = random.Random('%s-args' % conc.seed)
        if case['op'] == 'baseline':
            kw = {'allow_deletion': o['del'], 'audit_only': o['audit']}
        else:
            kw = {'allow_deletion': o['del'],
                  'from_datetime': None if not o['from'] else w3c(conc.ts(o['from'])) if o['from'] > 0 else rng.choice(JUNK)}
        # what is not asked for need not be said
        kw = {k: v for k, v in kw.items() if v or rng.random() < 0.5}
        (c.baseline_or_audit if case['op'] == 'baseline' else c.incremental)(**kw)
    return w, op


def clobbers(case, conc, paths):
    """The same run with files of the user where the run worked on other files: those that did not survive."""
    w, op = prepare(dict(case, o=dict(case['o'], **{'del': False})), conc)
    mine = []
    for p in paths[:50]:
        if os.path.lexists(p) or not os.path.isdir(os.path.dirname(p)):
            continue
        with open(p, 'w') as fh:
            fh.write('mine')
        os.utime(p, (77, 77))
        mine.append(p)
    try:
        op()
    except Exception:
        pass
    os.chdir(w.cwd)
    bad = []
    for p in mine:
        try:
            with open(p) as fh:
                ok = fh.read() == 'mine' and os.stat(p).st_mtime == 77
        except OSError:
            ok = False
        if not ok:
            bad.append('other file changed: ' + os.path.relpath(p, w.root))
    return bad


def run_case(arg):
    """Set up one abstract case, run the real client, return (observation, follow-ups)."""
    case, seed, follow = arg
    w, op = prepare(case, Conc(seed, len(case['dst']), local=False if needs_http(case) else None))
    conc, o = w.c, case['o']
    hashes = [conc.digest] if o['cmp'] else None
    obs = w.run(op)
    obs['names'] = conc.names
    obs['conc'] = {'seed': seed, 'local': conc.local, 'prefix': w.prefix, 'frac': conc.frac, 'style': conc.style,
                   'index': conc.index, 'dst': conc.dstname}
    if obs['strange']:
        obs['odd'] += clobbers(case, conc, obs['strange'])
        w, op = prepare(case, conc)
        w.run(op)
    then = []
    if follow != 'none':
        w.serve(case['src'])
        if follow == 'again':      # audit, then the same baseline without faults
            c2 = w.client(o, hashes)
            then.append(w.run(lambda: c2.baseline_or_audit(audit_only=True)))
            c3 = w.client(o, hashes)
            then.append(w.run(lambda: c3.baseline_or_audit(allow_deletion=o['del'])))
        elif follow == 'repeat':   # the same operation without faults
            then.append(w.run(op))
    return obs, then


def run_crash(arg):
    """One case, killed at several moments (each time in a world of its own) and run again."""
    import crash
    case, seed, points = arg
    conc = Conc(seed, len(case['dst']))
    rng = random.Random(str(seed) + 'crash')
    w, op = prepare(case, conc)

    def once(n=None, marks=None):
        if not conc.local:
            w.w.reset(w.routes)
        os.chdir(w.cwd)
        return crash.run(op, n, marks=marks)

    def look():
        os.chdir(w.cwd)
        dst, odd = w.observe_dst()
        return {'dst': dst, 'st': w.get_state()}, [x for x in odd if not x.startswith('unexpected file')]
    marks = []
    _, moments, out = once(None, marks)
    res = []
    for _ in range(points):
        def moment():
            if marks and rng.random() < 0.8:
                return min(moments, max(1, rng.choice(marks) + rng.choice([-2, -1, 0, 1, 1, 2, 3])))
            return rng.randint(1, moments)
        w, op = prepare(case, conc)
        left, at, odd = [{'dst': case['dst'], 'st': case['st']}], [], []
        for k in range(rng.choice([1, 1, 1, 2])):
            n = moment()
            died, _, _ = once(n)
            if not died:
                break
            at.append(n)
            x, o = look()
            left.append(x)
            odd += o
        MARK['cap'].msgs = []
        fin = w.run(op)
        res.append({'kind': 'crash', 'in': case, 'left': left, 'fin': {k: fin[k] for k in ('out', 'dst', 'st')},
                    'odd': len(odd) + len([x for x in fin['odd'] if not x.startswith('unexpected file')]),
                    'at': at, 'of': moments, 'seed': str(seed), 'exc': fin['exc'] or ''})
    return res


def broken_list(body, kind, rng):
    """A list that cannot be read."""
    if kind == 'cut':
        return {'body': body[:rng.randint(0, len(body.rstrip()) - 1)]}
    if kind == 'empty':
        return {'body': b''}
    if kind == 'html':
        return {'body': b'<html><head><title>Welcome</title></head><body><p>Hello</p></body></html>'}
    if kind == 'other':
        return {'body': body.replace(b'urlset', b'urls').replace(b'sitemapindex', b'index')}
    if kind == 'text':
        return {'body': b'Service temporarily unavailable'}
    if kind in ('truncate', 'chunktrunc'):
        return {'fault': kind, 'body': body if kind == 'truncate' else body[:len(body) // 2]}
    if kind in ('reset', 'badstatus'):
        return {'fault': kind}
    return {'status': int(kind), 'body': rng.choice([b'gone', body])}


def run_nolist(arg):
    """One case whose list (or part of it) cannot be had, and the same again with the list."""
    case, seed = arg
    rng = random.Random(str(seed) + 'list')
    conc = Conc(seed, len(case['dst']), local=False)
    conc.index = rng.random() < 0.5
    w, op = prepare(case, conc)
    if case['op'] == 'inc':
        url = w.prefix + '/changelist.xml'
    else:
        url = rng.choice(sorted(u for u in w.routes if u == w.prefix + '/resourcelist.xml' or '/part-' in u))
    good = w.routes[url]
    kind = rng.choice(['cut', 'cut', 'cut', 'empty', 'html', 'other', 'text', 'truncate', 'chunktrunc', 'reset', 'badstatus', '404', '500', '503', '403'])
    w.routes[url] = broken_list(good['body'], kind, rng)
    obs = w.run(op)
    w.routes[url] = good
    then = [w.run(op)]
    return {'kind': 'nolist', 'in': case, 'obs': trim(obs), 'then': [trim(t) for t in then], 'fault': kind, 'seed': str(seed),
            'url': url, 'exc': obs['exc'] or ''}


def canon(case):
    """JSON text of a case, for de-duplication."""
    return json.dumps(case, sort_keys=True)


def run_history(arg):
    """Drive the real client through a history of SyncHist.tla; returns the recorded events."""
    ev, seed = arg
    rng = random.Random(seed)
    n = len(ev[0]['src'])
    http = any(e.get('in') and needs_http(e['in']) for e in ev)
    conc = Conc(seed, n, local=False if http else None)
    w = World(conc, n)
    os.makedirs(w.dst, exist_ok=True)
    src, log = ev[0]['src'], []
    rec = [{'a': 'src', 'src': src}]
    ok = ['ok'] * n

    def versions(u):
        return src[u - 1]['v'] or 1

    def go(case, spec_from=None):
        o = case['o']
        w.serve(src, o['fault'])
        c = w.client(o)
        if case['op'] == 'baseline':
            w.set_listing(case['rl'])
            return w.run(lambda: c.baseline_or_audit(allow_deletion=True))
        w.set_changes(case['cl'], ver=versions)
        return w.run(lambda: c.incremental(allow_deletion=True))

    def probe():
        st = w.get_state()
        if st == 0:
            return
        k = 0
        while k < len(log) and log[k]['t'] < st:
            k += 1
        k = rng.choice([0, k, rng.randint(0, k)])
        save, keep = os.path.join(w.root, 'save'), os.path.join(w.cwd, '.resync-client-status.cfg')
        shutil.copytree(w.dst, save)
        with open(keep, 'rb') as fh:
            data = fh.read()
        obs = go({'op': 'inc', 'cl': log[k:], 'o': {'fault': ok}})
        rec.append({'a': 'probe', 'obs': trim(obs), 'from': k, 'exc': obs['exc'] or ''})
        shutil.rmtree(w.dst)
        os.rename(save, w.dst)
        with open(keep, 'wb') as fh:
            fh.write(data)

    w.set_listing(src)
    for e in ev[1:]:
        if e['a'] == 'change':
            src, log = e['src'], e['cl']
            rec.append({'a': 'src', 'src': src})
            probe()
        elif e['a'] in ('baseline', 'inc'):
            dst, odd = w.observe_dst()
            case = dict(e['in'], dst=dst, st=w.get_state())
            obs = go(case)
            rec.append({'a': 'run', 'in': case, 'obs': trim(obs), 'exc': obs['exc'] or ''})
            probe()
    return rec


def trim(o):
    """The part of an observation the specification talks about."""
    return {'out': o['out'], 'dst': o['dst'], 'st': o['st'], 'gets': o['gets'], 'status': o['status'],
            'events': o['events'], 'seen': not o['local'], 'odd': len(o['odd']), 'pure': o['pure']}
