"""D04 (W3CDatetime.tla)."""
import math
import os
import random
import time
from fractions import Fraction

import common
import syncdrv

TZS = ['UTC', 'America/New_York', 'Asia/Kolkata', 'XXX-13:45', 'YYY+11', 'Europe/London']


def init_tz():
    """Every worker lives in another time zone."""
    common.use_repo()
    os.environ['TZ'] = TZS[os.getpid() % len(TZS)]
    time.tzset()
    import resync.w3c_datetime  # noqa


def datetime_real(c):
    """Read a string, or write an instant and read it back; returns the outcome."""
    from resync.w3c_datetime import str_to_datetime, datetime_to_str
    if 's' in c:
        try:
            t = str_to_datetime(''.join(c['s']))
        except Exception as e:
            return {'ok': False, 'err': type(e).__name__ if not isinstance(e, ValueError) else 'ValueError'}
        return {'ok': True, 't': t}
    whole = c['day'] * 86400 + c['sec']
    t = whole + c['micro'] / 1e6 if c['micro'] else (whole if (c['sec'] + c['day']) % 2 else float(whole))
    w = datetime_to_str(t)
    res = {'w': w, 'back': str_to_datetime(w)}
    if t >= 0:
        res['wn'] = datetime_to_str(t, no_fractions=True)
    return res


def near(t, at, micro, more):
    """True if t denotes the specified instant as exactly as a float can."""
    lo = Fraction(at['day'] * 86400 + at['sec']) + Fraction(micro, 1000000)
    hi = lo + (Fraction(1, 1000000) if more else 0)
    ulp = Fraction(math.ulp(max(1.0, abs(float(t)))))
    return lo - ulp <= Fraction(t) <= hi + ulp


def random_strings(rng, n):
    """Strings near the grammar."""
    out = []
    for _ in range(n):
        y = rng.choice(['%04d' % rng.randint(0, 9999), '%04d' % rng.randint(1950, 2050), str(rng.randint(0, 99999))])
        mo, d = '%02d' % rng.randint(0, 13), '%02d' % rng.choice([0, 1, 28, 29, 30, 31, 32, rng.randint(1, 31)])
        s = rng.choice([y, y + '-' + mo, y + '-' + mo + '-' + d])
        if rng.random() < 0.75:
            s = y + '-' + mo + '-' + d + rng.choice(['T', 'T', 'T', 'T', ' ', 't']) + '%02d:%02d' % (rng.randint(0, 24), rng.randint(0, 60))
            if rng.random() < 0.7:
                s += ':%02d' % rng.randint(0, 60)
                if rng.random() < 0.5:
                    s += '.' + ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 12)))
            s += rng.choice(['Z', 'Z', '', '+%02d:%02d' % (rng.randint(0, 25), rng.randint(0, 61)), '-%02d:%02d' % (rng.randint(0, 25), rng.randint(0, 61)),
                             '+%02d%02d' % (rng.randint(0, 23), rng.randint(0, 59)), ' +01:00', '+1:00'])
        if rng.random() < 0.25:
            i = rng.randint(0, len(s))
            s = s[:i] + rng.choice(['', '', rng.choice(list('0123456789-+:.TZ') + [' ', '\n', '\t', '٣', '２', 'é', '−', 'GMT', 'am'])]) + s[i + rng.randint(0, 2):]
        if s:
            out.append({'s': list(s)})
    return out


def D04(chk):
    """Datetimes."""
    cfg = 'SPECIFICATION Spec\nCONSTANT Family = "%s"\nINVARIANTS RoundTrip WholeSeconds Consecutive Alphabet\nCHECK_DEADLOCK FALSE\n'
    lines = []
    for fam in ('dates', 'times', 'mutants', 'writes'):
        lines += chk.run_tlc('W3CDatetime ' + fam, 'W3CDatetime', cfg % fam, timeout=1500).lines
    path = os.path.join(common.scratch(), 'dt.ndjson')
    n = 100000 if common.THOROUGH else 10000
    recs = random_strings(chk.rng, n)
    for _ in range(n):
        recs.append({'day': chk.rng.randint(-24000, 49000) if chk.rng.random() < 0.5 else chk.rng.randint(10000, 22000),
                     'sec': chk.rng.randint(0, 86399), 'micro': chk.rng.choice([0, chk.rng.randint(0, 999999), chk.rng.randint(0, 999999)])})
    common.write_ndjson(path, recs)
    lines += chk.run_tlc('W3CDatetime random', 'W3CDatetime', cfg % 'x', env={'TRACE': path}, timeout=1500).lines
    chk.exhaustive = True
    accepted = 0
    odd = []
    for x, (_, got) in zip(lines, common.pmap(datetime_real, [x['in'] for x in lines], init=init_tz, chunk=512)):
        chk.validated += 1
        c, out = x['in'], x['out']
        if 's' in c:
            s = ''.join(c['s'])
            if got['ok'] != out['ok']:
                chk.violation('accepted' if got['ok'] else 'rejected', {'string': s, 'specified': out, 'real': got})
            elif out['ok']:
                accepted += 1
                if not near(got['t'], out['at'], out['micro'], out['more']):
                    wrong = near(got['t'], out['flip'], out['micro'], out['more'])
                    chk.violation('offset applied with the wrong sign' if wrong else 'wrong instant', {'string': s, 'specified': out, 'real': got})
            elif got['err'] != 'ValueError':
                chk.violation('rejected with ' + got['err'], {'string': s})
        else:
            for k in ('w', 'wn'):
                if k in got and got[k] != ''.join(out[k]):
                    odd.append((c, k, got[k], ''.join(out[k])))
            if not near(got['back'], c, c['micro'], False):
                chk.violation('round trip', {'case': c, 'real': got})
        if chk.validated % 9973 == 7:
            chk.sample({'case': c, 'out': out, 'real': got})
    if odd:
        # written in another form: does it denote the instant all the same?
        odd = odd[:20000]
        common.write_ndjson(path, [{'s': list(x[2]), 'k': i} for i, x in enumerate(odd)])
        for x in chk.run_tlc('W3CDatetime other forms', 'W3CDatetime', cfg % 'x', env={'TRACE': path}, timeout=1500).lines:
            c, k, w, want = odd[x['in']['k']]
            o = x['out']
            if not o['ok'] or o['at'] != {'day': c['day'], 'sec': c['sec']} or o['micro'] != (c['micro'] if k == 'w' else 0):
                chk.violation('written value denotes another instant', {'case': c, 'specified': want, 'real': w})
    for (a, b) in common.pmap(none_real, [None], init=init_tz):
        if b:
            chk.violation('absent value', b)
    chk.extra['accepted'] = accepted


def none_real(_):
    """Absent values."""
    from resync.w3c_datetime import str_to_datetime, datetime_to_str
    from resync.resource import Resource
    r = Resource(uri='a')
    r.lastmod = None
    got = [str_to_datetime(None), datetime_to_str(None), r.lastmod, r.timestamp, r.datetime]
    if any(g is not None for g in got):
        return {'got': got}
    return None


# ------------------------------------------------------------------ D01, D02

SM = 'http://www.sitemaps.org/schemas/sitemap/0.9'
RS = 'http://www.openarchives.org/rs/terms/'
ATTOF = {'type': 'mime_type'}
TSOF = {'at': 'ts_at', 'completed': 'ts_completed', 'from': 'ts_from', 'until': 'ts_until', 'datetime': 'ts_datetime'}
ODD = ['a&b', '<x>', '"q"', "it's", 'é', '日本', 'a b', '%41', '100%', '&amp;', ']]>', '\U0001F600', 'x;y', '#f', '?a=1&b=2', '{}', 'tab\tx', 'u+00a0\u00a0', '-->', '\\']


def init_docs():
    """Import the code under test in a worker."""
    init_tz()
    import resync  # noqa
    import resync.archives  # noqa
    import logging
    logging.getLogger('resync').addHandler(logging.NullHandler())
    logging.getLogger('resync').propagate = False


class Values(object):
    """Concrete texts of the symbols of one document."""

    def __init__(self, rng, writing=False):
        self.rng = rng
        ints = rng.sample([0, 1, 7, 10, 999, 1234567890, 2**31, 2**32 - 1, 2**53 + 1, 10**20] + ([] if writing else [-5]), 4)
        self.int = {'i%d' % i: ints[i] for i in range(4)}
        self.time = {}
        for i in range(4):
            self.time['t%d' % i] = self.new_time(writing)
        self.pri = {'p1': 1, 'p2': 999999, 'p3': rng.randint(2, 999998)}
        self.str = {}
        used = set()
        for k in ['s1', 's2', 's3', 'd1', 'd2', 'd3', 'd4', 'd5', 'd6', 'unknown1']:
            while True:
                v = rng.choice(ODD) + rng.choice(['', 'x', '/y', 'Z']) + str(rng.randint(0, 99))
                if k[0] == 'd':
                    v = ''.join(rng.choice('0123456789abcdefABCDEF') for _ in range(rng.choice([1, 32, 40, 64]))) + rng.choice(['', ':x', '=', '&'])
                if v not in used:
                    break
            used.add(v)
            self.str[k] = v
        base = rng.choice(['http://example.org/', 'https://ex.example.org:8080/~u/', 'file:///tmp/', 'ftp://h/', 'urn:x:', '/rel/', 'http://[::1]/'])
        for i in range(1, 40):
            self.str['u%d' % i] = base + '%02d' % i + rng.choice(['', 'a.xml', rng.choice(ODD)]).replace('\t', '') + rng.choice(['', 'x'])
        self.alg = {'unknown': rng.choice(['sha-512', 'MD5', 'sha1', 'sha256', 'x', ''])}

    def new_time(self, writing):
        """Pair of text and instant."""
        rng = self.rng
        s = rng.choice([0, 1, rng.randint(1, 4102444800), rng.randint(900000000, 1900000000), rng.randint(900000000, 1900000000)])
        if writing:
            us = rng.choice([0, 0, 500000, 1, 999999, rng.randint(0, 999999)])
            return (None, s + us / 1e6 if us else rng.choice([s, float(s)]))
        form = rng.choice(['day', 'sec', 'frac', 'min'])
        if form == 'day':
            s -= s % 86400
            return (time.strftime('%Y-%m-%d', time.gmtime(s)), s)
        if form == 'min':
            s -= s % 60
            return (time.strftime('%Y-%m-%dT%H:%MZ', time.gmtime(s)), s)
        t = time.strftime('%Y-%m-%dT%H:%M:%S', time.gmtime(s))
        if form == 'frac':
            f = rng.choice(['5', '25', '000001', '999999', '123456'])
            return (t + '.' + f + 'Z', s + float('0.' + f))
        return (t + rng.choice(['Z', '+00:00']), s)

    def text(self, name, v):
        """Text of symbol v as value of attribute or element name."""
        rng = self.rng
        if v in self.int:
            return str(self.int[v])
        if v in self.time:
            return self.time[v][0]
        if v in self.pri:
            return str(self.pri[v])
        if v in self.str:
            return self.str[v]
        if v.startswith('badp'):
            return {'badp0': rng.choice(['0', '-0']), 'badpmax': rng.choice(['1000000', '9999999']), 'badpneg': rng.choice(['-1', '-999'])}[v]
        if v.startswith('bad'):
            if name == 'change':
                return rng.choice(['Created', 'modified', '', 'delete', 'updated '])
            if name in ('length', 'pri'):
                return rng.choice(['x', '1.5', '', '0x10', 'ten', '1 2', '1e3', '3,000', '-'])
            if name in TSOF or name == 'lastmod':
                return rng.choice(['bad', '2000-13-01', '2000-01-01T00:00', '01/02/2003', '2000-01-01T00:00:00', 'now', '20000101', '2000-01-01T00:00:00Zx'] + ([''] if name != 'lastmod' else []))
            return rng.choice(['bad', '', '0'])
        return v

    def hash(self, h):
        """Text of digest tokens."""
        out = []
        for alg, val in h:
            if alg == 'plain':
                out.append(self.str[val].replace(':', '').replace(' ', '') or 'x')
            else:
                out.append(self.alg.get(alg, alg) + ':' + self.str[val].replace(' ', ''))
        return self.rng.choice([' ', ' ', '  ', '\t']).join(out)


def esc(s, rng, attr=False):
    """Escape text for XML in one of several ways."""
    if not attr and rng.random() < 0.15 and ']]>' not in s:
        return '<![CDATA[' + s + ']]>'
    out = []
    for ch in s:
        if ch in '&<>"\'' or ch in '\t\n\r':
            named = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', "'": '&apos;'}
            out.append(named[ch] if ch in named and rng.random() < 0.7 else '&#%d;' % ord(ch))
        elif rng.random() < 0.02:
            out.append('&#x%x;' % ord(ch))
        else:
            out.append(ch)
    return ''.join(out)


class Render(object):
    """XML text of an abstract document."""

    def __init__(self, vals, rng):
        self.v, self.rng = vals, rng
        self.smp = rng.choice(['', '', '', 'sm:', 'rs:' if rng.random() < 0.3 else 's:'])
        self.rsp = rng.choice(['rs:', 'rs:', 'x1:', 'resync.org-_:']) if self.smp != 'rs:' else 'q:'
        self.pretty = rng.random() < 0.5
        self.hashes = {}

    def ws(self):
        """White space or a comment between elements."""
        r = self.rng.random()
        return ('\n  ' if self.pretty else '') + ('<!-- <url> rs:md -->' if r < 0.05 else '<?pi <rs:md/>?>' if r < 0.08 else '')

    def atts(self, a, where):
        """Attributes."""
        parts = []
        for i, x in enumerate(a):
            if x['n'] == 'hash' and x['h']:
                t = self.hashes.setdefault(where + (i,), self.v.hash(x['h']))
            else:
                t = self.v.text(x['n'], x['v'])
            n = x['n'] if x['n'] != 'otherattr' else self.rng.choice(['rel2', 'f:capability', 'f:change', self.rsp + 'length', 'Length', 'f:href', 'datetimes'])
            q = self.rng.choice('"\'')
            parts.append(' %s=%s%s%s' % (n, q, esc(t, self.rng, True), q))
            x['text'] = t
        self.rng.shuffle(parts)
        return ''.join(parts)

    def empty(self, name, at):
        """Element without content."""
        return self.ws() + self.rng.choice(['<%s%s/>' % (name, at), '<%s%s></%s>' % (name, at, name), '<%s%s> </%s>' % (name, at, name)])

    def other(self):
        """Element that has to be ignored."""
        s, r = self.smp, self.rsp
        return self.ws() + self.rng.choice([
            '<f:md capability="x" change="bad"/>', '<f:ln/>', '<%sunknown length="x"/>' % r, '<%spriority>x</%spriority>' % (s, s),
            '<f:url><%sloc>q</%sloc></f:url>' % (s, s), '<f:loc>z</f:loc>', '<f:lastmod>zz</f:lastmod>',
            '<f:x><%smd change="bad"/><%sln/></f:x>' % (r, r), '<%schangefreq>daily</%schangefreq>' % (s, s), '<%surl/>' % r, '<%sloc>a</%sloc>' % (r, r)])

    def doc(self, d):
        """Whole document as bytes."""
        rng, s = self.rng, self.smp
        root = {'foreign': rng.choice(['urlsets', 'f:urlset', 'sitemap', self.rsp + 'urlset', 'url', 'UrlSet', 'f:sitemapindex']), 'nons': rng.choice(['urlset', 'sitemapindex'])}.get(d['root'], d['root'])
        if d['root'] in ('broken', 'entities'):
            root = rng.choice(['urlset', 'sitemapindex'])
        item = 'sitemap' if 'sitemapindex' in root else 'url'
        wrong = 'url' if item == 'sitemap' else 'sitemap'
        name = root if ':' in root else s + root
        ns = ' xmlns:f="http://example.org/other" xmlns:%s="%s"' % (self.rsp[:-1], RS)
        if d['root'] == 'nons':
            name, ns = root, ns + (' xmlns:%s="%s"' % (s[:-1], SM) if s else '')
        elif s:
            ns += ' xmlns:%s="%s"' % (s[:-1], SM)
        else:
            ns += ' xmlns="%s"' % SM
        out = ['<' + name + ns + '>']
        for i, e in enumerate(d['els']):
            if e['k'] in ('md', 'ln'):
                out.append(self.empty(self.rsp + e['k'], self.atts(e['a'], (i,))))
            elif e['k'] in ('item', 'wrongitem'):
                n = s + (item if e['k'] == 'item' else wrong)
                out.append(self.ws() + '<' + n + '>')
                for j, c in enumerate(e['c']):
                    if c['k'] in ('loc', 'lastmod'):
                        t = '' if c['v'] == 'empty' else self.v.text(c['k'], c['v'])
                        c['text'] = t
                        t = esc(t, rng)
                        el = s + c['k']
                        out.append(self.ws() + ('<%s>%s</%s>' % (el, t, el) if t or rng.random() < 0.5 else '<%s/>' % el))
                    elif c['k'] in ('md', 'ln'):
                        out.append(self.empty(self.rsp + c['k'], self.atts(c['a'], (i, j))))
                    else:
                        out.append(self.other())
                out.append('</' + n + '>')
            else:
                out.append(self.other())
        out.append(self.ws() + '</' + name + '>')
        if d['root'] == 'broken':
            how = rng.choice(['cut', 'cut', 'amp', 'tag', 'empty', 'junk'])
            if how == 'cut':
                text = ''.join(out)
                out = [text[:rng.randint(1, len(text) - 1)]]
            elif how == 'amp':
                out.insert(1, '<f:x>a & b</f:x>')
            elif how == 'tag':
                out.insert(1, '<f:x>')
            elif how == 'empty':
                out = []
            else:
                out.append('<more/>')
        head = ''
        enc = rng.choice(['utf-8', 'utf-8', 'utf-8', 'utf-16'])
        r = rng.random()
        if r < 0.5 or enc != 'utf-8':
            head = '<?xml version="1.0" encoding="%s"?>\n' % enc.upper()
        if d['root'] == 'entities':
            head += '<!DOCTYPE %s [<!ENTITY a "b">]>\n' % name
        text = head + ''.join(out) + rng.choice(['', '\n'])
        if d['root'] == 'broken' and not out:
            text, enc = '', 'utf-8'
        return text.encode(enc), enc


def concrete(v, out):
    """Concrete form of the specified result of reading."""
    def at(x, entry):
        n, val = x['n'], x['v']
        key = ATTOF.get(n, n)
        if n in ('length', 'pri'):
            return key, v.int.get(val, v.pri.get(val))
        if n in TSOF and entry:
            return TSOF[n], float(v.time[val][1])
        return key, None
    return at


def read_real(c, rng, data, enc):
    """Have the real code read a document; returns projected result."""
    import io
    from resync.sitemap import Sitemap, SitemapIndexError
    from resync.list_base import ListBase
    from resync.list_base_with_index import ListBaseWithIndex
    import logging
    cap = None if c['cap'] == 'none' else c['cap']
    ver = '1.0' if c['v10'] else rng.choice(['1.1', '1.1', None])
    kw = {'spec_version': ver} if ver else {}
    warnings = []

    class H(logging.Handler):
        def emit(self, rec):
            warnings.append(rec.getMessage())
    h = H(level=logging.WARNING)
    logging.getLogger('resync').addHandler(h)
    try:
        how = rng.choice(['sitemap', 'sitemap', 'etree'] + (['fh', 'str', 'uri'] if c['want'] == 'list' else []) + (['read'] if c['want'] == 'any' else []))
        if enc != 'utf-8' and how == 'str':
            how = 'fh'
        index = None
        if how in ('sitemap', 'etree'):
            s = Sitemap(**kw)
            rl = ListBase()
            rl.md = {}
            want = {'any': None, 'index': True, 'list': False}[c['want']]
            if how == 'sitemap':
                got = s.parse_xml(fh=io.BytesIO(data), resources=rng.choice([rl, None]), capability=cap, sitemapindex=want)
            else:
                import xml.etree.ElementTree as ET
                from defusedxml.ElementTree import parse
                got = s.parse_xml(etree=parse(io.BytesIO(data)), resources=rl, capability=cap, sitemapindex=want)
            index = s.parsed_index
            if s.resources_created != len(list(got)):
                return {'ok': True, 'odd': 'resources_created'}
        else:
            path = os.path.join(common.worker_dir(), 'doc.xml')
            with open(path, 'wb') as fh:
                fh.write(data)
            if how == 'read':
                got = ListBaseWithIndex(capability_name=cap, **kw)
                # (components are not there to be read)
                got.read(uri=path, index_only=True)
                index = got.sitemapindex
            else:
                got = ListBase(capability_name=cap, **kw)
                if how == 'uri':
                    got.parse(uri=path)
                elif how == 'fh':
                    got.parse(fh=io.BytesIO(data))
                else:
                    got.parse(str_data=data.decode('utf-8'))
                index = got.parsed_index
    except SitemapIndexError as e:
        return {'ok': False, 'why': 'kind', 'how': how, 'tree': e.etree is not None}
    except (TypeError, AttributeError, KeyError, IndexError, NameError, RecursionError, AssertionError, UnboundLocalError) as e:
        return {'ok': False, 'why': 'crash ' + repr(e), 'how': how}
    except Exception as e:
        return {'ok': False, 'why': type(e).__name__, 'how': how}
    finally:
        logging.getLogger('resync').removeHandler(h)
    return {'ok': True, 'index': index, 'md': dict(got.md), 'ln': [dict(x) for x in got.ln],
            'entries': [project(r) for r in got], 'warned': len(warnings), 'how': how}


FIELDS = ['timestamp', 'length', 'mime_type', 'md5', 'sha1', 'sha256', 'change', 'ts_datetime', 'path', 'capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until']


def project(r):
    """Everything a description says."""
    out = {'uri': r.uri}
    for f in FIELDS:
        v = getattr(r, f)
        if v is not None:
            out[f] = v
    out['ln'] = [dict(x) for x in r.ln] if r.ln else []
    return out


def close(a, b):
    """Equality, times to the microsecond."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all((abs(a[k] - b[k]) < 6e-7) if (k == 'timestamp' or k.startswith('ts_')) and a[k] is not None and b[k] is not None else close(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b if not isinstance(a, (int, float)) else a == b


def parse_real(arg):
    """Render an abstract document, read it with the real code; None or the disagreement."""
    c, out, seed = arg
    rng = random.Random(seed)
    v = Values(rng)
    r = Render(v, rng)
    data, enc = r.doc(c)
    real = read_real(c, rng, data, enc)
    doc = data.decode(enc)
    if real.get('why', '').startswith('crash'):
        return {'doc': doc, 'specified': out, 'real': real}
    if real['ok'] != out['ok']:
        return {'doc': doc, 'specified': out, 'real': real}
    if not out['ok']:
        if out['why'] == 'kind' and (real['why'] != 'kind' or not real['tree']) or (out['why'] != 'kind' and real['why'] == 'kind'):
            return {'doc': doc, 'specified': out, 'real': real}
        return None

    def pairs(atts, src):
        """Attribute dictionary of the specified attributes with the texts that were written."""
        res = {}
        for x in atts:
            t = [y['text'] for y in src if y['n'] == x['n']]
            t = t[0] if t else x['v']   # (assumed capability)
            res[ATTOF.get(x['n'], x['n'])] = int(t) if x['n'] in ('length', 'pri') else t
        return res
    tops = [e for e in c['els'] if e['k'] in ('md',)]
    want = {'ok': True, 'index': out['index'], 'md': {}, 'ln': [], 'entries': []}
    for k, val in pairs(out['md'], tops[0]['a'] if tops else []).items():
        want['md'][{'at': 'md_at', 'completed': 'md_completed', 'from': 'md_from', 'until': 'md_until'}.get(k, k)] = val
    lns = [e for e in c['els'] if e['k'] == 'ln']
    want['ln'] = [pairs(a, e['a']) for a, e in zip(out['ln'], lns)]
    skipped = False
    for e, i in zip(out['entries'], [x for x in c['els'] if x['k'] == 'item']):
        w = {'uri': [x['text'] for x in i['c'] if x['k'] == 'loc'][0], 'ln': []}
        if e['lastmod'] != 'none':
            w['timestamp'] = v.time[e['lastmod']][1]
        md = [x for x in i['c'] if x['k'] == 'md']
        for k, val in pairs(e['atts'], md[0]['a'] if md else []).items():
            if k in TSOF:
                val = v.time[[x['v'] for x in e['atts'] if x['n'] == k][0]][1]
            w[TSOF.get(k, k)] = val
        for alg, key in (('md5', 'md5'), ('sha-1', 'sha1'), ('sha-256', 'sha256')):
            if e['digests'][alg] != 'none':
                w[key] = v.str[e['digests'][alg]].replace(' ', '')
        w['ln'] = [pairs(a, x['a']) for a, x in zip(e['ln'], [x for x in i['c'] if x['k'] == 'ln'])]
        skipped = skipped or e['skipped']
        want['entries'].append(w)
    have = {k: real.get(k) for k in want}
    if not close(want, have):
        return {'doc': doc, 'specified': want, 'real': real}
    if skipped and not real['warned']:
        return {'doc': doc, 'specified': 'a warning about a skipped digest', 'real': real}
    return None


DCFG = 'SPECIFICATION Spec\nCONSTANT Family = "%s"\nINVARIANTS RoundTrip V10 AllEntries\nCHECK_DEADLOCK FALSE\n'


def random_docs(rng, n):
    """Larger random documents, mostly acceptable."""
    def att(n, v):
        return {'n': n, 'v': v, 'h': []}

    def t(p=0.02):
        return 'bad1' if rng.random() < p else rng.choice(['t0', 't1', 't2', 't3'])

    def i():
        return 'bad1' if rng.random() < 0.02 else rng.choice(['i0', 'i1', 'i2', 'i3'])

    def md(p):
        a = []
        for n, f in (('capability', lambda: rng.choice(['resourcelist', 'changelist', 'unknown1'])), ('change', lambda: rng.choice(['created', 'updated', 'deleted'] * 8 + ['bad1'])),
                     ('length', i), ('path', lambda: 's1'), ('type', lambda: 's2'), ('datetime', t), ('at', t), ('completed', t), ('from', t), ('until', t), ('otherattr', lambda: 's3')):
            if rng.random() < p:
                a.append(att(n, f()))
        if rng.random() < p:
            a.append({'n': 'hash', 'v': '', 'h': [list(rng.choice([('md5', 'd1'), ('sha-1', 'd3'), ('sha-256', 'd4'), ('md5', 'd2'), ('unknown', 'd5'), ('plain', 'd6')])) for _ in range(rng.randint(1, 4))]})
        rng.shuffle(a)
        return a

    def ln():
        a = [att('href', 'u30'), att('rel', 's1')]
        if rng.random() < 0.03:
            a.pop(rng.randrange(2))
        for n, f in (('length', i), ('pri', lambda: rng.choice(['p1', 'p2', 'p3'] * 7 + ['badp0', 'badpmax'])), ('modified', lambda: t(0)), ('type', lambda: 's2'), ('path', lambda: 's3')):
            if rng.random() < 0.25:
                a.append(att(n, f()))
        return a
    out = []
    for _ in range(n):
        els = []
        other = {'k': 'other', 'a': [], 'c': []}
        for _ in range(rng.choice([0, 0, 1, 2])):
            els.append({'k': 'ln', 'a': ln(), 'c': []})
        if rng.random() < 0.8:
            els.insert(rng.randint(0, len(els)), {'k': 'md', 'a': md(0.2), 'c': []})
        p = rng.choice([0.1, 0.4, 0.8])
        for k in range(rng.randint(0, 12)):
            c = [{'k': 'loc', 'v': 'u%d' % (rng.randint(1, 20)), 'a': []}]
            if rng.random() < 0.6:
                c.append({'k': 'lastmod', 'v': t(0.01), 'a': []})
            if rng.random() < p:
                c.append({'k': 'md', 'v': '', 'a': md(p)})
            for _ in range(rng.choice([0, 0, 0, 1, 2, 3])):
                c.append({'k': 'ln', 'v': '', 'a': ln()})
            if rng.random() < 0.2:
                c.append({'k': 'other', 'v': '', 'a': []})
            if rng.random() < 0.02:
                c.append(dict(rng.choice(c)))
            if rng.random() < 0.02:
                c.pop(0)
            rng.shuffle(c)
            els.append({'k': 'item', 'a': [], 'c': c})
        for _ in range(rng.choice([0, 0, 1, 2])):
            els.insert(rng.randint(0, len(els)), rng.choice([other, {'k': 'wrongitem', 'a': [], 'c': [{'k': 'loc', 'v': 'u2', 'a': []}]}]))
        if rng.random() < 0.05:
            els.insert(rng.randint(0, len(els)), rng.choice([{'k': 'ln', 'a': ln(), 'c': []}, {'k': 'md', 'a': md(0.1), 'c': []}]))
        out.append({'root': rng.choice(['urlset', 'urlset', 'sitemapindex']), 'want': rng.choice(['any', 'any', 'list', 'index']), 'cap': rng.choice(['none', 'none', 'none', 'resourcelist', 'changelist']),
                    'v10': rng.random() < 0.2, 'els': els})
    return out


def D02(chk):
    """Reading documents."""
    lines = []
    for fam in ('order', 'caps', 'children', 'attrs', 'links'):
        lines += chk.run_tlc('SitemapDoc ' + fam, 'SitemapDoc', DCFG % fam).lines
    path = os.path.join(common.scratch(), 'docs.ndjson')
    common.write_ndjson(path, random_docs(chk.rng, 40000 if common.THOROUGH else 4000))
    lines += chk.run_tlc('SitemapDoc random', 'SitemapDoc', DCFG % 'x', env={'TRACE': path}, timeout=1500).lines
    chk.exhaustive = True
    lines.sort(key=syncdrv.canon)
    reps = 4 if common.THOROUGH else 2
    items = [(x['in'], x['out'], '%d/%d/%d' % (common.SEED, k, i)) for k in range(reps) for i, x in enumerate(lines)]
    acc = 0
    for it, bad in common.pmap(parse_real, items, init=init_docs, chunk=64):
        chk.validated += 1
        acc += it[1]['ok']
        if bad:
            chk.violation('document read differently', {'seed': it[2], 'result': bad})
    chk.extra['accepted'] = acc
    chk.sample({'case': items[5][0], 'specified': items[5][1]})
    k = [x for x in lines if x['out']['ok'] and len(x['in']['els']) > 4][0]
    chk.sample({'case': k['in'], 'specified': k['out']})


# ------------------------------------------------------------------ D01

def instant(text):
    """Instant of a written datetime (independent of the code under test)."""
    import datetime
    return datetime.datetime.fromisoformat(text.replace('Z', '+00:00')).timestamp()


def tree_of(data):
    """Abstract tree of an XML document, read by an independent parser."""
    from xml.dom import minidom
    root = minidom.parseString(data).documentElement

    def text(e):
        return ''.join(x.data for x in e.childNodes if x.nodeType in (x.TEXT_NODE, x.CDATA_SECTION_NODE))

    def atts(e):
        return {k: a.value for k, a in ((a.name, a) for a in e.attributes.values()) if not k.startswith('xmlns')}

    def kids(e):
        return [x for x in e.childNodes if x.nodeType == x.ELEMENT_NODE]
    if root.namespaceURI != SM:
        return {'root': 'foreign'}
    item = {'urlset': 'url', 'sitemapindex': 'sitemap'}.get(root.localName)
    els = []
    for e in kids(root):
        if e.namespaceURI == RS:
            els.append((e.localName, atts(e)))
        elif e.namespaceURI == SM and e.localName == item:
            c = []
            for x in kids(e):
                ns = {SM: '', RS: 'rs:'}.get(x.namespaceURI, '?')
                c.append((ns + x.localName, text(x) if not ns else atts(x)))
            els.append(('item', c))
        else:
            els.append(('?', e.tagName))
    return {'root': root.localName, 'els': els}


CLASSES = ['ListBase', 'ListBaseWithIndex', 'ResourceList', 'ResourceListOrdered', 'ChangeList', 'CapabilityList', 'SourceDescription', 'ResourceDump', 'ChangeDump',
           'ResourceDumpManifest', 'ChangeDumpManifest', 'ResourceListArchive', 'ChangeListArchive', 'ResourceDumpArchive', 'ChangeDumpArchive']
CAPNAME = {'ResourceList': 'resourcelist', 'ResourceListOrdered': 'resourcelist', 'ChangeList': 'changelist', 'CapabilityList': 'capabilitylist', 'SourceDescription': 'description',
           'ResourceDump': 'resourcedump', 'ChangeDump': 'changedump', 'ResourceDumpManifest': 'resourcedump-manifest', 'ChangeDumpManifest': 'changedump-manifest',
           'ResourceListArchive': 'resourcelist-archive', 'ChangeListArchive': 'changelist-archive', 'ResourceDumpArchive': 'resourcedump-archive', 'ChangeDumpArchive': 'changedump-archive'}


def make_container(cls, how, **kw):
    """New container of the named class."""
    import resync
    import resync.archives
    from resync.list_base import ListBase
    from resync.list_base_with_index import ListBaseWithIndex
    from resync.resource_list import ResourceList, ResourceListOrdered
    opts = {}
    if how['v10']:
        opts['spec_version'] = '1.0'
    if how['addlast']:
        opts['add_lastmod'] = True
    opts.update(kw)
    if cls == 'ListBase':
        return ListBase(capability_name=how['cap'], **opts)
    if cls == 'ListBaseWithIndex':
        return ListBaseWithIndex(capability_name=how['cap'], **opts)
    if cls == 'ResourceListOrdered':
        return ResourceList(resources_class=ResourceListOrdered, **opts)
    mod = getattr(resync, cls, None) or getattr(resync.archives, cls, None)
    if mod is None:
        import importlib
        name = {'ResourceDumpManifest': 'resource_dump_manifest', 'ChangeDumpManifest': 'change_dump_manifest'}[cls]
        mod = getattr(importlib.import_module('resync.' + name), cls)
    return mod(**opts)


def now_real(cls, how, rng):
    """Times of a list given as 'now', as text or as a number."""
    from resync.w3c_datetime import datetime_to_str
    con = make_container(cls, how)
    names = ['from', 'until', 'at', 'completed']
    rng.shuffle(names)
    past = rng.choice([0, 1.5, 1e9, 1234567890.25])
    t0 = time.time()
    given = [('now', None), (past, past), (datetime_to_str(past), past), ('now', None)][:rng.randint(1, 4)]
    for n, (x, t) in zip(names, given):
        setattr(con, 'md_' + n, x)
    t1 = time.time()
    tree = tree_of(con.as_xml().encode('utf-8'))
    md = [x[1] for x in tree['els'] if x[0] == 'md']
    res = {'class': cls, 'given': list(zip(names, given)), 'seen': md}
    try:
        for n, (x, t) in zip(names, given):
            y = instant(md[0][n])
            if y != instant(getattr(con, 'md_' + n)) or not (t0 - 1e-3 <= y <= t1 + 1e-3 if t is None else y == t):
                return dict(res, bad='time of the list', attribute=n)
    except Exception as e:
        return dict(res, bad='time of the list is no datetime', problem=str(e))
    return None


def write_real(arg):
    """Write a list with the real code, read it independently and with the real code; None or the disagreement."""
    c, out, seed = arg
    from resync.resource import Resource
    from resync.sitemap import Sitemap
    rng = random.Random(seed)
    v = Values(rng, writing=True)
    for k in v.str:
        v.str[k] = v.str[k].replace('\t', rng.choice(['\t', '\n', 'x']) if k[0] == 's' else 'x')
    how = c['how']
    cls = c.get('cls') or rng.choice(['ListBase', 'ListBaseWithIndex'])
    hashtext = {}

    def val(n, s):
        """Python value of an attribute of an entry or a link."""
        if s in v.int:
            return v.int[s]
        if s in v.pri:
            return v.pri[s]
        if s in v.time:
            return v.time[s][1]
        return v.str.get(s, s)

    def link(a):
        d = {}
        for x in a:
            y = val(x['n'], x['v'])
            if x['n'] == 'modified':
                y = textof(x['v'])
            d[ATTOF.get(x['n'], x['n'])] = y if rng.random() < 0.7 else str(y)
        return d

    def textof(t):
        from resync.w3c_datetime import datetime_to_str
        return datetime_to_str(v.time[t][1])
    if rng.random() < 0.04 and 'v10' in how and not how['v10']:
        bad = now_real(cls, how, rng)
        if bad:
            return bad
    con = make_container(cls, how)
    con.pretty_xml = rng.random() < 0.5
    for x in c['l']['md']:
        if x['n'] == 'capability':
            if rng.random() < 0.5 or CAPNAME.get(cls, how['cap']) != x['v']:
                con.capability = x['v']
        elif rng.random() < 0.5:
            setattr(con, 'md_' + x['n'], v.time[x['v']][1])
        else:
            con.md['md_' + x['n']] = textof(x['v'])
    for a in c['l']['ln']:
        con.ln.append(link(a))
    for e in c['l']['entries']:
        kw = {}
        if e['lastmod'] != 'none':
            kw['timestamp'] = v.time[e['lastmod']][1]
        for x in e['atts']:
            if x['n'] == 'hash':
                for alg, d in x['h']:
                    kw[{'md5': 'md5', 'sha-1': 'sha1', 'sha-256': 'sha256'}[alg]] = v.str[d].replace(' ', '')
            elif x['n'] in TSOF:
                kw[TSOF[x['n']]] = val(x['n'], x['v'])
            else:
                kw[ATTOF.get(x['n'], x['n'])] = val(x['n'], x['v'])
        if e['ln']:
            kw['ln'] = [link(a) for a in e['ln']]
        if rng.random() < 0.3:
            # by way of the text accessors
            for k, n in (('timestamp', 'lastmod'), ('ts_datetime', 'datetime'), ('ts_at', 'md_at'), ('ts_completed', 'md_completed'), ('ts_from', 'md_from'), ('ts_until', 'md_until')):
                if k in kw:
                    from resync.w3c_datetime import datetime_to_str
                    kw[n] = datetime_to_str(kw.pop(k))
        con.add(Resource(v.str[e['loc']], **kw))
    d = common.worker_dir()
    path = os.path.join(d, 'out.xml')
    if how['index']:
        con.sitemapindex = True
    mode = rng.choice(['as_xml', 'write', 'write', 'sitemap'] + (['index'] if how['index'] and hasattr(con, 'index_as_xml') else []))
    before = [project(r) for r in con]
    if mode == 'as_xml':
        data = con.as_xml().encode('utf-8')
    elif mode == 'index':
        data = con.index_as_xml().encode('utf-8')
    elif mode == 'sitemap':
        con.default_capability()
        data = Sitemap(pretty_xml=con.pretty_xml, spec_version='1.0' if how['v10'] else '1.1', add_lastmod=how['addlast']).resources_as_xml(con, sitemapindex=how['index']).encode('utf-8')
    else:
        con.write(path)
        data = open(path, 'rb').read()
    res = {'class': cls, 'mode': mode, 'doc': data.decode('utf-8', 'replace')}
    if before != [project(r) for r in con]:
        res['bad'] = 'writing altered the entries'
        return res
    # 1. by an independent reader
    try:
        tree = tree_of(data)
    except Exception as e:
        res['bad'] = 'not well-formed: ' + str(e)
        return res

    def same(n, x, text):
        """True if text is the value of specified attribute x."""
        if x['h']:
            return set(text.split()) == set(a + ':' + v.str[b].replace(' ', '') for a, b in x['h']) and len(text.split()) == len(x['h'])
        if x['v'] in v.time:
            try:
                return abs(instant(text) - v.time[x['v']][1]) < 6e-7
            except ValueError:
                return False
        return text == str(val(n, x['v']))

    def same_atts(a, t):
        return set(x['n'] for x in a) == set(t) and all(same(x['n'], x, t[x['n']]) for x in a)
    spec = out['tree']
    ok = tree['root'] == spec['root'] and len(tree['els']) == len(spec['els'])
    # (the specified order of links and metadata before the entries is not prescribed)
    for k in ('ln', 'md', 'item'):
        te = [x for x in tree.get('els', []) if x[0] == k]
        se = [x for x in spec['els'] if x['k'] == k]
        ok = ok and len(te) == len(se)
        for t, s in zip(te, se):
            if k != 'item':
                ok = ok and same_atts(s['a'], t[1])
            else:
                kinds = {'loc': [], 'lastmod': [], 'rs:md': [], 'rs:ln': []}
                for n, x in t[1]:
                    kinds.setdefault(n, []).append(x)
                ok = ok and set(kinds) == {'loc', 'lastmod', 'rs:md', 'rs:ln'}
                for n in ('loc', 'lastmod', 'md', 'ln'):
                    sc = [y for y in s['c'] if y['k'] == n]
                    tc = kinds[n if n in ('loc', 'lastmod') else 'rs:' + n]
                    ok = ok and len(sc) == len(tc) and all(
                        (same_atts(y['a'], z) if n in ('md', 'ln') else same(n, {'h': [], 'v': y['v']}, z)) for y, z in zip(sc, tc))
    seen = [x[0] for x in tree.get('els', [])]
    if 'item' in seen and set(seen[seen.index('item'):]) != {'item'}:
        ok = False
    if not ok:
        res.update({'bad': 'independent reader sees something else', 'specified': spec, 'seen': tree, 'times': v.time})
        return res
    # 2. by the library
    if mode != 'write':
        open(path, 'wb').write(data)
    back = make_container(cls, {'v10': False, 'addlast': False, 'cap': how['cap']})
    if out['meant']['md'] and rng.random() < 0.3:   # what the list says of itself is what was read last
        back.md[rng.choice(['md_at', 'md_completed', 'md_from', 'md_until'])] = '2000-01-01T00:00:00Z'
    if how['index']:
        if hasattr(back, 'allow_multifile'):
            back.read(uri=path, index_only=True)
        else:
            Sitemap().parse_xml(fh=open(path, 'rb'), resources=back, capability=how['cap'], sitemapindex=True)
    elif rng.random() < 0.5:
        back.read(uri=path)
    else:
        back.parse(str_data=data.decode('utf-8'))
    m = out['meant']
    probs = []

    def same_link(a, x):
        return set(ATTOF.get(y['n'], y['n']) for y in a) == set(x) and all(same(y['n'], y, str(x[ATTOF.get(y['n'], y['n'])])) for y in a)
    if len(list(back)) != len(m['entries']):
        probs.append('number of entries')
    for r, e in zip(back, m['entries']):
        w = {'uri': v.str[e['loc']]}
        if e['lastmod'] != 'none':
            w['timestamp'] = v.time[e['lastmod']][1]
        for x in e['atts']:
            w[TSOF.get(x['n'], ATTOF.get(x['n'], x['n']))] = val(x['n'], x['v'])
        for alg, key in (('md5', 'md5'), ('sha-1', 'sha1'), ('sha-256', 'sha256')):
            if e['digests'][alg] != 'none':
                w[key] = v.str[e['digests'][alg]].replace(' ', '')
        p = project(r)
        lns = p.pop('ln')
        if not close(w, p):
            probs.append({'want': w, 'got': p})
        if len(lns) != len(e['ln']) or not all(same_link(a, x) for a, x in zip(e['ln'], lns)):
            probs.append({'links': lns})
        # and the text accessors denote the same
        for k, n in (('timestamp', 'lastmod'), ('ts_datetime', 'datetime'), ('ts_from', 'md_from'), ('ts_until', 'md_until'), ('ts_at', 'md_at'), ('ts_completed', 'md_completed')):
            t = getattr(r, n)
            if (t is None) != (k not in w) or (t is not None and abs(instant(t) - w[k]) > 6e-7):
                probs.append({'accessor': n, 'value': t})
    md = {k: t for k, t in back.md.items() if t is not None}
    want = {('md_' + x['n'] if x['n'] in TSOF else x['n']): x for x in m['md']}
    if set(md) != set(want) or not all(same(k, want[k], md[k]) for k in md):
        probs.append({'md': back.md})
    if len(back.ln) != len(m['ln']) or not all(same_link(a, x) for a, x in zip(m['ln'], back.ln)):
        probs.append({'ln': back.ln})
    if probs:
        res.update({'bad': 'read back differently', 'problems': probs})
        return res
    return None


def random_lists_to_write(rng, n):
    """Larger random lists of all document types."""
    def att(n, v):
        return {'n': n, 'v': v, 'h': []}

    def ln():
        a = [att('rel', 's1'), att('href', 'u%d' % rng.randint(30, 39))]
        for k, f in (('length', ['i0', 'i1', 'i2', 'i3']), ('pri', ['p1', 'p2', 'p3']), ('modified', ['t0', 't1', 't2', 't3']), ('type', ['s2']), ('path', ['s3']), ):
            if rng.random() < 0.3:
                a.append(att(k, rng.choice(f)))
        if rng.random() < 0.2:
            a.append({'n': 'hash', 'v': '', 'h': [['md5', 'd1']]})
            a[-1] = att('hash', 'd2')
        return a
    out = []
    for _ in range(n):
        cls = rng.choice(CLASSES)
        cap = CAPNAME.get(cls) or rng.choice(['resourcelist', 'changelist', 'description', 'changedump'])
        v10 = rng.random() < 0.25
        how = {'index': rng.random() < 0.25, 'v10': v10, 'addlast': rng.random() < 0.25, 'cap': cap}
        md = [att('capability', cap)]
        for k in ('at', 'completed', 'from', 'until'):
            if rng.random() < 0.25 and not (cls == 'SourceDescription' and k == 'from' and False):
                md.append(att(k, rng.choice(['t0', 't1', 't2', 't3'])))
        us = rng.sample(range(1, 30), rng.choice([0, 1, 2, 5, 12]))
        if cls in ('ResourceList', 'SourceDescription', 'ResourceDump', 'ChangeDump', 'ResourceDumpManifest', 'CapabilityList'):
            us.sort()
        elif cls in ('ChangeList', 'ChangeDumpManifest', 'ListBase') and len(us) > 2:
            us[1] = us[0]
        p = rng.choice([0.1, 0.5, 0.9])
        es = []
        for u in us:
            a = []
            for k, f in (('change', ['created', 'updated', 'deleted']), ('length', ['i0', 'i1', 'i2', 'i3']), ('datetime', ['t0', 't1', 't2', 't3']), ('path', ['s1', 's2']), ('type', ['s3']),
                         ('at', ['t0', 't1']), ('completed', ['t1']), ('from', ['t2', 't3']), ('until', ['t3'])):
                if (rng.random() < p) or (k == 'change' and cls in ('ChangeList', 'ChangeDumpManifest')):
                    a.append(att(k, rng.choice(f)))
            if cls == 'CapabilityList' or rng.random() < 0.1:
                a.append(att('capability', 'changelist'))
            h = [t for t in (['md5', 'd1'], ['sha-1', 'd2'], ['sha-256', 'd3']) if rng.random() < 0.3]
            if h:
                a.append({'n': 'hash', 'v': '', 'h': h})
            es.append({'loc': 'u%d' % u, 'lastmod': rng.choice(['none', 't0', 't1', 't2']), 'atts': a, 'ln': [ln() for _ in range(rng.choice([0, 0, 0, 1, 3]))]})
        out.append({'l': {'md': md, 'ln': [ln() for _ in range(rng.choice([0, 0, 1, 2]))], 'entries': es}, 'how': how, 'cls': cls})
    return out


def D01(chk):
    """Writing documents and reading them back."""
    lines = chk.run_tlc('SitemapDoc write', 'SitemapDoc', DCFG % 'write').lines
    path = os.path.join(common.scratch(), 'docs.ndjson')
    common.write_ndjson(path, random_lists_to_write(chk.rng, 40000 if common.THOROUGH else 6000))
    lines += chk.run_tlc('SitemapDoc random lists', 'SitemapDoc', DCFG % 'x', env={'TRACE': path}, timeout=1500).lines
    chk.exhaustive = True
    lines.sort(key=syncdrv.canon)
    items = [(x['in'], x['out'], '%d/%d/%d' % (common.SEED, k, i)) for k in range(3 if common.THOROUGH else 1) for i, x in enumerate(lines)]
    for it, bad in common.pmap(write_real, items, init=init_docs, chunk=64):
        chk.validated += 1
        if bad:
            chk.violation('document is not what was to be written', {'seed': it[2], 'case': it[0], 'result': bad})
    chk.sample({'case': items[5][0], 'specified': items[5][1]})
