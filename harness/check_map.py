"""M01 and part of S07 (Mapper.tla, Paths.tla)."""
import json
import logging
import os
import random
import shutil
import sys

import common
import syncdrv
from check_hist import compare

CFG = '''SPECIFICATION Spec
CONSTANTS Family = "%s"
 Alphabet = {%s}
 PLen = %d
 SLen = %d
INVARIANTS RoundTrip Inside Slashes
CHECK_DEADLOCK FALSE
'''


def init():
    """Import the code under test in a worker."""
    common.use_repo()
    import resync  # noqa
    import resync.client  # noqa
    logging.getLogger('resync').addHandler(logging.NullHandler())
    logging.getLogger('resync').propagate = False


def vary(c):
    """A random concretisation of the abstract characters, the same for the whole case."""
    rng = random.Random(json.dumps(c))
    pool = ['x', 'A', '+', '(', ')', '[', ']', '{2}', '*', '?', '^', '$', '|', '\\', '\\d', 'é', '%41', '%2F', '%2e', '\n', ' ', '#', '&', ';', ':', '~',
            '日本', 'b' * 50, '\\Z', '\u2028', '(?i)', '\x00']
    a, b = rng.sample(pool, 2)
    return {'a': a, 'b': b, 'Q': 'q', '1': 'q1', '3': 'q(', '5': 'q[', '.': '.', '/': '/', '=': '='}, rng


def translate_real(c):
    """Translations of many texts by one set of mappings."""
    from resync.mapper import Mapper, MapperError
    cmap, rng = vary(c['in'])
    lead = rng.choice(['', '', 'http://h.org', 'http://h.org/p', 'file:', '/d', 'https://u@h:80/~z', 'h.c+'])

    def con(t):
        return ''.join(cmap[x] for x in t)
    qs = ['Q', '1', '3', '5']
    fwd = [(lead + con(p), con(qs[i])) for i, p in enumerate(c['in']['maps'])]
    bwd = [(d, s) for s, d in fwd]
    out = c['out']
    res = {}
    try:
        ms = []
        for pairs in (fwd, bwd):
            if len(pairs) == 1 and rng.random() < 0.5:
                ms.append(Mapper([pairs[0][0], pairs[0][1]]))
            else:
                ms.append(Mapper([s + '=' + d for s, d in pairs], use_default_path=rng.random() < 0.5))
    except MapperError:
        return None if out['dup'] else {'error': 'mapping refused', 'maps': fwd}
    if out['dup']:
        return {'error': 'duplicate mapping accepted', 'maps': fwd}
    if [len(m) for m in ms] != [len(fwd)] * 2:
        return {'error': 'number of mappings', 'maps': fwd}

    def call(fn, x):
        try:
            return fn(x)
        except MapperError:
            return None
    for s, d, u in zip(out['strs'], out['dst'], out['src']):
        wd = None if d == ['FAIL'] else con(d)
        # an abstract character may itself be a dot-dot segment only if both are dots
        gd = call(ms[0].src_to_dst, lead + con(s))
        if gd != wd:
            return {'error': 'src_to_dst', 'maps': fwd, 'of': lead + con(s), 'specified': wd, 'real': gd}
        wu = None if u == ['FAIL'] else con(u)
        gu = call(ms[1].dst_to_src, lead + con(s))
        if gu != wu:
            return {'error': 'dst_to_src', 'maps': bwd, 'of': lead + con(s), 'specified': wu, 'real': gu}
    if ms[0].default_src_uri().rstrip('/') != fwd[0][0].rstrip('/'):
        return {'error': 'default source', 'real': ms[0].default_src_uri()}
    return None if not res else res


def parse_real(c):
    """Mapping arguments."""
    from resync.mapper import Mapper, MapperError
    cmap, rng = vary(c['in'])
    cmap['Q'] = 'Q'
    args = [''.join(cmap[x] for x in a) for a in c['in']['args']]
    out = c['out']
    try:
        m = Mapper(list(args))
        ok = True
    except MapperError:
        m, ok = None, False
    if ok != out['ok']:
        return {'error': 'accepted' if ok else 'refused', 'args': args}
    if not ok:
        return None
    if len(m) != len(out['maps']):
        return {'error': 'number of mappings', 'args': args, 'real': len(m)}
    # judged by translating something below every prefix: the first mapping covering it decides
    for e in out['maps']:
        s, d = (''.join(cmap[x] for x in e[k]) for k in 'sd')
        one = Mapper([args[i] for i in [out['maps'].index(e)]]) if len(out['maps']) > 1 else m
        if one.src_to_dst(s + '/k') != d + '/k' or one.dst_to_src(d + '/k') != s + '/k':
            return {'error': 'meaning', 'args': args, 'real': [one.src_to_dst(s + '/k'), one.dst_to_src(d + '/k')]}
    return None


WORD = 'abcXYZ019é日'
OTHER = ' !"#$%&\'()*+,/:;<>?@[]^`{|}~\n\t\x00\\'


def derive_real(seed):
    """Path derived from a source URI (the text, as character classes for the specification)."""
    from resync.mapper import Mapper, MapperError
    rng = random.Random(seed)

    def piece(n, chars):
        return ''.join(rng.choice(chars) for _ in range(rng.randint(0, n)))
    k = rng.random()
    if k < 0.8:
        host = rng.choice(['e.org', 'e.org:80', 'u:p@e', '..', '.', '_', '-', 'e..', '...x', '%2e%2e', 'É', '~', '*', ''])
        if rng.random() < 0.3:
            host = piece(5, WORD + '._-' + '~!$&')
        uri = rng.choice(['http', 'https', 'ftp']) + '://' + host + rng.choice(['', '/', '//', '/..', '/../', '/.']) + \
            piece(12, WORD + '/.._--' + rng.choice(['', OTHER]))
    else:
        uri = rng.choice(['/', '', '.', '..', 'a/b', '/a/b/', 'a b', 'file:/a', '../x', './/y'])
    uri = uri.replace('=', '')
    from urllib.parse import urlparse
    try:
        local = urlparse(uri).netloc == ''
    except ValueError:
        return None
    try:
        m = Mapper([uri], use_default_path=True)
    except MapperError:
        # no name can be derived from nothing
        from urllib.parse import urlparse
        p = urlparse(uri)
        return {'uri': list(uri), 'local': local, 'words': sum(ch in WORD for ch in p.netloc + p.path), 'path': [], 'tail': True, 'refused': True, 'host': uri}
    try:
        got = m.src_to_dst(uri.rstrip('/') + '/k')
    except MapperError:
        if '..' in uri.split('/'):
            return None
        raise
    d = got[:-2]
    return {'uri': list(uri), 'local': local, 'words': 1, 'refused': False, 'path': list(d), 'tail': got[-2:] == '/k', 'host': uri}


def M01(chk):
    """Mappings."""
    alpha = '"a", ".", "/"'
    T = common.THOROUGH
    lines = chk.run_tlc('Mapper translate', 'Mapper', CFG % ('translate', alpha, 3, 4 if not T else 5), timeout=2000).lines
    lines += chk.run_tlc('Mapper translate literal', 'Mapper', CFG % ('translate', '"a", "b", "/"', 2 if not T else 3, 4), timeout=2000).lines
    chk.exhaustive = True
    path = os.path.join(common.scratch(), 'maps.ndjson')
    recs = []
    for _ in range(20000 if T else 2000):
        def txt(n):
            return [chk.rng.choice('aab..//') for _ in range(chk.rng.randint(0, n))]
        maps = [txt(6) for _ in range(chk.rng.randint(1, 4))]
        if chk.rng.random() < 0.5:
            for i in range(1, len(maps)):
                maps[i] = maps[chk.rng.randrange(i)] + txt(3)
        strs = []
        for _ in range(8):
            strs.append(chk.rng.choice(maps) + chk.rng.choice([[], ['/']]) + txt(6))
        recs.append({'maps': maps, 'strs': strs})
    common.write_ndjson(path, recs)
    lines += chk.run_tlc('Mapper long', 'Mapper', CFG % ('translate', alpha, 1, 1), env={'TRACE': path}, timeout=2000).lines
    n = 0
    for x, bad in common.pmap(translate_real, lines, init=init, chunk=32):
        chk.validated += 2 * len(x['out']['strs']) or 1
        n += 1
        if bad:
            chk.violation('translation differs from the specified one', bad)
        elif n % 997 == 3:
            chk.sample({'maps': x['in']['maps'], 'strs': x['out']['strs'][5:8], 'dst': x['out']['dst'][5:8]})
    lines = chk.run_tlc('Mapper parse', 'Mapper', CFG % ('parse', '"a", "=", "/"', 3, 1), timeout=2000).lines
    recs = []
    for _ in range(20000 if T else 3000):
        def arg():
            a = [chk.rng.choice('ab./') for _ in range(chk.rng.randint(0, 5))]
            for _ in range(chk.rng.choice([0, 1, 1, 1, 1, 1, 1, 1, 1, 2])):
                a.insert(chk.rng.randint(0, len(a)), '=')
            return a
        recs.append({'args': [arg() for _ in range(chk.rng.randint(1, 5))], 'strs': []})
    common.write_ndjson(path, recs)
    lines += chk.run_tlc('Mapper parse long', 'Mapper', CFG % ('parse', alpha, 1, 1), env={'TRACE': path}, timeout=2000).lines
    for x, bad in common.pmap(parse_real, lines, init=init, chunk=64):
        chk.validated += 1
        if bad:
            chk.violation('mapping arguments treated differently from the specification', dict(bad, specified=x['out']))
    # derived paths: recorded, then judged by the specification
    recs = []
    for _, r in common.pmap(derive_real, ['%s-%d' % (chk.prop, i) for i in range(40000 if T else 6000)], init=init, chunk=128):
        if r is not None:
            recs.append(r)
    common.write_ndjson(path, [{'c': [cls(ch) for ch in r['path']], 'same': r['path'] == list(''.join(r['uri']).rstrip('/')),
                               'local': r['local'], 'words': r['words'], 'refused': r['refused'], 'tail': r['tail'], 'i': i} for i, r in enumerate(recs)])
    for x in chk.run_tlc('derived names', 'SafeName', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', env={'TRACE': path}, timeout=1500, judge=True).lines:
        chk.validated += 1
        if x['bad']:
            chk.violation('derived path is not a single safe relative name', {'uri': recs[x['i']]['host'], 'path': ''.join(recs[x['i']]['path']), 'why': x['bad']})


def cls(ch):
    """Character class."""
    return ch if ch in '/._-' else 'w' if ch.isalnum() else 'o'


# ---------------------------------------------------------------- S07

def init_web():
    """Import the code and start a web."""
    init()
    import web
    import effects
    effects.install()
    _W['web'] = web.Web()
    _W['web'].use_as_proxy()
    # loaded now so that nothing is imported while effects are watched
    import resync.client  # noqa
    import urllib.request  # noqa
    import encodings.idna  # noqa


_W = {}


class Any(dict):
    """Routes that answer everything."""

    def get(self, k, d=None):
        """The answer to any request."""
        return dict.get(self, k) or {'body': b'fetched'}


def tree(root):
    """Files (bytes, mtime) and directories below root."""
    out = {}
    for d, dirs, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[p] = (fh.read(), os.lstat(p).st_mtime_ns)
    return out


def lists(uris, changes, prefix):
    """XML of a list."""
    from xml.sax.saxutils import escape
    rows = []
    for i, u in enumerate(uris):
        md = ' change="%s" datetime="2001-01-01T00:00:%02dZ"' % (changes[i], i) if changes else ''
        rows.append('<url><loc>%s</loc><lastmod>2001-01-01T00:00:%02dZ</lastmod>%s</url>' % (escape(u), i, '<rs:md%s/>' % md if md else ''))
    return ('<urlset xmlns="%s" xmlns:rs="%s"><rs:md capability="%s"/>%s</urlset>' %
            (syncdrv.SM, syncdrv.RS, 'changelist' if changes else 'resourcelist', ''.join(rows))).encode('utf-8')


PIECES = ['..', '..', '..', '.', '', 'a', 'b.txt', 'evil', 'w', 'dst', 'other', 'sub', '%2e%2e', '%2E.', '..%2f..', '...', '..a', 'a..', 'q?x=../../evil', 'q?/../../evil',
          'f#/../../evil', '\\..\\evil', '~', '%00', ';..', '..;a', '.hidden', 'e%C3%A9', '*', '&', "'", 'x=1', ':80', 'c:', '-rf', 'etc']


def hostile_real(seed):
    """One synchronization over a hostile listing; the record for the specification."""
    import effects
    from resync.client import Client
    rng = random.Random(seed)
    top = os.path.join(common.worker_dir(), 't')
    shutil.rmtree(top, ignore_errors=True)
    cwd = os.path.join(top, 'w')
    os.makedirs(cwd)
    for p in ('evil', 'a', 'w/evil', 'w/a', 'w/b.txt', 'w/etc', 'w/x'):
        with open(os.path.join(top, p), 'w') as fh:
            fh.write('bystander')
        os.utime(os.path.join(top, p), (5, 5))
    os.chdir(cwd)
    host = 'http://h.example.org'
    pool = [(host, 'dst'), (host + '/data', 'other/dir'), (host + '/x/y', 'dst2'), ('http://sub.h.example.org', 'dst/sub'), (host + '/data/deep', 'dst.x'), (host + '/..', 'odd')]
    maps = rng.sample(pool, rng.choice([1, 1, 2, 3]))
    style = rng.choice(['rel', 'abs', 'dots'])
    texts = []
    for s, d in maps:
        full = os.path.join(cwd, d)
        texts.append({'s': s + rng.choice(['', '/']), 'd': full})
    args = [(t['s'], {'rel': d, 'abs': t['d'], 'dots': './' + d + '/'}[style]) for t, (_, d) in zip(texts, maps)]
    uris, n = [], rng.randint(1, 6)
    pieces, near = PIECES, 0.85
    if rng.random() < 0.6:
        pieces, near = [x for x in PIECES if x not in ('..', '.', '', '%00')], 1
    if rng.random() < 0.3:
        pieces = [x for x in pieces if not x.isalpha() or len(x) > 1]
    while len(uris) < n:
        k = rng.random()
        base = rng.choice(maps)[0] if k < near else rng.choice([host, 'http://other.example.org', 'http://h.example.org.evil', 'https://h.example.org', 'http://h.example.orgx', 'ftp://h.example.org'])
        u = base + '/' + '/'.join(rng.choice(pieces) for _ in range(rng.randint(1, 5)))
        if near < 1 and rng.random() < 0.03:
            u = rng.choice(['../../evil', '/etc/x', 'evil', os.path.join(top, 'evil'), 'file://' + os.path.join(top, 'evil'), host, host + '/'])
        if u not in uris and u.strip() == u:
            uris.append(u)
    op = rng.choice(['baseline', 'incremental'])
    changes = [rng.choice(['created', 'updated', 'deleted']) for _ in uris] if op == 'incremental' else None
    dele = rng.random() < 0.6
    for t in texts:
        for f in rng.sample(['a', 'evil', 'sub/b.txt', 'old', 'e/f/g', '...', 'w'], rng.randint(0, 4)):
            p = os.path.join(t['d'], f)
            try:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as fh:
                    fh.write('local')
                os.utime(p, (7, 7))
            except OSError:
                pass
    w = _W['web']
    w.reset()
    w.routes = Any({'http://lists.example.org/l.xml': {'body': lists(uris, changes, host)}})
    c = Client()
    try:
        c.set_mappings(['%s=%s' % a for a in args])
    except Exception as e:
        raise common.MachineryError('mapping refused: %r' % e)
    c.sitemap_name = 'http://lists.example.org/l.xml'
    c.noauth = True
    c.ignore_failures = rng.random() < 0.7
    c.tries = 1
    c.timeout = 20
    before = tree(top)
    eff = []
    state = os.path.join(cwd, '.resync-client-status.cfg')

    def seen(kind, p):
        if not p.startswith(state):
            eff.append((kind, p))
    err = None
    try:
        with effects.watch(top, seen):
            if op == 'baseline':
                c.baseline_or_audit(allow_deletion=dele)
            else:
                c.incremental(allow_deletion=dele, change_list_uri='http://lists.example.org/l.xml', from_datetime='2000-01-01')
    except Exception as e:
        err = '%s: %s' % (type(e).__name__, str(e)[:200])
    after = tree(top)
    after.pop(state, None)
    keep = [u for i, u in enumerate(uris) if not changes or changes[i] != 'deleted']

    def segs(p):
        return [list(s) for s in p.split('/') if s]
    rec = {'maps': [{'s': list(t['s']), 'd': list(t['d'])} for t in texts], 'uris': [list(u) for u in keep],
           'gone': [list(u) for i, u in enumerate(uris) if changes and changes[i] == 'deleted'],
           'effects': [{'k': k, 'p': segs(p)} for k, p in sorted(set(eff))],
           'made': [segs(p) for p in after if after[p] != before.get(p)], 'lost': [segs(p) for p in before if p not in after],
           'ended': 'error' if err else 'ok', 'op': op, 'del': dele, 'must': True}
    info = {'seed': seed, 'maps': args, 'uris': uris, 'changes': changes, 'delete': dele, 'error': err, 'effects': sorted(set(eff)),
            'made': sorted(p for p in after if after[p] != before.get(p)), 'lost': sorted(p for p in before if p not in after)}
    return rec, info


def unsafe_real(arg):
    """Mapping with the given spellings: judged unsafe, refused by baseline and incremental, audited."""
    c, out, seed = arg
    from resync.client import Client
    from resync.mapper import Mapper
    rng = random.Random(seed)
    top = os.path.join(common.worker_dir(), 'u')
    cwd = os.path.join(top, 'w')
    shutil.rmtree(top, ignore_errors=True)
    for d in ('a/x', 'b'):
        os.makedirs(os.path.join(cwd, d))
    os.symlink('a', os.path.join(cwd, 'l'))
    os.symlink('../a/x', os.path.join(cwd, 'b/m'))
    os.symlink('.', os.path.join(cwd, 'a/t'))
    for f in ('a/x/f', 'a/g', 'b/h'):
        with open(os.path.join(cwd, f), 'w') as fh:
            fh.write(f)
    os.chdir(cwd)

    def text(x):
        segs = list(x['segs'])
        return (top + '/' if x['abs'] else '') + '/'.join(segs)
    s, d = text(c['s']), text(c['d'])
    if c['kind'] == 'file':
        s = rng.choice(['file://', 'file://', 'file:']) + s
    elif c['kind'] == 'http':
        s = 'http://h.example.org' + '/' + '/'.join(c['s']['segs'])
    res = {'source': s, 'destination': d, 'specified': out}
    more = [('http://x.example.org', 'zz')] if rng.random() < 0.4 else []
    maps = more + [(s, d)]
    if rng.random() < 0.5:
        maps = maps[::-1]
    args = ['%s=%s' % m for m in maps] if more or rng.random() < 0.5 else list(maps[0])
    if bool(Mapper(args).unsafe()) != out['unsafe']:
        return dict(res, bad='unsafe() differs', real=not out['unsafe'])
    if rng.random() < 0.75:
        return None
    # the client: lists of one resource that is already there, so that nothing needs to be done
    lst = os.path.join(top, 'list.xml')
    uri = s.rstrip('/') + '/zzz'
    with open(lst, 'wb') as fh:
        fh.write(lists([uri], None, ''))
    chl = os.path.join(top, 'changes.xml')
    with open(chl, 'wb') as fh:
        fh.write(lists([uri], ['deleted'], ''))

    def client():
        cl = Client()
        cl.set_mappings(list(args))
        cl.sitemap_name = lst
        cl.noauth = True
        cl.dryrun = True
        return cl
    before = tree(top)
    for what, fn in (('audit', lambda: client().baseline_or_audit(audit_only=True)),
                     ('baseline', lambda: client().baseline_or_audit(allow_deletion=True)),
                     ('incremental', lambda: client().incremental(allow_deletion=True, change_list_uri=chl, from_datetime='2000'))):
        try:
            fn()
            err = None
        except Exception as e:
            err = '%s: %s' % (type(e).__name__, str(e)[:200])
        want = out['unsafe'] and what != 'audit'
        if (err is not None) != want:
            return dict(res, bad=what + (' not refused' if want else ' refused'), error=err)
        if tree(top) != before:
            return dict(res, bad=what + ' changed files')
    if rng.random() < 0.1:
        for fn in (lambda: Client().baseline_or_audit(), lambda: Client().incremental(from_datetime='2000'), lambda: Client().baseline_or_audit(audit_only=True)):
            try:
                fn()
                return dict(res, bad='ran without mapping')
            except Exception as e:
                if type(e).__name__ != 'ClientFatalError':
                    raise
    return None


PCFG = '''SPECIFICATION Spec
CONSTANTS Names = {%s}
 MaxLen = %d
 Kinds = {%s}
INVARIANT Idempotent
CHECK_DEADLOCK FALSE
'''


def S07(chk):
    """Containment."""
    T = common.THOROUGH
    runs = [('"a","b","l","n","..",""', 2, '"path","file","http"'), ('"a","x","t","."', 2, '"path"'), ('"b","m",".."', 2, '"path","file"'), ('"a","..","l"', 3, '"path"')]
    if T:
        runs += [('"a","x","l","..","t"', 3, '"path"'), ('"b","m","..","a","."', 3, '"file"')]
    lines = []
    for names, ln, kinds in runs:
        lines += chk.run_tlc('Paths ' + names, 'Paths', PCFG % (names, ln, kinds), timeout=2500).lines
    seen = {syncdrv.canon(x): x for x in lines}
    lines = [seen[k] for k in sorted(seen)]
    if not T and len(lines) > 16000:
        lines = chk.rng.sample(lines, 16000)
    else:
        chk.exhaustive = True
    # the root directory is a parent of everything (only judged, nothing is run)
    items = [(x['in'], x['out'], '%d-u%d' % (common.SEED, i)) for i, x in enumerate(lines)]
    for it, bad in common.pmap(unsafe_real, items, init=init_web, chunk=32):
        chk.validated += 1
        if bad:
            chk.violation('mapping ' + bad['bad'], bad)
    for _, bad in common.pmap(root_real, [('/', 'd'), ('///', '/tmp'), ('a', '/'), ('/usr', '/'), ('file:///usr/lib', '//'), ('file:///', 'd'), ('file:/', '/usr'), ('http://h/', '/')], init=init, chunk=1):
        chk.validated += 1
        if bad:
            chk.violation('root directory', bad)
    recs, infos = [], []
    for _, (rec, info) in common.pmap(hostile_real, ['%d-%s-%d' % (common.SEED, chk.prop, i) for i in range(20000 if T else 4000)], init=init_web, chunk=16):
        rec['i'] = len(recs)
        recs.append(rec)
        infos.append(info)
    path = os.path.join(common.scratch(), 'paths.ndjson')
    common.write_ndjson(path, recs)
    n = 0
    for x in chk.run_tlc('PathsTrace', 'PathsTrace', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', env={'TRACE': path}, timeout=2500, judge=True).lines:
        chk.validated += 1
        n += 1
        if x['bad']:
            chk.violation(x['bad'], infos[x['i']])
    if n != len(recs):
        raise common.MachineryError('judged %d of %d' % (n, len(recs)))
    chk.extra['runs_refused'] = sum(r['ended'] == 'error' for r in recs)
    chk.extra['files_written'] = sum(len(r['made']) for r in recs)
    chk.extra['files_removed'] = sum(len(r['lost']) for r in recs)
    chk.sample(infos[0])


def root_real(c):
    """Is a mapping with the root directory unsafe?"""
    from resync.mapper import Mapper
    s, d = c
    got = bool(Mapper(['%s=%s' % (s, d)]).unsafe())
    if got == (not s.startswith('http')):
        return None
    return {'map': c, 'unsafe': got}
