"""S08 (Authority.tla)."""
import os
import random
import shutil

import common
import syncdrv
from check_map import Any, init, init_web, lists, tree, _W

CFG = '''SPECIFICATION Spec
CONSTANT Family = "%s"
INVARIANTS StrictNarrows OverItself RefusedOrRead
CHECK_DEADLOCK FALSE
'''


def url(x, names=None):
    """Text of a location."""
    names = names or {}
    if x['scheme'] == '':
        return '/' + '/'.join([names.get(s, s) for s in x['dir']] + [x['file']])
    host = '.'.join(x['host']) + (':%d' % x['port'] if x['port'] else '')
    return x['scheme'] + '://' + host + '/' + '/'.join([names.get(s, s) for s in x['dir']] + [x['file']])


def pair_real(arg):
    """Authority of one location over another."""
    c, out, seed = arg
    from resync.url_authority import UrlAuthority
    rng = random.Random(seed)
    names = rng.choice([{}, {'a': 'A.x', 'ab': 'A.xy', 'b': 'y'}, {'a': '%41+', 'ab': '%41+b'}, {'a': 'a', 'ab': 'a b'}])
    m, u = dict(c['m']), dict(c['u'])
    m['file'] = rng.choice(['l.xml', 'l', '', 'l.xml?x=/a/b/', 'l;p'])
    u['file'] = rng.choice(['r', '', 'r.html', 'r?q=/x', 'r#/y/z'])
    mt, ut = url(m, names), url(u, names)
    if rng.random() < 0.5:
        a = UrlAuthority(mt, strict=c['strict'])
    else:
        a = UrlAuthority(strict=c['strict']) if rng.random() < 0.5 else UrlAuthority('http://other.example/q/', c['strict'])
        a.set_master(mt)
    got = bool(a.has_authority_over(ut))
    if got != out['ok']:
        return {'list': mt, 'resource': ut, 'strict': c['strict'], 'specified': out['ok'], 'real': got}
    return None


def near(rng):
    """A list location and a resource location a few edits away."""
    labels = ['a', 'b', 'www', 'lists', 'example', 'org', 'co', 'uk', 'xa', 'h-1', '10', '127']
    segs = ['a', 'ab', 'b', 'abc', 'A', 'list', 'lists', 'x.y', '~u']
    ports = [0, 0, 0, 80, 443, 8080, 1, 65535]
    m = {'scheme': rng.choice(['http', 'https', 'http', 'https', 'ftp', '']), 'host': [rng.choice(labels) for _ in range(rng.randint(1, 7))],
         'port': rng.choice(ports), 'dir': [rng.choice(segs) for _ in range(rng.randint(0, 6))], 'file': 'l.xml'}
    if m['scheme'] == '':
        m.update(host=[], port=0)
    u = {k: list(v) if isinstance(v, list) else v for k, v in m.items()}
    u['file'] = 'r'
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        e = rng.randint(0, 9)
        for key, alphabet in (('host', labels), ('dir', segs)):
            if key == 'host' and u['scheme'] == '':
                continue
            v = u[key]
            k = e if key == 'host' else e - 4
            if k == 0 and v:
                v[rng.randrange(len(v))] = rng.choice(alphabet)
            elif k == 1 and len(v) > (key == 'host'):
                v.pop(rng.choice([0, -1, rng.randrange(len(v))]))
            elif k == 2:
                v.insert(rng.choice([0, len(v), rng.randint(0, len(v))]), rng.choice(alphabet))
            elif k == 3 and v:
                i = rng.choice([0, len(v) - 1])
                v[i] = rng.choice(['x' + v[i], v[i] + 'x', v[i][1:] or 'zz', v[i].swapcase() if key == 'dir' else v[i]])
        if e == 8 and u['scheme']:
            u['port'] = rng.choice(ports)
        elif e == 9 and u['scheme']:
            u['scheme'] = rng.choice(['http', 'https', 'ftp'])
    return {'m': m, 'u': u, 'strict': rng.random() < 0.6}


def run_real(arg):
    """A run over a list that mentions resources here and there."""
    c, out, seed = arg
    from resync.client import Client
    from resync.client_state import ClientState
    rng = random.Random(seed)
    top = os.path.join(common.worker_dir(), 'a')
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    os.chdir(top)
    base = url(c['base'])[:-1]
    hosts = []
    for u in [c['base']] + c['uris'] + [c['rl'], c['cl']]:
        if u['scheme'] != 'none':
            h = url(dict(u, dir=[], file=''))[:-1]
            if h not in hosts:
                hosts.append(h)
    maps = [base + '=d0'] + ['%s=e%d' % (h, i) for i, h in enumerate(hosts) if h != base]
    rl = base + '/resourcelist.xml' if c['rl']['scheme'] == 'none' else url(c['rl'])
    cl = base + '/changelist.xml' if c['cl']['scheme'] == 'none' else url(c['cl'])
    inc = c['op'] == 'incremental'
    # further resources that are surely fine: next to the list that decides
    decides = cl if inc else rl
    fine = [decides.rsplit('/', 1)[0] + '/fine%d' % i for i in range(rng.randint(0, 3))]
    uris = [url(u) for u in c['uris']]
    if len(set(fine + uris)) != len(fine + uris):
        raise common.MachineryError('bad case')
    allu = fine + uris
    rng.shuffle(allu)
    changes = None
    if inc:
        changes = [rng.choice(['created', 'updated']) for _ in allu]
        if rng.random() < 0.3:
            changes[allu.index(uris[0])] = 'deleted'
    w = _W['web']
    w.reset()
    doc = lists(allu, changes, '')
    routes = {decides: {'body': doc}}
    if inc and rl not in routes:
        routes[rl] = {'body': lists(allu, None, '')}
    w.routes = Any(routes)
    os.makedirs('d0')
    with open('d0/old', 'w') as fh:
        fh.write('old')
    relative = rng.random() < 0.3
    # resources of which nothing is needed: already here, or changed before the recorded time
    there, since = [], 0
    if not inc:
        there = [u for u in allu if rng.random() < 0.35]
    elif rng.random() < 0.4:
        since = rng.randint(0, len(allu) - 1)
    for u in there:
        m = [x.split('=') for x in maps if u.startswith(x.split('=')[0] + '/')][0]
        p = m[1] + u[len(m[0]):]
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fh:
            fh.write('fetched')
        os.utime(p, (978307200 + allu.index(u),) * 2)

    def client():
        cn = Client()
        cn.set_mappings(list(maps))
        if c['rl']['scheme'] != 'none':
            cn.sitemap_name = rl
        elif rng.random() < 0.3:
            pass
        cn.noauth, cn.strictauth = c['noauth'], c['strict']
        cn.tries, cn.timeout = 1, 20
        return cn
    cn = client()
    site = cn.sitemap
    if inc:
        ClientState().set_state(site, 978307200.0 + since if since else 946684800.0)
    before = tree(top)
    err = None
    try:
        if inc:
            kw = {} if c['cl']['scheme'] == 'none' else {'change_list_uri': cl}
            # a name relative to the source is an explicit location as well
            if kw and relative and cl.startswith(base + '/'):
                kw = {'change_list_uri': cl[len(base) + 1:]}
            cn.incremental(allow_deletion=True, **kw)
        else:
            cn.baseline_or_audit(allow_deletion=True)
    except Exception as e:
        err = '%s: %s' % (type(e).__name__, str(e)[:300])
    after = tree(top)
    got = [r for r in w.requests() if r in allu]
    info = {'op': c['op'], 'strict': c['strict'], 'noauth': c['noauth'], 'maps': maps, 'list': decides, 'uris': allu, 'changes': changes,
            'resource list': rl, 'error': err, 'requested': got, 'seed': seed}
    if out['refused']:
        if err is None:
            return dict(info, bad='resource without authority accepted')
        if got or before != after:
            return dict(info, bad='resources downloaded or files changed before the refusal')
        return None
    if err:
        return dict(info, bad='refused although the list has authority')
    want = [u for i, u in enumerate(allu) if not changes or changes[i] != 'deleted']
    want = [u for u in want if u not in there and allu.index(u) >= since]
    if sorted(got) != sorted(want):
        return dict(info, bad='not all resources fetched')
    # an audit needs no authority
    return None


def index_real(arg):
    """A list in several parts, read with and without the authority check."""
    c, out, seed = arg
    from resync.resource_list import ResourceList
    from resync.change_list import ChangeList
    from resync.resource_dump import ResourceDump
    rng = random.Random(seed)
    cls = rng.choice([ResourceList, ResourceList, ChangeList, ResourceDump])
    cap = cls().capability_name
    at = url(c['index'])
    parts = [url(u) for u in c['parts']]
    # parts that are surely fine
    parts += [at.rsplit('/', 1)[0] + '/fine%d.xml' % i for i in range(rng.randint(0, 2))]
    bad = [parts[i - 1] for i in out['foreign']]
    rng.shuffle(parts)
    w = _W['web']
    w.reset()
    ns = 'xmlns="http://www.sitemaps.org/schemas/sitemap/0.9" xmlns:rs="http://www.openarchives.org/rs/terms/"'
    head = '<rs:md capability="%s" %s/>' % (cap, 'from="2001-01-01T00:00:00Z"' if cap == 'changelist' else 'at="2001-01-01T00:00:00Z"')
    change = '<rs:md change="created"/>' if cap == 'changelist' else ''
    routes = {at: {'body': ('<sitemapindex %s>%s%s</sitemapindex>' % (
        ns, head, ''.join('<sitemap><loc>%s</loc></sitemap>' % u for u in parts))).encode()}}
    for i, u in enumerate(parts):
        routes[u] = {'body': ('<urlset %s>%s<url><loc>http://r.example/r%d</loc><lastmod>2001-01-01T00:00:0%dZ</lastmod>%s</url></urlset>' % (
            ns, head, i, i, change)).encode()}
    w.routes = Any(routes)
    x = cls()
    if c['check'] or rng.random() < 0.5:
        x.check_url_authority = c['check']
    err = None
    try:
        x.read(at)
    except Exception as e:
        err = '%s: %s' % (type(e).__name__, str(e)[:200])
    asked = w.requests()
    got = sorted(r.uri for r in x)
    info = {'index': at, 'parts': parts, 'check': c['check'], 'kind': cap, 'error': err, 'requested': asked, 'resources': got, 'seed': seed}
    if out['refused'] and (err is None or set(bad) & set(asked)):
        return dict(info, bad='part of a list without authority read')
    plain = not any(u.startswith('https') for u in parts)   # the scripted web speaks http only
    if out['read'] and plain and (err or len(got) != len(parts)):
        return dict(info, bad='parts of a list not read')
    return None


def S08(chk):
    """Authority."""
    T = common.THOROUGH
    lines = chk.run_tlc('Authority pairs', 'Authority', CFG % 'pair', timeout=2000).lines
    chk.exhaustive = True
    items = [(x['in'], x['out'], '%d-p%d' % (common.SEED, i)) for i, x in enumerate(lines)]
    for _ in range(3 if T else 1):
        for it, bad in common.pmap(pair_real, items, init=init, chunk=256):
            chk.validated += 1
            if bad:
                chk.violation('authority differs', bad)
        items = [(a, b, s + '+') for a, b, s in items]
    # larger locations: one list, and a resource near it
    recs = [near(chk.rng) for _ in range(60000 if T else 12000)]
    path = os.path.join(common.scratch(), 'pairs.ndjson')
    common.write_ndjson(path, recs)
    big = chk.run_tlc('Authority larger pairs', 'Authority', CFG % 'pair', env={'TRACE': path}, timeout=2000).lines
    items = [(x['in'], x['out'], '%d-b%d' % (common.SEED, i)) for i, x in enumerate(big)]
    for it, bad in common.pmap(pair_real, items, init=init, chunk=256):
        chk.validated += 1
        if bad:
            chk.violation('authority differs', bad)
    # lists in parts
    lines = chk.run_tlc('Authority of an index', 'Authority', CFG % 'index', timeout=2000).lines
    if not T:
        lines = chk.rng.sample(lines, 800)
    recs = []
    for _ in range(3000 if T else 400):
        p = [chk.rng.choice(lines)['in'] for _ in range(chk.rng.randint(2, 5))]
        us = []
        for q in p:
            if q['parts'][0] not in us:
                us.append(q['parts'][0])
        recs.append({'index': p[0]['index'], 'parts': us, 'check': chk.rng.random() < 0.8})
    path = os.path.join(common.scratch(), 'parts.ndjson')
    common.write_ndjson(path, recs)
    lines += chk.run_tlc('Authority of an index over several', 'Authority', CFG % 'index', env={'TRACE': path}, timeout=2000).lines
    items = [(x['in'], x['out'], '%d-i%d' % (common.SEED, i)) for i, x in enumerate(lines)]
    for it, bad in common.pmap(index_real, items, init=init_web, chunk=16):
        chk.validated += 1
        if bad:
            chk.violation(bad['bad'], bad)
    lines = chk.run_tlc('Authority runs', 'Authority', CFG % 'run', timeout=2000).lines
    lines.sort(key=syncdrv.canon)
    # several suspicious resources
    recs = []
    for _ in range(3000 if T else 500):
        pick = [chk.rng.choice(lines)['in'] for _ in range(chk.rng.randint(2, 4))]
        us = []
        for p in pick:
            if p['uris'][0] not in us:
                us.append(p['uris'][0])
        recs.append(dict(pick[0], uris=us))
    path = os.path.join(common.scratch(), 'auth.ndjson')
    common.write_ndjson(path, recs)
    if not T:
        keep = [x for x in lines if not x['in']['noauth']]
        lines = keep + chk.rng.sample([x for x in lines if x['in']['noauth']], 500)
    lines += chk.run_tlc('Authority several', 'Authority', CFG % 'run', env={'TRACE': path}, timeout=2000).lines
    items = [(x['in'], x['out'], '%d-r%d' % (common.SEED, i)) for i, x in enumerate(lines)]
    n = 0
    for it, bad in common.pmap(run_real, items, init=init_web, chunk=16):
        chk.validated += 1
        n += 1
        if bad:
            chk.violation(bad['bad'], bad)
        elif n % 701 == 1:
            chk.sample({'case': it[0], 'specified': it[1]})
