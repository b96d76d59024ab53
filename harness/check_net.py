"""C01 (Discovery.tla) and C03 (Requests.tla)."""
import json
import os
import random
import shutil
from urllib.parse import urlsplit

import common
import syncdrv
from check_dig import NET, init_net
from syncdrv import listing_xml

CFG = '''SPECIFICATION Spec
CONSTANT Full = %s
INVARIANTS UsedIsReadable ExplicitOnly Ordered Once
%s
CHECK_DEADLOCK FALSE
'''
C = None


def doc(cap, rows, pretty=False):
    """A document."""
    return listing_xml(None, rows, cap, pretty)


def wrong(rng, kind):
    """A readable document of another kind."""
    return doc(rng.choice([x for x in ('changelist', 'resourcelist', 'capabilitylist', 'description', 'resourcedump', 'changelist-archive') if x != kind]),
               [{'uri': 'http://h.org/x', 'lastmod': '2001-01-01T00:00:00Z', 'md': {}}])


def ref(rng, frm, to):
    """A reference from one location to another."""
    a, b = urlsplit(frm), urlsplit(to)
    if a.scheme != b.scheme or a.netloc != b.netloc or rng.random() < 0.3:
        return to
    p, q = os.path.dirname(a.path), b.path
    if rng.random() < 0.3 and a.scheme:
        return q
    return os.path.relpath(q, p)


def find_real(arg):
    """Look for the list."""
    c, out, seed = arg
    from resync.client import Client
    from resync.client_utils import ClientError, ClientFatalError
    rng = random.Random(seed)
    net = NET['net']
    top = os.path.join(common.worker_dir(), 'f')
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(os.path.join(top, 'cwd'))
    os.chdir(os.path.join(top, 'cwd'))
    local = rng.random() < 0.15 and 'down' not in json.dumps(c)
    # locally there is no host: what would be there is not judged
    if local and (c['sd'][1] != '404' or c['at'][2] != '404'):
        local = False
    sch = rng.choice(['http', 'http', 'https'])
    host = rng.choice(['h.example.org', 'h.example.org:8080', 'localhost', 'a.b'])
    path = rng.choice(['/a', '/a/b', '/~x/y.z', '/a%20b', '/sitemap.xml'])
    same = c['sd'][0] == c['sd'][1] and c['at'][1] == c['at'][2] and not local
    if same and rng.random() < 0.3:
        path = ''
    if local:
        base = os.path.join(top, rng.choice(['src', 's/r c', 's+%41']))
        os.makedirs(os.path.join(base, '.well-known'))
        root = ''
    else:
        root = '%s://%s' % (sch, host)
        base = root + path
    loc = {('sd', 1): base + '/.well-known/resourcesync', ('sd', 2): root + '/.well-known/resourcesync',
           ('rl', 3): base + '/resourcelist.xml', ('rl', 4): base + '/sitemap.xml', ('rl', 5): root + '/sitemap.xml'}
    for k, n in (('rl', 10), ('cap', 20)):
        loc[(k, n)] = rng.choice([base, base + '/e', base + '/e/f' if local else 'http://other.example/e']) + '/x%d.xml' % n
    for n in (20, 101, 102):
        loc[('cap', n)] = loc.get(('cap', n)) or rng.choice([base, base + '/c', base + '/c/d' if local else 'http://caps.example/q']) + '/cap%d.xml' % n
        loc[('rl', n + 200)] = rng.choice([base, base + '/r', base + '/r/s' if local else 'http://rls.example/q']) + '/rl%d.xml' % n
    if path == '' and not local:
        loc[('cap', 102)], loc[('rl', 302)] = loc[('cap', 101)], loc[('rl', 301)]
    routes = {}

    def put(url, r):
        if isinstance(r, bytes):
            r = {'body': r}
        if not local:
            routes[url] = r
        elif r.get('status', 200) == 200:
            os.makedirs(os.path.dirname(url), exist_ok=True)
            with open(url, 'wb') as fh:
                fh.write(r['body'])

    def place(k, n, w):
        url = loc[(k, n)]
        kind = {'rl': 'resourcelist', 'cap': 'capabilitylist', 'sd': 'description'}[k]
        if w == 'unset':
            return
        if w == '404':
            if rng.random() < 0.7:
                return
            put(url, {'status': rng.choice([404, 403, 500, 503, 410]), 'body': b'<urlset'})
        elif w == 'down':
            put(url, {'fault': rng.choice(['reset', 'rtimeout', 'badstatus', 'trunc', 'btimeout']), 'body': good(k, n, url, True)})
        elif w == 'bad':
            x = good(k, n, url, True)
            put(url, rng.choice([b'', b'no XML', x[:len(x) - 5], x + b'<', b'<html><body>Not found</body></html>']))
        elif w == 'wrong':
            put(url, wrong(rng, kind))
        else:
            put(url, good(k, n, url, w))

    def good(k, n, url, w):
        if k == 'rl':
            rows = [{'uri': 'http://found.example/%d/%d' % (n, i), 'lastmod': '2001-01-01T00:00:00Z', 'md': {}} for i in range(rng.choice([1, 1, 3, 50]))]
            if rng.random() < 0.3:
                return doc('x', rows).replace(b'<rs:md capability="x"/>', b'')
            return doc('resourcelist', rows)
        if k == 'cap':
            rows = [{'uri': ref(rng, url, loc[('rl', n + 200)]), 'md': {'capability': 'resourcelist'}}] if w != 'norl' else []
            rows += [{'uri': 'http://caps.example/%s' % x, 'md': {'capability': x}} for x in rng.sample(['changelist', 'resourcedump', 'changedump'], rng.randint(0, 3))]
            rng.shuffle(rows)
            if w is not True and w != 'norl':
                place('rl', n + 200, '404' if w == 'lost' else 'ok')
            return doc('capabilitylist', rows)
        m = {'none': 0, 'many': rng.choice([2, 3])}.get(w, 1)
        rows = [{'uri': ref(rng, url, loc[('cap', n + 100)]) + ('' if i == 0 else '?%d' % i), 'md': {'capability': 'capabilitylist'}} for i in range(m)]
        if w is not True:
            place('cap', n + 100, '404' if w == 'dead' else w if m == 1 else 'ok')
        return doc('description', rows)
    place('rl', 10, c['rl'])
    place('cap', 20, c['cap'])
    # what is at the base is what counts where it is the same place as the host
    for k, n, w in (('rl', 5, c['at'][2]), ('rl', 4, c['at'][1]), ('rl', 3, c['at'][0]), ('sd', 2, c['sd'][1]), ('sd', 1, c['sd'][0])):
        if local and (k, n) in (('sd', 2), ('rl', 5)):
            continue
        place(k, n, w)
    net.reset(routes)
    cl = Client()
    maps = [base + rng.choice(['', '/']) + '=dst']
    if rng.random() < 0.3:
        maps.append('http://zzz.example=dst2')
    cl.set_mappings(maps)
    if c['rl'] != 'unset':
        cl.sitemap_name = loc[('rl', 10)]
    if c['cap'] != 'unset':
        cl.capability_list_uri = loc[('cap', 20)]
    res = {'seed': seed, 'in': c, 'base': base}
    got, err = None, None
    try:
        rl = cl.find_resource_list()
        got = [r.uri for r in rl]
    except (ClientError, ClientFatalError) as e:
        err = str(e)
    if (got is not None) != (out['end'] == 'found'):
        return dict(res, bad='end of the search', real=[got, err], specified=out['end'], requests=net.requests())
    want = list(dict.fromkeys(loc[tuple(x)] for x in out['reqs']))
    if got is not None:
        n = int(got[0].split('/')[3]) if got and got[0].startswith('http://found.example/') else None
        k = out['reqs'][-1]
        # where two locations are the same place, either may be meant
        if n is None or loc[('rl', n)] != loc[tuple(k)]:
            return dict(res, bad='list used', real=got[:2], specified=k, requests=net.requests())
    if not local:
        reqs = list(dict.fromkeys(net.requests()))
        if reqs != want:
            return dict(res, bad='locations requested', real=reqs, specified=want)
    return None


def C01(chk):
    """Discovery."""
    T = common.THOROUGH
    lines = chk.run_tlc('Discovery', 'Discovery', CFG % ('TRUE' if T else 'FALSE', '' if T else 'PROPERTY Ends'), timeout=2500).lines
    lines = list({syncdrv.canon(x): x for x in lines}.values())
    lines.sort(key=syncdrv.canon)
    chk.exhaustive = True
    if T:
        lines = lines * 3
    items = [(x['in'], x['out'], '%d-%d' % (common.SEED, i)) for i, x in enumerate(lines)]
    n = 0
    for it, bad in common.pmap(find_real, items, init=init_net, chunk=32):
        chk.validated += 1
        n += 1
        if bad:
            chk.violation('discovery: ' + bad['bad'], bad)
        elif n % 999 == 7:
            chk.sample({'case': it[0], 'specified': it[1]})


QCFG = '''SPECIFICATION Spec
CONSTANT Depth = %d
INVARIANT Right
CHECK_DEADLOCK FALSE
'''
SLEPT = []


def init_quick():
    """Scripted network and recorded sleeping."""
    import time
    time.sleep = SLEPT.append
    init_net()


DELAY = 0.25
TOKENS = {1: 'abc.DEF-_~+/=', 2: 't'}


def forked(fn, limit=60):
    """Result of fn() computed in a child (fresh module state)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            import signal
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit)
            try:
                x = fn()
            except Exception:
                import traceback
                x = {'bad': 'crash', 'trace': traceback.format_exc()[-1500:]}
            with os.fdopen(w, 'w') as fh:
                json.dump(x, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as fh:
        text = fh.read()
    os.waitpid(pid, 0)
    return json.loads(text) if text else {'bad': 'crash', 'trace': 'no result (hang)'}


def header_problem(x, token):
    """What is wrong with the headers of a logged request."""
    import resync
    h = x[2]
    if h.get('user-agent') != 'resync/' + resync.__version__:
        return 'user agent'
    if h.get('authorization') != ('Bearer ' + TOKENS[token] if token else None):
        return 'token'
    return None


def open_real(arg):
    """Replay a history of openings."""
    hist, seed = arg
    return forked(lambda: open_real1(hist, seed))


def open_real1(hist, seed):
    """In a fresh process."""
    import time
    from resync.url_or_file_open import url_or_file_open, set_url_or_file_open_config
    rng = random.Random(seed)
    net = NET['net']
    top = os.path.join(common.worker_dir(), 'o')
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(os.path.join(top, 'd'))
    os.chdir(top)
    net.reset()
    net.default = {'body': b'web', 'headers': {'Content-Type': 'text/plain'}}
    res = {'seed': seed, 'hist': [h['a'] for h in hist]}
    for k, h in enumerate(hist):
        a = h['a']
        if a[0] == 'token':
            set_url_or_file_open_config('bearer_token', TOKENS.get(a[1]))
        elif a[0] == 'delay':
            set_url_or_file_open_config('delay', DELAY if a[1] else None)
        else:
            n, t0 = len(net.log), time.monotonic()
            del SLEPT[:]
            if a[0] == 'file':
                name = rng.choice(['f', 'd/f', top + '/f', './f', '../o/f', 'file:' + top + '/f', 'file:f'])
                body = b'local %d' % rng.randint(0, 999)
                for p in ('f', 'd/f'):
                    with open(p, 'wb') as fh:
                        fh.write(body)
                with url_or_file_open(name, timeout=rng.choice([None, 3])) as fh:
                    if fh.read() != body:
                        return dict(res, bad='local content', step=k)
                if len(net.log) != n:
                    return dict(res, bad='web request for a local file', step=k, real=net.requests())
            else:
                url = rng.choice(['http://h.org/x', 'https://h.org/y?q=1', 'http://h.org:99/', 'http://user_1.org/a:b', 'HTTP://h.org/x'])
                to = rng.choice([None, 7, 0.5])
                kw = {} if to is None else {'timeout': to}
                if a[0] == 'head':
                    kw['method'] = 'HEAD'
                elif rng.random() < 0.3:
                    kw['method'] = 'GET'
                fh = url_or_file_open(url, **kw)
                got = fh.read()
                fh.close()
                new = net.log[n:]
                if len(new) != 1 or new[0][0] != ('HEAD' if a[0] == 'head' else 'GET') or got != (b'' if a[0] == 'head' else b'web'):
                    return dict(res, bad='request made', step=k, real=[x[:2] for x in new])
                if to is not None and new[0][4] != to:
                    return dict(res, bad='time-out', step=k, real=str(new[0][4]), specified=to)
                p = header_problem(new[0], h['token'])
                if p:
                    return dict(res, bad=p, step=k, real=new[0][2], specified=h['token'])
                t0 = min(t0, t0)
            slept = sum(SLEPT)
            if h['wait']:
                if abs(slept - DELAY) > 1e-9 and time.monotonic() - t0 + slept < DELAY:
                    return dict(res, bad='delay', step=k, real=slept)
            elif slept:
                return dict(res, bad='delay that was not to be', step=k, real=slept)
    return None


def names_real(arg):
    """Local files whatever their name."""
    return forked(lambda: names_real1(arg))


def names_real1(seed):
    """In a fresh process."""
    from resync.url_or_file_open import url_or_file_open
    rng = random.Random(seed)
    top = os.path.join(common.worker_dir(), 'o')
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    os.chdir(top)
    NET['net'].reset()
    parts = ['a', 'b c', '%41', '%', '%2F', '%25', '#', '?', '&', '=', '+', ';', '*', '[x]', '~', '-', '.', '@', '!', 'é', '日本', '"', "'", '\\', '|', '<', '>', ' ', '\t', '\n',
             '\u00a0', '\u2028', '{', '}', '^', '`', '$', ',', 'a-b:c', '.:', ' :x', '\x01', '\x7f', '\udcff', '(', 'URL:'[3:]]
    for _ in range(30):
        segs = [''.join(rng.choice(parts) for _ in range(rng.randint(1, 4))) for _ in range(rng.choice([1, 1, 2, 3]))]
        if any(s in ('.', '..') for s in segs):
            continue
        rel = '/'.join(segs)
        style = rng.choice(['rel', 'abs', './', '..', '//'])
        f = {'rel': rel, 'abs': top + '/' + rel, './': './' + rel, '..': '../o/' + rel, '//': '/' + top + '//' + rel}[style]
        import re
        if re.match(r'\w+:', f):
            continue
        shutil.rmtree('w', ignore_errors=True)
        body = os.urandom(5)
        try:
            os.makedirs(os.path.dirname(rel) or '.', exist_ok=True)
            with open(rel, 'wb') as fh:
                fh.write(body)
        except OSError:
            continue   # the harness itself made a clash of names
        # decoys: what a careless opening could take instead
        for d in {rel.split('#')[0], rel.split('?')[0], rel.strip(), rel.replace('%41', 'A').replace('%25', '%')} - {rel}:
            try:
                if d and not os.path.exists(d) and not d.endswith('/'):
                    with open(d, 'wb') as fh:
                        fh.write(b'decoy')
            except OSError:
                pass
        try:
            with url_or_file_open(f) as fh:
                got = fh.read()
        except Exception as e:
            return {'bad': 'local file cannot be opened', 'name': f, 'error': repr(e), 'seed': seed}
        if got != body or NET['net'].log:
            return {'bad': 'another file opened', 'name': f, 'real': repr(got), 'seed': seed}
    return None


def whole_real(arg):
    """Whole operations: every request carries agent and token, and all but the first are delayed."""
    return forked(lambda: whole_real1(*arg))


def whole_real1(op, token, delay, seed):
    """In a fresh process."""
    import contextlib
    import io
    import time
    from resync.client import Client
    from resync.explorer import Explorer
    from resync.client_state import ClientState
    from resync.url_or_file_open import set_url_or_file_open_config
    rng = random.Random(seed)
    net = NET['net']
    top = os.path.join(common.worker_dir(), 'o')
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    os.chdir(top)
    b = rng.choice(['http', 'https']) + '://h.org/s'
    n = rng.randint(1, 4)
    rows = [{'uri': '%s/r%d' % (b, i), 'lastmod': '2001-09-09T01:46:40Z', 'md': {}} for i in range(n)]
    routes = {b + '/r%d' % i: {'body': b'x%d' % i} for i in range(n)}
    if rng.random() < 0.5 and n > 1:
        routes[b + '/p1.xml'] = {'body': doc('resourcelist', rows[:1])}
        routes[b + '/p2.xml'] = {'body': doc('resourcelist', rows[1:])}
        rl = listing_xml(None, [{'uri': b + '/p1.xml'}, {'uri': b + '/p2.xml'}], 'resourcelist', False, 'sitemapindex', 'sitemap')
    else:
        rl = doc('resourcelist', rows)
    found = rng.choice(['sd', 'list', 'cap'])
    routes[b + '/rl.xml' if found != 'list' else b + '/resourcelist.xml'] = {'body': rl}
    routes[b + '/caps.xml'] = {'body': doc('capabilitylist', [{'uri': b + '/rl.xml', 'md': {'capability': 'resourcelist'}}])}
    if found == 'sd':
        routes[b + '/.well-known/resourcesync'] = {'body': doc('description', [{'uri': b + '/caps.xml', 'md': {'capability': 'capabilitylist'}}])}
    routes[b + '/changelist.xml'] = {'body': doc('changelist', [dict(r, md={'change': 'updated', 'datetime': '2002-01-01T00:00:00Z'}) for r in rows])}
    net.reset(routes)
    set_url_or_file_open_config('bearer_token', TOKENS.get(token))
    set_url_or_file_open_config('delay', DELAY if delay else None)
    cls = Explorer if op == 'explore' else Client
    cl = cls()
    cl.set_mappings([b + '=dst'])
    if found == 'cap':
        cl.capability_list_uri = b + '/caps.xml'
    del SLEPT[:]
    res = {'seed': seed, 'op': op, 'token': token, 'delay': delay}
    least = 1
    if op == 'audit':
        cl.baseline_or_audit(audit_only=True)
    elif op == 'baseline':
        cl.baseline_or_audit()
        least = n + 1
    elif op == 'incremental':
        ClientState().set_state(cl.sitemap, 10)
        cl.incremental()
        least = n + 1
    elif op == 'parse':
        cl.sitemap_name = b + ('/changelist.xml')
        with contextlib.redirect_stdout(io.StringIO()):
            cl.parse_document()
    else:
        answers = iter(['0', '0', 'q', 'q', 'q'])
        import builtins
        builtins.input = lambda *a: next(answers)
        cl.sitemap_name = b + '/changelist.xml'
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                cl.explore()
            except StopIteration:
                pass
    if len(net.log) < least:
        return dict(res, bad='requests', real=net.requests())
    for x in net.log:
        p = header_problem(x, token)
        if p:
            return dict(res, bad=p, real=[x[1], x[2]])
    if delay:
        gaps = [y[3] - x[3] for x, y in zip(net.log, net.log[1:])]
        if abs(sum(SLEPT) - DELAY * (len(net.log) - 1)) > 1e-9 and not (not SLEPT and all(g >= DELAY for g in gaps)):
            return dict(res, bad='delay', real=[SLEPT, net.requests()])
    elif SLEPT:
        return dict(res, bad='delay that was not to be', real=SLEPT)
    return None


def C03(chk):
    """Requests."""
    T = common.THOROUGH
    hists = chk.run_tlc('Requests', 'Requests', QCFG % (5 if T else 4), timeout=2500).lines
    hists.sort(key=syncdrv.canon)
    if len(hists) > (20000 if T else 3000):
        hists = chk.rng.sample(hists, 20000 if T else 3000)
    plans = []
    for _ in range(3000 if T else 500):
        plans.append([chk.rng.choice([['get', 0], ['get', 0], ['head', 0], ['file', 0], ['token', 1], ['token', 2], ['token', 0], ['delay', 1], ['delay', 0]])
                      for _ in range(chk.rng.choice([6, 10, 20]))])
    path = os.path.join(common.scratch(), 'plans.ndjson')
    common.write_ndjson(path, plans)
    hists += chk.run_tlc('Requests random', 'Requests', QCFG % 1, env={'TRACE': path}, timeout=2500).lines
    n = 0
    items = [(h, '%d-%d' % (common.SEED, i)) for i, h in enumerate(hists)]
    ops = [(op, t, d, '%d-%s-%d-%d-%d' % (common.SEED, op, t, d, i)) for op in ('audit', 'baseline', 'incremental', 'parse', 'explore')
           for t in (0, 1, 2) for d in (0, 1) for i in range(100 if T else 12)]
    for what, fn, its in (('requests: ', open_real, items), ('requests of an operation: ', whole_real, ops),
                          ('local names: ', names_real, ['%d-%d' % (common.SEED, i) for i in range(2000 if T else 200)])):
        for it, bad in common.pmap(fn, its, init=init_quick, chunk=16):
            chk.validated += 1
            n += 1
            if bad:
                chk.violation(what + bad['bad'], bad)
            elif n % 999 == 7:
                chk.sample(it)
