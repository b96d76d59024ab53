"""S10 (Digest.tla) and S11 (Retry.tla)."""
import hashlib
import json
import os
import random
import re

import common
import syncdrv

CFG = '''SPECIFICATION Spec
CONSTANT Full = %s
INVARIANTS Noticed Neutral Settled Reported
CHECK_DEADLOCK FALSE
'''
TYPES = {1: 'md5', 2: 'sha-1', 3: 'sha-256'}
FN = {1: hashlib.md5, 2: hashlib.sha1, 3: hashlib.sha256}
VER = {1: 1, 2: 3}   # versions of the same size


def complaints(msg, uris):
    """What a message says not to be as listed, and for which resource."""
    named = [u for u in uris if u in msg]
    if not re.search('mismatch|not match', msg) or not named:
        return []
    i = uris.index(max(named, key=len)) + 1
    return [(i, k) for k, x in [(1, 'md5'), (2, 'sha-1'), (3, 'sha-256'), (4, 'size')] if re.search(r'\b%s\b' % x, msg.lower().replace(uris[i - 1].lower(), ''))]


def digest_real(arg):
    """The sequence of runs of one case."""
    c, out, loc, flags, seed = arg
    rng = random.Random(seed)
    n = len(c['rs'])
    conc = syncdrv.Conc(seed, n)
    if rng.random() < 0.3:
        k = rng.choice([1, 128, 16383, 16384, 16385, 32768])
        conc.sizes = (k + 5, k if k > 1 else 3)
    if rng.random() < 0.5 or conc.sizes[1] < 3:
        # contents that differ only somewhere
        size = rng.choice([1, 2, 128, 16384, 16385, 32768, 40000, 65536, 65537, 131072])
        at = rng.choice([0, size - 1, size // 2, min(size - 1, 16384)])
        plain = bytes(rng.getrandbits(8) for _ in range(size))
        other = plain[:at] + bytes([plain[at] ^ (1 << rng.randint(0, 7))]) + plain[at + 1:]
        conc.content = lambda u, v: {1: plain, 3: other}.get(v, b'#%d' % v)
    w = syncdrv.World(conc, n)
    rlen = rng.random() < 0.6
    rows = []
    for i, r in enumerate(c['rs']):
        row = w.row(i + 1, 1, 1, rlen or r['wl'], ())
        if r['wl']:
            row['md']['length'] = max(0, row['md']['length'] + rng.choice([1, -1, 1000]))
        words = ['%s:%s' % (TYPES[k], FN[k](conc.content(i + 1, VER[r['dig'][k - 1]])).hexdigest()) for k in (1, 2, 3) if r['dig'][k - 1]]
        if rng.random() < 0.2:
            words.append('sha-512:' + hashlib.sha512(b'x').hexdigest())
        rng.shuffle(words)
        if words:
            row['md']['hash'] = ' '.join(words)
        rows.append(row)
    w.publish(w.prefix + '/resourcelist.xml', syncdrv.listing_xml(conc, rows, 'resourcelist', conc.pretty, prefix=conc.prefix))
    w.list_urls = [w.prefix + '/resourcelist.xml']
    if c['op'] == 'inc':
        crows = []
        for row in rows:
            crows.append(dict(row, md=dict(row['md'], change='updated', datetime=syncdrv.w3c(conc.ts(5)))))
        w.publish(w.prefix + '/changelist.xml', syncdrv.listing_xml(conc, crows, 'changelist', conc.pretty, prefix=conc.prefix))
    w.serve([{'v': 1, 't': 1}] * n)
    os.makedirs(w.dst, exist_ok=True)
    for i, r in enumerate(c['rs']):
        w.put(i + 1, VER.get(r['loc'], 0), 3 if r['off'] else 1)
    if c['op'] == 'inc':
        w.set_state(1)
    hashes = [TYPES[k] for k in c['want']]
    rng.shuffle(hashes)
    plan = ['audit', 'base', 'audit', 'base'] if c['op'] == 'base' else ['inc', 'audit']
    res = {'seed': seed, 'hashes': hashes, 'rows': rows, 'conc': {'local': conc.local, 'sizes': conc.sizes}}
    for k, what in enumerate(plan):
        cl = w.client(None, hashes if hashes or rng.random() < 0.5 else None)
        if what == 'inc':
            obs = w.run(lambda: cl.incremental())
        else:
            obs = w.run(lambda: cl.baseline_or_audit(audit_only=what == 'audit'))
        if obs['out'] != 'ok':
            return dict(res, bad=what + ' fails', step=k, error=obs['exc'])
        num = {x: out[k].count(x) for x in ('same', 'created', 'updated')}
        st = obs['status'][0]
        if what != 'inc' and {x: st[x] for x in num} != num:
            return dict(res, bad='verdict of ' + what, step=k, real=obs['status'], specified=num)
        gets = [i + 1 for i, x in enumerate(out[k]) if x != 'same'] if what != 'audit' else []
        if not conc.local and sorted(obs['gets']) != gets:
            return dict(res, bad='transfers of ' + what, step=k, real=obs['gets'], specified=gets)
        if obs['odd']:
            return dict(res, bad=obs['odd'][0], step=k)
        want = sorted((i + 1, f) for i, x in enumerate(out[k]) if x != 'same' and what != 'audit' for f in flags[i])
        real = sorted(f for m in obs['msgs'] for f in complaints(m, [r['uri'] for r in rows]))
        if real != want:
            return dict(res, bad='reports of what does not match', step=k, real=real, specified=want, messages=obs['msgs'][-20:])
    for i in range(n):
        if not os.path.exists(w.path(i + 1)):
            return dict(res, bad='file missing', of=i)
        with open(w.path(i + 1), 'rb') as fh:
            if fh.read() != conc.content(i + 1, VER[loc[i]]):
                return dict(res, bad='content', of=i, specified=loc[i])
    return None


HCFG = '''SPECIFICATION Spec
CONSTANTS Files = %d
 Depth = %d
PROPERTY OnlyLast
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
'''


def hasher_real(arg):
    """Use one digest calculation for several files."""
    h, seed = arg
    from resync.hashes import Hashes
    from resync.resource import Resource
    rng = random.Random(seed)
    os.chdir(common.worker_dir())
    data = {}
    for f in (1, 2):
        n = rng.choice([0, 1, 127, 128, 129, 4096, 8192, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 131072, 262144, 1048576, 1048577])
        data[f] = rng.randbytes(n)
        with open('f%d' % f, 'wb') as fh:
            fh.write(data[f])
    atts = ['md5', 'sha1', 'sha256']
    val = lambda k, f: None if not f else 'was' if f == -1 else FN[k](data[f]).hexdigest()  # noqa
    desc = [Resource('r%d' % i, **{a: val(k + 1, d[k]) for k, a in enumerate(atts)}) for i, d in enumerate(h[0]['desc'])]
    kinds = [TYPES[k] for k in h[0]['want']]
    kinds = rng.choice([list, tuple, set])(kinds)
    o = None
    for i, s in enumerate(h):
        if s['op'] == 'new':
            o = Hashes(kinds, 'f%d' % s['x']) if s['x'] else Hashes(kinds)
        elif s['op'] == 'compute':
            o.compute_for_file('f%d' % s['x'])
        else:
            o.set(desc[s['x'] - 1])
        real = [[getattr(o, a) for a in atts]] + [[getattr(d, a) for a in atts] for d in desc]
        want = [[val(k + 1, x[k]) for k in range(3)] for x in [s['vals']] + s['desc']]
        # (values before any calculation are not specified)
        if real[1:] != want[1:] or (real[0] != want[0] and any(s['vals'])):
            return {'bad': 'digests of files used one after another', 'seed': seed, 'history': h[:i + 1], 'sizes': {f: len(x) for f, x in data.items()}, 'real': real, 'specified': want}
    return None


def S10(chk):
    """Digests."""
    T = common.THOROUGH
    lines = chk.run_tlc('Digest', 'Digest', CFG % ('TRUE' if T else 'FALSE'), timeout=2500).lines
    lines.sort(key=syncdrv.canon)
    one = [x for x in lines if len(x['in']['rs']) == 1]
    two = [x for x in lines if len(x['in']['rs']) == 2]
    lines = one + chk.rng.sample(two, min(len(two), 60000 if T else 2500))
    recs = []
    for _ in range(3000 if T else 300):
        n = chk.rng.choice([3, 4, 6, 10])
        few = chk.rng.random() < 0.5
        recs.append({'rs': [{'dig': [chk.rng.choice([0, 1, 1, 1, 2] if few else [0, 0, 1, 1, 2]) for _ in range(3)], 'loc': chk.rng.choice([0, 1, 1, 1, 2, 2]), 'off': False}
                            for _ in range(n)],
                     'want': chk.rng.sample([1, 2, 3], chk.rng.randint(0, 3)), 'op': chk.rng.choice(['base', 'base', 'inc'])})
        for r in recs[-1]['rs']:
            r['wl'] = chk.rng.random() < 0.15
    path = os.path.join(common.scratch(), 'digs.ndjson')
    common.write_ndjson(path, recs)
    lines += chk.run_tlc('Digest random', 'Digest', CFG % 'FALSE', env={'TRACE': path}, timeout=2500).lines
    items = [(x['in'], x['out'], x['loc'], x['flags'], '%d-%d' % (common.SEED, i)) for i, x in enumerate(lines)]
    hs = sorted(chk.run_tlc('Hasher', 'Hasher', HCFG % (2, 5)).lines, key=syncdrv.canon)
    for it, bad in common.pmap(hasher_real, [(h, '%d-h%d' % (common.SEED, i)) for i, h in enumerate(hs if T else chk.rng.sample(hs, 800))], init=syncdrv.init_worker, chunk=16):
        chk.validated += 1
        if bad:
            chk.violation('digests: ' + bad['bad'], bad)
    n = 0
    for it, bad in common.pmap(digest_real, items, init=syncdrv.init_worker, chunk=16):
        chk.validated += 1
        n += 1
        if bad:
            chk.violation('digests: ' + bad['bad'], bad)
        elif n % 999 == 7:
            chk.sample({'case': it[0], 'classes': it[1]})


RCFG = '''SPECIFICATION Spec
CONSTANTS MaxTries = %d
 Mate = %s
INVARIANTS Bounded OnlyTimeouts Enough Truth
%s
CHECK_DEADLOCK FALSE
'''
NET = {}


def init_net():
    """Import the code under test, with a scripted network."""
    import logging
    import fakenet
    common.use_repo()
    NET['net'] = fakenet.Net()
    NET['net'].install()
    import resync.client  # noqa
    lg = logging.getLogger('resync')
    lg.setLevel(logging.DEBUG)
    lg.propagate = False
    cap = syncdrv.Cap()
    lg.handlers = [cap]
    NET['cap'] = cap


def retry_real(arg):
    """A run in which the downloads meet what the scripts say."""
    c, outs, seed = arg
    import shutil
    import socket
    from resync.client import Client
    from resync.client_state import ClientState
    rng = random.Random(seed)
    net = NET['net']
    top = os.path.join(common.worker_dir(), 't')
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    os.chdir(top)
    n = len(c['s'])
    op = rng.choice(['base', 'inc'])
    secure = rng.random() < 0.3
    sch = 'https' if secure else 'http'
    host = ['h%d.src.example' % i for i in range(n)]
    uri = ['%s://%s/r%d' % (sch, h, i) for i, h in enumerate(host)]
    body = [bytes(rng.getrandbits(8) for _ in range(rng.choice([2, 100, 9000, 70000]))) for _ in range(n)]
    routes = {}
    for i in range(n):
        answers = []
        for a in c['s'][i]:
            if a == 'ok':
                answers.append({'body': body[i], 'nolength': rng.random() < 0.2})
            elif a == 'err':
                answers.append({'status': rng.choice([404, 500, 503, 408, 504, 403, 400, 410]), 'body': body[i]})
            else:
                f = {'ct': 'ctimeout', 'rt': 'rtimeout', 'bt': 'btimeout', 'rf': 'refused', 'rs': rng.choice(['reset', 'breset', 'badstatus']), 'tr': 'trunc'}[a]
                answers.append({'fault': f, 'body': body[i]})
        # anything after the script would succeed
        routes[uri[i]] = answers + [{'body': body[i]}]
    extra = rng.random() < 0.4   # a resource which agrees already, or is not changed
    rows = [{'uri': u, 'lastmod': '2001-09-09T01:46:%02dZ' % (40 + i), 'md': {}} for i, u in enumerate(uri)]
    for i, r in enumerate(rows):
        if rng.random() < 0.4:
            r['md']['length'] = len(body[i])
    if op == 'inc':
        for i, r in enumerate(rows):
            r['md'].update(change=rng.choice(['created', 'updated']), datetime='2001-09-09T01:46:%02dZ' % (50 + i))
    listing = 'http://list.example/%s' % ('resourcelist.xml' if op == 'base' else 'changelist.xml')
    old = {}
    for i in range(n):
        if (rng.random() < 0.4 if op == 'base' else rows[i]['md']['change'] == 'updated'):
            os.makedirs('d%d' % i)
            with open('d%d/r%d' % (i, i), 'wb') as fh:
                fh.write(b'old')
            old[i] = 1
    conc = type('C', (), {})
    routes[listing] = {'body': syncdrv.listing_xml(conc, rows, 'resourcelist' if op == 'base' else 'changelist', False)}
    net.reset(routes)
    cl = Client()
    maps = ['http://list.example/=d']
    for i in range(n):
        maps.append('%s://%s=d%d' % (sch, host[i], i))
    cl.set_mappings(maps)
    cl.noauth = True
    cl.tries = c['tries']
    cl.timeout = rng.choice([None, 5, 0.5])
    cl.ignore_failures = c['ign']
    cl.sitemap_name = 'http://list.example/resourcelist.xml'
    NET['cap'].msgs = []
    os.makedirs('d', exist_ok=True)
    for i in range(n):
        os.makedirs('d%d' % i, exist_ok=True)
    res = {'seed': seed, 'in': c, 'op': op, 'hosts': host}
    err = None
    try:
        if op == 'base':
            cl.baseline_or_audit()
        else:
            ClientState().set_state(cl.sitemap, 10)
            cl.incremental()
        end = 'ok'
    except Exception as e:
        end = 'fatal'
        err = '%s: %s' % (type(e).__name__, e)
        from resync.client_utils import ClientFatalError, ClientError
        if not isinstance(e, (ClientFatalError, ClientError)):
            return dict(res, bad='failure that is not reported as such', error=err)
    made = [net.requests().count(u) for u in uri]
    got = []
    for i in range(n):
        f = 'd%d/r%d' % (i, i)
        if os.path.exists(f):
            with open(f, 'rb') as fh:
                if fh.read() == body[i]:
                    got.append(i + 1)
    real = {'end': end, 'made': made, 'got': got}
    if real not in outs:
        return dict(res, bad='requests or result', real=real, error=err, specified=outs[:4])
    for x in net.log:
        if x[1] in uri and cl.timeout is not None and x[4] != cl.timeout:
            return dict(res, bad='time-out not passed on', real=str(x[4]))
    st = syncdrv.parse_status(NET['cap'].msgs)
    if end == 'ok' and (len(st) != 2 or st[1]['created'] + st[1]['updated'] != len(got)):
        return dict(res, bad='transfers counted', real=st, specified=len(got))
    return None


def S11(chk):
    """Retries."""
    T = common.THOROUGH
    lines = chk.run_tlc('Retry', 'Retry', RCFG % (4, 'TRUE' if T else 'FALSE', '' if T else 'PROPERTY Ends'), timeout=2500).lines
    recs = []
    for _ in range(10000 if T else 1500):
        rng = chk.rng
        t = rng.choice([1, 2, 3, 5, 20])
        s = []
        for _ in range(rng.choice([2, 3, 4, 6])):
            k = rng.choice([0, 0, 0, 1, t - 1, t, rng.randint(0, t)])
            x = [rng.choice(['ct', 'rt', 'bt']) for _ in range(k)]
            s.append(x + [rng.choice(['ok', 'ok', 'ok', 'err', 'tr', 'rs', 'rf'])] if k < t else x)
        recs.append({'s': s, 'tries': t, 'ign': rng.random() < 0.8 or any(x[-1] != 'ok' for x in s)})
    path = os.path.join(common.scratch(), 'retry.ndjson')
    common.write_ndjson(path, recs)
    lines += chk.run_tlc('Retry random', 'Retry', RCFG % (1, 'FALSE', ''), env={'TRACE': path}, timeout=2500).lines
    cases = {}
    for x in lines:
        o = cases.setdefault(syncdrv.canon(x['in']), [])
        if x['out'] not in o:
            o.append(x['out'])
    for o in cases.values():
        for x in o:
            x['got'].sort()
    keys = sorted(cases)
    if len(keys) > (60000 if T else 7000):
        keys = chk.rng.sample(keys, 60000 if T else 7000)
    items = [(json.loads(k), cases[k], '%d-%d' % (common.SEED, i)) for i, k in enumerate(keys)]
    n = 0
    for it, bad in common.pmap(retry_real, items, init=init_net, chunk=32):
        chk.validated += 1
        n += 1
        if bad:
            chk.violation('retries: ' + bad['bad'], bad)
        elif n % 1999 == 7:
            chk.sample({'case': it[0], 'possible': it[1]})
