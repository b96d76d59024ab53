"""L01 L02 (Compare.tla), L03 (Containers.tla), L04 (ChangeGen.tla), L05 (Descriptions.tla)."""
import json
import os
import random
import shutil
import time
import xml.etree.ElementTree as ET

import common
import syncdrv
from check_hist import compare

CFG = '''SPECIFICATION Spec
CONSTANT Family = "%s"
INVARIANTS Symmetric Reflexive Partition SelfSame
CHECK_DEADLOCK FALSE
'''


def init():
    """Import the code under test in a worker."""
    common.use_repo()
    import resync  # noqa
    import resync.client  # noqa
    import logging
    logging.getLogger('resync').addHandler(logging.NullHandler())
    logging.getLogger('resync').propagate = False


DIG = {1: 'a' * 32, 2: 'A' + 'a' * 31, 3: '0'}


NAMES = ['A', 'B', 'Z', '_', 'a', 'b', 'a0', 'a/b', 'a.b', 'a%41', 'ab', '\u00e9', '\U00020000', '10', '9', 'a?q=A', '~', 'aB', 'Ab', '']


def make(d, rng=None, base=1000000000.0, names=None):
    """Real description of an abstract one."""
    from resync.resource import Resource
    kw = {}
    if d['t'] != -1:
        kw['timestamp'] = base + d['t'] / 4.0 if base or d['t'] else 0
    for k in ('md5', 'sha1', 'sha256'):
        if d[k] != -1:
            kw[k] = DIG[d[k]]
    if d['len'] != -1:
        kw['length'] = d['len']
    if rng:
        # attributes that must not matter
        for k, vs in (('mime_type', ['a/b', 'c']), ('change', ['created', 'updated', 'deleted']), ('ts_datetime', [0.0, 3.5, 1e9]),
                      ('path', ['p', 'q/r']), ('ln', [[], [{'rel': 'x', 'href': 'y'}]]), ('capability', ['resourcelist', 'zz']),
                      ('ts_at', [1.0, 2.0]), ('ts_completed', [1.0, 7.0]), ('ts_from', [1.0]), ('ts_until', [4.0])):
            if rng.random() < 0.4:
                kw[k] = rng.choice(vs)
    return Resource(uri='http://example.org/' + (names[d['u'] - 1] if names else 'r%d' % d['u']), **kw)


def equal_real(c):
    """Equality of two descriptions."""
    rng = random.Random(json.dumps(c))
    base = rng.choice([0.0, 1000000000.0, 1.0, 1500000000.0])
    a, b = make(c['a'], rng, base), make(c['b'], rng, base)
    ra, rb = repr(a), repr(b)
    res = {'eq': bool(a.equal(b, delta=c['delta'] / 4.0)), 'same': bool(a == b)}
    if bool(b == a) != res['same'] or bool(b.equal(a, c['delta'] / 4.0)) != res['eq']:
        res['asymmetric'] = True
    if bool(a != b) == res['same']:
        res['ne'] = 'not the negation of eq'
    if bool(a.equal(b, 1.0)) != res['same'] or bool(a.equal(b)) != bool(a.equal(b, 0.0)):
        res['default'] = 'wrong tolerance'
    if not a == a or not b.equal(b):
        res['irreflexive'] = True
    if a.equal(None) or a == None:  # noqa
        res['none'] = True
    if (ra, rb) != (repr(a), repr(b)):
        res['altered'] = True
    return res


ATTS = ['uri', 'timestamp', 'length', 'mime_type', 'md5', 'sha1', 'sha256', 'change', 'ts_datetime', 'path', 'ln',
        'capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until']
VALS = {'uri': ['u0', 'u1', 'http://e/'], 'timestamp': [0, 5.5, 1e9], 'length': [0, 7, 8], 'mime_type': ['', 'text/plain', 'x'],
        'md5': ['', 'a', 'b'], 'sha1': ['', 'c', 'd'], 'sha256': ['', 'e', 'f'], 'change': ['created', 'updated', 'deleted'],
        'ts_datetime': [0, 1.25, 1e9], 'path': ['', '/a', 'b'], 'ln': [[], [{'rel': 'r', 'href': 'h'}], [{'rel': 's', 'href': 't', 'a': 'b'}]],
        'capability': ['', 'resourcelist', 'x'], 'ts_at': [0, 1, 2.5], 'ts_completed': [0, 3, 4], 'ts_from': [0, 5, 6], 'ts_until': [0, 7, 8]}


def copy_real(c):
    """Copy of a description with overrides."""
    from resync.resource import Resource

    def kw(vs):
        return {k: VALS[k][v] for k, v in zip(ATTS, vs) if v != -1}

    def val(r):
        out = []
        for k in ATTS:
            x = getattr(r, k)
            out.append(-1 if x is None else VALS[k].index(x))
        return out
    a = Resource(**kw(c['at']))
    b = Resource(resource=a, **kw(c['ov']))
    res = {'copy': val(b)}
    if val(a) != c['at']:
        res['original'] = val(a)
    plain = Resource(resource=a)
    if not (plain == a) or val(plain) != c['at']:
        res['plain'] = val(plain)
    return res


def compare_real(c):
    """Comparison of two lists."""
    from resync.resource_list import ResourceList, ResourceListOrdered
    rng = random.Random(json.dumps(c))
    names = rng.sample(NAMES, len(c['dst']))

    def build(ds):
        rs = [make(d, rng, 1000000000.0, names) for d in ds if d['u']]
        rng.shuffle(rs)
        rl = ResourceList(resources_class=ResourceListOrdered) if rng.random() < 0.5 else ResourceList()
        for r in rs:
            rl.add(r)
        return rl
    dst, src = build(c['dst']), build(c['src'])
    d0, s0 = [(id(r), repr(r)) for r in dst], [(id(r), repr(r)) for r in src]
    out = dst.compare(src)
    cls = ['none'] * len(c['dst'])
    odd = []
    for name, rl in zip(['same', 'updated', 'deleted', 'created'], out):
        uris = [r.uri for r in rl]
        if uris != sorted(uris) or len(set(uris)) != len(uris):
            odd.append('order')
        for r in rl:
            u = names.index(r.uri[len('http://example.org/'):]) + 1
            if cls[u - 1] != 'none':
                odd.append('twice %d' % u)
            cls[u - 1] = name
            of = {'updated': [src], 'created': [src], 'deleted': [dst], 'same': [src, dst]}[name]
            if not any(repr(r) == repr(x) for rl2 in of for x in rl2 if x.uri == r.uri):
                odd.append('description of %d' % u)
    if d0 != [(id(r), repr(r)) for r in dst] or s0 != [(id(r), repr(r)) for r in src]:
        odd.append('inputs changed')
    me = dst.compare(dst)
    if [len(x) for x in me] != [len(dst), 0, 0, 0]:
        odd.append('self comparison')
    res = {'class': cls}
    if odd:
        res['odd'] = odd
    return res


def L02(chk):
    """Equality and copying of descriptions."""
    lines = chk.run_tlc('Compare equal', 'Compare', CFG % 'equal', timeout=1500).lines
    lines += chk.run_tlc('Compare delta', 'Compare', CFG % 'delta').lines
    chk.exhaustive = True
    compare(chk, lines, equal_real, init, 'L02', chunk=256)
    recs = []
    for i in range(30000 if common.THOROUGH else 4000):
        p, q = chk.rng.choice([(.2, .1), (.5, .3), (.9, .1), (.9, .9), (0, .5)])
        at = [chk.rng.randrange(3) if chk.rng.random() < p else -1 for _ in ATTS]
        at[0] = chk.rng.randrange(3)
        recs.append({'at': at, 'ov': [chk.rng.randrange(3) if chk.rng.random() < q else -1 for _ in ATTS]})
    path = os.path.join(common.scratch(), 'copies.ndjson')
    common.write_ndjson(path, recs)
    lines = chk.run_tlc('Compare copies', 'Compare', CFG % 'equal', env={'TRACE': path}).lines
    compare(chk, lines, copy_real, init, 'L02', chunk=256)


def random_lists(rng):
    """Two larger random lists."""
    n = rng.randint(4, 14)

    def d(u):
        if rng.random() < 0.3:
            return {'u': 0}
        return {'u': u, 't': rng.choice([-1, 0, 1, 3, 4, 8]), 'md5': rng.choice([-1, -1, 1, 2]), 'sha1': rng.choice([-1, -1, -1, 1, 2]),
                'sha256': rng.choice([-1, -1, -1, 1, 2]), 'len': rng.choice([-1, 0, 1])}
    dst = [d(u + 1) for u in range(n)]
    src = [dict(x) if rng.random() < 0.5 else d(u + 1) for u, x in enumerate(dst)]
    return {'dst': dst, 'src': src}


def L01(chk):
    """Comparison of lists."""
    lines = chk.run_tlc('Compare lists', 'Compare', CFG % 'compare', timeout=1500).lines
    path = os.path.join(common.scratch(), 'lists.ndjson')
    common.write_ndjson(path, [random_lists(chk.rng) for _ in range(20000 if common.THOROUGH else 3000)])
    lines += chk.run_tlc('Compare long lists', 'Compare', CFG % 'compare', env={'TRACE': path}).lines
    chk.exhaustive = True
    compare(chk, lines, compare_real, init, 'L01', chunk=128)


# ------------------------------------------------------------------ L03

CAPS = ['resourcelist', 'resourcedump', 'changelist', 'changedump', 'resourcelist-archive', 'resourcedump-archive',
        'changelist-archive', 'changedump-archive', 'something-else']
CAPOF = [3, 1, 8, 1, 9, 2]
URIS = ['http://e.org/', 'http://e.org/A', 'http://e.org/a', 'http://e.org/a/b', 'http://e.org/a0', 'http://e.org/b', 'http://e.org/é']


def add_special(con, r, rng):
    """Add with add_capability or add_capability_list; what is wrong with the entry."""
    import resync
    from resync import archives
    if type(con).__name__ == 'CapabilityList':
        cls = {'resourcelist': resync.ResourceList, 'resourcedump': resync.ResourceDump, 'changelist': resync.ChangeList,
               'changedump': resync.ChangeDump, 'resourcelist-archive': archives.ResourceListArchive,
               'resourcedump-archive': archives.ResourceDumpArchive, 'changelist-archive': archives.ChangeListArchive,
               'changedump-archive': archives.ChangeDumpArchive}.get(r.capability)
        how = rng.choice(['name', 'object', 'located'] if cls else ['name'])
        if how == 'name':
            con.add_capability(uri=r.uri, name=r.capability)
        elif how == 'object':
            con.add_capability(cls(), uri=r.uri)
        else:
            con.add_capability(cls(uri=r.uri))
        want = {'capability': r.capability, 'describedby': None}
    else:
        want = {'capability': 'capabilitylist', 'describedby': None}
        if rng.random() < 0.3:
            con.add_capability_list(r.uri)
        else:
            c = resync.CapabilityList(uri=r.uri)
            if rng.random() < 0.5:
                c.describedby = want['describedby'] = 'http://e.org/info.xml'
            con.add_capability_list(c)
    got = con[r.uri]
    got.length = r.length
    real = {k: getattr(got, k) for k in want}
    return None if real == want else {'entry': real, 'wanted': want}


def container_real(arg):
    """Replay a history of additions and iterations; returns the first disagreement or None."""
    h, seed = arg
    rng = random.Random(seed)
    from resync.resource import Resource
    from resync.resource_list import ResourceList, ResourceListOrdered, ResourceListDict
    from resync.resource_set import ResourceSet
    from resync.resource_container import ResourceContainer
    from resync.list_base import ListBase
    from resync.list_base_with_index import ListBaseWithIndex
    from resync.archives import ResourceListArchive, ChangeListArchive, ResourceDumpArchive, ChangeDumpArchive
    from resync.capability_list import CapabilityList, CapabilitySet
    from resync.change_list import ChangeList
    from resync.source_description import SourceDescription
    from resync.resource_dump import ResourceDump
    from resync.change_dump import ChangeDump
    from resync.resource_dump_manifest import ResourceDumpManifest
    from resync.change_dump_manifest import ChangeDumpManifest
    kind = h['kind']
    cls = {'dict': [ResourceList, ResourceList, SourceDescription, ResourceDump, ChangeDump, ResourceDumpManifest,
                    ResourceListDict, ResourceSet],
           'ordered': [lambda: ResourceList(resources_class=ResourceListOrdered), ResourceListOrdered],
           'cap': [CapabilityList, CapabilitySet], 'change': [ChangeList, ChangeDumpManifest],
           'plain': [ListBaseWithIndex, ResourceListArchive, ChangeListArchive, ResourceDumpArchive, ChangeDumpArchive,
                     lambda: ListBase(resources=[]), lambda: ResourceContainer(resources=[])]}[kind]
    con = rng.choice(cls)()
    uris = sorted(rng.sample(URIS, 6))
    made = {}

    def res(e):
        kw = {'length': e['x']}
        if kind == 'change' and e['x']:
            kw['change'] = rng.choice(['created', 'updated', 'deleted'])
        if kind == 'cap':
            kw['capability'] = CAPS[CAPOF[(e['u'] - 1) % 6] - 1]
        # now and then the very same object again, where the entry is the same
        key = (e['u'], e['x'])
        if key not in made or rng.random() < 0.5:
            made[key] = Resource(uris[e['u'] - 1], **kw)
        return made[key]

    def full():
        return [{'u': uris.index(r.uri) + 1, 'x': r.length} for r in con]
    its = {}
    for k, s in enumerate(h['steps']):
        y, ok = 0, True
        if s['op'] in ('add', 'addall'):
            rs = [res(e) for e in s['es']]
            arg = rs[0] if s['op'] == 'add' else rng.choice([rs, tuple(rs), (r for r in rs)])
            special = s['op'] == 'add' and not s['replace'] and rng.random() < 0.5 and type(con) in (CapabilityList, SourceDescription)
            try:
                if special:
                    bad = add_special(con, arg, rng)
                    if bad:
                        return {'step': k, 'did': s, 'real': bad, 'class': type(con).__name__}
                elif isinstance(con, dict):
                    # a store, without the list around it: filled one by one
                    for r in rs:
                        con.add(r, replace=True) if s['replace'] else con.add(r)
                else:
                    con.add(arg, replace=True) if s['replace'] else con.add(arg)
            except Exception:
                ok = False
            its = {}
        elif s['op'] == 'wrap':
            if not isinstance(con, dict) and type(con) is not ResourceListOrdered:
                con = type(con)(resources=con.resources)
        elif s['op'] == 'iter':
            its[s['it']] = iter(con)
        elif s['op'] == 'get':
            try:
                y = (con[s['it'] - 1] if kind in ('change', 'plain') else con[uris[s['it'] - 1]]).length
            except LookupError:
                ok = False
        elif s['op'] == 'info':
            if isinstance(con, dict):
                continue
            info, has = con.capability_info(CAPS[s['it'] - 1]), con.has_capability(CAPS[s['it'] - 1])
            if has != s['ok']:
                return {'step': k, 'did': s, 'real': {'has': has}, 'class': type(con).__name__}
            ok, y = info is not None, info.length if info is not None else 0
        else:
            try:
                y = next(its[s['it']]).length
            except StopIteration:
                ok = False
        if ok != s['ok'] or y != s['y']:
            return {'step': k, 'did': s, 'real': {'ok': ok, 'y': y}, 'class': type(con).__name__}
        if full() != s['all'] or (hasattr(con, '__len__') and len(con) != len(s['all'])):
            return {'step': k, 'did': s, 'real': {'all': full(), 'len': len(con)}, 'class': type(con).__name__}
        store = getattr(con, 'resources', con)
        if s['all'] and hasattr(store, 'first'):
            if store.first() is not next(iter(store)):
                return {'step': k, 'did': s, 'real': {'first': store.first().uri}, 'class': type(con).__name__}
        if not isinstance(con, dict) or kind != 'cap':
            if not hasattr(con, 'uris'):
                continue
            have = list(con.uris())
            want = [uris[e['u'] - 1] for e in s['all']]
            if have != want:
                return {'step': k, 'did': s, 'real': {'uris': have}, 'class': type(con).__name__}
    return None


def L03(chk):
    """Containers."""
    cfg = '''SPECIFICATION Spec
CONSTANTS Kind = "%s"
 N = %d
 Depth = %d
 Iters = %d
%s
CHECK_DEADLOCK FALSE
'''
    items = []
    for kind in ('dict', 'ordered', 'cap', 'change', 'plain'):
        chk.run_tlc('Containers %s' % kind, 'Containers',
                    cfg % (kind, 2, 4 if not common.THOROUGH else 5, 1, 'INVARIANTS Unique Typed Complete\nCONSTRAINT Stop'), timeout=2000)
        for n, d, it, num in [(3, 14, 2, 300), (6, 30, 3, 200)]:
            num *= 10 if common.THOROUGH else 1
            res = chk.run_tlc('Containers %s simulate N=%d' % (kind, n), 'Containers',
                              cfg % (kind, n, d, it, 'ACTION_CONSTRAINT EmitHist'), workers=1,
                              args=['-simulate', 'num=%d' % num, '-depth', str(d), '-seed', str(common.SEED * 11 + n)])
            items += [(h, '%d/%s/%d/%d' % (common.SEED, kind, n, i)) for i, h in enumerate(sorted(res.lines, key=syncdrv.canon))]
    for it, bad in common.pmap(container_real, items, init=init, chunk=32):
        chk.validated += 1
        if bad:
            chk.violation('container disagrees with the specification', {'history': it[0]['steps'][:bad['step'] + 1], 'at': bad, 'kind': it[0]['kind']})
    chk.sample({'history': items[0][0]})
    chk.sample({'history': items[-1][0]})


# ------------------------------------------------------------------ L04

NS = {'s': syncdrv.SM, 'r': syncdrv.RS}


def entries_of(path):
    """Entries of a written document or index, read with an independent parser."""
    root = ET.parse(path).getroot()
    if root.tag == '{%s}sitemapindex' % syncdrv.SM:
        out = []
        for s in root.findall('s:sitemap', NS):
            loc = s.find('s:loc', NS).text
            out += entries_of(os.path.join(os.path.dirname(path), os.path.basename(loc)))
        return out
    out = []
    for u in root.findall('s:url', NS):
        md = u.find('r:md', NS)
        md = dict(md.attrib) if md is not None else {}
        lm = u.find('s:lastmod', NS)
        out.append({'uri': u.find('s:loc', NS).text, 'lastmod': lm.text if lm is not None else None, 'md': md,
                    'ln': [dict(x.attrib) for x in u.findall('r:ln', NS)]})
    return out


def gen_real(arg):
    """Generate a change list with the real client and read it back independently."""
    c, seed = arg[0], arg[1]
    import hashlib
    import io
    import contextlib
    from resync.client import Client
    rng = random.Random(seed)
    d = os.path.join(common.worker_dir(), 'g')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/files')
    os.chdir(d)
    n = len(c['dst'])
    names = sorted(rng.sample(['a', 'b.c', 'd-e', 'x&y', 'z_1', 'é', '10', '9', 'A', 'k%20', 'm;n', 'o+p', "q'r", 's(t)', 'u~v'], n))
    pre = 'http://example.org/x'
    disk = all(s['u'] == 0 or (s['t'] != -1 and s['len'] != -1 and s['sha1'] == s['sha256'] == -1) for s in c['src']) and rng.random() < 0.6
    # metadata that has no part in the comparison, by list and resource
    more = {}
    for side in ('dst', 'src'):
        for u in range(1, n + 1):
            md, ln = {}, []
            if rng.random() < 0.3:
                md['type'] = rng.choice(['text/plain', 'a/b; c="d"'])
            if rng.random() < 0.1:
                md[rng.choice(['at', 'completed', 'from', 'until'])] = syncdrv.w3c(1000000000 + rng.randrange(9))
            if rng.random() < 0.2:
                ln = [{'rel': rng.choice(['duplicate', 'describedby']), 'href': 'http://other.org/' + rng.choice('pq&')} for _ in range(rng.randint(1, 2))]
                if rng.random() < 0.3:
                    ln[0]['length'] = str(rng.randrange(3))
            more[side, u] = (md, ln)
    sub = rng.choice(['', 'sub/'])

    def content(x, k):
        return b'x' * x['len'] if x['md5'] != 2 else b'y' * x['len']

    def row(x, side):
        md, ln = more[side, x['u']]
        r = {'md': dict(md), 'ln': ln, 'uri': pre + '/' + sub + names[x['u'] - 1]}
        if x['t'] != -1:
            r['lastmod'] = syncdrv.w3c(1000000000 + x['t'] / 4.0)
        if x['len'] != -1:
            r['md']['length'] = x['len']
        h = []
        if x['md5'] != -1:
            h.append('md5:' + (hashlib.md5(content(x, 0)).hexdigest() if disk else DIG[x['md5']]))
        if x['sha1'] != -1:
            h.append('sha-1:' + DIG[x['sha1']])
        if x['sha256'] != -1:
            h.append('sha-256:' + DIG[x['sha256']])
        if h:
            r['md']['hash'] = ' '.join(h)
        return r

    def rows(xs, side):
        rs = [row(x, side) for x in xs if x['u']]
        rng.shuffle(rs)
        return syncdrv.listing_xml(None, rs, 'resourcelist', rng.random() < 0.5)
    open('old.xml', 'wb').write(rows(c['dst'], 'dst'))
    hashes = ['md5'] if disk and any(x['u'] and x['md5'] != -1 for x in c['src']) else None
    want_md5 = bool(hashes)
    if disk:
        for x in c['src']:
            if x['u']:
                p = d + '/files/' + sub + names[x['u'] - 1]
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'wb').write(content(x, 0))
                t = 1000000000 + x['t'] / 4.0
                os.utime(p, (t, t))
    else:
        open('new.xml', 'wb').write(rows(c['src'], 'src'))
    cl = Client(hashes=hashes)
    cl.set_mappings([pre, d + '/files'])
    cl.pretty_xml = rng.random() < 0.5
    mx = rng.choice([None, None, 1, 2, 3])
    out = d + '/files.xml'
    if mx:
        cl.max_sitemap_entries = mx
        os.makedirs(d + '/out')
        out = d + '/out/cl.xml'
        cl.set_mappings([pre + '=' + d + '/files', 'http://example.org/out=' + d + '/out'])
    stdout = mx is None and rng.random() < 0.3
    dump = rng.choice([None, False])
    cap = io.StringIO()
    began = time.time()
    with contextlib.redirect_stdout(cap):
        cl.write_change_list(ref_sitemap=d + '/old.xml', newref_sitemap=None if disk else d + '/new.xml',
                             outfile=None if stdout else out, dump=dump)
    if stdout:
        open(out, 'w').write(cap.getvalue().strip('\n') + '\n')
    elif cap.getvalue():
        return 'unexpected output: ' + cap.getvalue()[:200]
    if mx and len(entries_of(out)) > mx and not ET.parse(out).getroot().tag.endswith('sitemapindex'):
        return 'not split'
    def flat(r):
        return (r['uri'], r.get('lastmod'), sorted(r['md'].items()), [sorted(x.items()) for x in r['ln']])
    got = entries_of(out)
    own = {}        # entries whose description tells a change time itself
    want = []
    for x in arg[2]:
        side = 'dst' if x['ch'] == 'deleted' else 'src'
        r = row(x['d'], side)
        if disk and side == 'src':
            r['md'], r['ln'] = {'length': x['d']['len']}, []
            if want_md5:
                r['md']['hash'] = 'md5:' + hashlib.md5(content(x['d'], 0)).hexdigest()
        r['md'] = {k: str(v) for k, v in r['md'].items()}
        r['md']['change'] = x['ch']
        own[r['uri']] = 'datetime' in r['md']
        want.append(flat(r))
    for e in got:
        # the time the change was found (E01 decides whether there must be one)
        if not own.get(e['uri'], True) and 'datetime' in e['md']:
            t = instant(e['md'].pop('datetime'))
            if not began - 1 <= t <= time.time() + 1 and t != instant(e.get('lastmod')):
                return {'bad': 'change time', 'of': e['uri'], 'real': t}
    got = [flat(e) for e in got]
    if sorted(map(str, got)) != sorted(map(str, want)):
        return {'want': sorted(map(str, want)), 'got': sorted(map(str, got)), 'disk': disk, 'max': mx}
    return None if disk else gen_step(arg[2], pre + '/' + sub, names, rng)


def gen_step(specified, pre, names, rng):
    """The same step by step with lists in memory: the lists compared stay as they are."""
    from resync.change_list import ChangeList
    from resync.resource_list import ResourceList
    old, new = ResourceList(), ResourceList()
    old.read(uri='old.xml')
    new.read(uri='new.xml')
    was = [[repr(r) for r in old], [repr(r) for r in new]]
    parts = list(zip(['same', 'updated', 'deleted', 'created'], old.compare(new)))
    made = [[repr(r) for r in rl] for _, rl in parts]
    cl = ChangeList()
    order = parts[1:]
    rng.shuffle(order)
    for ch, rl in order:
        cl.add_changed_resources(rl, change=ch)
    want = sorted((pre + names[x['d']['u'] - 1], x['ch']) for x in specified)
    got = sorted((r.uri, r.change) for r in cl)
    if want != got:
        return {'bad': 'changes of lists in memory', 'want': want, 'got': got}
    if was != [[repr(r) for r in old], [repr(r) for r in new]] or made != [[repr(r) for r in rl] for _, rl in parts]:
        return {'bad': 'lists changed by making a Change List of them', 'old': [repr(r) for r in old], 'was': was[0]}
    return None


def L04(chk):
    """Generated change lists."""
    cfg = 'SPECIFICATION GSpec\nCONSTANT Family = "gen"\nINVARIANTS Turns OnePerResource NothingForEqual\nCHECK_DEADLOCK FALSE\n'
    lines = chk.run_tlc('ChangeGen', 'ChangeGen', cfg, timeout=1500).lines
    path = os.path.join(common.scratch(), 'gen.ndjson')
    recs = []
    for _ in range(6000 if common.THOROUGH else 600):
        c = random_lists(chk.rng)
        for x in c['dst'] + c['src']:
            if x['u']:
                x['t'] = x['t'] if x['t'] < 0 else x['t'] // 4 * 4
        r = chk.rng.random()
        for x in (c['dst'] if r < 0.3 else []) + (c['src'] if r < 0.7 else []):
            if x['u']:
                # (as it must be for lists taken from disk)
                x['md5'] = x['sha1'] = x['sha256'] = -1
                if x['len'] < 0:
                    x['len'] = 1
                if x['t'] < 0:
                    x['t'] = 4
        recs.append(c)
    common.write_ndjson(path, recs)
    lines += chk.run_tlc('ChangeGen long lists', 'ChangeGen', cfg, env={'TRACE': path}).lines
    chk.exhaustive = True
    lines.sort(key=syncdrv.canon)
    items = [(x['in'], '%d/%d' % (common.SEED, i), x['out']) for i, x in enumerate(lines)]
    for it, bad in common.pmap(gen_real, items, init=init, chunk=32):
        chk.validated += 1
        if bad:
            chk.violation('generated change list is not the specified one', {'case': it[0], 'seed': it[1], 'real': bad})
    chk.sample({'case': items[7][0], 'changes': items[7][2]})


# ------------------------------------------------------------------ L05

RELS = ['describedby', 'up', 'index', 'contents', 'duplicate', 'alternate', 'http://e.org/rel#x']
TIMES = ['2001-02-03T04:05:06Z', '1970-01-01T00:00:00Z', '2033-12-31T23:59:59.125Z', '1999-01-01', '2010-10-10T10:10Z']
TVALS = [981173106, 0, 2019686399.125, 915148800, 1286705400]
BADTIMES = ['yesterday', '', '2001-02-03T04:05:06', '2001-13-01', '20010203', '2001-02-03 04:05:06Z']
ATTNAMES = ['type', 'pri', 'modified', 'length', 'hash', 'path']
CONTAINERS = ['ResourceList', 'ChangeList', 'CapabilityList', 'SourceDescription', 'ResourceDump', 'ChangeDump',
              'ResourceDumpManifest', 'ChangeDumpManifest', 'ResourceListArchive', 'ChangeListArchive',
              'ResourceDumpArchive', 'ChangeDumpArchive']
KINDS = ['resourcelist', 'changelist', 'capabilitylist', 'description', 'resourcedump', 'changedump', 'resourcedump-manifest',
         'changedump-manifest', 'resourcelist-archive', 'changelist-archive', 'resourcedump-archive', 'changedump-archive']
MODS = ['resource_list', 'change_list', 'capability_list', 'source_description', 'resource_dump', 'change_dump',
        'resource_dump_manifest', 'change_dump_manifest', 'archives', 'archives', 'archives', 'archives']


def description_real(arg):
    """Replay a history of changes to the links and metadata of one description."""
    import ast
    import importlib
    h, seed = arg
    rng = random.Random(seed)
    from resync.resource import Resource
    isres = h['kind'] == 'resource'
    if isres:
        o, mine = Resource(uri='http://e.org/r'), None
    else:
        i = rng.randrange(len(CONTAINERS))
        o, mine = getattr(importlib.import_module('resync.' + MODS[i]), CONTAINERS[i])(), KINDS[i]
    rels = RELS[:4] + rng.sample(RELS[4:], 3)
    a1, a2 = rng.sample(ATTNAMES, 2)
    if h['kind'] == 'resource':
        a1 = 'type'
        a2 = rng.choice(ATTNAMES[1:])
    hrefs = rng.choice([['http://e.org/1', 'http://e.org/2'], ['/a', ''], ['h', 'H']])
    vals = ['', 'v1', '9', 'x', 'x', 'x', 'x', 'application/xml']
    tv = rng.sample(range(len(TIMES)), 3)
    caps = ['', 'resourcelist', 'other']
    fields = ['lastmod', 'datetime', 'md_at', 'md_completed', 'md_from', 'md_until']
    stamps = ['timestamp', 'ts_datetime', 'ts_at', 'ts_completed', 'ts_from', 'ts_until']
    types = ['md5', 'sha-1', 'sha-256', rng.choice(['sha-512', 'MD5', 'sha1']), rng.choice(['crc', 'md5x'])]
    dv = ['', 'ab12', rng.choice(['CD', 'a:b', ''])]
    other = ast.literal_eval(rng.choice(["'changed'", "''", "'Updated'", "0", "1"]))
    forms = {}

    def atts(a):
        return {k: vals[v] for k, v in zip((a1, a2), a) if v}

    for k, s in enumerate(h['steps']):
        op, x, ok = s['op'], s['x'], True
        try:
            if op == 'set':
                o.link_set(rels[x[0] - 1], hrefs[x[1] - 1], **atts(x[2:]))
            elif op == 'add':
                o.link_add(rels[x[0] - 1], hrefs[x[1] - 1], **atts(x[2:]))
            elif op == 'named':
                setattr(o, rels[x[0] - 1], hrefs[x[1] - 1])
            elif op == 'time' and isres:
                setattr(o, fields[x[0] - 1], None if x[1] == -1 else rng.choice(BADTIMES) if x[1] == 9 else TIMES[tv[x[1]]])
            elif op == 'time':
                v = None if x[1] == -1 else 'whatever' if x[1] == 9 else TIMES[tv[x[1]]]
                forms[x[0]] = v
                if x[1] in (0, 1, 2) and rng.random() < 0.4:
                    v = TVALS[tv[x[1]]]
                    forms[x[0]] = v
                setattr(o, fields[x[0] - 1], v)
            elif op == 'dig':
                o.hash = rng.choice(['', ' ', '\t\n']) if not x else rng.choice([' ', '  ', '\n']).join('%s:%s' % (types[t - 1], dv[v]) for t, v in x)
            elif op == 'chg':
                o.change = [None, 'created', 'updated', 'deleted', other][x[0]]
            elif op == 'cap':
                o.capability = caps[x[0]]
            elif op == 'default':
                o.default_capability()
        except Exception:
            ok = False
        want = {'ok': s['ok'], 'links': [dict(atts(e['a']), rel=rels[e['r'] - 1], href=hrefs[e['h'] - 1]) for e in s['links']]}
        real = {'ok': ok, 'links': [dict(e) for e in (o.ln or [])]}
        for i, r in enumerate(rels):
            first = [e for e in want['links'] if e['rel'] == r]
            want[r] = [first[0] if first else None, first[0]['href'] if first else None]
            real[r] = [o.link(r), o.link_href(r)]
            if i < (4 if isres else 3):
                want[r].append(want[r][1])
                real[r].append(getattr(o, r))
        cap = {0: None, 9: mine}.get(s['cap'], caps[s['cap'] if s['cap'] in (1, 2) else 0])
        want['cap'], real['cap'] = cap, o.capability
        for f in range(6):
            if not isres and f < 2:
                continue
            v = s['time'][f]
            real[fields[f]] = getattr(o, fields[f])
            if isres:
                want[fields[f]] = None if v == -1 else TVALS[tv[v]]
                real[fields[f]] = instant(real[fields[f]])
                real[stamps[f]] = getattr(o, stamps[f])
                want[stamps[f]] = None if v == -1 else TVALS[tv[v]]
            elif v != -1 or f + 1 in forms:
                g = forms[f + 1]
                want[fields[f]] = g
                if g is not None and not isinstance(g, str):
                    real[fields[f]] = instant(real[fields[f]])
            else:
                want[fields[f]] = None
        if isres:
            want['chg'], real['chg'] = [None, 'created', 'updated', 'deleted'][s['chg']], o.change
            want['dig'] = [dv[v] if v else None for v in s['dig']]
            real['dig'] = [o.md5, o.sha1, o.sha256]
            want['hash'] = ' '.join('%s:%s' % (t, dv[v]) for t, v in zip(types, s['dig']) if v) or None
            real['hash'] = o.hash
            # the unambiguous representation
            rep = ast.literal_eval(repr(o))
            for a in ('uri', 'timestamp', 'ts_datetime', 'md5', 'sha1', 'sha256', 'change'):
                want['repr ' + a], real['repr ' + a] = getattr(o, a), rep.get(a)
            if rng.random() < 0.3:
                # carry on with a copy
                o = Resource(resource=o)
        if want != real:
            return {'step': k, 'did': s, 'class': type(o).__name__, 'want': {a: want[a] for a in want if want[a] != real[a]},
                    'real': {a: real[a] for a in want if want[a] != real[a]}}
    return None


def instant(text):
    """The instant of a complete datetime."""
    import datetime
    return None if text is None else datetime.datetime.fromisoformat(text.replace('Z', '+00:00')).timestamp()


def L05(chk):
    """Links and metadata of descriptions."""
    cfg = '''SPECIFICATION Spec
CONSTANTS Kind = "%s"
 Rels = %d
 Hrefs = 2
 Depth = %d
%s
CHECK_DEADLOCK FALSE
'''
    items = []
    for kind in ('resource', 'list'):
        chk.run_tlc('Descriptions %s' % kind, 'Descriptions',
                    cfg % (kind, 2, 3 if not common.THOROUGH else 4, 'INVARIANTS ReadBack Types\nPROPERTY Grows\nCONSTRAINT Stop'), timeout=2500)
        for r, d, num in [(4, 12, 500), (7, 25, 350)]:
            num *= 10 if common.THOROUGH else 1
            res = chk.run_tlc('Descriptions %s simulate %d' % (kind, r), 'Descriptions',
                              cfg % (kind, r, d, 'ACTION_CONSTRAINT EmitHist'), workers=1,
                              args=['-simulate', 'num=%d' % num, '-depth', str(d), '-seed', str(common.SEED * 13 + r)])
            by = {}
            for h in sorted(res.lines, key=syncdrv.canon):
                # (all successors of the last state are printed)
                by.setdefault(syncdrv.canon(h['steps'][:-1]), []).append(h)
            hs = [h for k in sorted(by) for h in by[k][::max(1, len(by[k]) // 3)][:3]]
            items += [(h, '%d/%s/%d/%d' % (common.SEED, kind, r, i)) for i, h in enumerate(hs)]
    for it, bad in common.pmap(description_real, items, init=init, chunk=32):
        chk.validated += 1
        if bad:
            chk.violation('a description disagrees with the specification', {'history': it[0]['steps'][:bad['step'] + 1], 'at': bad, 'kind': it[0]['kind']})
    chk.sample({'history': items[0][0]})
    chk.sample({'history': items[-1][0]})
