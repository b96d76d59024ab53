"""D03 (MultiFile.tla)."""
import hashlib
import os
import random
import shutil
import time

import common
import syncdrv
import web
from check_docs import CAPNAME, RS, SM, make_container, project, tree_of

_W = {}


def init():
    """Worker set-up: a web of its own."""
    common.use_repo()
    import resync  # noqa
    import resync.archives  # noqa
    import resync.url_or_file_open  # noqa
    import logging
    logging.getLogger('resync').addHandler(logging.NullHandler())
    logging.getLogger('resync').propagate = False
    _W['web'] = web.Web()
    _W['web'].use_as_proxy()


TYPES = ['ListBaseWithIndex', 'ResourceList', 'ResourceListOrdered', 'ChangeList', 'SourceDescription', 'ResourceDump', 'ChangeDump', 'ResourceDumpManifest', 'ChangeDumpManifest',
         'ResourceListArchive', 'ChangeListArchive', 'ResourceDumpArchive', 'ChangeDumpArchive']
BYURI = ['ResourceList', 'SourceDescription', 'ResourceDump', 'ChangeDump', 'ResourceDumpManifest']


def multi_real(arg):
    """Write a list of the given size and read it back; None or what is wrong."""
    c, out, seed = arg
    from resync.mapper import Mapper
    from resync.resource import Resource
    from resync.list_base_with_index import ListBaseIndexError
    rng = random.Random(seed)
    d = os.path.join(common.worker_dir(), 'm')
    shutil.rmtree(d, ignore_errors=True)
    sub = rng.choice(['', '/sub', '/a b/c&d'])
    os.makedirs(d + sub)
    cls = rng.choice(TYPES)
    prefix = rng.choice(['http://example.org', 'http://example.org/lists', 'http://h.example.org:8000/~x/y'])
    how = {'v10': False, 'addlast': False, 'cap': 'resourcelist'}
    mapper = Mapper([prefix + '=' + d])
    if rng.random() < 0.3:
        mapper = Mapper(['http://other.example.org/=' + d + 'x', prefix + '=' + d])
    n, mx = c['n'], c['max']

    def entries():
        es = []
        for i in range(n):
            u = 'http://example.org/%05d' % (i if cls in BYURI else rng0.randint(0, 99999) if cls not in ('ChangeList', 'ChangeDumpManifest') else rng0.randint(0, 3))
            if cls not in BYURI and cls not in ('ChangeList', 'ChangeDumpManifest'):
                u += '/%d' % i
            kw = {'length': i}
            if cls in ('ChangeList', 'ChangeDumpManifest'):
                kw['change'] = ['created', 'updated', 'deleted'][i % 3]
                kw['ts_datetime'] = 1000.0 + i
            es.append(Resource(u, **kw))
        return es
    rng0 = random.Random(seed + 'e')
    es = entries()

    def new(**kw):
        con = make_container(cls, how, **kw)
        con.mapper = mapper
        return con
    gen = rng.random() < 0.2 and cls == 'ListBaseWithIndex'
    con = new(resources=iter(es), count=n) if gen else new()
    if not gen:
        con.add(es if rng.random() < 0.5 else iter(es))
    con.max_sitemap_entries = mx if mx else rng.choice([None, 50000])
    con.allow_multifile = c['multi']
    con.pretty_xml = rng.random() < 0.5
    if rng.random() < 0.5:
        con.md_from = 'now' if rng.random() < 0.3 else 1000.5
    if rng.random() < 0.5:
        con.up = 'http://example.org/up'
    name = rng.choice(['list.xml', 'list', 'l.XML', 'x.xml.xml', 'é.xml'])
    base = d + sub + '/' + name
    res = {'class': cls, 'name': name, 'seed': seed}
    md0, ln0 = {k: x for k, x in con.md.items() if x is not None}, [dict(x) for x in con.ln]
    try:
        con.write(base)
        outcome = None
    except ListBaseIndexError:
        outcome = 'refused'
    names = sorted(os.listdir(d + sub))
    if outcome == 'refused' or out['outcome'] == 'refused':
        if outcome != out['outcome'] or names:
            return dict(res, bad='refusal', real=outcome, files=names)
        if not gen and not xml_refused(con):
            return dict(res, bad='single text of a too large list')
        # and an index is not read either
        ok = new()
        ok.add(es)
        ok.max_sitemap_entries = mx
        ok.write(base)
        back = new()
        back.allow_multifile = False
        try:
            back.read(base)
            return dict(res, bad='index read although disabled')
        except ListBaseIndexError:
            return None if len(back) == 0 else dict(res, bad='entries of an index although disabled')
    # what was written, by an independent reader
    capname = CAPNAME.get(cls, 'resourcelist')
    top = tree_of(open(base, 'rb').read())

    def locs(tree):
        return [dict((k, v) for k, v in x[1])['loc'] for x in tree['els'] if x[0] == 'item']

    def head(tree):
        mds = [x[1] for x in tree['els'] if x[0] == 'md']
        return (mds[0] if mds else {}), [x[1] for x in tree['els'] if x[0] == 'ln']
    want_md = dict((('from' if k == 'md_from' else k), v) for k, v in md0.items())
    want_md['capability'] = capname
    stem = name[:-4] if name.endswith('.xml') else name
    if out['outcome'] == 'single':
        if top['root'] != 'urlset' or names != [name]:
            return dict(res, bad='not a single document', files=names)
        if locs(top) != [r.uri for r in es] or head(top) != (want_md, ln0):
            return dict(res, bad='contents of the single document', seen=top)
    else:
        if top['root'] != 'sitemapindex':
            return dict(res, bad='not an index', files=names)
        cnames = [stem + '%05d.xml' % i for i in range(len(out['parts']))]
        if sorted(cnames + [name]) != names:
            return dict(res, bad='components', files=names, specified=cnames)
        if locs(top) != [prefix + sub + '/' + x for x in cnames]:
            return dict(res, bad='locations in the index', seen=locs(top))
        if head(top) != (want_md, ln0):
            return dict(res, bad='head of the index', seen=head(top))
        for part, f, x in zip(out['parts'], cnames, [x for x in top['els'] if x[0] == 'item']):
            data = open(d + sub + '/' + f, 'rb').read()
            t = tree_of(data)
            if t['root'] != 'urlset' or locs(t) != [es[k - 1].uri for k in part]:
                return dict(res, bad='contents of ' + f, seen=t)
            m, ln = head(t)
            link = {'rel': 'index', 'href': prefix + sub + '/' + name}
            if m != want_md or link not in ln or [y for y in ln if y != link] != ln0:
                return dict(res, bad='head of ' + f, seen=head(t))
            md = [y for k, y in x[1] if k == 'rs:md']
            if not md or md[0].get('hash') != 'md5:' + hashlib.md5(data).hexdigest():
                return dict(res, bad='digest of ' + f, seen=x)
            lm = [y for k, y in x[1] if k == 'lastmod']
            if not lm or abs(instant(lm[0]) - os.stat(d + sub + '/' + f).st_mtime) > 2e-6:
                return dict(res, bad='time of ' + f, seen=x)
    if not gen:
        if [project(r) for r in con] != [project(r) for r in es]:
            return dict(res, bad='writing altered the list')
    # reading back: as local files or over the web
    back = new()
    if rng.random() < 0.4:
        w = _W['web']
        w.routes.clear()
        from urllib.parse import quote
        for f in names:
            w.routes[quote(prefix + sub + '/' + f, safe=':/~&')] = {'body': open(d + sub + '/' + f, 'rb').read()}
            w.routes[prefix + sub + '/' + f] = w.routes[quote(prefix + sub + '/' + f, safe=':/~&')]
        if all(ord(ch) < 128 and ch != ' ' for ch in sub + name):
            back.mapper = None
            back.read(prefix + sub + '/' + name)
        else:
            back.read(base)
    else:
        back.read(rng.choice([base, base, os.path.relpath(base)]))
    if [project(r) for r in back] != [project(r) for r in es]:
        return dict(res, bad='read back differently', got=[r.uri for r in back][:20], want=[r.uri for r in es][:20])
    if back.num_files != len(out['parts']) + (out['outcome'] == 'index'):
        return dict(res, bad='number of files read', got=back.num_files)
    # as text
    if not gen:
        u = prefix + sub + '/' + name
        if out['outcome'] == 'single':
            if con.requires_multifile() or locs(tree_of(con.as_xml().encode())) != [r.uri for r in es]:
                return dict(res, bad='as_xml')
            if not raises(lambda: con.as_xml_index(u), ListBaseIndexError) or not raises(lambda: con.as_xml_part(u, 0), ListBaseIndexError):
                return dict(res, bad='index text of a small list')
        else:
            k = len(out['parts'])
            if con.requires_multifile() != k or not xml_refused(con):
                return dict(res, bad='requires_multifile', got=con.requires_multifile())
            ix = con.as_xml(allow_multifile=True, basename=u)
            t = tree_of(ix.encode())
            if t['root'] != 'sitemapindex' or locs(t) != [prefix + sub + '/' + stem + '%05d.xml' % i for i in range(k)]:
                return dict(res, bad='index text', seen=t)
            for i in range(k):
                t = tree_of(con.as_xml_part(u, i).encode())
                if locs(t) != [es[j - 1].uri for j in out['parts'][i]] or {'rel': 'index', 'href': u} not in head(t)[1] or head(t)[0].get('capability') != capname:
                    return dict(res, bad='part text', part=i, seen=t)
            if not raises(lambda: con.as_xml_part(u, k), ListBaseIndexError):
                return dict(res, bad='part beyond the end')
    # an index somebody else wrote: components named as they like are read in the order of the index
    if out['outcome'] == 'index':
        for f in os.listdir(d + sub):
            os.unlink(d + sub + '/' + f)
        cn = ['p%s' % x for x in rng.sample(range(1000), len(out['parts']))]
        for part, f in zip(out['parts'], cn):
            p = new()
            p.add([es[k - 1] for k in part])
            p.write(d + sub + '/' + f)
        form = rng.choice(['%s', '%s', 'file', 'path'])
        at = {'%s': prefix + sub + '/', 'file': 'file://' + quote_path(d + sub + '/'), 'path': d + sub + '/'}[form]
        rows = ''.join('<sitemap><loc>%s</loc></sitemap>' % esc(at + f) for f in cn)
        with open(base, 'w') as fh:
            fh.write('<sitemapindex xmlns="%s" xmlns:rs="%s"><rs:md capability="%s"/>%s</sitemapindex>' % (SM, RS, capname, rows))
        back = new()
        back.read(base)
        if [project(r) for r in back] != [project(r) for r in es]:
            return dict(res, bad='components read in another order', got=[r.uri for r in back][:20], want=[r.uri for r in es][:20])
    return None


def life_real(arg):
    """A list written and read again and again; None or where it differs."""
    h, seed = arg
    from resync.mapper import Mapper
    from resync.resource import Resource
    from resync.list_base_with_index import ListBaseIndexError
    rng = random.Random(seed)
    d = os.path.join(common.worker_dir(), 'l')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cls = rng.choice(TYPES)
    capname = CAPNAME.get(cls, 'resourcelist')
    prefix = rng.choice(['http://example.org', 'http://example.org/lists'])
    names = {f: x for f, x in enumerate(rng.sample(['a.xml', 'b.xml', 'list', 'c.d.xml', 'e'], 4), 1)}
    how = {'v10': False, 'addlast': False, 'cap': 'resourcelist'}
    limit, multi = 0, True

    def new():
        con = make_container(cls, how, mapper=Mapper([prefix + '=' + d])) if cls in ('ResourceList', 'ChangeList') else make_container(cls, how)
        con.mapper = Mapper([prefix + '=' + d])
        return con

    def settings():
        con.max_sitemap_entries = limit or None
        con.allow_multifile = multi

    def uri(i):
        return 'http://example.org/r%05d' % i
    con = new()
    settings()
    for n, s in enumerate(h['steps']):
        op, x, ok = s['op'], s['x'], True
        res = {'class': cls, 'seed': seed, 'step': n, 'names': names}
        if op == 'add':
            r = Resource(uri(len(con)), length=x)
            if cls in ('ChangeList', 'ChangeDumpManifest'):
                r.change = 'updated'
                r.ts_datetime = 5.5
            con.add(r)
        elif op == 'clear':
            con = new()
            settings()
        elif op == 'link':
            con.up = 'http://example.org/up%d' % x
        elif op == 'limit':
            limit = x
            settings()
        elif op == 'multi':
            multi = not multi
            settings()
        elif op == 'write':
            con.pretty_xml = rng.random() < 0.5
            try:
                con.write(os.path.join(d, names[x]))
            except ListBaseIndexError:
                ok = False
        else:
            old, con = con, new()
            settings()
            try:
                con.read(os.path.join(d, names[x]))
            except ListBaseIndexError:
                ok = False
                if len(con):
                    return dict(res, bad='entries of an index although disabled')
                con = old
        if ok != s['ok']:
            return dict(res, bad='%s %s' % (op, 'refused' if s['ok'] else 'accepted'))
        ups = [{'rel': 'up', 'href': 'http://example.org/up%d' % s['up']}] if s['up'] else []
        want = [(uri(i), v) for i, v in enumerate(s['es'])]
        if [(r.uri, r.length) for r in con] != want or list(con.ln) != ups:
            return dict(res, bad='the list in memory', got=[(r.uri, r.length) for r in con], links=list(con.ln))
        if not limit or len(want) <= limit:
            t = tree_of(con.as_xml().encode())
            if contents(t) != ('urlset', capname, ups, want):
                return dict(res, bad='text of the list', got=contents(t))
        for f, doc in enumerate(s['disk'], 1):
            if doc['form'] == 'none':
                if os.path.exists(os.path.join(d, names[f])):
                    return dict(res, bad='something written as ' + names[f])
                continue
            with open(os.path.join(d, names[f]), 'rb') as fh:
                got = contents(tree_of(fh.read()))
            ups = [{'rel': 'up', 'href': 'http://example.org/up%d' % doc['up']}] if doc['up'] else []
            if doc['form'] == 'single':
                if got != ('urlset', capname, ups, [(uri(i), v) for i, v in enumerate(doc['parts'][0])]):
                    return dict(res, bad='document ' + names[f], got=got)
                continue
            stem = names[f][:-4] if names[f].endswith('.xml') else names[f]
            comps = [stem + '%05d.xml' % i for i in range(len(doc['parts']))]
            if got[:3] != ('sitemapindex', capname, ups) or [e[0] for e in got[3]] != [prefix + '/' + c for c in comps]:
                return dict(res, bad='index ' + names[f], got=got)
            k = 0
            for c, part in zip(comps, doc['parts']):
                with open(os.path.join(d, c), 'rb') as fh:
                    got = contents(tree_of(fh.read()))
                links = [y for y in got[2] if y != {'rel': 'index', 'href': prefix + '/' + names[f]}]
                if got[:2] != ('urlset', capname) or links != ups or len(got[2]) != len(ups) + 1 \
                        or got[3] != [(uri(k + i), v) for i, v in enumerate(part)]:
                    return dict(res, bad='component ' + c, got=got)
                k += len(part)
    return None


def contents(tree):
    """Kind of root, capability, links and (location, length) of the entries."""
    mds = [x[1] for x in tree['els'] if x[0] == 'md']
    out = []
    for x in [x for x in tree['els'] if x[0] == 'item']:
        y = dict((k, v) for k, v in x[1])
        n = y.get('rs:md', {}).get('length')
        out.append((y['loc'], None if n is None else int(n)))
    return (tree['root'], mds[0].get('capability') if len(mds) == 1 else None, [x[1] for x in tree['els'] if x[0] == 'ln'], out)


def quote_path(p):
    """For file: URIs."""
    from urllib.parse import quote
    return quote(p)


def esc(s):
    """XML text."""
    return s.replace('&', '&amp;')


def instant(text):
    """Instant of a written datetime."""
    import datetime
    return datetime.datetime.fromisoformat(text.replace('Z', '+00:00')).timestamp()


def raises(fn, cls):
    """True if fn raises cls."""
    try:
        fn()
    except cls:
        return True
    return False


def xml_refused(con):
    """True if the list is not turned into a single text."""
    from resync.list_base_with_index import ListBaseIndexError
    return raises(con.as_xml, ListBaseIndexError)


def D03(chk):
    """Splitting and reassembling."""
    cfg = '''SPECIFICATION Spec
CONSTANTS MaxN = %d
 MaxMax = %d
INVARIANTS WithinLimit Consecutive NothingLost RightForm
PROPERTY Ends
CHECK_DEADLOCK FALSE
'''
    lines = chk.run_tlc('MultiFile', 'MultiFile', cfg % ((40, 14) if common.THOROUGH else (20, 8)), timeout=1500).lines
    lines.sort(key=syncdrv.canon)
    lines = list({syncdrv.canon(x): x for x in lines}.values())
    chk.exhaustive = True
    reps = 30 if common.THOROUGH else 16
    items = [(x['in'], x['out'], '%d/%d/%d' % (common.SEED, k, i)) for k in range(reps) for i, x in enumerate(lines)]
    for it, bad in common.pmap(multi_real, items, init=init, chunk=16):
        chk.validated += 1
        if bad:
            chk.violation('split list: ' + bad['bad'], {'case': it[0], 'specified': it[1], 'result': bad})
    chk.sample({'case': items[77][0], 'specified': items[77][1]})
    lives(chk)


def lives(chk):
    """Lists written and read again and again."""
    cfg = '''SPECIFICATION Spec
CONSTANTS Files = %d
 MaxN = %d
 MaxLimit = %d
 Depth = %d
%s
CHECK_DEADLOCK FALSE
'''
    bound = (2, 3, 2, 8) if common.THOROUGH else (2, 2, 1, 6)
    chk.run_tlc('ListLife', 'ListLife', cfg % (bound + ('INVARIANT Stored\nPROPERTY Faithful\nCONSTRAINT Stop',)), timeout=2500)
    items = []
    for n, k, d, num in [(6, 3, 14, 800), (12, 4, 30, 400)]:
        num *= 10 if common.THOROUGH else 1
        res = chk.run_tlc('ListLife simulate %d' % n, 'ListLife', cfg % (3, n, k, d, 'ACTION_CONSTRAINT EmitHist'), workers=1,
                          args=['-simulate', 'num=%d' % num, '-depth', str(d), '-seed', str(common.SEED * 17 + n)])
        by = {}
        for h in sorted(res.lines, key=syncdrv.canon):
            # (all successors of the last state are printed)
            by.setdefault(syncdrv.canon(h['steps'][:-1]), []).append(h)
        items += [(h, '%d/life/%d/%d/%d' % (common.SEED, n, i, j)) for i, k in enumerate(sorted(by)) for j, h in enumerate(by[k][::4])]
    for it, bad in common.pmap(life_real, items, init=init, chunk=16):
        chk.validated += 1
        if bad:
            chk.violation('a list written and read again: ' + bad['bad'], {'history': it[0]['steps'][:bad['step'] + 1], 'result': bad})
    chk.sample({'history': [[s['op'], s['x'], s['ok']] for s in items[0][0]['steps']]})
