"""C05 (Cli.tla)."""
import contextlib
import hashlib
import io
import os
import random
import re
import shutil
import sys
import time
import zipfile

import common
import syncdrv
from check_dig import NET, init_net
from check_docs import tree_of
from check_net import forked
from syncdrv import listing_xml

CFG = '''SPECIFICATION Spec
CONSTANT MaxLen = %d
INVARIANTS Faithful Harmless
CHECK_DEADLOCK FALSE
'''
H = 'http://h.example.org'
T0 = 1300000000


def iso(t):
    """W3C datetime."""
    return time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime(T0 + t))


def text_real(arg):
    """Split an argument."""
    c, out, seed = arg
    from resync import client_utils as cu
    rng = random.Random(seed)
    conc = rng.choice([{'a': 'a', 'b': 'b'}, {'a': 'up', 'b': 'http://h.example.org/x?y&z;w#f'}, {'a': 'Ä b', 'b': '"<b>\''}, {'a': 'resourcelist', 'b': '/local/file.xml'},
                       {'a': 'x y', 'b': ' '}, {'a': ' a ', 'b': '\tb '}])

    def conv(s):
        return ''.join(conc.get(x, x) for x in s)
    s = conv(c['s'])
    info = {'argument': s}

    def call(fn, *a):
        try:
            return fn(*a)
        except cu.ClientFatalError:
            return None
    one, many, caps, lists = (call(cu.parse_link, s), call(cu.parse_links, [s]), call(cu.parse_capabilities, s), call(cu.parse_capability_lists, s))
    two = call(cu.parse_links, ['r,h,k=v', s])
    lk = out['link']
    if not lk['ok']:
        if one is not None or many is not None or two is not None:
            return dict(info, bad='malformed link accepted', got=str(one or many or two))
    elif lk['rel']:
        want = {}
        for k, v in lk['pairs']:
            want[conv(k)] = conv(v)
        if not {'rel', 'href'} & set(want):
            want.update(rel=conv(lk['rel']), href=conv(lk['href']))
            if one != want or many != [want] or two != [{'rel': 'r', 'href': 'h', 'k': 'v'}, want]:
                return dict(info, bad='link not parsed exactly', got=[str(one), str(many), str(two)], specified=want)
    cp = out['caps']
    if not cp['ok']:
        if caps is not None:
            return dict(info, bad='malformed capabilities accepted', got=str(caps))
    elif all(k for k, v in cp['pairs']):
        want = {conv(k): conv(v) for k, v in cp['pairs']}
        if caps is None or dict(caps) != want or list(caps) != list(want):
            return dict(info, bad='capabilities not parsed exactly', got=str(caps), specified=str(want))
    want = [conv(x) for x in out['lists']]
    if '' not in want and lists != want:
        return dict(info, bad='capability lists not parsed exactly', got=str(lists), specified=want)
    return None


def command(name, args):
    """Run the script in this process: exit code or exception, standard output, standard error."""
    from importlib.machinery import SourceFileLoader
    import importlib.util
    import logging
    o, e = io.StringIO(), io.StringIO()
    argv, code = sys.argv, 0
    sys.argv = [name] + args
    for lg in ('client', 'resync'):
        logging.getLogger(lg).handlers = []
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        try:
            ld = SourceFileLoader(name.replace('-', '_') + '_script', os.path.join(common.REPO, name))
            spec = importlib.util.spec_from_loader(ld.name, ld)
            mod = importlib.util.module_from_spec(spec)
            ld.exec_module(mod)
            mod.main()
        except SystemExit as x:
            code = x.code if x.code is not None else 0
        except Exception as x:
            code = '%s: %s' % (type(x).__name__, str(x)[:300])
    sys.argv = argv
    logging.shutdown()
    return code, o.getvalue(), e.getvalue()


def listed(d):
    """Entries of a document tree: (uri, md)."""
    out = []
    for k, v in d['els']:
        if k == 'item':
            x = dict(v)
            out.append((x['loc'], x.get('rs:md', {})))
    return out


def digests_differ(wanted, md, data):
    """What an entry should have had as digests if it has not."""
    w = {h + ':' + getattr(hashlib, h.replace('-', ''))(data).hexdigest() if h == 'md5' else h for h in wanted}
    g = {x if x.startswith('md5') else x.split(':')[0] for x in md.get('hash', '').split()}
    return sorted(w) if w != g else None


def opt(rng, name, value=None):
    """Spelling of one option."""
    if value is None:
        return [name]
    return [name + '=' + value] if rng.random() < 0.5 or value.startswith('-') else [name, value]


def build_real(arg):
    """Run resync-build."""
    c, out, seed = arg
    rng = random.Random(seed)
    top = os.path.join(common.worker_dir(), 'b')
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top + '/d/p')
    os.makedirs(top + '/d/q')
    os.chdir(top)
    base = H + rng.choice(['/src', '', '/a/b'])
    where = {'f1': 'd/p/f1', 'f2': 'd/q/f2', 'x3': 'd/p/x3.bak'}
    data = {}
    for i, (n, p) in enumerate(sorted(where.items())):
        data[n] = os.urandom(10 + i)
        with open(p, 'wb') as fh:
            fh.write(data[n])
        os.utime(p, (T0 + 100, T0 + 100))
    uri = {n: base + p[1:] for n, p in where.items()}
    uri.update(gone=base + '/p/gone', new=base + '/new')
    for f, rows in (('ref.xml', [('f1', 1), ('f2', 1), ('gone', 1)]), ('new.xml', [('f1', 1), ('f2', 2), ('new', 1)])):
        with open(f, 'wb') as fh:
            # f1 is the same as on disk, version 1 of f2 is older
            fh.write(listing_xml(None, [{'uri': uri[n], 'lastmod': iso(100 if n == 'f1' or v == 2 else 50),
                                         'md': {'length': str(len(data[n])) if n in data else '3'}} for n, v in rows], 'resourcelist', False))
    args = []
    m = c['mode']
    uris = ['%s/c%d%s' % (base, i, rng.choice(['', '.xml', '?x'])) for i in range(len(c['names']))]
    if m == 'resourcelist':
        args += [rng.choice(['--write-resourcelist', '--write-resource-list'])]
    elif m == 'resourcedump':
        args += [rng.choice(['--write-resourcedump', '--write-resource-dump', '-d'])]
    elif m == 'capabilities':
        args += opt(rng, rng.choice(['--write-capabilitylist', '--write-capability-list']), ','.join('%s=%s' % x for x in zip(c['names'], uris)))
    elif m == 'description':
        args += opt(rng, rng.choice(['--write-sourcedescription', '--write-source-description']), ','.join(uris))
    else:
        args += [rng.choice(['--write-changelist', '--write-change-list'])]
        if m in ('changelist', 'newreference'):
            args += opt(rng, '--reference', 'ref.xml')
        if m == 'newreference':
            args += opt(rng, '--newreference', 'new.xml')
        if m == 'empty':
            args += ['--empty']
    want_links = []
    hrefs = {'describedby': H + '/about?x=1&y', 'up-sd': H + '/.well-known/resourcesync', 'up-cl': H + '/caps.xml'}
    for k, o in (('describedby', '--describedby-link'), ('sdlink', rng.choice(['--sourcedescription-link', '--source-description-link'])),
                 ('cllink', rng.choice(['--capabilitylist-link', '--capability-list-link']))):
        if c[k]:
            args += opt(rng, o, hrefs[{'describedby': 'describedby', 'sdlink': 'up-sd', 'cllink': 'up-cl'}[k]])
    texts, n = {}, 0
    for x in c['links']:
        n += 1
        if x == 'plain':
            a, t = {'rel': 'rel%d' % n, 'href': H + '/l%d' % n}, 'rel%d,%s/l%d' % (n, H, n)
        elif x == 'atts':
            a, t = {'rel': 'rel%d' % n, 'href': '/l%d' % n, 'pri': str(n), 'modified': iso(n)}, 'rel%d,/l%d,pri=%d,modified=%s' % (n, n, n, iso(n))
        else:
            a, t = {}, rng.choice(['', 'rel', 'rel,', 'rel,h,', 'rel,h,a', 'rel,h,a=', 'rel,h,=b', 'rel,h,a=b,c', 'rel,h,a=b=c'])
        texts.setdefault(x, []).append(a)
        args += opt(rng, '--link', t) if t else ['--link=']
    for x in out['links']:
        if x in hrefs:
            want_links.append({'rel': 'describedby' if x == 'describedby' else 'up', 'href': hrefs[x]})
        else:
            want_links.append(texts[x].pop(0))
    for h in c['hash']:
        args += opt(rng, '--hash', h)
    args += ['--checksum'] if c['checksum'] else []
    args += opt(rng, '--exclude', rng.choice([r'.*\.bak$', 'x3', r'[x]3\.'])) if c['exclude'] else []
    args += opt(rng, '--paths', rng.choice(['d/p', 'd/p/', 'd/p' if c['exclude'] else 'd/p/f1,d/p/x3.bak'])) if c['paths'] else []
    args += opt(rng, '--max-sitemap-entries', str(c['max'])) if c['max'] else []
    args += [rng.choice(['--multifile', '-m'])] if c['single'] else []
    outfile = None
    if c['outfile']:
        outfile = 'd/out.xml' if c['map'] else 'out.xml'
        args += opt(rng, '--outfile', outfile)
        args += ['--verbose'] if rng.random() < 0.2 else []
    args += ['--logger', '--logfile', 'log'] if rng.random() < 0.2 else []
    args += opt(rng, '--spec-version', rng.choice(['1.0', '1.1'])) if rng.random() < 0.3 else []
    # options in any order, the mapping first or last
    mp = rng.choice([[base + '=d'], [base, 'd'], [base + '/=d/']]) if c['map'] else []
    args = mp + args if rng.random() < 0.5 else args + (['--'] + mp if mp and rng.random() < 0.5 else mp)

    def tree():
        return sorted(os.path.join(p, f) for p, _, fs in os.walk('.') for f in fs if f != 'log')
    before = tree()
    r = forked(lambda: list(command('resync-build', args)))
    if isinstance(r, dict):
        return dict(r, arguments=args)
    code, so, se = r
    fresh = [x for x in tree() if x not in before]
    info = {'arguments': args, 'exit': code, 'stdout': so[:800], 'stderr': se[:500], 'specified': out, 'files': fresh}
    if out['refused']:
        if fresh or '<' in so:
            return dict(info, bad='something written although refused')
        if code in (0, None) and not se.strip():
            return dict(info, bad='refused without an error')
        return None
    if code not in (0, None) or 'Error' in se:
        return dict(info, bad='permitted options fail')
    if m == 'resourcedump':
        # one package and a copy of its manifest; the links have no document to go to
        zips = [x for x in fresh if x.endswith('.zip')]
        if len(zips) != 1 or len(fresh) != 2 or outfile and not all(x.startswith('./' + outfile) for x in fresh):
            return dict(info, bad='wrong set of files')
        try:
            with zipfile.ZipFile(zips[0]) as z:
                held = {x: z.read(x) for x in z.namelist()}
                docs = [tree_of(held.pop('manifest.xml')), tree_of(open([x for x in fresh if x != zips[0]][0], 'rb').read())]
        except Exception as x:
            return dict(info, bad='no package written', problem=str(x))
        back = {u: n for n, u in uri.items()}
        for d in docs:
            ents = listed(d)
            if [v.get('capability') for n, v in d['els'] if n == 'md'] != [out['kind']]:
                return dict(info, bad='wrong kind of document')
            if sorted(u for u, md in ents) != sorted(uri[n] for n, ch in out['entries']):
                return dict(info, bad='wrong entries', got=ents)
            if sorted(held) != sorted(md.get('path', '').lstrip('/') for u, md in ents):
                return dict(info, bad='package does not hold what the manifest names', got=sorted(held), manifest=ents)
            for u, md in ents:
                if held[md['path'].lstrip('/')] != data[back[u]]:
                    return dict(info, bad='wrong bytes in the package', entry=u)
                bad = digests_differ(out['digests'], md, data[back[u]])
                if bad:
                    return dict(info, bad='requested digests not in the document', entry=u, got=md.get('hash'), expected=bad)
        return None
    try:
        if outfile:
            root = tree_of(open(outfile, 'rb').read())
            parts = [tree_of(open(x, 'rb').read()) for x in fresh if x != './' + outfile] if out['parts'] > 1 else [root]
        else:
            root = tree_of(so.encode())
            parts = [root]
    except Exception as x:
        return dict(info, bad='no document written', problem=str(x))
    if (out['parts'] > 1 and (len(parts) != out['parts'] or root['root'] != 'sitemapindex')) or (out['parts'] == 1 and (root['root'] != 'urlset' or len(fresh) != bool(outfile))):
        return dict(info, bad='wrong set of files')
    for d in [root] + parts:
        k = [v.get('capability') for n, v in d['els'] if n == 'md']
        if k != [out['kind']]:
            return dict(info, bad='wrong kind of document', got=k)
    if c['max'] and out['parts'] > 1 and any(len(listed(d)) > c['max'] for d in parts):
        return dict(info, bad='more entries than allowed')
    ents = [e for d in parts for e in listed(d)]
    if m in ('capabilities', 'description'):
        want = sorted((u, n if m == 'capabilities' else 'capabilitylist') for u, n in zip(uris, c['names']))
        got = sorted((u, md.get('capability')) for u, md in ents)
    else:
        want = sorted((uri[n], ch) for n, ch in out['entries'])
        got = sorted((u, md.get('change', '')) for u, md in ents)
    if want != got:
        return dict(info, bad='wrong entries', got=got, expected=want)
    links = [v for n, v in root['els'] if n == 'ln' and v.get('rel') != 'index']
    key = lambda a: sorted(a.items())
    if sorted(map(key, links)) != sorted(map(key, want_links)):
        return dict(info, bad='links not carried to the document', got=links, expected=want_links)
    if m in ('resourcelist', 'changelist'):
        back = {u: n for n, u in uri.items()}
        for u, md in ents:
            if md.get('change') == 'deleted':
                continue
            bad = digests_differ(out['digests'], md, data[back[u]])
            if bad:
                return dict(info, bad='requested digests not in the document', entry=u, got=md.get('hash'), expected=bad)
    return None


def sync_real(arg):
    """Run resync-sync."""
    c, out, seed = arg
    rng = random.Random(seed)
    top = os.path.join(common.worker_dir(), 's')
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    os.chdir(top)
    net = NET['net']
    base = H + rng.choice(['/src', '/a/b', '/s.x'])
    uri = {n: base + '/' + n for n in ('new', 'upd', 'dig', 'same', 'early', 'bad', 'slow', 'extra')}
    uri.update(other='http://other.example.net/o', beside=H + '/beside/b')
    maps = [base + '=dst', 'http://other.example.net=dst2', H + '/beside=dst3']
    dst = 'dst'
    if not {'other', 'beside'} & set(c['more']) and rng.random() < 0.5:
        maps = [base, 'dst']
        if rng.random() < 0.6:
            # only the source is given, with a local path made up from it
            from resync.mapper import Mapper
            maps = [base + rng.choice(['', '/'])]
            dst = Mapper(maps, use_default_path=True).src_to_dst(base + '/k')[:-2]
            if os.path.basename(os.path.normpath(dst)) != dst:
                return {'bad': 'derived destination is not a name', 'map': maps, 'destination': dst}
    dirs = (dst, 'dst2', 'dst3')
    path = {n: {'other': 'dst2/o', 'beside': 'dst3/b'}.get(n, dst + '/' + n) for n in uri}
    body = {n: ('content of %s %d' % (n, i)).encode() for i, n in enumerate(sorted(uri))}
    for d in dirs:
        os.makedirs(d)
    old = {'upd': b'old', 'same': body['same'], 'dig': b'X' + body['dig'][1:], 'extra': b'extra'}
    inc = c['mode'] == 'incremental'
    when = {'early': 1, 'new': 2, 'upd': 3, 'extra': 4}
    for n, b in old.items():
        with open(path[n], 'wb') as fh:
            fh.write(b)
        os.utime(path[n], (T0, T0))
    rows = []
    names = ['early', 'new', 'upd', 'extra'] if inc else ['new', 'upd', 'dig', 'same']
    more = list(c['more'])
    rng.shuffle(more)
    for n in names + more:
        md = {'length': str(len(body[n])), 'hash': 'md5:' + hashlib.md5(body[n]).hexdigest()}
        if inc:
            md.update(change='deleted' if n == 'extra' else 'updated' if n == 'upd' else 'created')
            if n == 'extra':
                md = {'change': 'deleted'}
            md['datetime'] = iso(when.get(n, 3))
        rows.append({'uri': uri[n], 'lastmod': iso(0 if n in old else 5) if n != 'extra' else None, 'md': md})
    if not inc:
        rng.shuffle(rows)
    rl, cl = base + '/resourcelist.xml', base + '/changelist.xml'
    args, caps = [], None
    if c['sitemap']:
        rl = base + '/mylist.xml'
        args += opt(rng, '--sitemap', rl)
    elif not inc and c['caplist'] and c['mode'] != 'parse':
        caps, rl = base + '/caps.xml', base + '/thelist.xml'
        args += opt(rng, rng.choice(['--capabilitylist', '--capability-list']), caps)
    if c['clu']:
        cl = base + '/mychanges.xml'
        args += opt(rng, rng.choice(['--changelist-uri', '--change-list-uri']), rng.choice([cl, 'mychanges.xml']))
    routes = {}
    if inc:
        routes[cl] = {'body': listing_xml(None, rows, 'changelist', False)}
    else:
        routes[rl] = {'body': listing_xml(None, rows, 'resourcelist', False)}
        if caps:
            routes[caps] = {'body': listing_xml(None, [{'uri': rl, 'md': {'capability': 'resourcelist'}}], 'capabilitylist', False)}
    for n, u in uri.items():
        routes[u] = {'body': body[n]}
    routes[uri['bad']] = {'status': rng.choice([404, 410, 500, 403]), 'body': b'no'}
    routes[uri['slow']] = [{'body': body['slow'], 'fault': rng.choice(['rtimeout', 'btimeout'])} for _ in range(c['slow'])] + [{'body': body['slow']}]
    if c['misuse'] == 'modes':
        args += [rng.choice(sorted({'--baseline', '--audit', '--parse', '--incremental'} - {'--' + c['mode']}))]
    args += [] if c['misuse'] == 'nomode' else [rng.choice({'baseline': ['--baseline', '-b'], 'audit': ['--audit', '-a'], 'parse': ['--parse', '-p'], 'incremental': ['--incremental', '--inc', '-i']}[c['mode']])]
    for k, o in (('delete', '--delete'), ('dryrun', rng.choice(['--dryrun', '-n'])), ('ignore', '--ignore-failures'), ('noauth', '--noauth'),
                 ('strict', '--strictauth'), ('checksum', '--checksum')):
        args += [o] if c[k] else []
    for h in c['hash']:
        args += opt(rng, '--hash', h)
    args += opt(rng, rng.choice(['--tries', '-t']), str(c['tries'])) if c['tries'] else []
    args += opt(rng, rng.choice(['--timeout', '-T']), str(c['timeout'])) if c['timeout'] else []
    token = rng.choice(['abc', 'a.b-c_d~e+f/g==']) if c['token'] else None
    args += opt(rng, '--access-token', token) if token else []
    args += ['--delay=' + rng.choice(['-1', '-0.02'])] if c['misuse'] == 'delay' else opt(rng, '--delay', '0.02') if c['delay'] else []
    if c['from']:
        args += opt(rng, '--from', iso(c['from']) if c['from'] > 0 else rng.choice(['yesterday', '2011-13-01', '']) or 'x')
    args += ['-v'] if rng.random() < 0.3 else []
    args += ['--logger', '--logfile', 'log'] if rng.random() < 0.2 else []
    args += opt(rng, '--spec-version', '1.1' if inc else rng.choice(['1.0', '1.1'])) if rng.random() < 0.2 else []
    args += opt(rng, '--max-sitemap-entries', '3') if rng.random() < 0.2 else []
    args = maps + args if rng.random() < 0.5 else args + maps

    def tree():
        return {os.path.join(p, f): open(os.path.join(p, f), 'rb').read() for d in dirs for p, _, fs in os.walk(d) for f in fs}
    before = tree()

    def run():
        net.reset(routes)
        return list(command('resync-sync', args)) + [[list(x[:3]) + [x[3], x[4] if isinstance(x[4], (int, float)) else None] for x in net.log]]
    r = forked(run)
    if isinstance(r, dict):
        return dict(r, arguments=args)
    code, so, se, log = r
    after = tree()
    asked = [x[1] for x in log if x[1] in uri.values()]
    back = {u: n for n, u in uri.items()}
    info = {'arguments': args, 'exit': code, 'stdout': so[-500:], 'stderr': se[-700:], 'specified': out, 'requests': [x[1] for x in log][:60],
            'changed': sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k)), 'slow answers at attempt': c['slow'] + 1}
    failed = code not in (0, None) or 'FatalError' in se
    if failed != out['error']:
        return dict(info, bad='run fails' if failed else 'run does not report an error')
    if isinstance(code, str) and not out['error']:
        return dict(info, bad='crash')
    where = cl if inc else rl
    if c['mode'] == 'parse' and not out['error'] and not re.search(r'resourcelist\b.*\b%d entries' % out['shown'], so):
        return dict(info, bad='document not described', entries=out['shown'])
    if out['list'] != (where in [x[1] for x in log]):
        return dict(info, bad='list not read from where the options say' if out['list'] else 'list read without need')
    if not out['acts'] and (before != after or asked or os.path.exists('.resync-client-status.cfg')):
        return dict(info, bad='changes or downloads that the options forbid')
    for u in asked:
        if back[u] not in out['wanted']:
            return dict(info, bad='resource downloaded that was not to be', resource=u)
    if out['complete']:
        if {back[u] for u in asked} != set(out['wanted']):
            return dict(info, bad='resources not downloaded')
        n = sum(1 for u in asked if back[u] == 'slow')
        if 'slow' in c['more'] and n != out['attempts']:
            return dict(info, bad='wrong number of tries', tries=n)
        if any(asked.count(u) != 1 for u in asked if back[u] != 'slow'):
            return dict(info, bad='resource downloaded repeatedly')
        want = dict(before)
        for n in out['got']:
            want[path[n]] = body[n]
        if out['deleted']:
            want.pop(path['extra'])
        if 'slow' in out['wanted'] and 'slow' not in out['got']:
            want.pop(path['slow'], None)
            after = {k: v for k, v in after.items() if k != path['slow']}
        if want != after:
            return dict(info, bad='destination is not what the options ask for', expected=sorted(k for k in set(want) | set(after) if want.get(k) != after.get(k)))
    elif out['acts'] and not out['deleted'] and path['extra'] not in after:
        return dict(info, bad='file deleted without permission')
    for m, u, h, t, to in log:
        if h.get('authorization') != ('Bearer ' + token if token else None):
            return dict(info, bad='token not sent as requested', url=u, headers=h)
        if u in uri.values() and c['timeout'] and to != c['timeout']:
            return dict(info, bad='time-out not used', url=u, used=to)
    if c['delay']:
        ts = [x[3] for x in log]
        if any(b - a < 0.02 for a, b in zip(ts, ts[1:])):
            return dict(info, bad='no delay between requests', times=ts)
    return None


def some(rng, *p):
    """Options of random runs."""
    return rng.choice(p)


def build_case(rng):
    """Options of a run of resync-build."""
    b = lambda p=0.5: rng.random() < p
    mode = rng.choice(['resourcelist', 'resourcelist', 'changelist', 'changelist', 'newreference', 'empty', 'capabilities', 'description', 'noreference', 'resourcedump'])
    names = ['resourcelist', 'changelist', 'resourcedump', 'changedump', 'resourcelist-archive', 'foo']
    rng.shuffle(names)
    return {'what': 'build', 'mode': mode, 'map': b(0.85) or mode in ('resourcelist', 'changelist', 'resourcedump') and b(0.6), 'describedby': b(0.4), 'sdlink': b(0.3), 'cllink': b(0.4),
            'links': [rng.choice(['plain', 'atts', 'plain', 'atts', 'bad' if b(0.4) else 'plain']) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))],
            'outfile': b(0.65), 'max': rng.choice([0, 0, 1, 2, 3, 50]), 'single': b(0.2),
            'hash': rng.choice([[], [], ['md5'], ['sha-1'], ['sha-256', 'md5'], ['md5', 'sha-1', 'sha-256'], ['md5', 'md5']]), 'checksum': b(0.3),
            'exclude': b(0.4), 'paths': b(0.3), 'names': names[:rng.randint(1, 5)]}


def sync_case(rng):
    """Options of a run of resync-sync."""
    b = lambda p=0.5: rng.random() < p
    mode = rng.choice(['baseline', 'baseline', 'incremental', 'incremental', 'incremental', 'audit', 'audit', 'baseline', 'parse'])
    return {'what': 'sync', 'mode': mode, 'delete': b(), 'dryrun': b(0.2), 'ignore': b(), 'noauth': b(0.4), 'strict': b(0.3), 'tries': rng.choice([0, 0, 1, 2, 3, 5]),
            'slow': rng.choice([0, 1, 1, 2, 3, 4]), 'timeout': rng.choice([0, 0, 7, 123]),
            'more': [x for x in ('other', 'beside', 'bad', 'slow') if b({'other': 0.2, 'beside': 0.3, 'bad': 0.25, 'slow': 0.4}[x])],
            'hash': rng.choice([[], [], [], ['md5'], ['sha-1'], ['sha-256', 'md5']]), 'checksum': b(0.3), 'from': rng.choice([0, -1, 1, 1, 2, 2]) if mode == 'incremental' else rng.choice([0, 0, 1]),
            'sitemap': b(0.3), 'caplist': b(0.3), 'clu': b(0.3) and mode == 'incremental', 'token': b(0.3), 'delay': b(0.15), 'misuse': rng.choice(['delay', 'modes', 'nomode']) if b(0.06) else ''}


def C05(chk):
    """Command line."""
    T = common.THOROUGH
    lines = chk.run_tlc('Cli texts', 'Cli', CFG % (8 if T else 6), timeout=3000, heap='8g').lines
    chk.exhaustive = True
    items = [(x['in'], x['out'], '%d-t%d' % (common.SEED, i)) for i, x in enumerate(lines)]
    for it, bad in common.pmap(text_real, items, init=init_net, chunk=256):
        chk.validated += 1
        if bad:
            chk.violation(bad['bad'], bad)
    recs = [build_case(chk.rng) for _ in range(12000 if T else 1500)] + [sync_case(chk.rng) for _ in range(12000 if T else 1500)]
    path = os.path.join(common.scratch(), 'cli.ndjson')
    common.write_ndjson(path, recs)
    lines = chk.run_tlc('Cli options', 'Cli', CFG % 0, env={'TRACE': path}, timeout=3000).lines
    for what, fn in (('build', build_real), ('sync', sync_real)):
        items = [(x['in'], x['out'], '%d-%s%d' % (common.SEED, what, i)) for i, x in enumerate(lines) if x['in']['what'] == what]
        n = 0
        for it, bad in common.pmap(fn, items, init=init_net, chunk=8):
            chk.validated += 1
            n += 1
            if bad:
                chk.violation(bad['bad'], bad)
            elif n % 301 == 1:
                chk.sample({'case': it[0], 'specified': it[1]})
