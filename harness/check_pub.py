"""E01 (Publish.tla)."""
import contextlib
import io
import logging
import os
import random
import runpy
import shutil
import sys
import time
import zipfile

import common
import syncdrv
import web

_W = {}


def init():
    """Worker set-up: a web of its own."""
    common.use_repo()
    import resync.client  # noqa
    import resync.archives  # noqa
    for n in ('resync', 'client'):
        logging.getLogger(n).addHandler(logging.NullHandler())
        logging.getLogger(n).propagate = False
    _W['web'] = web.Web()
    _W['web'].use_as_proxy()


class Served(dict):
    """Routes that serve what is in directories now."""

    def __init__(self, where):
        self.where = where

    def get(self, url, d=None):
        """The file an URL stands for."""
        for prefix, path in self.where:
            if url.startswith(prefix + '/') and os.path.isfile(path + url[len(prefix):]):
                with open(path + url[len(prefix):], 'rb') as fh:
                    return {'body': fh.read()}
        return d


def command(name, argv):
    """Run a command in this process; what it printed and what went wrong."""
    from resync.url_or_file_open import set_url_or_file_open_config
    save = sys.argv
    logs = {n: (list(logging.getLogger(n).handlers), logging.getLogger(n).level) for n in ('client', 'resync')}
    sys.argv = [name] + argv
    out, err = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(os.path.join(common.REPO, name), run_name='__main__')
            except SystemExit as e:
                if e.code:
                    err.write('FatalError exit %s' % e.code)
            except Exception as e:
                err.write('FatalError %s: %s' % (type(e).__name__, e))
    finally:
        sys.argv = save
        for k in ('bearer_token', 'delay'):
            set_url_or_file_open_config(k, None)
        for n, (h, lv) in logs.items():
            logging.getLogger(n).handlers = h
            logging.getLogger(n).setLevel(lv)
    return out.getvalue(), (err.getvalue()[-400:] if 'FatalError' in err.getvalue() else None)


def publish_real(arg):
    """One history; None or what is wrong and at which step."""
    h, seed = arg
    from resync.client import Client
    from resync.client_utils import ClientFatalError
    rng = random.Random(seed)
    top = os.path.join(common.worker_dir(), 'p')
    shutil.rmtree(top, ignore_errors=True)
    for d in ('src', 'lists', 'pub'):
        os.makedirs(os.path.join(top, d))
    steps = h['steps']
    nres, nc = len(steps[0]['src']), len(steps[0]['dst'])
    base = rng.choice(['http://h.example.org', 'http://h.example.org/data', 'http://h.example.org:8080/~u/x.y', 'http://h/a/b'])
    pool = ['a', 'b', 'sub/a', 'sub/b', 'sub/deep/c.txt', 'B', 'x+y', 'q;r', '.hidden', 'sub.d/a', 'a.bak', 'n,m', 'resource', 'list.html', 'sitemap.html', '0', 'a~', 'z_1', "it's", 'a=b']
    names = rng.sample(pool, nres)
    # contents: of different lengths, or told apart by digests
    hashes = rng.choice([None, None, ['md5'], ['sha-1', 'sha-256'], ['sha-256'], ['md5', 'sha-1', 'sha-256']])
    samelen = bool(hashes) and rng.random() < 0.5
    epoch, step = rng.choice([(978307200, 2), (978307200.5, 5), (86400, 100000), (1262304000.25, 1)])
    late = int(time.time()) + 86400

    def content(r, v):
        return (b'%d:' % r + b'xyzw'[v:v + 1] * (20 if samelen else 20 * v + r)) if v else b''

    def when(t):
        return epoch + step * t if t < 100 else late

    def put(path, r, v, t):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as fh:
            fh.write(content(r, v))
        ns = int(when(t) * 4) * 250000000
        os.utime(path, ns=(ns, ns))
    src = top + '/src'
    layout = rng.choice(['with', 'apart', 'known'])
    lists = src if layout != 'apart' else top + '/lists'
    lbase = base if layout != 'apart' else rng.choice([base.rstrip('/') + '/rs', 'http://lists.h.example.org', 'http://h.example.org:8080/l', 'http://h/l'])
    noauth = layout == 'apart'
    w = _W['web']
    w.reset()
    w.routes = Served([(lbase, lists), (base, src)] if lbase.startswith(base) else [(base, src), (lbase, lists)])
    limit = rng.choice([None, None, 1, 2, 3])
    # how the publisher keeps its lists out of what it publishes
    use_paths = layout == 'apart' and rng.random() < 0.6
    maps = (['%s=%s' % (lbase, lists)] if layout == 'apart' else []) + ['%s=%s' % (base, src)]
    excludes = [] if use_paths else [r'(resourcelist|changelist|capabilitylist)[\d_]*\.xml$'] + (['resourcesync$'] if layout == 'known' else [])
    if not use_paths and rng.random() < 0.4:
        # files that are not to be published
        excludes = excludes + [r'.*\.tmp$', 'private']
        for n in ('draft.tmp', 'private/f', 'sub/private.txt'):
            put(src + '/' + n, 0, 1, 1)
    if rng.random() < 0.2:
        os.symlink('a', src + '/alink')
    strict = layout != 'apart' and rng.random() < 0.4
    rlname, clname = lists + '/resourcelist.xml', lists + '/changelist.xml'
    by_command = rng.random() < 0.25
    pretty = rng.random() < 0.3

    def publisher(what, *more):
        """Publish."""
        os.chdir(top + '/pub')
        out = {'rl': rlname, 'cl': clname, 'dump': top + '/pub/dump'}[what]
        if by_command:
            argv = list(maps)
            argv += {'rl': ['--write-resourcelist'], 'cl': ['--write-changelist', '--reference', rlname], 'dump': ['--write-resourcedump']}[what]
            argv += ['--outfile', out] + (['--paths', src] if use_paths else [])
            for x in excludes:
                argv += ['--exclude', x]
            for x in hashes or []:
                argv += ['--hash', x]
            if limit:
                argv += ['--max-sitemap-entries', str(limit)]
            return command('resync-build', argv)[1]
        c = Client(hashes=hashes)
        c.set_mappings(maps)
        c.exclude_patterns = excludes
        c.pretty_xml = pretty
        if limit:
            c.max_sitemap_entries = limit
        paths = src if use_paths else None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if what == 'cl':
                    c.write_change_list(ref_sitemap=rlname, outfile=out, paths=paths)
                else:
                    c.write_resource_list(outfile=out, paths=paths, dump=(what == 'dump') or rng.choice([None, False]),
                                          links=rng.choice([None, [{'rel': 'up', 'href': lbase + '/capabilitylist.xml'}]]))
        except Exception as e:
            return '%s: %s' % (type(e).__name__, e)
    if layout == 'known':
        c = Client()
        os.makedirs(src + '/.well-known')
        c.write_capability_list({'resourcelist': lbase + '/resourcelist.xml', 'changelist': lbase + '/changelist.xml'}, outfile=src + '/capabilitylist.xml')
        c.write_source_description([rng.choice([lbase + '/capabilitylist.xml', '../capabilitylist.xml'])], outfile=src + '/.well-known/resourcesync')
    clients = []
    for i in range(nc):
        os.makedirs(top + '/c%d' % i)
        dst = rng.choice(['dst', top + '/c%d/dst' % i, 'd/e'])
        clients.append({'cwd': top + '/c%d' % i, 'dst': dst, 'hashes': hashes if samelen else rng.choice([None, hashes]),
                        'command': rng.random() < 0.25, 'explicit': layout == 'apart' or rng.random() < 0.3})

    def follow(op, x):
        """Synchronize."""
        os.chdir(x['cwd'])
        uri = rng.choice([clname[len(lists) + 1:], lbase + '/changelist.xml']) if lbase == base else lbase + '/changelist.xml'
        give = layout == 'apart' or rng.random() < 0.3
        if x['command']:
            argv = ['--' + op, '--delete', '%s=%s' % (base, x['dst'])]
            for k in x['hashes'] or []:
                argv += ['--hash', k]
            if x['explicit']:
                argv += ['--sitemap', lbase + '/resourcelist.xml']
            argv += ['--noauth'] if noauth else ['--strictauth'] if strict else []
            if op == 'incremental' and give:
                argv += ['--changelist-uri', uri]
            return command('resync-sync', argv)[1]
        c = Client(hashes=x['hashes'])
        c.set_mappings(['%s=%s' % (base, x['dst'])])
        c.noauth, c.strictauth = noauth, strict
        c.tries = 1
        if x['explicit']:
            c.sitemap_name = lbase + '/resourcelist.xml'
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if op == 'baseline':
                    c.baseline_or_audit(allow_deletion=True)
                elif give:
                    c.incremental(allow_deletion=True, change_list_uri=uri)
                else:
                    c.incremental(allow_deletion=True)
        except Exception as e:
            return '%s: %s' % (type(e).__name__, e)

    def look(d):
        """Files below a directory, without lists: contents and whole seconds."""
        out = {}
        for p, _, fs in os.walk(d):
            for f in fs:
                q = os.path.join(p, f)
                n = os.path.relpath(q, d)
                if n in names or d != src:
                    with open(q, 'rb') as fh:
                        out[n] = (fh.read(), os.stat(q).st_mtime_ns // 10 ** 9)
        return out

    def model(state):
        return {names[i]: (bodies[f['v'], f['t'], i], int(when(f['t']))) for i, f in enumerate(state) if f['v']}
    bodies = _Bodies(content)
    info = {'seed': seed, 'source': base, 'lists': lbase, 'layout': layout, 'limit': limit, 'hashes': hashes, 'names': names,
            'by command': by_command, 'clients': [dict(x) for x in clients]}
    for k, s in enumerate(steps):
        op = s['op']
        i = s['r'] - 1
        f = src + '/' + names[i] if i >= 0 else None
        err = None
        if op == 'write':
            put(f, 0, s['v'], s['t'])
        elif op == 'remove':
            os.unlink(f)
        elif op == 'move':
            g = src + '/' + names[s['v'] - 1]
            os.makedirs(os.path.dirname(g), exist_ok=True)
            os.rename(f, g)
        elif op == 'local':
            x = clients[s['c'] - 1]
            os.chdir(x['cwd'])
            p = os.path.join(x['dst'], names[i])
            if s['v']:
                put(os.path.abspath(p), 0, s['v'], s['t'])
            else:
                os.unlink(p)
        elif op in ('rl', 'cl', 'dump'):
            # what a larger list left must not be taken for parts of this one
            if op != 'dump' and rng.random() < 0.5:
                for n in os.listdir(lists):
                    if n.startswith({'rl': 'resourcelist', 'cl': 'changelist'}[op]):
                        if op == 'cl' or not n.endswith('t.xml'):
                            os.unlink(os.path.join(lists, n))
            if op == 'dump':
                if not any(x['v'] for x in s['src']):
                    continue
                for n in os.listdir(top + '/pub'):
                    os.unlink(top + '/pub/' + n)
            err = publisher(op)
        else:
            err = follow(op, clients[s['c'] - 1])
        here = dict(info, step=k, op=op)
        if err:
            return dict(here, bad=op + ' fails', error=err[:600])
        if look(src) != model(s['src']):
            return dict(here, bad='the source is changed', real=str(look(src)), specified=str(model(s['src'])))
        if op == 'dump':
            got = {}
            for n in os.listdir(top + '/pub'):
                if zipfile.is_zipfile(top + '/pub/' + n):
                    with zipfile.ZipFile(top + '/pub/' + n) as z:
                        for m in z.namelist():
                            if m != 'manifest.xml':
                                got[m] = z.read(m)
            if sorted(got.values()) != sorted(b for b, _ in model(s['src']).values()):
                return dict(here, bad='the dump does not hold the files', real=str(got))
        for c, x in enumerate(clients):
            os.chdir(x['cwd'])
            got, want = look(x['dst']), model(s['dst'][c])
            if got != want:
                return dict(here, bad='copies differ after ' + op, client=c + 1, real=str(got), specified=str(want))
    return None


class _Bodies(object):
    """Contents by version (the same whatever the name, so that files can be moved)."""

    def __init__(self, content):
        self.content = content

    def __getitem__(self, k):
        return self.content(0, k[0])


def E01(chk):
    """Published lists reproduce the source."""
    T = common.THOROUGH
    cfg = '''SPECIFICATION Spec
CONSTANTS R = %d
 V = %d
 T = %d
 C = %d
 Stamps = %d
 Stamped = TRUE
 Depth = %d
CHECK_DEADLOCK FALSE
%s
'''
    props = 'INVARIANTS Turns InTime\nPROPERTIES Reproduced Apart\nVIEW View'
    chk.run_tlc('Publish', 'Publish', cfg % (2, 1, 2, 1, 2, 0, props), timeout=800)
    if T:
        chk.run_tlc('Publish, two contents', 'Publish', cfg % (2, 2, 2, 1, 2, 0, props), timeout=3000, heap='12g')
    chk.exhaustive = False
    items = []
    for n, v, t, c, d, num in [(2, 2, 2, 1, 12, 500), (4, 3, 4, 2, 24, 500), (7, 3, 6, 3, 45, 200)]:
        num *= 8 if T else 1
        res = chk.run_tlc('Publish simulate %d' % n, 'Publish', cfg % (n, v, t, c, 100, d, 'ACTION_CONSTRAINT EmitHist'), workers=1,
                          args=['-simulate', 'num=%d' % num, '-depth', str(d), '-seed', str(common.SEED * 19 + n)])
        by = {}
        for h in sorted(res.lines, key=syncdrv.canon):
            by.setdefault(syncdrv.canon(h['steps'][:-1]), []).append(h)
        items += [(by[k][0], '%d/pub/%d/%d' % (common.SEED, n, i)) for i, k in enumerate(sorted(by))]
    for it, bad in common.pmap(publish_real, items, init=init, chunk=8):
        chk.validated += 1
        if bad:
            chk.violation(bad['bad'], {'history': [[s['op'], s['c'], s['r'], s['v'], s['t']] for s in it[0]['steps'][:bad['step'] + 1]], 'result': bad})
    chk.sample({'history': [[s['op'], s['c'], s['r'], s['v'], s['t']] for s in items[0][0]['steps']]})
