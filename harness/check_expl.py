"""C04 (Explorer.tla)."""
import io
import os
import random
import re
import shutil
import sys
import time
from email.utils import formatdate
from xml.sax.saxutils import quoteattr, escape

import common
import syncdrv
from check_dig import NET, init_net

CFG = '''SPECIFICATION Spec
CONSTANT Depth = %d
INVARIANTS Linked FromStart Unique Count Prompts
PROPERTIES BackReturns%s
CHECK_DEADLOCK FALSE
'''
HEADERS = ('content-length', 'last-modified', 'content-type')


class Script(object):
    """Standard input that notes how much was printed at each question."""

    def __init__(self, lines, out):
        self.lines, self.out, self.at, self.hook = list(lines), out, [], None

    def readline(self, *a):
        """Next answer."""
        self.at.append(self.out.tell())
        if self.hook:
            self.hook()
        return self.lines.pop(0) + '\n' if self.lines else ''

    def fileno(self):
        """Not a terminal."""
        raise io.UnsupportedOperation('fileno')

    def isatty(self):
        """No."""
        return False


def segs(text):
    """What was printed before one question: options with their lines, warning about the document, headers."""
    opts, cur, doc, unknown, headers = [], None, False, False, {}
    for line in text.split('\n'):
        m = re.match(r'\[(\w+)\]\s+(.*)$', line)
        if m:
            cur = {'key': m.group(1), 'line': m.group(2), 'more': []}
            opts.append(cur)
            continue
        if line.startswith('Follow ['):
            continue
        if cur is not None and line.startswith(' '):
            cur['more'].append(line)
            continue
        cur = None if not line.startswith(' ') else cur
        if 'WARNING' in line and 'expected a' in line:
            doc = True
        elif 'WARNING' in line and 'unknown' in line:
            unknown = True
        m = re.match(r'\s+([\w-]+): (.*)$', line)
        if m:
            headers[m.group(1).lower()] = m.group(2)
    return opts, doc, unknown, headers


def run_command(argv):
    """Run the explorer's command in this process, and undo what it changes."""
    import logging
    import runpy
    from resync.url_or_file_open import set_url_or_file_open_config
    save, err = sys.argv, sys.stderr
    logs = {n: (list(logging.getLogger(n).handlers), logging.getLogger(n).level) for n in ('client', 'resync')}
    sys.argv, sys.stderr = argv, io.StringIO()
    try:
        runpy.run_path(os.path.join(common.REPO, 'resync-explorer'), run_name='__main__')
        if 'FatalError' in sys.stderr.getvalue():
            raise RuntimeError(sys.stderr.getvalue()[-300:])
    finally:
        sys.argv, sys.stderr = save, err
        for k in ('bearer_token', 'delay'):
            set_url_or_file_open_config(k, None)
        for n, (h, lv) in logs.items():
            logging.getLogger(n).handlers = h
            logging.getLogger(n).setLevel(lv)


def explore_real(arg):
    """One session."""
    c, inputs, obs, seed = arg['in'], arg['inputs'], arg['obs'], arg['seed']
    from resync.explorer import Explorer
    rng = random.Random(seed)
    net = NET['net']
    top = os.path.join(common.worker_dir(), 'x')
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    os.chdir(top)
    local = arg.get('local', False)
    hosts = {'h': rng.choice(['http://h.example.org', 'https://h.example.org:8443', 'http://h']), 'g': 'http://g.example.net'}
    names = {}
    for i, n in enumerate(['c', 'l', 'r', 'm']):
        names[n] = rng.choice([n, n + '.xml', n + 'x%20y', '~' + n, n + '.e?x=1' if not local else n + '1'])

    def seg(s):
        if s == '.well-known':
            return s
        return names.get(s, s)

    def text(a):
        return (top if local else hosts[a['host']]) + '/' + '/'.join(map(seg, a['path']))

    def reftext(r):
        if r['form'] == 'abs' and not local:
            return text(r)
        if r['form'] in ('abs', 'root'):
            return (top if local else '') + '/' + '/'.join(map(seg, r['path']))
        return '../' * r['up'] + '/'.join(map(seg, r['path']))
    stamp = 1000000000 + rng.randint(0, 10 ** 8)
    routes, bodies = {}, {}
    rs = {}
    empty = rng.choice([-1, 0, 1])
    for i, r in enumerate(c['res']):
        body = b'x' * (17 + 3 * i) if i != empty else b''
        mt = stamp + 1000 * i
        h = {}
        if r['mod']:
            h['Last-Modified'] = formatdate(mt, usegmt=True)
        if r['type']:
            h['Content-Type'] = 'text/html'
        rs[text(r['at'])] = (len(body), mt, 'text/html')
        routes[text(r['at'])] = {'body': body, 'headers': h, 'nolength': not r['len']}
    for i, d in enumerate(c['docs']):
        rows = []
        for e in d['entries']:
            u = reftext(e['ref'])
            full = text({'host': e['ref']['host'] if e['ref']['form'] == 'abs' else d['at']['host'], 'path': e['_path']})
            ln, mt, ty = rs.get(full, (5, stamp, 'text/html'))
            md, x = {}, '<loc>%s</loc>' % escape(u)
            if e['mod'] != 'none':
                t = mt if e['mod'] == 'same' else mt + rng.choice([1, -1, 86400])
                x += '<lastmod>%s</lastmod>' % (time.strftime('%Y-%m-%dT%H:%M:%S', time.gmtime(t)) + rng.choice(['Z', '+00:00', '.000Z', 'Z']))
            if e['len'] != 'none':
                md['length'] = str(ln if e['len'] == 'same' else rng.choice([ln + 1, max(ln, 2) - 1, ln + 100, 0 if ln else 1]))
            if e['type'] != 'none':
                md['type'] = ty if e['type'] == 'same' else rng.choice(['text/plain', 'text/htm', 'text'])
            if e['cap']:
                md['capability'] = e['cap']
            if md:
                x += '<rs:md %s/>' % ' '.join('%s=%s' % (k, quoteattr(v)) for k, v in sorted(md.items()))
            rows.append('<%s>%s</%s>' % (('sitemap', x, 'sitemap') if d['index'] else ('url', x, 'url')))
        root = 'sitemapindex' if d['index'] else 'urlset'
        head = ''
        if d['cap']:
            head += '<rs:md capability="%s" at="2013-01-03T09:00:00Z"/>' % d['cap']
        lns = [('<rs:ln rel="%s" href=%s/>' % (rel, quoteattr(reftext(r)))) for rel, k in
               (('describedby', 'describedby'), ('up', 'up'), ('index', 'idx')) for r in d[k]]
        rng.shuffle(lns)
        body = ('<?xml version="1.0" encoding="UTF-8"?>\n<%s xmlns="http://www.sitemaps.org/schemas/sitemap/0.9" '
                'xmlns:rs="http://www.openarchives.org/rs/terms/">%s%s%s</%s>' % (root, head, ''.join(lns), ''.join(rows), root)).encode()
        if not d['ok']:
            body = rng.choice([b'', b'<html>', body[:len(body) // 2], b'<x/>'])
        routes[text(d['at'])] = {'body': body}
    for a in {text(x['at']) for x in c['docs']} & {text(x['at']) for x in c['res']}:
        raise common.MachineryError('clash ' + a)
    if local:
        for a, r in routes.items():
            if os.path.isdir(a):
                raise common.MachineryError('clash ' + a)
            os.makedirs(os.path.dirname(a), exist_ok=True)
            with open(a, 'wb') as fh:
                fh.write(r['body'])
            if a in rs:
                os.utime(a, (rs[a][1], rs[a][1]))
    net.reset({} if local else routes)
    out = io.StringIO()
    asked = Script(inputs + ['q'], out)
    reqs = []
    asked.hook = lambda: reqs.append([(x[0], x[1]) for x in net.log])
    how = arg.get('how', 'sitemap')
    command = rng.choice([None, None, None, []]) if how == 'sitemap' else None
    e = Explorer(verbose=rng.random() < 0.3)
    if command is not None:
        # through the command
        command = ['resync-explorer', '--sitemap', text(c['starts'][0]['at'])]
        for more in (['-v'], ['--hash', 'md5'], ['--noauth'], ['--max-sitemap-entries', '5'], ['--access-token', 'tok1']):
            if rng.random() < 0.3:
                command += more
    elif how == 'sitemap':
        e.sitemap_name = text(c['starts'][0]['at'])
    else:
        src = top if how == 'dir' else text(c['starts'][0]['at']) if how in ('path', 'file') else hosts['h']
        e.set_mappings([src + rng.choice(['', '/']) if how in ('dir', 'root') else src, 'dst'] if rng.random() < 0.5 else [src + '=dst'])
    stdin, stdout = sys.stdin, sys.stdout
    err = None
    try:
        sys.stdin, sys.stdout = asked, out
        if command is None:
            e.explore()
        else:
            run_command(command)
    except (Exception, SystemExit) as x:
        err = '%s: %s' % (type(x).__name__, str(x)[:300])
    finally:
        sys.stdin, sys.stdout = stdin, stdout
    text_all = out.getvalue()
    info = {'inputs': inputs, 'local': local, 'how': how, 'command': command, 'documents': {text(d['at']): routes[text(d['at'])]['body'].decode()[:1500] for d in c['docs']},
            'resources': {k: str(v) for k, v in rs.items()}, 'error': err, 'seed': seed}
    if err:
        return dict(info, bad='session failed')
    token = 'Bearer tok1' if command and 'tok1' in command else None
    if any(dict((k.lower(), v) for k, v in x[2].items()).get('authorization') != token for x in net.log if x[0] != 'CONNECT'):
        return dict(info, bad='wrong authorization')
    if len(asked.at) != len(obs) + (0 if inputs and inputs[-1] == 'q' or len(obs) == len(inputs) else 0):
        return dict(info, bad='wrong number of questions', asked=len(asked.at), specified=len(obs), printed=text_all[-1500:])
    pos, rp = 0, []
    for i, o in enumerate(obs):
        part = text_all[pos:asked.at[i]]
        pos = asked.at[i]
        here = {'question': i + 1, 'printed': part[:1500]}
        new = reqs[i][len(rp):]
        rp = reqs[i]
        want = [] if o['asked'] else [('HEAD' if o['head'] else 'GET', text(o['at']))]
        if not local and new != want:
            return dict(info, bad='wrong requests', requested=new, specified=want, **here)
        if o['asked']:
            if segs(part)[0]:
                return dict(info, bad='document shown again instead of the question asked again', **here)
            continue
        opts, doc, unknown, headers = segs(part)
        if [x['key'] for x in opts] != o['keys'] and sorted(x['key'] for x in opts) != sorted(o['keys']):
            return dict(info, bad='wrong options', offered=[x['key'] for x in opts], specified=o['keys'], **here)
        d = [x for x in c['docs'] if x['at'] == o['at']]
        if o['keys']:
            d = d[0]
            refs = {'d': d['describedby'], 'u': d['up'], 'i': d['idx']}
            for x in opts:
                r = reftext(refs[x['key']][0] if x['key'] in refs else d['entries'][int(x['key']) - 1]['ref'])
                full = text(o['links'][o['keys'].index(x['key'])])
                if not (x['line'].endswith(r) or x['line'].endswith(full)):
                    return dict(info, bad='option shows another location', option=x, specified=r, **here)
                if x['key'] not in refs:
                    flagged = any('EXPECTED' in y for y in x['more'])
                    if flagged != o['wrong'][int(x['key']) - 1]:
                        return dict(info, bad='entry of wrong kind not flagged' if not flagged else 'entry of right kind flagged', option=x, **here)
        if doc != o['wrongdoc']:
            return dict(info, bad='document of wrong kind not flagged' if not doc else 'document of right kind flagged', **here)
        if o['familiar'] in ('yes', 'no', 'none') and unknown != (o['familiar'] == 'no'):
            return dict(info, bad='known kind of document called unknown' if unknown else 'unknown kind of document not flagged', **here)
        for h, w in zip(HEADERS, o['headers']):
            if local and h == 'content-type':
                continue
            t = headers.get(h)
            got = '-' if t is None else 'match' if 'MATCHES' in t else 'expected' if 'EXPECTED' in t else 'plain'
            if got != w:
                return dict(info, bad='value of ' + h + ' not reported as it is', reported=t, specified=w, **here)
    return None


CAPS = ['description', 'capabilitylist', 'resourcelist', 'changelist', 'resourcedump', 'changedump', 'resourcelist-archive',
        'changelist-archive', 'resourcedump-archive', 'changedump-archive', '', 'resourcedump-manifest']


def graph(rng):
    """A random graph of documents and a session over it."""
    how = rng.choice(['sitemap', 'sitemap', 'path', 'root', 'dir', 'file'])
    local = how in ('dir', 'file') or how == 'sitemap' and rng.random() < 0.25
    host = (lambda: 'h') if local else (lambda: rng.choice(['h', 'h', 'h', 'g']))
    known = ['resourcesync', 'capabilities.xml', 'resourcelist.xml', 'changelist.xml']
    locs = []

    def fresh(kind):
        while True:
            p = [rng.choice('pqs') for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))] + [kind + str(len(locs))]
            a = {'host': host(), 'path': p}
            if a not in locs:
                locs.append(a)
                return a
    docs, res = [], []
    starts = []
    if how == 'dir':
        some = [n for n in known if rng.random() < 0.5] or [rng.choice(known)]
        starts = [{'host': 'h', 'path': [n]} for n in some]
    elif how == 'root':
        starts = [{'host': 'h', 'path': ['.well-known', 'resourcesync']}]
    elif how == 'path':
        s = fresh('c')
        starts = [s, {'host': s['host'], 'path': ['.well-known', 'resourcesync']}]
    else:
        starts = [fresh('c')]
    nd, nr = rng.randint(1, 6), rng.randint(0, 4)
    at = [s for s in starts if how == 'dir' or rng.random() < 0.85] + [fresh('d') for _ in range(nd)]
    resat = [fresh('r') for _ in range(nr)]
    missing = [fresh('m')]
    for a in resat:
        res.append({'at': a, 'len': local or rng.random() < 0.7, 'mod': local or rng.random() < 0.7, 'type': not local and rng.random() < 0.7})

    def ref(frm, to):
        forms = ['abs'] + (['root', 'rel', 'rel', 'rel'] if frm['host'] == to['host'] else [])
        f = rng.choice(forms)
        if f != 'rel':
            return {'form': f, 'host': to['host'], 'up': 0, 'path': to['path']}
        d = frm['path'][:-1]
        n = 0
        while n < len(d) and n < len(to['path']) - 1 and d[n] == to['path'][n]:
            n += 1
        if rng.random() < 0.2:
            n = rng.randint(0, n)
        up = len(d) - n
        if n == 0 and not local and rng.random() < 0.3:
            up += 1
        return {'form': 'rel', 'host': to['host'], 'up': up, 'path': to['path'][n:]}
    for a in at:
        cap = rng.choice(CAPS) if rng.random() < 0.5 else rng.choice(['description', 'capabilitylist', 'resourcelist', 'changelist'])
        index = rng.random() < 0.25
        n = rng.choice([0, 1, 2, 2, 3, 4, 5, rng.choice([19, 20, 21, 22, 23, 30])])
        ents = []
        for _ in range(n):
            pool = resat if cap in ('resourcelist', 'changelist', 'resourcedump', 'changedump') and not index and rng.random() < 0.8 else at + missing + resat
            t = rng.choice(pool or missing)
            ents.append({'ref': ref(a, t), '_path': t['path'], 'cap': rng.choice(CAPS[:10]) if rng.random() < 0.4 else '',
                         'len': rng.choice(['none', 'same', 'differs']), 'mod': rng.choice(['none', 'same', 'differs']),
                         'type': rng.choice(['none', 'same', 'differs'])})

        def link(pool, p):
            return [ref(a, rng.choice(pool))] if pool and rng.random() < p else []
        docs.append({'at': a, 'ok': rng.random() < 0.93, 'cap': cap, 'index': index, 'entries': ents,
                     'describedby': link(resat + at, 0.3), 'up': link(at, 0.6), 'idx': link(at, 0.3)})
    wk = ['capabilitylist', 'capabilitylistindex', 'description', 'descriptionindex']
    xs = [{'at': s, 'caps': wk if s['path'][0] == '.well-known' else ['*'], 'checks': {'len': 'none', 'mod': 'none', 'type': 'none'}} for s in starts]
    inputs = [rng.choice(['1', '2', '3', '1', '2', '3', '4', '5', '19', '20', '21', '22', 'u', 'u', 'i', 'd', 'b', 'b', 'b', 'x', '', '0', '99', 'bb', '-1', 'Q', 'B'])
              for _ in range(rng.randint(1, 16))] + ['b'] * rng.choice([0, 0, 0, 6]) + ['q']
    return {'docs': docs, 'res': res, 'starts': xs, 'inputs': inputs}, how, local


def paths(case):
    """Resolved path of each entry, for making the documents of the small graphs."""
    for d in case['docs']:
        for e in d['entries']:
            e.setdefault('_path', e['ref']['path'])
    return case


def C04(chk):
    """Explorer."""
    T = common.THOROUGH
    lines = chk.run_tlc('Explorer small graphs', 'Explorer', CFG % (4 if T else 3, ' Ends'), timeout=3000).lines
    seen, items = set(), []
    for x in lines:
        k = syncdrv.canon(x)
        if k not in seen:
            seen.add(k)
            items.append(x)
    items.sort(key=syncdrv.canon)
    chk.exhaustive = True
    if not T:
        items = chk.rng.sample(items, min(len(items), 4000))
    for i, x in enumerate(items):
        paths(x['in'])
        x.update(seed='%d-s%d' % (common.SEED, i), how='sitemap' if len(x['in']['starts']) == 1 else 'skip')
    items = [x for x in items if x['how'] != 'skip']
    recs, extra = [], []
    for i in range(20000 if T else 3500):
        c, how, local = graph(chk.rng)
        recs.append(dict(c, id=i))
        extra.append((how, local))
    path = os.path.join(common.scratch(), 'expl.ndjson')
    common.write_ndjson(path, recs)
    big = chk.run_tlc('Explorer sessions', 'Explorer', CFG % (0, ''), env={'TRACE': path}, timeout=3000).lines
    done = set()
    for x in big:
        i = x['in']['id']
        if i not in done:
            done.add(i)
            x.update(seed='%d-g%d' % (common.SEED, i), how=extra[i][0], local=extra[i][1])
            items.append(x)
    if len(done) != len(recs):
        # a session may end before its inputs are used up; all of them must end
        raise common.MachineryError('sessions missing: %d of %d' % (len(done), len(recs)))
    n = 0
    for it, bad in common.pmap(explore_real, items, init=init_net, chunk=32):
        chk.validated += 1
        n += 1
        if bad:
            chk.violation(bad['bad'], bad)
        elif n % 901 == 1:
            chk.sample({'inputs': it['inputs'], 'questions': len(it['obs'])})
