"""B01 (DiskScan.tla) and B02 (Dump.tla)."""
import datetime
import hashlib
import json
import os
import random
import shutil
import zipfile

import common
import syncdrv
from check_map import init

CFG = '''SPECIFICATION Spec
CONSTANT Family = ""
INVARIANT ScanRight
CHECK_DEADLOCK FALSE
'''

# (pattern, names it matches, names that it does not match)
STYLES = [
    ('X', ['X', 'Xa', 'X.txt'], ['aX', '-X', 'x', 'x.X']),
    (r'.*~$', ['a~', '~', 'b.c~'], ['a~b', '~a', 'c~.txt']),
    (r'\.', ['.git', '.', '.x.y'], ['a.git', 'x.', 'git']),
    (r'.*\.tmp', ['a.tmp', '.tmp', 'a.tmp.gz'], ['atmp', 'tmp', 'a.tm']),
    (r'CVS$|RCS', ['CVS', 'RCS', 'RCSa'], ['CVSa', 'aCVS', 'aRCS']),
    (r'[0-9]+-', ['1-', '23-x'], ['-1', 'a1-', '12']),
    (r'(?i)thumbs', ['Thumbs', 'THUMBS.db'], ['a thumbs', 'thumb']),
]
PLAIN = ['f.txt', 'g', 'h h', 'i&j', 'k=1', 'é', 'l#m', 'n%41', 'o?p', 'Q', '10', '9', 'r.xml', 'zz', "s't", 'u+v']


def instant(text):
    """The instant of a complete datetime."""
    return datetime.datetime.fromisoformat(text.replace('Z', '+00:00')).timestamp()


def scan_real(arg):
    """Scan a real tree."""
    c, out, seed = arg
    from resync.client import Client
    from resync.mapper import Mapper, MapperError
    from resync.resource_list import ResourceList
    from resync.resource_list_builder import ResourceListBuilder
    rng = random.Random(seed)
    top = os.path.join(common.worker_dir(), 'b')
    shutil.rmtree(top, ignore_errors=True)
    real = os.path.join(top, 'top dir')
    os.makedirs(real)
    os.chdir(top)
    ids = sorted({n for x in c['tree'] for n in x['p']} | {n for s in c['starts'] + c['maps'] for n in s} | set(c['excl']))
    styles = rng.sample(STYLES, rng.choice([1, 2, 2, 3]) if len(c['excl']) < 2 else 3) if c['excl'] else rng.sample(STYLES, rng.choice([0, 0, 1]))
    bad = [m for s in styles for m in s[1] if m != '.']
    good = PLAIN + [m for s in styles for m in s[2]]

    def hit(nm):
        return nm in bad or any((p == 'X' and nm.startswith('X')) or (p == r'\.' and nm.startswith('.')) or (p.endswith('~$') and nm.endswith('~')) for p, _, _ in styles)
    # what is not to match must not match one of the other styles either
    good = [g for g in dict.fromkeys(good) if not hit(g) and not any(match(p, g) for p, _, _ in styles)]
    pick_bad = rng.sample(sorted(set(bad)), len(c['excl'])) if c['excl'] else []
    rest = [n for n in ids if n not in c['excl']]
    if len(rest) > len(good):
        good += ['w%d' % i for i in range(len(rest))]
    pick = rng.sample(good, len(rest))
    name = dict(zip(c['excl'], pick_bad))
    name.update(zip(rest, pick))
    patterns = [p for p, _, _ in styles]
    if not c['excl'] and styles and rng.random() < 0.5:
        patterns = []
    root = rng.choice(['top dir', real, 'ln'])
    os.symlink('top dir', 'ln')
    os.makedirs('elsewhere')
    with open('elsewhere/f.txt', 'w') as fh:
        fh.write('not to be listed')

    def path(p):
        return '/'.join([root] + [name[n] for n in p])
    info = {}
    kinds = {tuple(x['p']): x['k'] for x in c['tree']}
    kinds[()] = 'dir'
    # whether a pattern may exclude a single file named explicitly is not judged
    if any(kinds.get(tuple(p), 'none') != 'dir' and match(q, path(p)) for p in c['starts'] + c['maps'] for q in patterns):
        return None
    # creation order must not matter
    tree = sorted(c['tree'], key=lambda x: (len(x['p']), rng.random()))
    for x in tree:
        f = '/'.join([real] + [name[n] for n in x['p']])
        if x['k'] == 'dir':
            os.mkdir(f)
        elif x['k'] == 'file':
            earlier = [q for q in info if rng.random() < 0.1]
            if earlier or rng.random() < 0.04:
                # another name of a file met already, or of one that is not below
                g = '/'.join([real] + [name[n] for n in earlier[0]]) if earlier else 'elsewhere/f.txt'
                os.link(g, f)
                with open(f, 'rb') as fh:
                    info[tuple(x['p'])] = (fh.read(), os.stat(f).st_mtime)
                continue
            data = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 17, 300])))
            if info and rng.random() < 0.1:
                data = rng.choice(sorted(info.values()))[0]
            if rng.random() < 0.02:
                data = data * 200 + b'x' * rng.choice([16384, 16383, 40000])
            with open(f, 'wb') as fh:
                fh.write(data)
            ns = rng.choice([0, 1, 10**9, 1234567890 * 10**9, 1234567890123456000, 1500000000999999000, 946684800500000000, 4 * 10**18])
            os.utime(f, ns=(ns, ns))
            info[tuple(x['p'])] = (data, os.stat(f).st_mtime)
            if rng.random() < 0.2:
                os.chmod(f, rng.choice([0o400, 0o755, 0o2644, 0o1777]))
        elif x['k'] == 'link':
            os.symlink(rng.choice(['../elsewhere/f.txt', 'dangling', os.path.join(top, 'elsewhere/f.txt')]), f)
        elif x['k'] == 'dlink':
            os.symlink(rng.choice([os.path.join(top, 'elsewhere'), '.', '..']), f)
        elif x['k'] == 'fifo':
            if rng.random() < 0.5:
                os.mkfifo(f)
            else:
                import socket
                s = socket.socket(socket.AF_UNIX)
                cw = os.getcwd()
                os.chdir(os.path.dirname(f))
                try:
                    s.bind(os.path.basename(f))
                finally:
                    os.chdir(cw)
                    s.close()
    if any(k == 'fifo' for k in kinds.values()) and not out['ok']:
        return None  # which of two problems is met first does not matter
    src = ['http://h.org/s%d' % i for i in range(len(c['maps']))]
    maps = ['%s=%s' % (s, path(p) + rng.choice(['', '/'])) for s, p in zip(src, c['maps'])]
    if any(m.count('=') != 1 for m in maps):
        return None
    hashes = rng.choice([None, ['md5'], ['sha-1'], ['sha-256'], ['md5', 'sha-256'], ['md5', 'sha-1', 'sha-256']])
    set_path = rng.random() < 0.4
    starts = [path(p) for p in c['starts']] or None
    res = {'seed': seed, 'maps': maps, 'paths': starts, 'patterns': patterns, 'tree': sorted((path(x['p']), x['k']) for x in tree)}
    use_client = rng.random() < 0.4 and not (starts and any(',' in s for s in starts))
    set_length = True
    try:
        if use_client:
            cl = Client(hashes=hashes)
            cl.set_mappings(maps)
            cl.exclude_patterns = list(patterns)
            rl = cl.build_resource_list(paths=','.join(starts) if starts else None, set_path=set_path)
        else:
            set_length = rng.random() < 0.8
            b = ResourceListBuilder(mapper=Mapper(maps), set_hashes=set(hashes) if hashes else None, set_length=set_length, set_path=set_path)
            if rng.random() < 0.3:
                b.log_count_increment = rng.choice([1, 2, 3])
            k = rng.randint(0, len(patterns))
            b.add_exclude_patterns(patterns[:k])
            b.add_exclude_patterns(patterns[k:])
            more = ResourceList() if rng.random() < 0.3 else None
            rl = b.from_disk(resource_list=more, paths=starts)
            if more is not None and rl is not more:
                return dict(res, bad='another list returned')
            if rng.random() < 0.2:
                again = b.from_disk(paths=starts)
                if sorted(r.uri for r in again) != sorted(r.uri for r in rl):
                    return dict(res, bad='second scan with the same builder differs')
    except MapperError as e:
        # whether a pipe that is not mapped is an error or ignored is not judged
        if any(x['k'] == 'fifo' and not any(x['p'][:len(m)] == m for m in c['maps']) for x in c['tree']):
            return None
        return dict(res, bad='scan fails', error=str(e)) if out['ok'] else None
    if not out['ok']:
        return dict(res, bad='file that is not mapped accepted', real=[r.uri for r in rl])
    want = {}
    for e in out['files']:
        p = tuple(e['p'])
        rel = [name[n] for n in p[len(c['maps'][e['m'] - 1]):]]
        uri = src[e['m'] - 1] + '/' + '/'.join(rel)
        if uri in want:
            return None
        want[uri] = p
    got = [r.uri for r in rl]
    if sorted(got) != sorted(want) or len(rl) != len(want):
        return dict(res, bad='files listed', real=got, specified=sorted(want))
    algs = {'md5': ('md5', hashlib.md5), 'sha-1': ('sha1', hashlib.sha1), 'sha-256': ('sha256', hashlib.sha256)}
    for r in rl:
        data, mtime = info[want[r.uri]]
        if (r.length != len(data)) if set_length else (r.length is not None):
            return dict(res, bad='length', of=r.uri, real=r.length)
        if r.timestamp != mtime:
            return dict(res, bad='time', of=r.uri, real=r.timestamp, specified=mtime)
        for a, (att, fn) in algs.items():
            v = getattr(r, att)
            if v != (fn(data).hexdigest() if hashes and a in hashes else None):
                return dict(res, bad='digest ' + a, of=r.uri, real=v)
        if (r.path is not None) != set_path or (set_path and os.path.realpath(r.path) != os.path.realpath(path(want[r.uri]))):
            return dict(res, bad='path', of=r.uri, real=r.path)
        if r.change is not None or r.ts_datetime is not None:
            return dict(res, bad='change', of=r.uri)
    if not rl.md_at or not rl.md_completed or instant(rl.md_at) > instant(rl.md_completed):
        return dict(res, bad='times of the scan', real=[rl.md_at, rl.md_completed])
    return None


def match(p, s):
    """re.match of Python itself (what the patterns are defined by)."""
    import re
    return re.match(p, s) is not None


def random_tree(rng):
    """A larger random tree."""
    nodes = []

    def grow(p, depth):
        for n in rng.sample(range(1, 9), rng.randint(0, 5)):
            k = rng.choice(['file', 'file', 'file', 'dir', 'dir', 'link', 'dlink', 'fifo'])
            if k == 'dir' and depth == 0:
                k = 'file'
            nodes.append({'p': p + [n], 'k': k})
            if k == 'dir':
                grow(p + [n], depth - 1)
    grow([], rng.randint(1, 5))
    kinds = {tuple(x['p']): x['k'] for x in nodes}
    excl = rng.sample(range(1, 9), rng.choice([0, 1, 1, 2, 3]))
    dirs = [[]] + [x['p'] for x in nodes if x['k'] == 'dir']
    spots = [p for p in dirs + [x['p'] for x in nodes if x['k'] == 'file' and x['p'][-1] not in excl] + [[9], [1, 9]]]
    maps = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        p = rng.choice(dirs)
        if p not in maps:
            maps.append(p)
    if rng.random() < 0.5:
        maps = maps + ([[]] if [] not in maps else [])
    starts = [rng.choice(spots) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    # a start that does not exist and is not mapped may fail or not
    starts = [s for s in starts if any(s[:len(m)] == m for m in maps) or tuple(s) in kinds]
    return {'tree': nodes, 'excl': excl, 'maps': maps, 'starts': starts}


def B01(chk):
    """Disk scans."""
    T = common.THOROUGH
    lines = chk.run_tlc('DiskScan', 'DiskScan', CFG, timeout=2500).lines
    lines.sort(key=syncdrv.canon)
    if not T:
        lines = chk.rng.sample(lines, 6000)
    else:
        chk.exhaustive = True
    recs = []
    for _ in range(20000 if T else 3000):
        recs.append(random_tree(chk.rng))
    path = os.path.join(common.scratch(), 'trees.ndjson')
    common.write_ndjson(path, recs)
    lines += chk.run_tlc('DiskScan random', 'DiskScan', CFG, env={'TRACE': path}, timeout=2500).lines
    items = [(x['in'], x['out'], '%d-%d' % (common.SEED, i)) for i, x in enumerate(lines)]
    n = 0
    for it, bad in common.pmap(scan_real, items, init=init, chunk=32):
        chk.validated += 1
        n += 1
        if bad:
            chk.violation('disk scan: ' + bad['bad'], bad)
        elif n % 2999 == 7:
            chk.sample({'case': it[0], 'specified': it[1]})


DCFG = '''SPECIFICATION Spec
CONSTANTS N = %d
 Sizes = {%s}
 Odd = %d
INVARIANTS Once Limits Refused
%s
CHECK_DEADLOCK FALSE
'''
DIRS = [[], ['d'], ['d', 'e'], ['d', 'ee'], ['da'], ['da', 'd'], ['é é'], ['..x'], ['d', 'manifest.xml']]
FILES = ['manifest.xml', 'a', 'b', 'ab', 'Manifest.xml', 'c.txt', 'manifest.xml.gz', '日', 'h h', 'x%41', '&', '-', '...', 'manifest.xml~', "q'", 'z#', 'm"n', '<o>']


def rels(rng, n):
    """n different relative paths, none of them below another one."""
    if n == 0:
        return []
    while True:
        mode = rng.random()
        if mode < 0.25:
            dirs = [rng.choice(DIRS)]
        elif mode < 0.6:
            dirs = rng.sample(DIRS, 2)
        else:
            dirs = DIRS
        got = {}
        for _ in range(200):
            p = tuple(rng.choice(dirs) + [rng.choice(FILES) if rng.random() < 0.8 or n > 12 else 'manifest.xml'])
            if n > 12:
                p = p[:-1] + (p[-1] + str(len(got)),)
            if not any(p[:len(q)] == q or q[:len(p)] == p for q in got):
                got[p] = 1
            if len(got) == n:
                ps = list(got)
                rng.shuffle(ps)
                return ps


def manifest_of(data):
    """Entries (uri, length, path) and capability of a manifest, in order."""
    import xml.etree.ElementTree as ET
    sm, rs = '{http://www.sitemaps.org/schemas/sitemap/0.9}', '{http://www.openarchives.org/rs/terms/}'
    root = ET.fromstring(data)
    if root.tag != sm + 'urlset':
        raise ValueError('root ' + root.tag)
    cap = [m.get('capability') for m in root.findall(rs + 'md')]
    rows = []
    for u in root.findall(sm + 'url'):
        md = u.find(rs + 'md')
        rows.append((u.find(sm + 'loc').text, md.get('length'), md.get('path'), md.get('hash')))
    return cap, rows


def dump_real(arg):
    """Write a dump and look at the packages."""
    c, out, seed = arg
    from resync.dump import Dump, DumpError
    from resync.resource import Resource
    from resync.resource_list import ResourceList
    from resync.change_list import ChangeList
    from resync.resource_list import ResourceListOrdered
    from resync.client import Client
    rng = random.Random(seed)
    top = os.path.join(common.worker_dir(), 'p')
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(os.path.join(top, 'src'))
    os.chdir(top)
    n = len(c['rs'])
    unit = rng.choice([1, 1, 3, 100, 5000])
    ps = rels(rng, n)
    base = rng.choice(['src', os.path.join(top, 'src'), './src', '../p/src'])
    if rng.random() < 0.1:
        os.chdir('src')
        base = '.'
    data = []
    rows = []
    plain = all(r['file'] == 'ok' and r['decl'] == 'none' for r in c['rs'])
    ordered = rng.random() < 0.4
    names = list(range(n))
    if ordered:
        rng.shuffle(names)
    uris = ['http://h.org/%s%03d' % (rng.choice(['', 'a&b']), k) if ordered else 'http://h.org/%03d' % k for k in names]
    via_client = plain and n and not ordered and rng.random() < 0.3
    if via_client:  # in the order of the URIs, which are the paths
        ps = sorted(ps, key='/'.join)
    for r, p, u in zip(c['rs'], ps, uris):
        f = os.path.join(top, 'src', *p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        d = bytes(rng.getrandbits(8) for _ in range(r['size'] * unit))
        if rng.random() < 0.3:
            d = b'aaaa' * (len(d) // 4) + d[:len(d) % 4]
        if r['file'] != 'missing':
            with open(f, 'wb') as fh:
                fh.write(d)
            os.utime(f, (1e9, rng.choice([1e9, 0, 5e8, 4e9])))
        data.append(d)
        length = {'none': None, 'right': len(d), 'wrong': rng.choice([len(d) + 1, max(len(d) - 1, 0) if d else 2, 0 if d else 5])}[r['decl']]
        rows.append(dict(uri=u, length=length, path=None if r['file'] == 'nopath' else os.path.join(base, *p)))
    outbase = os.path.join(top, rng.choice(['dump', 'rd_', 'd.x', 'o ut', 'src_']))
    compress = rng.random() < 0.7
    separate = rng.random() < 0.6
    res = {'seed': seed, 'rows': rows, 'files': c['files'], 'size': c['size'] * unit, 'base': outbase}
    # the check alone
    for strict in (True, False):
        fill = rng.random() < 0.7
        d = Dump(resources=[Resource(**row) for row in rows])
        d.max_size = c['size'] * unit
        try:
            d.check_files(set_length=fill, check_length=strict)
            ok = True
        except (DumpError, OSError):
            ok = False
        if ok != (out['ok'] if strict else out['loose']):
            return dict(res, bad='check of the files', strict=strict, real=ok)
        if ok:
            lens = [x.length for x in d.resources]
            if lens != [row['length'] if row['length'] is not None else len(b) if fill else None for row, b in zip(rows, data)]:
                return dict(res, bad='lengths set by the check', real=lens)
            if d.total_size != sum(map(len, data)):
                return dict(res, bad='total size', real=d.total_size)
    if via_client:
        cl = Client(hashes=rng.choice([None, ['md5']]))
        cl.set_mappings(['http://h.org=' + base])
        real = Dump.__init__

        def limits(self, *a, **k):
            real(self, *a, **k)
            self.max_size = c['size'] * unit
            self.max_files = c['files']
        Dump.__init__ = limits
        try:
            cl.write_resource_list(outfile=outbase, dump=True)
            got = len(out['packs'])
        except DumpError:
            got = None
        finally:
            Dump.__init__ = real
        uris = ['http://h.org/' + '/'.join(p) for p in ps]
        separate = os.path.exists(outbase + '00000.xml')
    else:
        if ordered:
            kind = rng.choice(['ordered', 'list', 'change'])
            rl = ResourceListOrdered() if kind == 'ordered' else ChangeList() if kind == 'change' else []
        else:
            rl = ResourceList()
        for row in rows:
            x = Resource(change='updated' if ordered and kind == 'change' else None, **row)
            rl.append(x) if isinstance(rl, list) else rl.add(x)
        if n and rng.random() < 0.1:  # a kind of package that cannot be written
            d = Dump(resources=rl, format=rng.choice(['tar', 'ZIP', 'zipp', 'warc', 'xml']), compress=compress)
            try:
                d.write(outbase)
                return dict(res, bad='unknown format accepted', format=d.format)
            except (DumpError, OSError):
                pass
            if sorted(os.listdir(top)) != ['src']:
                return dict(res, bad='refused but written', real=os.listdir(top), format=d.format)
            for x, row in zip(rl, rows):
                x.path, x.length = row['path'], row['length']
        d = Dump(resources=rl, format=rng.choice([None, 'zip']), compress=compress)
        d.max_size = c['size'] * unit
        d.max_files = c['files']
        try:
            got = d.write(outbase) if separate and rng.random() < 0.5 else d.write(basename=outbase, write_separate_manifests=separate)
        except (DumpError, OSError) as e:
            if out['ok']:
                return dict(res, bad='dump refused', error=str(e))
            got = None
    made = sorted(f for f in os.listdir(top) if f != 'src')
    if not out['ok']:
        if got is not None:
            return dict(res, bad='dump accepted', real=got)
        if made:
            return dict(res, bad='refused but written', real=made)
        return None
    if got != len(out['packs']):
        return dict(res, bad='number of packages', real=got, specified=len(out['packs']))
    b = os.path.basename(outbase)
    want = sorted(['%s%05d.zip' % (b, k) for k in range(got)] + (['%s%05d.xml' % (b, k) for k in range(got)] if separate else []))
    if made != want:
        return dict(res, bad='files written', real=made, specified=want)
    for k, pack in enumerate(out['packs']):
        with zipfile.ZipFile('%s%05d.zip' % (outbase, k)) as z:
            if z.testzip():
                return dict(res, bad='damaged package', of=k)
            cap, ms = manifest_of(z.read('manifest.xml'))
            inside = z.namelist()
            how = set(x.compress_type for x in z.infolist() if x.file_size)
            bodies = {nm: z.read(nm) for nm in inside}
        if not via_client and how != {zipfile.ZIP_DEFLATED if compress else zipfile.ZIP_STORED}:
            return dict(res, bad='compression', asked=compress, real=sorted(how))
        if cap != ['resourcedump-manifest']:
            return dict(res, bad='capability of the manifest', real=cap)
        if len(inside) != len(set(inside)) or len(inside) != len(ms) + 1:
            return dict(res, bad='members', of=k, real=inside)
        ms_in = ms
        if ordered:  # a manifest is sorted by URI in any case: compare as sets
            if not sorted(m[0] for m in ms) == sorted(uris[i - 1] for i in pack):
                return dict(res, bad='entries of the manifest', of=k, real=ms, specified=[uris[i - 1] for i in pack])
            ms = [next(m for m in ms if m[0] == uris[i - 1]) for i in pack]
        if [m[0] for m in ms] != [uris[i - 1] for i in pack]:
            return dict(res, bad='entries of the manifest', of=k, real=ms, specified=[uris[i - 1] for i in pack])
        for m, i in zip(ms, pack):
            body = data[i - 1]
            p = m[2]
            if not p or p.startswith('/') or '..' in p.split('/') or p == 'manifest.xml':
                return dict(res, bad='path in the manifest', real=m)
            if bodies.get(p) != body:
                return dict(res, bad='content', real=[m, inside])
            if m[1] != str(len(body)):
                return dict(res, bad='length', real=m, specified=len(body))
            # the file keeps its own place below the common directory
            if not ('/' + '/'.join(ps[i - 1])).endswith('/' + p) and not ('/top/src/' + '/'.join(ps[i - 1])).endswith('/' + p) \
                    and not os.path.join(top, 'src', *ps[i - 1]).endswith('/' + p):
                return dict(res, bad='path in the manifest', real=m)
        if separate:
            with open('%s%05d.xml' % (outbase, k), 'rb') as fh:
                got_ms = manifest_of(fh.read())
            if got_ms[0] != ['resourcedump-manifest'] or [x[:3] for x in got_ms[1]] != [x[:3] for x in ms_in]:
                return dict(res, bad='separate manifest', real=got_ms[1], specified=ms)
    for p, body in zip(ps, data):
        with open(os.path.join(top, 'src', *p), 'rb') as fh:
            if fh.read() != body:
                return dict(res, bad='file changed')
    return None


def B02(chk):
    """Dumps."""
    T = common.THOROUGH
    lines = chk.run_tlc('Dump', 'Dump', DCFG % (5 if T else 4, '0, 1, 2' + (', 4' if T else ''), 2, '' if T else 'PROPERTY Ends'), timeout=2500).lines
    seen = {}
    for x in lines:
        seen[syncdrv.canon(x['in'])] = x
    lines = [seen[k] for k in sorted(seen)]
    if len(lines) > (40000 if T else 5000):
        lines = chk.rng.sample(lines, 40000 if T else 5000)
    recs = []
    for _ in range(10000 if T else 1500):
        rng = chk.rng
        n = rng.choice([1, 2, 3, 5, 8, 13, 30])
        top = rng.choice([3, 10, 40])
        odd = rng.random() < 0.2
        recs.append({'rs': [{'size': rng.randint(0, top), 'decl': rng.choice(['none', 'right']) if rng.random() > 0.05 * odd else 'wrong',
                             'file': 'ok' if rng.random() > 0.05 * odd else rng.choice(['nopath', 'missing'])} for _ in range(n)],
                     'files': rng.choice([1, 2, 3, 5, 10, n, n + 1, 50]), 'size': top + rng.choice([-1, 0, 0, 1, top, 3 * top, 100])})
    path = os.path.join(common.scratch(), 'dumps.ndjson')
    common.write_ndjson(path, recs)
    lines += chk.run_tlc('Dump random', 'Dump', DCFG % (1, '0', 0, ''), env={'TRACE': path}, timeout=2500).lines
    items = [(x['in'], x['out'], '%d-%d' % (common.SEED, i)) for i, x in enumerate(lines)]
    n = 0
    for it, bad in common.pmap(dump_real, items, init=init, chunk=32):
        chk.validated += 1
        n += 1
        if bad:
            chk.violation('dump: ' + bad['bad'], bad)
        elif n % 1999 == 7:
            chk.sample({'case': it[0], 'specified': it[1]})
