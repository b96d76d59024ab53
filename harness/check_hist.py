"""S04: histories (SyncHist.tla, SyncHistTrace.tla) and single runs; S05: ChangeReduce.tla."""
import os

import common
import check_sync
import syncdrv

HIST_CFG = '''SPECIFICATION Spec
CONSTANTS N = %d
 MaxT = %d
 MaxV = %d
 MaxLen = %d
 Depth = %d
 Lag = %s
%s
CHECK_DEADLOCK FALSE
'''
MC = 'VIEW view\nINVARIANTS NothingMissed NoLaterThanSource'
SIM = 'ACTION_CONSTRAINT EmitHist'


def S04(chk):
    """Incremental synchronization never misses a change."""
    # 1. the theorem on the specification
    if common.THOROUGH:
        chk.run_tlc('SyncHist lag len=3', 'SyncHist', HIST_CFG % (2, 3, 3, 3, 999, 'TRUE', MC), timeout=3000, heap='8g')
        chk.run_tlc('SyncHist len=4', 'SyncHist', HIST_CFG % (2, 3, 3, 4, 999, 'FALSE', MC), timeout=3000, heap='8g')
    else:
        chk.run_tlc('SyncHist lag len=2', 'SyncHist', HIST_CFG % (2, 3, 3, 2, 999, 'TRUE', MC))
        chk.run_tlc('SyncHist len=3', 'SyncHist', HIST_CFG % (2, 2, 3, 3, 999, 'FALSE', MC))
    # 2. histories of the specification driven through the real client
    items = []
    for n, t, v, ln, d, lag, num in [(2, 4, 6, 8, 12, 'FALSE', 300), (2, 6, 9, 12, 24, 'TRUE', 200), (4, 7, 9, 14, 26, 'TRUE', 200)]:
        if common.THOROUGH:
            num *= 12
        res = chk.run_tlc('SyncHist simulate N=%d' % n, 'SyncHist', HIST_CFG % (n, t, v, ln, d, lag, SIM), workers=1, timeout=1500,
                          args=['-simulate', 'num=%d' % num, '-depth', str(d + 1), '-seed', str(common.SEED * 7 + n)])
        items += [(h['ev'], '%d/%d/%s/%d' % (common.SEED, n, lag, i)) for i, h in enumerate(sorted(res.lines, key=syncdrv.canon))]
    recs, full = [], []
    for it, ev in common.pmap(syncdrv.run_history, items, init=syncdrv.init_worker, limit=120):
        recs.append({'i': len(recs), 'ev': ev})
        full.append((it, ev))
    path = os.path.join(common.scratch(), 'hist.ndjson')
    common.write_ndjson(path, recs)
    res = chk.run_tlc('SyncHistTrace', 'SyncHistTrace', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', env={'TRACE': path}, timeout=1500, judge=True)
    if res.distinct != 2 * len(recs):
        raise common.MachineryError('judged %d of %d histories' % (res.distinct, len(recs)))
    chk.validated += len(recs)
    chk.extra['histories'] = len(recs)
    chk.extra['probes'] = sum(1 for r in recs for e in r['ev'] if e['a'] == 'probe')
    for v in res.lines:
        it, ev = full[v['i']]
        for b in v['bad']:
            chk.violation('history breaks S04: ' + b['why'], {'seed': it[1], 'event': ev[b['k'] - 1], 'upto': ev[:b['k']]})
    if full:
        chk.sample({'history': full[0][1]})
    # 3. single runs: the recorded time
    cases = check_sync.generated(chk, 'inc2', 2, None if common.THOROUGH else 3000)
    cases += check_sync.generated(chk, 'incmixed', 2, None if common.THOROUGH else 2000)
    cases += check_sync.generated(chk, 'baseline', 2, None if common.THOROUGH else 1000)
    cases += check_sync.randoms(chk, 10000 if common.THOROUGH else 1000)
    check_sync.judge(chk, cases, 'S04')


# ------------------------------------------------------------------ S05

def _init_lists():
    common.use_repo()
    import resync.change_list  # noqa
    import resync.resource  # noqa


def reduce_real(c):
    """Apply the real reduction and filter; same form as Out of ChangeReduce.tla."""
    from resync.change_list import ChangeList
    from resync.resource import Resource
    uri = {}
    cl = ChangeList()
    for i, e in enumerate(c['cl']):
        uri[e['u']] = 'http://example.org/r%d' % e['u']
        kw = {'ts_datetime': 1000.5 + e['t']}
        if i % 3 == 1:
            kw['timestamp'] = 5.0
        cl.add(Resource(uri=uri[e['u']], change=e['ch'], length=i + 1, **kw))
    keep = set(uri[u] for u in c['keep'] if u in uri)
    before = len(cl)
    n1 = cl.prune_updates_before(1000.5 + c['from'])
    since = [(r.length, r.uri, r.change) for r in cl.resources]
    mid = len(cl)
    n2 = cl.prune_dupes(keep_deleted=keep.__contains__) if keep else cl.prune_dupes()
    red = [(r.length, r.uri, r.change) for r in cl]
    for ln, u, ch in since + red:
        e = c['cl'][ln - 1]
        if u != uri[e['u']] or ch != e['ch']:
            return {'since': 'entry altered', 'reduced': [], 'removed': 0}
    if n1 != before - mid or len(cl) != len(red):
        return {'since': 'wrong count %d' % n1, 'reduced': [], 'removed': 0}
    return {'since': [x[0] for x in since], 'reduced': [x[0] for x in red], 'removed': n2}


def S05(chk):
    """Reduction of change lists."""
    cfg = '''SPECIFICATION Spec
CONSTANTS N = %d
 MaxLen = %d
 Sample = %d
INVARIANT NetEffect
CHECK_DEADLOCK FALSE
'''
    runs = [(2, 4, 1, None), (3, 4, 1, None)]
    if common.THOROUGH:
        runs = [(2, 5, 1, None), (3, 5, 1, None), (2, 6, 1, None)]
    path = os.path.join(common.scratch(), 'lists.ndjson')
    recs = []
    for _ in range(20000 if common.THOROUGH else 1500):
        n = chk.rng.randint(1, 9)
        cl, t = [], 0
        for _ in range(chk.rng.randint(3, 40)):
            t += chk.rng.choice([0, 0, 1, 2])
            cl.append({'u': chk.rng.randint(1, n), 'ch': chk.rng.choice(['created', 'updated', 'deleted']),
                       't': chk.rng.randint(0, 30) if chk.rng.random() < 0.1 else t})
        recs.append({'cl': cl, 'keep': [u for u in range(1, n + 1) if chk.rng.random() < 0.15],
                     'from': chk.rng.choice([0, 0, t // 2, t, t + 1])})
    common.write_ndjson(path, recs)
    lines = []
    for n, m, s, _ in runs:
        lines += chk.run_tlc('ChangeReduce N=%d len=%d' % (n, m), 'ChangeReduce', cfg % (n, m, s), timeout=3000).lines
    # (the theorem is not evaluated on the long lists: it quantifies over all destinations)
    lines += chk.run_tlc('ChangeReduce long lists', 'ChangeReduce', (cfg % (9, 1, 1)).replace('INVARIANT NetEffect\n', ''),
                         env={'TRACE': path}, timeout=1500).lines
    chk.exhaustive = True
    compare(chk, lines, reduce_real, _init_lists, 'S05')


def compare(chk, lines, fn, init, what, limit=60, chunk=64):
    """Run fn (real code) on every case and compare with what the specification says."""
    for x, (_, got) in zip(lines, common.pmap(fn, [x['in'] for x in lines], init=init, limit=limit, chunk=chunk)):
        chk.validated += 1
        if got != x['out']:
            chk.violation(what + ': real result differs from the specified one', {'case': x['in'], 'specified': x['out'], 'real': got})
        elif chk.validated % 997 == 5:
            chk.sample({'case': x['in'], 'result': got})
