"""Checks of single client runs: Sync.tla / SyncProps.tla / SyncStep.tla / SyncTrace.tla."""
import os
import random

import common
import syncdrv

STEP_CFG = '''SPECIFICATION Spec
CONSTANTS N = %d
 Family = "%s"
ACTION_CONSTRAINT Emit
INVARIANT AllHold
CHECK_DEADLOCK FALSE
'''
TRACE_CFG = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
'''


def generated(chk, family, n, limit=None):
    """Cases of a family enumerated by TLC (which also checks the properties on the model)."""
    res = chk.run_tlc('SyncStep/%s N=%d' % (family, n), 'SyncStep', STEP_CFG % (n, family), timeout=1500)
    lines = sorted(res.lines, key=syncdrv.canon)
    if limit and len(lines) > limit:
        chk.exhaustive = False
        lines = chk.rng.sample(lines, limit)
    return [(x['in'], x['follow'], family) for x in lines]


def judge(chk, cases, prop):
    """Run cases in the real client and let the specification judge the records."""
    items = [(c, '%d/%s/%d%s' % (common.SEED, fam.split('/')[0], i, fam[len(fam.split('/')[0]):]), follow) for i, (c, follow, fam) in enumerate(cases)]
    recs, full = [], []
    for it, (obs, then) in common.pmap(syncdrv.run_case, items, init=syncdrv.init_worker):
        recs.append({'i': len(recs), 'in': it[0], 'obs': syncdrv.trim(obs), 'then': [syncdrv.trim(t) for t in then]})
        full.append((it, obs, then))
    if not recs:
        return
    path = os.path.join(common.scratch(), 'trace.ndjson')
    common.write_ndjson(path, recs)
    res = chk.run_tlc('SyncTrace', 'SyncTrace', TRACE_CFG, env={'TRACE': path}, timeout=1500, judge=True)
    if res.distinct != 2 * len(recs):
        raise common.MachineryError('SyncTrace judged %d of %d records' % (res.distinct, len(recs)))
    chk.validated += len(recs)
    drift = 0
    for v in res.lines:
        it, obs, then = full[v['i']]
        if prop in v['fails']:
            chk.violation('run breaks ' + prop + (' (paths clash)' if it[1].endswith('/clash') else ''), {'case': it[0], 'seed': it[1], 'observed': obs, 'then': then})
        elif not v['same']:
            drift += 1
    chk.extra['runs_other_than_specified'] = chk.extra.get('runs_other_than_specified', 0) + drift
    for it, obs, then in full[:2]:
        chk.sample({'case': it[0], 'observed': syncdrv.trim(obs)})


# ------------------------------------------------------------- larger random runs

ABS = {'v': 0, 't': 0}
OPTS = {'audit': False, 'del': True, 'dry': False, 'ign': False, 'rlen': True, 'cmp': False, 'noauth': False,
        'unauth': [], 'from': 0}


def random_case(rng, want=None):
    """A random larger run."""
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 11])
    o = dict(OPTS, fault=['ok'] * n)
    o['del'] = rng.random() < 0.6
    o['rlen'] = rng.random() < 0.85
    o['cmp'] = rng.random() < 0.2
    o['ign'] = rng.random() < 0.3
    src = [dict(ABS) if rng.random() < 0.3 else {'v': rng.randint(1, 4), 't': rng.randint(1, 12)} for _ in range(n)]
    op = rng.choice(['baseline', 'inc']) if want is None else want
    faulty = rng.random() < 0.3
    if faulty:
        o['fault'] = [rng.choice(['ok', 'ok', 'ok', '404', 'trunc']) for _ in range(n)]
    if op == 'baseline':
        o['audit'] = rng.random() < 0.15
        o['dry'] = not o['audit'] and rng.random() < 0.15
        rl = []
        timed = rng.random() < 0.8
        for s in src:
            e = dict(s)
            if s['v'] and not timed and rng.random() < 0.5:
                e['t'] = -1
            if not s['v'] and rng.random() < 0.1:
                e = {'v': rng.randint(1, 4), 't': rng.randint(1, 12)}  # listed but gone
            rl.append(e)
        dst = []
        for e in rl:
            k = rng.random()
            if k < 0.3:
                dst.append(dict(ABS))
            elif k < 0.6 and e['v']:
                dst.append({'v': e['v'], 't': e['t'] if e['t'] > 0 else 3})
            else:
                dst.append({'v': rng.randint(1, 6), 't': rng.randint(1, 12)})
        return {'op': op, 'rl': rl, 'cl': [], 'src': src, 'dst': dst, 'st': rng.choice([0, 0, 3, 7]), 'o': o}
    o['dry'] = rng.random() < 0.15
    o['from'] = -1 if rng.random() < 0.03 else rng.choice([0, 0, 0, 2, 6])
    cl = []
    t = rng.randint(1, 3)
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 13, 21])):
        t += rng.choice([0, 0, 1, 1, 2])
        u = rng.randint(1, n)
        ch = rng.choice(['created', 'updated', 'updated', 'deleted'])
        e = {'u': u, 'ch': ch, 't': t, 'm': -1 if ch == 'deleted' else t}
        k = rng.random()
        if k < 0.08:
            e['t'], e['m'] = -1, t
        elif k < 0.16:
            e['m'] = rng.choice([-1, max(1, t - 2)])
        elif k < 0.17:
            e['t'] = e['m'] = -1
        cl.append(e)
    for u in range(n):
        es = [e for e in cl if e['u'] == u + 1]
        if es and rng.random() < 0.95:
            src[u] = dict(ABS) if es[-1]['ch'] == 'deleted' else {'v': rng.randint(1, 4), 't': max(1, es[-1]['t'])}
    dst = [dict(ABS) if rng.random() < 0.4 else {'v': rng.randint(1, 4), 't': rng.randint(1, 12)} for _ in range(n)]
    return {'op': op, 'rl': [dict(s) for s in src], 'cl': cl, 'src': src, 'dst': dst,
            'st': rng.choice([0, 1, 3, 5, 5, 9]), 'o': o}


def follow_kind(c):
    """As FollowKind in SyncProps.tla."""
    if any(f != 'ok' for f in c['o']['fault']):
        return 'repeat'
    return 'again' if c['op'] == 'baseline' and not c['o']['audit'] and not c['o']['dry'] else 'none'


def randoms(chk, k, want=None, keep=lambda c: True):
    """k random larger cases."""
    out = []
    while len(out) < k:
        c = random_case(chk.rng, want)
        if keep(c):
            out.append((c, follow_kind(c), 'random'))
    return out


def S01(chk):
    """Baseline converges and is idempotent."""
    chk.exhaustive = True
    cases = []
    fams = [('baseline', 2), ('notime', 3)]
    for f, n in fams:
        cases += [c for c in generated(chk, f, n) if c[0]['o']['del'] and not c[0]['o']['dry'] and not c[0]['o']['audit']]
    if common.THOROUGH:
        cases += [c for c in generated(chk, 'baseline', 3)
                  if c[0]['o']['del'] and not c[0]['o']['dry'] and not c[0]['o']['audit']][::2]
    # a directory takes the place of a file, or a file that of a directory
    cases += [(c, f, fam + '/clash') for c, f, fam in cases if fam == 'baseline' and len(c['dst']) == 2 and
              [bool(x['v']) for x in c['rl']] == [not x['v'] for x in c['dst']] and len({bool(x['v']) for x in c['rl']}) == 2]
    cases += randoms(chk, 20000 if common.THOROUGH else 1500, 'baseline', lambda c: c['o']['del'])
    judge(chk, cases, 'S01')


def S02(chk):
    """Frame."""
    cases = generated(chk, 'baseline', 2) + generated(chk, 'inc2', 2, None if common.THOROUGH else 4000)
    cases += generated(chk, 'faults', 2, None if common.THOROUGH else 1000)
    if common.THOROUGH:
        cases += generated(chk, 'inc3', 2, 40000)
    cases += randoms(chk, 20000 if common.THOROUGH else 1500)
    judge(chk, cases, 'S02')


def S03(chk):
    """Audit and dry run."""
    def pure(c):
        return c['o']['audit'] or c['o']['dry']
    chk.exhaustive = True
    cases = []
    for f, n in (('baseline', 2), ('notime', 3), ('inc2', 2)):
        cases += [c for c in generated(chk, f, n) if pure(c[0])]
    if common.THOROUGH:
        cases += [c for c in generated(chk, 'baseline', 3) if pure(c[0])]
    cases += randoms(chk, 15000 if common.THOROUGH else 1500, None, pure)
    judge(chk, cases, 'S03')


CRASH_CFG = '''SPECIFICATION Spec
CONSTANTS N = 2
 MaxCrashes = %d
 Family = "%s"
INVARIANTS Refines MidOk FinOk
PROPERTY Ends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
'''


def plain_case(rng):
    """A random run without faults in which copies that look right are right."""
    while True:
        c = random_case(rng)
        c['o'].update(audit=False, dry=False, ign=False, fault=['ok'] * len(c['dst']))
        c['o']['from'] = max(0, c['o']['from'])
        if c['op'] == 'baseline':
            for u, e in enumerate(c['rl']):
                if not e['v']:
                    continue
                if not c['src'][u]['v']:
                    c['src'][u] = dict(e, t=max(e['t'], 1))
                d = c['dst'][u]
                if d['v'] and d['v'] != e['v'] and d['t'] == e['t']:
                    d['t'] += 20
                if d['v'] and e['t'] == -1 and not (d['v'] == e['v'] and d['t'] == e['t']):
                    c['dst'][u] = dict(ABS)
            c['o']['rlen'] = c['o']['rlen'] or any(e['t'] == -1 for e in c['rl'] if e['v'])
        return c


def deaths(chk):
    """Runs that are killed, and runs whose list cannot be had."""
    T = common.THOROUGH
    crash, nolist, seen = [], [], set()
    for fam in ('baseline', 'inc'):
        lines = chk.run_tlc('SyncCrash ' + fam, 'SyncCrash', CRASH_CFG % (3 if T else 1, fam), timeout=2500).lines
        lines = sorted({syncdrv.canon(x['in']): x['in'] for x in lines}.items())
        chk.rng.shuffle(lines)
        crash += [(c, '%d/%s/%d' % (common.SEED, fam, i), 4) for i, (_, c) in enumerate(lines[:4000 if T else 120])]
        nolist += [(c, '%d/%s/%d' % (common.SEED, fam, i)) for i, (_, c) in enumerate(lines[:4000 if T else 250])]
    for i in range(4000 if T else 150):
        c = plain_case(chk.rng)
        crash.append((c, '%d/rc/%d' % (common.SEED, i), 5))
        nolist.append((plain_case(chk.rng), '%d/rn/%d' % (common.SEED, i)))
    recs = []
    for _, rs in common.pmap(syncdrv.run_crash, crash, init=syncdrv.init_worker, chunk=2, limit=300):
        recs += rs
    recs += [r for _, r in common.pmap(syncdrv.run_nolist, nolist, init=syncdrv.init_worker)]
    for i, r in enumerate(recs):
        r['i'] = i
    path = os.path.join(common.scratch(), 'crash.ndjson')
    common.write_ndjson(path, recs)
    res = chk.run_tlc('SyncCrashTrace', 'SyncCrashTrace', TRACE_CFG, env={'TRACE': path}, timeout=1500, judge=True)
    if res.distinct != 2 * len(recs):
        raise common.MachineryError('SyncCrashTrace judged %d of %d records' % (res.distinct, len(recs)))
    unfit = 0
    for v in res.lines:
        unfit += not v['fit']
        if v['fails']:
            r = recs[v['i']]
            chk.violation('killed run' if r['kind'] == 'crash' else 'run without its list', {'fails': v['fails'], 'record': r})
    chk.validated += len(recs) - unfit
    chk.extra['killed_runs'] = sum(r['kind'] == 'crash' for r in recs)
    chk.extra['runs_without_list'] = sum(r['kind'] == 'nolist' for r in recs)
    chk.extra['records_not_judged'] = unfit
    chk.sample({k: recs[0][k] for k in ('in', 'left', 'fin', 'at')})


def S06(chk):
    """Failed runs."""
    deaths(chk)
    chk.exhaustive = True
    cases = generated(chk, 'faults', 2) + generated(chk, 'incfault', 2, None if common.THOROUGH else 6000)
    cases += randoms(chk, 20000 if common.THOROUGH else 1500, None, lambda c: follow_kind(c) == 'repeat')
    judge(chk, cases, 'S06')


def S09(chk):
    """Status lines."""
    cases = generated(chk, 'baseline', 2) + generated(chk, 'inc2', 2, None if common.THOROUGH else 4000)
    cases += generated(chk, 'faults', 2, None if common.THOROUGH else 1000)
    cases += generated(chk, 'incfault', 2, None if common.THOROUGH else 2000)
    cases += randoms(chk, 20000 if common.THOROUGH else 1500)
    judge(chk, cases, 'S09')
