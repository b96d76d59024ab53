"""C02 (StateFile.tla)."""
import os
import random
import shutil
import subprocess
import sys

import common
import crash
import syncdrv
from check_map import init

CFG = '''SPECIFICATION Spec
CONSTANTS Depth = %d
 Times = {%s}
INVARIANT Local
CHECK_DEADLOCK FALSE
'''
READ = '''import sys
sys.path.insert(0, sys.argv[1])
from resync.client_state import ClientState
for s in sys.argv[2:]:
    print(repr(ClientState().get_state(s)))
'''


def state_real(arg):
    """Replay one history on a real state file."""
    c, seed = arg
    from resync.client_state import ClientState
    rng = random.Random(seed)
    top = os.path.join(common.worker_dir(), 'c')
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    os.chdir(top)
    low, up = rng.choice([('a', 'A'), ('x', 'X'), ('é', 'É'), ('ж', 'Ж'), ('zz', 'Zz'), ('rem ', 'REM ')])
    other = rng.choice([('b', 'B'), ('q', 'Q'), ('0b', '0B'), ('y' * 300, 'Y' * 300)])
    odd = [x for x in rng.sample(list(':/.#;=[]&? ~-@!$()*+,\'"<>|\\\t{}^`') + ['–', '\u00a0', '\n'], 2)]
    cm = {'a': low, 'A': up, 'b': other[0], 'B': other[1], '/': odd[0], '.': odd[1], '%': '%', '_': '_', '1': rng.choice(['1', '42'])}
    lead = rng.choice(['http://h.org/', 'https://x.y:80/', '', '/local/d', 'h', '[incremental]', '#', 'DEFAULT'])
    names = [lead + ''.join(cm[ch] for ch in n) for n in c['names']]
    times = {1: rng.choice([1, 1234567890, 1234567890.123456, 0.1, 1e-07, 1500000000.000001]), 2: rng.choice([0, 99999999999.5, 2.5, 1234567891, -5.25, 1e17])}
    times.update({k: rng.choice([1e9, 1.6e9]) + rng.random() * k for k in range(3, 30)})
    same = ClientState()
    if rng.random() < 0.1:
        with open(same.status_file, 'w') as fh:
            fh.write(rng.choice(['', '[incremental]\n', '[other]\nx = 1\n\n']))
    res = {'seed': seed, 'names': names}
    hist = c['hist']

    def val(t):
        return None if t == 0 else float(times[t])

    def reads(how):
        if how == 'process':
            p = subprocess.run([sys.executable, '-B', '-c', READ, common.REPO] + names, capture_output=True, text=True)
            if p.returncode:
                return [p.stderr[-500:]]
            return [None if x == 'None' else float(x) for x in p.stdout.split('\n')[:-1]]
        return [(same if how == 'same' else ClientState()).get_state(s) for s in names]
    if reads('fresh') != [None] * len(names):
        return dict(res, bad='state of a site never recorded', real=reads('fresh'))
    for k, h in enumerate(hist):
        o = h['o']
        was, now = [val(t) for t in h['was']], [val(t) for t in h['now']]

        def do():
            obj = same if rng.random() < 0.5 else ClientState()
            if o['k'] == 'del':
                obj.set_state(names[o['i'] - 1]) if seed[-1] in '02468' else obj.set_state(names[o['i'] - 1], None)
            else:
                obj.set_state(names[o['i'] - 1], times[o['t']])
        if k == len(hist) - 1 and rng.random() < 0.25:
            # interrupted at some moment
            died, n, out = crash.run(do)
            shutil.rmtree(top)
            os.makedirs(top)
            os.chdir(top)
            for g in hist[:k]:
                ClientState().set_state(names[g['o']['i'] - 1], None if g['o']['k'] == 'del' else times[g['o']['t']])
            m = max(1, n - rng.randint(-1, 60)) if rng.random() < 0.8 else rng.randint(1, n)
            died, _, out = crash.run(do, m)
            try:
                got = reads('fresh')
            except Exception as e:
                got = repr(e)
            if got != was and got != now or (not died and got != now):
                return dict(res, bad='interrupted', step=k, at=[m, n], real=got, specified=[was, now])
            # and it can be repeated
            ClientState().set_state(names[o['i'] - 1], None if o['k'] == 'del' else times[o['t']])
        else:
            do()
        how = 'process' if rng.random() < 0.02 and k == len(hist) - 1 and not any('\x00' in s for s in names) else rng.choice(['same', 'fresh'])
        got = reads(how)
        if got != now:
            return dict(res, bad='state read', step=k, op=o, how=how, real=got, specified=now)
    return None


def C02(chk):
    """Stored state."""
    T = common.THOROUGH
    lines = chk.run_tlc('StateFile', 'StateFile', CFG % (4 if T else 3, '1, 2'), timeout=2500).lines
    lines.sort(key=syncdrv.canon)
    recs = []
    for _ in range(5000 if T else 800):
        rng = chk.rng
        names = [[rng.choice('aAbB/._%1') for _ in range(rng.randint(0, 4))] + [rng.choice('aAb1/')] for _ in range(rng.choice([2, 4, 8]))]
        recs.append({'names': names, 'plan': [{'k': k, 'i': rng.randint(1, len(names)), 't': 0 if k == 'del' else rng.randint(1, 29)}
                                              for k in [rng.choice(['set', 'set', 'set', 'del']) for _ in range(rng.choice([3, 8, 15]))]]})
    path = os.path.join(common.scratch(), 'state.ndjson')
    common.write_ndjson(path, recs)
    lines += chk.run_tlc('StateFile random', 'StateFile', CFG % (1, '1'), env={'TRACE': path}, timeout=2500).lines
    chk.exhaustive = True
    items = [(x, '%d-%d' % (common.SEED, i)) for i, x in enumerate(lines)]
    n = 0
    for it, bad in common.pmap(state_real, items, init=init, chunk=32):
        chk.validated += 1
        n += 1
        if bad:
            chk.violation('stored state: ' + bad['bad'], bad)
        elif n % 1999 == 7:
            chk.sample(it[0])
