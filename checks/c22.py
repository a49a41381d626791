"""C22: the merge tracker stays consistent with the corpus it tracks."""
import os, shutil, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH, cps
from lib import gen, learn

os.environ['NLCODEC_THREADS'] = '2'


def table_of(chars, merges):
    """chars + pairs of ids -> table"""
    from nlcodec.codec import Type, Level, Reseved
    t = Reseved.with_reserved_types()
    t += [Type(n, level=Level.char, idx=i, freq=1) for i, n in enumerate(chars, start=len(t))]
    for a, b in merges:
        t.append(Type(t[a].name + t[b].name, level=Level.subword, idx=len(t), freq=1, kids=(t[a], t[b])))
    return t


def whole(x):
    """a float that has to be a whole number; -1 if it is not"""
    r = round(float(x)) if x == x else -1
    return r if abs(r - x) < 1e-4 * max(1, abs(x)) ** .5 else -1


def run(table, lines, d, n=None):
    from nlcodec.codec import Type
    from nlcodec.eval.bpe_len import BPECodecXt, BpeTracker
    Type.write_out(table[:n] if n else table, d / 'm', scheme='bpe')
    bpe = BPECodecXt(d / 'm')
    tr = BpeTracker(bpe, iter(lines))
    res = tr.track_merges()
    return bpe, tr, res


def state(tr, done):
    return dict(op='state', done=done, uni=[int(x) for x in tr.uni], lens=[int(x) for x in tr.seq_lens])


def record(case):
    d = Path(tempfile.mkdtemp(prefix='vtrk'))
    try:
        if case['kind'] == 'learned':
            try:
                table = learn.learn(case)
            except AssertionError as e:
                if 'is too small' in str(e):
                    return None
                raise
        else:
            table = table_of(case['chars'], case['merges'])
        n0 = next((i for i, t in enumerate(table) if t.kids), None)
        if n0 is None:
            return None
        merges = [dict(a=t.kids[0].idx, b=t.kids[1].idx) for t in table[n0:]]
        bpe, tr, res = run(table, case['texts'], d)
        ev = []
        for k, emd, mu in res:
            tot = whole(mu * len(case['texts']))
            ev.append(dict(op='report', k=int(k), total=tot, imb=whole(emd * 2 * k * tot)))
        ev.append(state(tr, len(merges)))
        ev.append(dict(op='end', left=bpe.merges_remaining()))
        states = []
        for m in case['prefixes']:
            if 0 < m < len(merges):     # the tracker after m merges: the model that ends there
                states.append(state(run(table, case['texts'], d, n0 + m)[1], m))
        ev = sorted(states, key=lambda s: s['done']) + ev
        # the states of the prefixes are judged from the start of the corpus
        return dict(init=[cps(t.name) for t in table[:n0]], lines=[cps(l) for l in case['texts']], merges=merges, ev=ev)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make(i):
    r = gen.rng('c22', i)
    alpha = gen.alphabet(r, r.choice([1, 2, 3]))
    c = learn.data(r, alpha, reserved=0.1, tf=0)
    c.update(scheme='bpe', minev=1, iter=False, kind='learned')
    chars = set(''.join(c['lines']))
    c['size'] = len(chars) + 6 + r.choice([1, 2, 4, 10, 25])
    if r.random() < .2:
        c['cov'] = (8, 10)
        c['size'] += 3
    words = [w for l in c['lines'] for w in l.split()]
    t = [gen.line(r, words + [gen.repeaty(r, alpha) for _ in range(4)] + ['q'], lo=0, hi=8) for _ in range(r.choice([1, 2, 5, 12, 30]))]
    if r.random() < .3:
        c.update(kind='made', chars=list(dict.fromkeys(alpha)))
        n = 6 + len(c['chars'])
        c['merges'] = [(r.randrange(5, n + m), r.randrange(5, n + m)) for m in range(r.randint(1, 8))]
    if i % 40 == 11:
        c['size'] += 20
        t = [gen.line(r, words[:3] + alpha, lo=0, hi=2) for _ in range(r.choice([40, 150, 300]))] + list(dict.fromkeys(words)) + t[:2]
    if i % 40 == 12:
        t.append(gen.longline(r, words, 300))
    if i % 40 == 13:
        t.append(''.join(r.choice(r.choice(words + alpha)) for _ in range(r.choice([253, 254, 255, 256, 257, 258, 511, 513]))))
    c['texts'] = [x + '\n' for x in t] if r.random() < .5 else t
    c['prefixes'] = r.sample(range(1, 26), 2)
    return c


def replay(b):
    sym = {0: 5, 1: 6, 2: 7}
    lines = [''.join(' ab'[x] for x in s[:-1]) for s in b['seqs']]
    idof = lambda x: x - 100 + 8 if x >= 100 else sym[x]
    case = dict(kind='made', chars=['a', 'b'], merges=[(idof(m['a']), idof(m['b'])) for m in b['merges']], texts=lines, prefixes=[1] if b['first'] else [])
    t = record(case)
    e = [x for x in t['ev'] if x['op'] == 'state'][-1]
    want = [0] * 5 + b['uni'] + b['new']
    return t if e['uni'] != want or e['lens'] != b['lens'] else None


def main():
    c = Check('C22')
    bs = c.behaviours_from('MCTracker', workers=2) + c.behaviours_from('MCTracker', 'MCTracker_two.cfg', workers=2)
    c.spawn(c.design_check, 'MCTracker', 'MCTracker_big.cfg', 3)
    c.spawn(c.design_refuted, 'MCTracker', 'MCTracker_bad.cfg', 'UniExact')
    if not THOROUGH:
        bs = gen.rng('c22b').sample(bs, 900)
    for k, b in enumerate(bs):
        b['first'] = k % 5 == 0
    differ = c.case_failures(bs, run_cases(replay, bs, procs=7), 'tracking merges')
    c.behaviours += len(bs)
    differ = [t for t in differ if t]
    cases = [make(i) for i in range(2500 if THOROUGH else 350)]
    traces = c.case_failures(cases, run_cases(record, cases, procs=7), 'tracking merges')
    rej = c.validate('TrTracker', [t for t in traces if t] + differ)
    if differ and not rej:
        c.violation('counts and lengths after the merges are those of the model', dict(trace=differ[0]))
    c.notes['merges'] = sum(len(t['merges']) for t in traces if t)
    return c.finish(rule='every sequence of up to 4 letters with every 2 merges and every pair of sequences of up to 3 with every merge (sampled in quick); '
                         'learned models and made-up merge lists over texts with runs, after every merge')
