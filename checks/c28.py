"""C28: BPE learning in installments gives what learning at once gives; the learner's counts stay exact."""
import inspect
from lib.vlib import Check, run_cases, cps, THOROUGH
from lib import gen, learn

USER = 2


def table(names):
    from nlcodec.codec import Type, Level, Reseved
    return Reseved.with_reserved_types() + [Type(n, level=Level.char, idx=i, freq=1) for i, n in enumerate(names, start=6)]


def learner(case, names=None):
    from nlcodec.bpe import BPELearn
    seqs = [(list(s), f) if f else list(s) for s, f in case['seqs']]
    return BPELearn(iter(seqs) if case.get('iter') else seqs, vocab=table(case['names']))


def kids_of(t):
    ids = [k.idx for k in t.kids] if t.kids else [0, 0]
    return ids if len(ids) == 2 else [0, 0]


def rows(types):
    return [kids_of(t) + [t.freq] for t in types]


def record_seqs(case):
    bpe = learner(case)
    n0 = 6 + len(case['names'])
    init = [cps(t.name) for t in table(case['names'])]
    ev, total = [], 0

    def counts():
        uni = getattr(bpe, 'uni', None)
        if uni is not None:
            ev.append(dict(op='counts', uni=[[k, v] for k, v in sorted(dict(uni).items())]))
    counts()
    for n, minev, level in case['calls']:
        out = bpe.learn_codes(n, minev, level)
        ev.append(dict(op='call', n=n, minev=minev, level=level))
        ev += [dict(op='merge', a=kids_of(t)[0], b=kids_of(t)[1], freq=t.freq, name=cps(t.name), level=t.level, idx=t.idx)
               for t in out[n0 + total:]]
        total = len(out) - n0
        ev.append(dict(op='return', old=[cps(t.name) for t in out]))
        counts()
    for n in {total, case['part'] % (total + 1), total + 2}:
        once = learner(case).learn_codes(n, 1, 1)[n0:]
        if n <= total:
            ev.append(dict(op='once', n=n, rows=rows(once)))
    return dict(kind='seqs', init=init, seqs=[dict(s=list(s), f=f or 1) for s, f in case['seqs'] if s], ev=ev)


def record_user(case):
    """user words of the initial list stay whole"""
    from nlcodec.bpe import BPELearn
    if 'init_list' not in inspect.signature(getattr(BPELearn, '_learn_codes', learner)).parameters:
        return None
    names = table(case['names'])
    tfs = {w + '▁': f for w, f in case['tfs']}
    size = len(names) + len(case['user']) + case['more']
    out = BPELearn._learn_codes(tfs, names, vocab_size=size, init_list=list(case['user']), min_co_evidence=case['minev'])
    n0 = len(names) + len(case['user'])
    ev = [dict(op='call', n=case['more'], minev=case['minev'], level=1)]
    ev += [dict(op='merge', a=kids_of(t)[0], b=kids_of(t)[1], freq=t.freq, name=cps(t.name), level=t.level, idx=t.idx) for t in out[n0:]]
    ev.append(dict(op='return', old=[cps(t.name) for t in out]))
    return dict(kind='words', init=[cps(t.name) for t in table(case['names'])] + [cps(w + '▁') for w in case['user']],
                tfs=[dict(w=cps(w), f=f) for w, f in tfs.items()], ev=ev)


def record_sizes(case):
    """vocabularies of several sizes of the same words"""
    from nlcodec.bpe import BPELearn
    from nlcodec.codec import learn_vocab
    lines = case['lines']

    def get(size):
        if case['how'] == 'corpus':
            fac = case_factory(case)
            return BPELearn.learn_subwords_from_corpus(iter(lines), vocab_size=size, min_co_evidence=1, init_vocab_factory=fac)
        return learn_vocab(list(lines), 'bpe', None, size, min_co_ev=1)
    chars = sorted(set(''.join(lines).replace(' ', '')))
    n0 = 6 + len(chars)
    tabs = [get(n0 + k) for k in sorted(case['sizes'], reverse=True)]
    big = tabs[0]
    tfs = {}
    for l in lines:
        for w in l.split():
            tfs[w + '▁'] = tfs.get(w + '▁', 0) + 1
    ev = [dict(op='call', n=max(case['sizes']), minev=1, level=1)]
    ev += [dict(op='merge', a=kids_of(t)[0], b=kids_of(t)[1], freq=t.freq, name=cps(t.name), level=t.level, idx=t.idx) for t in big[n0:]]
    ev.append(dict(op='return', old=[cps(t.name) for t in big]))
    for k, t in zip(sorted(case['sizes'], reverse=True), tabs):
        ev.append(dict(op='once', n=k, rows=rows(t[n0:])))
    return dict(kind='words', init=[cps(t.name) for t in big[:n0]], tfs=[dict(w=cps(w), f=f) for w, f in tfs.items()], ev=ev)


def case_factory(case):
    def factory(char_freqs):
        names = [c for c in sorted(char_freqs) if c != '▁']
        if case.get('rev'):
            names.reverse()
        return table(names)
    return factory


def scaled(t, unit):
    """counts of weights beyond 2^31 (lib/learn.py)"""
    f = lambda n: learn.small(n, unit)
    for w in t.get('seqs', []) + t.get('tfs', []):
        w['f'] = f(w['f'])
    for e in t['ev']:
        for k in ('freq', 'minev'):
            if k in e:
                e[k] = f(e[k])
        if 'uni' in e:
            e['uni'] = [[a, f(n)] for a, n in e['uni']]
        if 'rows' in e:
            e['rows'] = [[a, b, f(n)] for a, b, n in e['rows']]
    return t


def record(case):
    t = dict(seqs=record_seqs, user=record_user, sizes=record_sizes)[case['kind']](case)
    return scaled(t, case['unit']) if t and case.get('unit') else t


def from_model(b):
    """a corpus of the design model and where learning pauses"""
    stops = [0] + b['sched'] + [b['n'] + (1 if b['n'] < 4 else 0)]
    return dict(kind='seqs', names='ab', seqs=[(w['s'], w['f']) for w in b['c']], part=b['n'] // 2,
                calls=[(y - x, 1, 1 + (y % 2)) for x, y in zip(stops, stops[1:])])


def make(i):
    r = gen.rng('c28', i)
    kind = r.choice(['seqs'] * 4 + ['user'] + ['sizes'] * 2)
    if kind == 'seqs':
        k = r.randint(1, 5)
        ids = list(range(6, 6 + k))
        seqs = []
        if r.random() < .2:
            ids.append(r.randint(0, 5))     # reserved symbols are symbols like others
        for _ in range(r.randint(1, 7)):
            s = []
            while not s or r.random() < .6:
                s += r.choice([[r.choice(ids)] * r.randint(1, 6), [r.choice(ids), r.choice(ids)] * r.randint(1, 4),
                               [r.choice(ids) for _ in range(r.randint(1, 4))]])
            seqs.append((s[:40], r.choice([0, 0, 1, 1, 2, 3, 7, 50])))
        if i % 100 == 7:
            seqs += [([r.choice(ids) for _ in range(r.randint(1, 9))], r.choice([0, 1, 3])) for _ in range(r.choice([130, 300]))]
            seqs.append((r.choices(ids, k=r.choice([300, 700])), r.choice([0, 2])))
        if r.random() < .2:
            seqs.insert(r.randint(0, len(seqs)), ([], r.choice([0, 3])))
        calls = [(r.choice([0, 1, 1, 2, 2, 3, 4, 6, 10]), r.choice([1, 1, 1, 1, 2, 3, 5, 20]), r.choice([1, 1, 2])) for _ in range(r.randint(1, 6))]
        if r.random() < .5:
            calls = [(n, 1, 1) for n, m, l in calls]
        unit = None
        if r.random() < .2:
            unit = r.choice([10**9, 2**31, 2**53, 2**62, 10**19])
            base = learn.heavy(r, unit)
            seqs = [(s, r.choice([base, base + 1, learn.heavy(r, unit), 1]) or 1) for s, f in seqs]
            calls = [(n, r.choice([1, 1, m, base or 1, base + 1]), l) for n, m, l in calls]
        return dict(kind=kind, names='abcde'[:k], seqs=seqs, calls=calls, iter=r.random() < .5, part=r.randint(0, 20), unit=unit)
    alpha = gen.NICE[:r.randint(1, 4)]
    words = {gen.repeaty(r, alpha) if r.random() < .5 else gen.word(r, alpha, 1, 6) for _ in range(r.randint(1, 7))}
    words = r.sample(sorted(words), len(words))
    if kind == 'user':
        user = [w for w in words if r.random() < .4] + (['eee'] if r.random() < .3 else [])
        return dict(kind=kind, names=alpha, tfs=[(w, r.choice([1, 1, 2, 3, 8])) for w in words], user=user or ['dede'],
                    more=r.choice([1, 2, 4, 8, 20]), minev=r.choice([1, 1, 2, 3]))
    lines = [' '.join(r.choice(words) for _ in range(r.randint(1, 8))) for _ in range(r.randint(1, 8))]
    if i % 100 == 9:
        lines = gen.crowd(r, gen.NICE, 100, 300)
    return dict(kind=kind, lines=lines, how=r.choice(['corpus', 'vocab']), rev=r.random() < .5,
                sizes=r.sample([1, 2, 3, 4, 5, 6, 8, 10, 14, 20, 40], r.randint(2, 4)))


def main():
    c = Check('C28')
    c.spawn(c.design_refuted, 'MCBpeResume', 'MCBpeResume_bad.cfg', 'HeapExact')
    if THOROUGH:
        c.spawn(c.design_check, 'MCBpeIndex', 'MCBpeIndex_big.cfg', workers=4, timeout=3000)
    bs = c.behaviours_from('MCBpeResume', 'MCBpeResume_big.cfg' if THOROUGH else None, workers=4, timeout=3000)
    cases = [from_model(b) for b in bs] + [make(i) for i in range(6000 if THOROUGH else 1500)]
    traces = c.case_failures(cases, run_cases(record, cases), 'learning in installments')
    c.behaviours += len(bs)
    c.validate('TrBpeResume', [t for t in traces if t], timeout=3000)
    return c.finish(rule='every corpus and every schedule of pauses of the design model, and generated weighted and unweighted sequences '
                         'with calls of random length, evidence and level; the trace is the merge history, the symbol counts after every '
                         'call, and the merges of learners that learn everything at once')
