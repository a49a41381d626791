"""C12: map-reduce equals the sequential left-to-right reduction."""
import random
from functools import partial
from multiprocessing.pool import ThreadPool
from lib.vlib import Check, run_cases, THOROUGH, cps
from lib import gen, pools


class Shuffled:
    """a pool that computes in random order and returns in order"""

    def __init__(self, r):
        self.r = r

    def __call__(self, f, it):
        items = list(it)
        idx = list(range(len(items)))
        self.r.shuffle(idx)
        res = [None] * len(items)
        for i in idx:
            res[i] = f(items[i])
        return iter(res)


def pool_of(kind, r, keep):
    if kind == 'map':
        return map
    if kind == 'shuffled':
        return Shuffled(r)
    tp = ThreadPool(int(kind[0]))
    keep.append(tp)
    return partial(tp.imap, chunksize=r.choice([1, 2, 3, 7, 1000]))


def reduce_ev(case, r):
    from nlcodec.para.mapred import MapReduce, ireduce
    m, f, default = pools.OPS[case['kind']]
    kind = 'concat' if case['kind'].startswith('slow') else case['kind']
    xs = case['xs']
    mapped = [m(x) for x in xs]
    rec = (lambda v: [int(v)]) if case['kind'] in pools.RAW else list
    keep = []
    try:
        src = iter(xs) if r.random() < .5 else list(xs)
        if case['how'] == 'ireduce':
            res = ireduce(f, default, iter(mapped), pool=pool_of(case['pools'][1], r, keep))
        elif case['how'] == 'call':
            res = MapReduce(m, f, default)(src, map_pool=pool_of(case['pools'][0], r, keep), reduce_pool=pool_of(case['pools'][1], r, keep))
        else:
            mp_, rp, cs = case['procs']
            res = MapReduce(m, f, default).multiprocess(src, map_procs=mp_, red_procs=rp, chunksize=cs)
        return dict(op='reduce', kind=kind, items=[rec(x) for x in mapped], outcome='ok', result=rec(res))
    except Exception as e:
        return dict(op='reduce', kind=kind, items=[rec(x) for x in mapped], outcome='raised', result=[], detail=cps(repr(e)[:200]))
    finally:
        for p in keep:
            p.terminate()


def count_ev(case, r):
    from nlcodec.para.mapred import WordCounter
    keep = []
    lines = case['lines']
    try:
        if case['how'] == 'multiprocess':
            mp_, rp, cs = case['procs']
            res = WordCounter().multiprocess(lines, map_procs=mp_, red_procs=rp, chunksize=cs)
        else:
            res = WordCounter()(iter(lines), map_pool=pool_of(case['pools'][0], r, keep), reduce_pool=pool_of(case['pools'][1], r, keep))
        return dict(op='count', lines=[cps(l) for l in lines], outcome='ok', result=[dict(t=cps(k), n=v) for k, v in res.items()])
    except Exception as e:
        return dict(op='count', lines=[cps(l) for l in lines], outcome='raised', result=[], detail=cps(repr(e)[:200]))
    finally:
        for p in keep:
            p.terminate()


def record(case):
    from nlcodec.para.mapred import merge_freqs, pair_subsequent
    r = random.Random(case['seed'])
    ev = []
    for s in case['steps']:
        if s['op'] == 'reduce':
            ev.append(reduce_ev(s, r))
        elif s['op'] == 'count':
            ev.append(count_ev(s, r))
        elif s['op'] == 'merge':
            rows = lambda d: [dict(t=cps(k), n=v) for k, v in d.items()]
            e = dict(op='merge', a=rows(s['a']), b=rows(s['b']))
            e['result'] = rows(merge_freqs(dict(s['a']), dict(s['b'])))
            ev.append(e)
        else:
            ev.append(dict(op='pairs', items=s['items'], default=s['default'],
                           result=[list(p) for p in pair_subsequent(iter(s['items']), default=s['default'])]))
    return dict(name='mapreduce', ev=ev)


VOCAB = ['w%d' % k for k in range(1400)]


def make(i, spawn=False):
    r = gen.rng('c12', i, spawn)
    steps = []
    for _ in range(2 if spawn else r.randint(1, 6)):
        k = r.random()
        pk = [r.choice(['map', 'map', 'shuffled', '1t', '2t', '4t']) for _ in range(2)]
        procs = (r.choice([1, 2, 3]), r.choice([1, 2, 3]), r.choice([1, 1, 2, 3, 1000]))
        if k < .5:
            n = r.choice([1, 2, 3]) if r.random() < .3 else r.randint(4, 40)
            if r.random() < .08:
                n = 0
            kind = r.choice(['concat', 'concat', 'mat', 'sum', 'max', 'prod', 'prod', 'maxr', 'first', 'last', 'both'])
            if spawn and r.random() < .2:
                n, kind = r.choice([999, 1000, 1001, 2000, 2003]), 'mat'
            elif not spawn and r.random() < .05:
                n, kind = r.choice([1000, 1500, 4097, 9001]), r.choice(['mat', 'sum', 'both'])
            steps.append(dict(op='reduce', kind=kind, xs=[r.randint(-20, 20) if kind == 'maxr' else r.randint(0, 10**4) for _ in range(n)], pools=pk, procs=procs,
                              how='multiprocess' if spawn else r.choice(['ireduce', 'call', 'call'])))
        elif k < .8 or spawn:
            words = ['a', 'b', 'the', 'é', 'x▁', '😀', 'A', '0'] + [gen.word(r, gen.NICE, 1, 3) for _ in range(3)]
            lines = [gen.line(r, words, lo=0, hi=6) for _ in range(r.choice([1, 1, 2, 3, 5, 8, 13, 20]))]
            if r.random() < .3:
                lines = [' '.join(words[j:j + 1]) for j in range(r.randint(1, 4))]   # disjoint, equally large
            if r.random() < .03 or spawn and r.random() < .2:
                lines = [gen.line(r, words, lo=0, hi=3) for _ in range(r.choice([300, 1001, 2500]))]
            if r.random() < .03:
                lines.append(gen.longline(r, words))
            if r.random() < .03:    # lines of very many different words
                lines += [' '.join(r.sample(VOCAB, r.choice([300, 700, 1100]))) for _ in range(r.choice([2, 3, 5]))]
            if r.random() < .3:
                lines.insert(r.randint(0, len(lines)), '')
            if r.random() < .05:
                lines = []
            steps.append(dict(op='count', lines=lines, pools=pk, procs=procs, how='multiprocess' if spawn else 'call'))
        elif k < .9:
            d = lambda: {gen.word(r, 'abc', 1, 1): r.randint(1, 9) for _ in range(r.randint(0, 4))}
            if r.random() < .1:
                d = lambda: {w: r.randint(1, 9) for w in r.sample(VOCAB, r.choice([0, 50, 600, 1200]))}
            steps.append(dict(op='merge', a=d(), b=d()))
        else:
            steps.append(dict(op='pairs', items=[r.randint(0, 9) for _ in range(r.randint(0, 9))], default=r.choice([-1, 0, 77])))
    return dict(steps=steps, seed=i)


def main():
    c = Check('C12')
    bs = c.behaviours_from('MCMapReduce', workers=2)
    # every length of the model (and on to 40), every kind of pool
    sweep = [dict(seed=k, steps=[dict(op='reduce', kind='concat', xs=list(range(1, n + 1)), pools=[p, q], how='call')
                                 for p in ('map', 'shuffled', '2t') for q in ('map', 'shuffled', '3t')])
             for k, n in enumerate(sorted({b['n'] for b in bs} | set(range(41))))]
    c.behaviours += len(bs)
    # blank lines and lines of one word, in every short arrangement: the counts of one run must not reach the next
    sweep += [dict(seed=1, steps=[dict(op='count', lines=ls, pools=['map', 'map'], how='call')
                                  for ls in (x, ['q'], ['', ''], x, [''], ['r'])])
              for x in ([''], ['', 'a'], ['a', ''], ['', '', ''], ['', '', 'a'], ['a', '', ''], ['', 'a', ''], ['a b', '', 'a'], ['a', 'b', 'c'])]
    cases = sweep + [make(i) for i in range(3000 if THOROUGH else 900)]
    mp_cases = [make(i, True) for i in range(60 if THOROUGH else 14)]
    # workers that finish out of order, in either stage
    for k, kind in enumerate(['slowmap', 'slowred'] * (6 if THOROUGH else 2)):
        r = gen.rng('c12slow', k)
        xs = r.choice([[0, 1, 2, 3], [1, 2, 10, 3, 4, 5], [0, 1, 2, 3, 4, 5, 6]])
        mp_cases.append(dict(seed=k, steps=[dict(op='reduce', kind=kind, xs=xs, procs=(r.choice([2, 3]), r.choice([2, 3]), 1 if k < 2 else r.choice([1, 2])),
                                                 how='multiprocess')]))
    traces = c.case_failures(cases, run_cases(record, cases, timeout=60), 'map-reduce')
    traces += c.case_failures(mp_cases, run_cases(record, mp_cases, timeout=90, procs=4, chunk=1), 'map-reduce over processes')
    c.validate('TrMapReduce', traces)
    c.notes['reductions'] = sum(len(t['ev']) for t in traces)
    return c.finish(rule='all lengths 0..40 with in-process, thread and out-of-order pools, processes that finish out of order; concatenation and 2x2 matrix product (not '
                         'commutative), sum, max; word counts with blank lines; several runs per process; spawned process pools')
