"""C14: a multi-part database holds every record exactly once."""
import random, shutil, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH
from lib import gen, parts


def partition(r, n, k):
    """records 0..n-1 spread over k numbered parts, some of them empty"""
    nums = r.sample(range(k * 3), k) if r.random() < .5 else list(range(k))
    idx = list(range(n))
    if r.random() < .5:
        r.shuffle(idx)
    cuts = sorted(r.randint(0, n) for _ in range(k - 1))
    bounds = [0] + cuts + [n]
    ps = [(num, idx[a:b]) for num, a, b in zip(nums, bounds, bounds[1:])]
    r.shuffle(ps)
    return ps


def make_attempt(r, tag):
    n = r.choice([1, 1, 2, 3, 4, 6, 9, 12])
    if r.random() < .1:
        n = r.choice([25, 40, 120, 300, 1100])
    api = r.choice(['create', 'create', 'create', 'with', 'plain', 'forked'])
    has_id = api != 'create' or r.random() < .5
    ids = None
    if has_id:
        ids = r.choice([list(range(n)), r.sample(range(10**6), n), [f'k{j}' for j in range(n)], list(range(n))[::-1]])
    a = dict(api=api, has_id=has_id, overwrite=r.random() < .4, recs=parts.dataset(r, n, tag, ids=ids), seed=r.random())
    if api == 'create':
        a['size'] = r.choice([1, 1, 2, 3, n, n + 1, max(1, n - 1), 1000])
    else:
        a['parts'] = partition(r, n, r.choice([1, 2, 3, 5, 12]))
    a['maxp'] = r.choice([None, None, None, 1, 2, 10, 11, 100])
    return a


def record(case):
    from nlcodec.db.batch import IdExample
    r = random.Random(case['seed'])
    tmp = Path(tempfile.mkdtemp(prefix='c14_'))
    path = tmp / 'a' / 'b' / 'db'
    path.parent.mkdir(parents=True)
    try:
        ev = []
        if case['start'] == 'empty':
            path.mkdir()
        elif case['start'] == 'junk':
            path.mkdir()
            (path / 'notes.txt').write_text('keep me')
        for a in case['attempts']:
            ev.append(parts.attempt(path if r.random() < .7 else str(path), a))
            for _ in range(r.choice([1, 1, 2])):
                ev += parts.load(path if r.random() < .7 else str(path), keep=r.random() < .5, shuffle=r.random() < .5, passes=r.choice([0, 0, 1, 2]),
                                 rec_type=(lambda id, x, y: IdExample(id, x, y)) if r.random() < .3 else None)
        return dict(name='multipart', ev=ev)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def make(i):
    r = gen.rng('c14', i)
    if i == 650:            # more records than two bytes can number
        recs = parts.dataset(r, 100, 1, ids=list(range(100)))
        recs = [(j, recs[j % 100][1]) for j in range(66000)]
        return dict(seed=i, start='none', attempts=[dict(api='create', has_id=False, overwrite=False, recs=recs, seed=0, size=30000, maxp=None)])
    return dict(seed=i, start=r.choice(['none', 'none', 'none', 'empty', 'junk']),
                attempts=[make_attempt(r, t) for t in range(1, r.choice([1, 2, 2, 3]) + 1)])


def from_model(k, b):
    """a history of the model: sizes, parts and overwriting as there"""
    r = gen.rng('c14m', k)
    at = []
    for t, h in enumerate(b['hist'], 1):
        n = h['np'] * 2 - r.choice([0, 1])
        api = r.choice(['create', 'with', 'plain', 'forked'])
        a = dict(api=api, has_id=True, overwrite=h['ow'], recs=parts.dataset(r, n, t), size=2 if h['np'] > 1 else 9, seed=0, expect=h['ended'])
        if api != 'create':
            a['parts'] = [(p, [j for j in range(n) if j // 2 == p or h['np'] == 1]) for p in r.sample(range(h['np']), h['np'])]
        at.append(a)
    return dict(seed=k, start='none', attempts=at)


def main():
    c = Check('C14')
    bs = c.behaviours_from('MCMultiPart', 'MCMultiPart_calm.cfg', workers=2)
    hists = [b for k, b in enumerate(bs) if b not in bs[:k]]
    cases = [from_model(k, b) for k, b in enumerate(hists)] + [make(i) for i in range(4000 if THOROUGH else 700)]
    c.behaviours += len(hists)
    traces = c.case_failures(cases, run_cases(record, cases, timeout=30), 'writing and loading')
    for h, (case, t) in zip(hists, zip(cases, traces if len(traces) == len(cases) else [])):
        got = [e['ended'] for e in t['ev'] if e['op'] == 'attempt']
        if [x == 'returned' for x in got] != [x['ended'] == 'returned' for x in h['hist']]:
            c.violation('attempts end as in the model', dict(model=h, got=got))
    c.validate('TrMultiPart', traces)
    c.notes['loads'] = sum(e['op'] == 'load' for t in traces for e in t['ev'])
    return c.finish(rule='all histories of two writes of the model (parts, overwriting); generated histories of create/Writer/parts written '
                         'by several processes, in any order, with empty parts, any part size, over absent/empty/foreign/full directories; '
                         'loads with caching and shuffling, repeated and interleaved passes')
