"""C31: random operations yield every legal outcome and no other, as often as they should; the rest yields one."""
import random, shutil, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH
from lib import gen, learn

N = 2500


def count(draw, n=N):
    seen = {}
    for _ in range(n):
        o = draw()
        seen[o] = seen.get(o, 0) + 1
    return seen


def plain(o):
    return [plain(x) for x in o] if isinstance(o, tuple) else o


def events(seen, n=N):
    return [dict(op='drawn', out=plain(o), k=k) for o, k in seen.items()] + [dict(op='end', n=n)]


def seeded(draw, r, n=6):
    import numpy as np
    s, a = r.randrange(10**6), []
    for _ in range(2):
        random.seed(s)
        np.random.seed(s)
        a.append([plain(draw()) for _ in range(n)])
    return dict(op='again', a=a[0], b=a[1])


def database(case, d):
    """-> (load(**how), blocks of names)"""
    from nlcodec.db.core import Db, MultipartDb
    ids, blocks, recs = iter(case['ids']), [], []
    for lens in case['lens']:
        b = [(next(ids), [[7] * n, [8] * n]) for n in lens]
        blocks.append([str(i) for i, _ in b])
        recs.append(b)
    f = d / 'db'
    if case['store'] == 'db':
        Db.create([x for b in recs for x in b], ['x', 'y'], has_id=True, path=f)
        return (lambda **kw: Db.load(f, **kw)), [[x for b in blocks for x in b]]
    if case['store'] == 'create' and len(set(map(len, recs))) == 1:
        MultipartDb.create(f, [x for b in recs for x in b], ['x', 'y'], has_id=True, part_size=len(recs[0]))
    else:
        with MultipartDb.Writer(f, ['x', 'y']) as w:
            for k, b in enumerate(recs):
                w(k, iter(b))
    return (lambda **kw: MultipartDb.load(f, keep_in_mem=case['keep'], **kw)), blocks


def record(case):
    d = Path(tempfile.mkdtemp(prefix='vchance'))
    r = gen.rng('c31r', case['seed'])
    try:
        if case['kind'] == 'split':
            return split(case, r)
        load, blocks = database(case, d)
        if case['kind'] == 'place':
            return place(case, load, r)
        h = dict(kind=case['kind'], blocks=blocks)
        if case['kind'] in ('order', 'still'):
            db = load(shuffle=case['kind'] == 'order')
            if case['store'] == 'db' and case['resave']:     # how it was when it was saved does not matter
                db.shuffle = not db.shuffle
                db.save(d / 'again')
                db = type(db).load(d / 'again', shuffle=case['kind'] == 'order')
            draw = lambda: tuple(str(x.id) for x in db)
        else:
            db = load()
            k = 1 if case['kind'] == 'singles' else 2
            batch = lambda b: tuple(sorted(str(x.id) for x in b))
            draw = lambda: tuple(batch(b) for b in db.make_eq_len_ran_batches(max_toks=10**4, max_sents=k))
        n = 100 if case['kind'] == 'still' else N
        ev = events(count(draw, n), n)
        if case['kind'] != 'still':
            ev.append(seeded(draw, r))
        return dict(h, ev=ev)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def place(case, load, r):
    """the place of one of many records in a pass or among the batches, or the record at one place"""
    order = [str(x) for x in case['ids']]
    n, db = len(order), load(shuffle=True)
    k = r.choice([0, n - 1, r.randrange(n)])
    if case['how'].startswith('pass'):
        one = lambda: [str(x.id) for x in db]
    else:
        one = lambda: [str(b[0].id) for b in db.make_eq_len_ran_batches(max_toks=10**4, max_sents=1)]
    draw = (lambda: (one().index(order[k]) + 1,)) if case['how'].endswith('where') else (lambda: (order.index(one()[k]) + 1,))
    ev = events(count(draw))
    ev.append(seeded(draw, r))
    return dict(kind='place', n=n, ev=ev)


def split(case, r):
    from nlcodec.codec import BPEScheme
    from checks.c10 import table_of
    kids = case['kids']
    table = table_of(kids, case['wide'])
    ids = [6 + i for i in case['seq']]
    codec = BPEScheme(table)
    ratio = case['r'] / 10
    text = ''.join(table[i].name for i in ids)
    if case['how'] == 'type':
        draw = lambda: tuple(i - 6 for k in ids for i in table[k].get_stochastic_split(split_ratio=ratio))
    elif case['how'] == 'names':
        at = {t.name: t.idx for t in table}
        draw = lambda: tuple(at[x] - 6 for k in ids for x in table[k].get_stochastic_split(name=True, split_ratio=ratio))
    elif case['how'] == 'encode' and codec.encode(text)[:-1] == ids:
        draw = lambda: tuple(i - 6 for i in codec.encode(text, split_ratio=ratio)[:-1])    # the last is the word end
    else:
        draw = lambda: tuple(i - 6 for i in codec.stochastic_split(list(ids), split_ratio=ratio))
    ev = events(count(draw))
    ev.append(seeded(draw, r))
    return dict(kind='split', kids=kids, seq=case['seq'], r=case['r'], ev=ev)


def inner(kids, i):
    return 1 + sum(inner(kids, k) for k in kids[i]) if kids[i] else 0


def make(i):
    r = gen.rng('c31', i)
    kind = r.choice(['order', 'order', 'order', 'still', 'singles', 'pairs', 'split', 'split', 'place'])
    c = dict(seed=i, kind=kind)
    if kind == 'split':
        while True:
            kids = [[]] * r.choice([2, 3])
            for _ in range(r.randint(1, 3)):
                kids = kids + [[r.randrange(len(kids)), r.randrange(len(kids))]]
            seq = [r.randrange(len(kids)) if r.random() < .3 else len(kids) - 1 for _ in range(r.choice([1, 1, 2]))]
            if i % 3 == 0:      # a chain: each merge adds a character at its left or right
                k = r.randint(2, 3)
                kids, seq = [[]] * k, [5 + k - 3]
                for j in range(3):
                    last = [len(kids) - 1] if j else [r.randrange(k)]
                    new = [r.randrange(k)]
                    kids = kids + [last + new if i % 6 or r.random() < .2 else new + last]
            m = sum(inner(kids, k) for k in seq)
            names = []
            for j, k in enumerate(kids):
                names.append(names[k[0]] + names[k[1]] if k else 'abc'[j])
            if len(set(names)) == len(names) and 1 <= m <= 3:
                break
        c.update(wide=r.choice([1, 1, 1, 4, 20]), kids=kids, seq=seq, r=r.randint(3, 7) if m == 3 else r.choice([2, 3, 5, 6, 8]) if m == 2 else r.randint(1, 9),
                 how=r.choice(['type', 'names', 'codec', 'encode', 'encode']))
        return c
    if kind == 'place':
        size = r.choice([5, 8, 12, 20, 33, 60])
        parts = r.choice([1, 1, 2, 4]) if size % 4 == 0 else 1
        same = r.random() < .5
        lens = [[2 if same else r.randint(1, 9) for _ in range(size // parts)] for _ in range(parts)]
        c['how'] = r.choice(['pass where', 'pass which', 'batch where', 'batch which'])
    elif kind == 'pairs':
        lens = r.choice([[[5] * 2], [[5] * 4], [[3, 3], [4, 4]], [[3] * 4, [2] * 2], [[2, 2], [2, 2], [2, 2]]])
    else:
        lens = r.choice([[[5, 2, 3, 1][:n]] for n in (2, 3, 4)] + [[[3, 1], [2, 4]], [[3], [2], [2], [1]], [[2, 1, 3], [4]], [[1, 2], [3], [3]], [[1]]])
    if r.random() < .3 and len(lens) > 1 and kind != 'pairs':
        lens = lens[:2]
    n = sum(map(len, lens))
    ids = r.choice([list(range(n)), r.sample(range(10**6), n), ['k%d' % j for j in range(n)]])
    c.update(lens=lens, ids=ids, resave=r.random() < .6, store=r.choice(['db', 'writer', 'create']), keep=r.random() < .5)
    if kind == 'pairs' and c['store'] == 'db' and len(lens) > 1:
        c['store'] = 'writer'       # pairs of one length each
    if kind == 'place' and c['store'] == 'db':
        c['lens'] = [[x for b in lens for x in b]]
    return c


def main():
    c = Check('C31')
    c.spawn(c.design_check, 'MCChance', workers=1)
    c.spawn(c.design_check, 'MCChance', 'MCChance_big.cfg', workers=1)
    for x in ('sattolo', 'naive', 'once'):
        c.spawn(c.design_refuted, 'MCChance', f'MCChance_{x}.cfg', 'AllCome', workers=1)
    cases = [make(i) for i in range(900 if THOROUGH else 160)]
    traces = c.case_failures(cases, run_cases(record, cases, timeout=120), 'drawing')
    c.validate('TrChance', traces)
    c.evaluations += sum(e['n'] for t in traces for e in t['ev'] if e['op'] == 'end')
    return c.finish(rule=f'{N} draws per case: shuffled passes over stores and multi-part stores of up to 4 records (cached or not, any number of parts), '
                         'batches of one and of two records, splits of merge trees with up to 3 inner nodes at 9 ratios; unshuffled passes; '
                         'same seeds twice')
