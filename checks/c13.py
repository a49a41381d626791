"""C13: the sequence store returns exactly what was put in."""
import os, pickle, random, shutil, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH
from lib import gen
from lib.store import sid, scol, srec, out_rec

# model value -> values of the real types at the same tier
CONC = {-3: [-2**63, -2**31 - 1, -2**31, -2**15 - 1], -2: [-2**15, -129, -2**15 + 1], -1: [-1, -128, -2], 0: [0, 1], 1: [255, 127, 128],
        2: [256, 65535, 32767, 32768], 3: [2**31 - 1, 65536, 2**31, 2**32 - 1, 2**63 - 1], 5: [2**63, 2**64 - 1, 2**63 + 1]}
EDGE = sorted({s * 2**k + d for k in (0, 3, 7, 8, 15, 16, 31, 32, 53, 62, 63) for s in (1, -1) for d in (-1, 0, 1)
               if -2**63 <= s * 2**k + d < 2**63})


def replay(bs):
    from nlcodec.db.core import SeqField
    bad = []
    r = random.Random(5)
    for b in bs:
        conc = {k: r.choice(v) for k, v in CONC.items()}
        puts = [[conc[v] for v in s] for s in b['puts']]
        try:
            bu = SeqField.Builder('x', buf_size=b['buf'])
            for i, s in enumerate(puts):
                bu.append(i, s)
            f = bu.build()
            got = [[int(v) if hasattr(v, '__index__') else repr(v) for v in f[i]] for i in range(len(puts))]
        except Exception as e:
            # unsigned values over 2^63 lie outside the promise: refusing them is fine, changing them is not
            if b['outcome'] == 'built' and not any(v >= 2**63 for s in puts for v in s):
                bad.append(dict(b, conc=str(puts), got=repr(e)))
            continue
        if got != puts:
            bad.append(dict(b, conc=str(puts), got=str(got)))
    return bad


def refused(fn):
    try:
        return 'ok', fn()
    except Exception:
        return 'refused', None


def record(case):
    from nlcodec.db.core import Db, SeqField
    r = random.Random(case['seed'])
    ev = []
    names = case['names']
    tmp = Path(tempfile.mkdtemp(prefix='c13_'))
    old_buf = getattr(SeqField.Builder, 'BUFFER_SIZE', None)
    try:
        if case['buf']:
            SeqField.Builder.BUFFER_SIZE = case['buf']
        db = None
        recs = []
        for step in case['steps']:
            k = step['op']
            if k == 'create':
                recs, has_id = step['recs'], step['has_id']
                raw = [(i, cols) for i, cols in recs] if has_id else [cols for i, cols in recs]
                if step['np']:
                    import numpy as np
                    conv = lambda c: np.array(c, dtype=np.int64)
                    raw = [(x[0], [conv(c) for c in x[1]]) if has_id else [conv(c) for c in x] for x in raw]
                path = tmp / 'made' if step['path'] else None
                oc, d = refused(lambda: Db.create(iter(raw) if step['iter'] else raw, names, has_id=has_id, path=path))
                ev.append(dict(op='create', recs=[srec(i, c) for i, c in recs], names=names, outcome=oc))
                if oc != 'ok':
                    if step['legal']:
                        break
                    continue
                db, cur, joined = d, recs, False
                if step['path']:
                    oc, d = refused(lambda: Db.load(path))
                    ev.append(dict(op='reload', outcome=oc))
                    if oc != 'ok':
                        break
                    db = r.choice([db, d])
            elif k == 'join':
                recs = step['recs']
                ids = [i for i, c in recs]
                want = [srec(i, c) for i, c in recs]
                orders = [recs] + [r.sample(recs, len(recs)) for _ in names[1:]]
                same = len(names) == 1 or step['spoil'] is None
                if not same:       # one of the other fields lacks an id, has one more, or another one instead
                    j, at = r.randrange(1, len(names)), r.randrange(len(recs))
                    if step['spoil'] == 'more':
                        orders[j] = orders[j] + [('other', recs[0][1])]
                    elif step['spoil'] == 'less':
                        orders[j] = orders[j][:at] + orders[j][at + 1:]
                    else:
                        orders[j] = orders[j][:at] + [('other', recs[0][1])] + orders[j][at + 1:]
                oc, d = refused(lambda: Db([SeqField.create(nm, iter([(i, c[j]) for i, c in orders[j]])) for j, nm in enumerate(names)]))
                ev.append(dict(op='join', recs=want, names=names, same=same, outcome=oc))
                if oc != 'ok':
                    continue
                if not same:
                    break
                db, cur, joined = d, recs, len(names) > 1
            elif db is None or k == 'field' and joined:
                continue
            elif k == 'get':
                for _ in range(3):
                    i = r.choice(cur)[0] if r.random() < .85 else r.choice([-1, 10**6, 'nosuch', len(cur)])
                    oc, row = refused(lambda: db[i])
                    ev.append(dict(op='get', id=sid(i), outcome=oc, cols=out_rec(row, names)['cols'] if oc == 'ok' else []))
            elif k == 'pass':
                ev.append(dict(op='pass', out=[out_rec(x, names) for x in db]))
            elif k == 'twopass':   # two interleaved passes do not disturb each other
                a, b = iter(db), iter(db)
                oa, ob = [], []
                for _ in range(r.randint(0, len(cur))):
                    oa.append(out_rec(next(a), names))
                ob += [out_rec(x, names) for x in b]
                oa += [out_rec(x, names) for x in a]
                ev.append(dict(op='pass', out=oa))
                ev.append(dict(op='pass', out=ob))
            elif k == 'len':
                ev.append(dict(op='len', n=len(db)))
            elif k == 'field':
                j = r.randrange(len(names))
                f = db.fields[names[j]]
                if r.random() < .5:
                    vals, keys, lens = list(f.values()), list(f.keys()), list(f.lengths())
                else:       # the same by pairs, and one by one
                    pairs = list(f.items())
                    vals, keys = [v for i, v in pairs], [i for i, v in pairs]
                    lens = [(i, f.get_len(i)) for i, c in cur]
                ev.append(dict(op='field', k=j + 1, values=[scol(v) for v in vals], keys=[sid(i) for i in keys],
                               lens=[dict(id=sid(i), n=int(n)) for i, n in lens]))
                ev.append(dict(op='len', n=len(f)))
            elif k == 'reload':
                p = tmp / 'db'
                sh = step['shuffle']

                def reload():
                    db.save(p if step['as_path'] else str(p))
                    return Db.load(p, shuffle=sh)
                oc, d = refused(reload)
                ev.append(dict(op='reload', outcome=oc))
                if oc != 'ok':
                    break
                db = d
            elif k == 'damaged':
                p, q = tmp / 'db0', tmp / 'broken'
                db.save(p)
                data = p.read_bytes()
                cut = [0, 1, 2, len(data) // 2, len(data) - 1, len(data) - 2] + [r.randrange(len(data)) for _ in range(3)]
                blobs = [data[:n] for n in cut] + [pickle.dumps([1, 2]), pickle.dumps(None), b'not a pickle', pickle.dumps(dict(fields={}))]
                for bl in blobs:
                    q.write_bytes(bl)
                    oc, d = refused(lambda: Db.load(q))
                    ev.append(dict(op='damaged', outcome=oc))
        return dict(name='store', ev=ev)
    finally:
        if old_buf is not None:
            SeqField.Builder.BUFFER_SIZE = old_buf
        shutil.rmtree(tmp, ignore_errors=True)


def values(r):
    k = r.random()
    if k < .25:
        return lambda: r.randint(0, 255)
    if k < .4:
        return lambda: r.randint(-128, 127)
    if k < .55:
        return lambda: r.choice([254, 255, 256, 65534, 65535, 65536, 127, 128, 0])
    if k < .7:
        return lambda: r.choice(EDGE)
    if k < .8:
        e = r.sample(EDGE, 2)
        return lambda: r.choice(e)
    if k < .9:
        n = 2**r.randint(1, 63)
        return lambda: r.randrange(-n, n)
    return lambda: r.randint(0, 30000)


def make(i):
    r = gen.rng('c13', i)
    names = r.choice([['x', 'y'], ['x', 'y'], ['x'], ['src', 'tgt'], ['a', 'b', 'c'], ['a', 'b', 'c', 'd', 'e']])
    steps = []
    for _ in range(r.choice([1, 1, 1, 2])):
        n = r.choice([1, 1, 2, 3, 5, 8, 20]) if r.random() < .95 else r.choice([255, 256, 257, 300])
        maxlen = r.choice([0, 1, 3, 6, 6, 12]) if n < 100 else 2
        if r.random() < .08:
            maxlen = r.choice([255, 256, 300])    # the offsets themselves cross the type limits
        gens = [values(r) for _ in names]

        def col(g):
            m = maxlen if r.random() < .3 else r.randint(0, maxlen)
            return [g() for _ in range(m)]
        recs = [[col(g) for g in gens] for _ in range(n)]
        has_id = r.random() < .5
        if has_id:
            ids = r.choice([list(range(n)), list(range(n - 1, -1, -1)), r.sample(range(-5, 10**9), n), [f'id{k}é' for k in range(n)],
                            r.sample(range(n * 3), n), [k + 2**31 for k in range(n)]])
        else:
            ids = list(range(n))
        recs = list(zip(ids, recs))
        legal = True
        if has_id and n > 1 and r.random() < .12:
            recs[r.randrange(1, n)] = (recs[0][0], recs[r.randrange(n)][1])
            legal = False
        elif r.random() < .1:
            k = r.randrange(n)
            recs[k] = (recs[k][0], recs[k][1][:-1] if r.random() < .5 else recs[k][1] + [[1]])
            legal = False
        if r.random() < .06 and has_id and n > 1 and legal:   # twice the same record
            recs.append(recs[r.randrange(n)])
            legal = False
        steps.append(dict(op='create', recs=recs, has_id=has_id, np=r.random() < .3, iter=r.random() < .5, path=r.random() < .2, legal=legal))
        if legal and r.random() < .3:
            steps.append(dict(op='join', recs=recs, spoil=r.choice([None, None, 'more', 'less', 'other'])))
        for _ in range(r.randint(2, 7)):
            k = r.choice(['get', 'get', 'pass', 'pass', 'twopass', 'len', 'field', 'reload', 'reload', 'damaged'])
            steps.append(dict(op=k, shuffle=r.random() < .5, as_path=r.random() < .7))
    return dict(names=names, steps=steps, seed=i, buf=r.choice([None, None, 1, 2, 3, 7, 50]))


def big(case):
    """beyond the real buffer of 2.7 million integers"""
    from nlcodec.db.core import Db
    tmp = Path(tempfile.mkdtemp(prefix='c13_'))
    try:
        recs, late = [], case['late']
        r = random.Random(case['seed'])
        for i in range(case['n']):
            base = (i * 7919) % 251
            c = [(base + j) % 251 for j in range(case['len'])]
            recs.append([c, [i % 256]])
        recs[-2] = [[j % 199 for j in range(150_000)], [5] * 70_000]
        recs[-1] = [[late, 0], [late]]
        recs.append([[1, late, 3], []])
        want = [srec(i, c) for i, c in enumerate(recs)]
        db = Db.create(iter(recs), ['x', 'y'])
        ev = [dict(op='create', recs=want, names=['x', 'y'], outcome='ok'), dict(op='len', n=len(db)),
              dict(op='pass', out=[out_rec(x, ['x', 'y']) for x in db])]
        db.save(tmp / 'db')
        db = Db.load(tmp / 'db', shuffle=True)
        ev += [dict(op='reload', outcome='ok'), dict(op='pass', out=[out_rec(x, ['x', 'y']) for x in db])]
        for i in range(0, len(recs), 37):
            ev.append(dict(op='get', id=sid(i), outcome='ok', cols=out_rec(db[i], ['x', 'y'])['cols']))
        return dict(name='store', ev=ev)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def crowd(case):
    """many short records"""
    from nlcodec.db.core import Db
    tmp = Path(tempfile.mkdtemp(prefix='c13_'))
    try:
        r = random.Random(case['seed'])
        ids = r.sample(range(10 * case['n']), case['n']) if r.random() < .5 else list(range(case['n']))
        recs = [(i, [[k % 251, k // 251], [i % 256] * (k % 2)]) for k, i in enumerate(ids)]
        db = Db.create(iter(recs), ['x', 'y'], has_id=True)
        ev = [dict(op='create', recs=[srec(i, c) for i, c in recs], names=['x', 'y'], outcome='ok'), dict(op='len', n=len(db))]
        db.save(tmp / 'db')
        for sh in (True, False):
            db = Db.load(tmp / 'db', shuffle=sh)
            ev += [dict(op='reload', outcome='ok'), dict(op='pass', out=[out_rec(x, ['x', 'y']) for x in db])]
        for i in r.sample(ids, 50):
            ev.append(dict(op='get', id=sid(i), outcome='ok', cols=out_rec(db[i], ['x', 'y'])['cols']))
        return dict(name='crowd', ev=ev)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def brink(i):
    """stores whose number of values is at a limit of the types of the offsets, with empty sequences at the ends"""
    r = gen.rng('c13e', i)
    total = [126, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65535, 65536, 65537][i % 13]
    recs = [[[], [1]]] * r.choice([0, 0, 1])
    left = total
    while left:
        n = min(left, r.choice([1, 3, left, left, left - 1 or 1, total // 2]))
        recs.append([[(len(recs) + j) % 7 for j in range(n)], [len(recs) % 5] * r.randint(0, 2)])
        left -= n
        if len(recs) > 12:
            recs.append([[3] * left, []])
            break
    recs += [[[], [2]]] * [0, 1, 2, 1][i // 13 % 4] + [[[4] * r.choice([1, 2]), []]] * (i // 52 % 2)
    steps = [dict(op='create', recs=list(enumerate(recs)), has_id=False, np=False, iter=True, path=False, legal=True)]
    steps += [dict(op=k, shuffle=False, as_path=True) for k in ('pass', 'field', 'field', 'reload', 'get', 'pass', 'field')]
    return dict(names=['x', 'y'], steps=steps, seed=i, buf=r.choice([None, None, 1, 100, total]))


def main():
    c = Check('C13')
    r4 = gen.rng('c13n').choice([3000, 5000, 6000, 7000])
    bigs = [dict(n=300, len=9300, late=l, seed=k) for k, l in enumerate([-1, 2**40] if THOROUGH else [-1])]
    res = {}
    c.spawn(lambda: res.update(big=run_cases(big, bigs, timeout=200, procs=1)))
    many = [dict(n=n, seed=n) for n in [1000, 1001, 2000, 2048, 4096] + ([3000, 5000, 8192, 10000, 10001, 65536] if THOROUGH else [r4])]
    c.spawn(lambda: res.update(many=run_cases(crowd, many, timeout=300, procs=3)))
    bs = c.behaviours_from('MCSeqStore', 'MCSeqStore_big.cfg' if THOROUGH else None, workers=3)
    batches = [bs[i::12] for i in range(12)]
    for b, (s, v) in zip(batches, run_cases(replay, batches, timeout=300)):
        if s != 'ok':
            c.violation('building a field', dict(status=s, detail=v))
        else:
            for x in v[:3]:
                c.violation('every sequence is stored as it was put in', x)
    c.behaviours += len(bs)
    cases = [make(i) for i in range(6000 if THOROUGH else 900)] + [brink(i) for i in range(312 if THOROUGH else 104)]
    traces = c.case_failures(cases, run_cases(record, cases, timeout=30), 'using the store')
    c.join()
    traces += c.case_failures(bigs, res['big'], 'a large store')
    traces += c.case_failures(many, res['many'], 'a store of many records')
    c.validate('TrSeqStore', traces)
    c.notes['operations'] = sum(len(t['ev']) for t in traces)
    return c.finish(rule='all builders of the model (every packing point, every type tier) with real values at the type limits; stores whose size '
                         'is at a limit of the offset types, ending in empty sequences; generated histories of create/get/iterate/field/save/load/shuffle/truncate with buffers of 1..50 and the real size')
