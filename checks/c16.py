"""C16: batching delivers every usable record exactly once within the limits."""
import random, shutil, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH
from lib import gen

PAD, BOS, EOS = 0, 1, 2


def seqs(lens):
    """records of the given lengths; every non-empty side carries its own number, so that rows name their records"""
    return [([10 + i] + [5] * (lx - 1) if lx else [], [10 + i] + [6] * (ly - 1) if ly else []) for i, (lx, ly) in enumerate(lens)]


def strip(row):
    row = [int(v) for v in row]
    while row and row[-1] == PAD:
        row.pop()
    if row and row[-1] == EOS:
        row.pop()
    if row and row[0] == BOS:
        row = row[1:]
    return row


def rows(b, bf):
    x = b.x_seqs if bf else b.x_seqs.T
    y = b.y_seqs if bf else b.y_seqs.T
    return [dict(x=strip(x[i]), y=strip(y[i])) for i in range(len(b))]


def collect(it, ev, bf, limit=10**6):
    """-> (batches, error)"""
    out = []
    try:
        for b in it:
            out.append(rows(b, bf))
            if len(out) > limit:
                break
        return out, False
    except Exception:
        return out, True


def build(path, parts, ids):
    from nlcodec.db.core import Db, MultipartDb
    if len(parts) == 1 and ids == 'single':
        Db.create([(i, list(rec)) for i, rec in parts[0]], ['x', 'y'], has_id=True, path=path)
    else:
        with MultipartDb.Writer(path, ['x', 'y']) as w:
            for k, p in enumerate(parts):
                w(k, iter([(i, list(rec)) for i, rec in p]))


def record(case):
    from nlcodec.db.batch import BatchIterable, BatchMeta
    tmp = Path(tempfile.mkdtemp(prefix='c16_'))
    r = random.Random(case['seed'])
    try:
        lens = [l for p in case['parts'] for l in p]
        recs = seqs(lens)
        ids = case['ids'] or list(range(len(recs)))
        parts, k = [], 0
        for p in case['parts']:
            parts.append([(ids[k + j], recs[k + j]) for j in range(len(p))])
            k += len(p)
        path = tmp / 'db'
        build(path, parts, case['store'])
        ev = []
        for s in case['runs']:
            meta = BatchMeta(pad_idx=PAD, bos_idx=BOS, eos_idx=EOS, add_bos_x=s['bos'], add_bos_y=not s['bos'], add_eos_x=s['eos'], add_eos_y=True)
            kw = dict(sort_by='eq_len_rand_batch') if s['mode'] == 'eq' else dict(sort_by=s['by'])
            size = s['toks'] if s['sents'] == 0 else (s['toks'], s['sents'])
            bi = BatchIterable(path if s['aspath'] else str(path), size, meta, sort_desc=s['sort'], batch_first=s['bf'], keep_in_mem=s['keep'], **kw)
            h = dict(op='pass', mode=s['mode'], toks=s['toks'], sents=s['sents'])
            lim = 10 * len(lens) + 10
            if s['how'] == 'twice':
                for _ in range(2):
                    b, e = collect(bi, ev, s['bf'], lim)
                    ev.append(dict(h, batches=b, error=e))
                ev.append(dict(op='len', n=bi.num_items))
            elif s['how'] == 'once':
                b, e = collect(bi, ev, s['bf'], lim)
                ev.append(dict(h, batches=b, error=e))
            else:       # a pass is left half way, another runs in between
                a, out, err = iter(bi), [], False
                try:
                    for _ in range(r.randint(0, 3)):
                        try:
                            out.append(rows(next(a), s['bf']))
                        except StopIteration:
                            break
                except Exception:
                    err = True
                b, e = collect(bi, ev, s['bf'], lim)
                ev.append(dict(h, batches=b, error=e))
                if not err:
                    b, e = collect(a, ev, s['bf'], lim)
                    ev.append(dict(h, batches=out + b, error=e))
        return dict(name='batching', total=len(lens), ev=ev,
                    parts=[[dict(x=list(rec[0]), y=list(rec[1])) for i, rec in p] for p in parts if p])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_of(r, toks, sents, mode, how=None):
    return dict(toks=toks, sents=sents, mode=mode, how=how or r.choice(['once', 'twice', 'twice', 'cross']), by=r.choice([None, None, 'random']),
                bos=r.random() < .3, eos=r.random() < .8, sort=r.random() < .5, bf=r.random() < .7, keep=r.random() < .5, aspath=r.random() < .8)


def make(i):
    r = gen.rng('c16', i)
    n = r.choice([1, 2, 3, 5, 8, 13, 20, 30]) if i % 60 != 7 else r.choice([300, 1100, 2100])
    top = r.choice([1, 2, 4, 8, 8, 20])
    zero = r.choice([0, .1, .1, .4])

    def ln():
        return 0 if r.random() < zero else r.randint(1, top)
    if r.random() < .2:     # all of one length: batches fill exactly
        k = r.randint(1, 5)
        lens = [(k, k) for _ in range(n)]
    else:
        lens = [(ln(), ln()) for _ in range(n)]
    k = r.choice([1, 1, 2, 3, 4])
    cuts = [0] + sorted(r.randint(0, n) for _ in range(k - 1)) + [n]
    parts = [lens[a:b] for a, b in zip(cuts, cuts[1:])]
    if not any(parts):
        parts = [lens]
    runs = []
    big = max([1] + [max(l) for l in lens if min(l)])
    for _ in range(r.randint(1, 4)):
        toks = r.choice([big, big, big + 1, big * 2, big * 2 - 1, big * 3 + 1, big * n, 1000, max(1, big - 1), r.randint(1, 3 * big)])
        runs.append(run_of(r, toks, r.choice([0, 0, 1, 2, 3, 7]), r.choice(['all', 'eq', 'eq'])))
    ids = r.choice([None, None, r.sample(range(10**9), n), list(range(n))[::-1], [2**32 + 7 * j for j in range(n)],
                    [f'doc{j}' for j in range(n)], [-1] + [2**63 + 5 + j for j in range(n - 1)],
                    [j // 2 if j % 2 else str(j // 2) for j in range(n)]])
    return dict(seed=i, parts=parts, runs=runs, ids=ids, store=r.choice(['single', 'multi']))


def jump(i):
    """many short records and a few long ones: rows times longest passes 256 or 65536 at once"""
    r = gen.rng('c16j', i)
    if i % 4:
        m = r.randint(20, 200)
        k = r.randint(1, max(1, min(60, 250 - m)))
        toks = r.choice([m, m + 1, m + r.randint(0, 60), 255, 256, 257])
    else:
        k = r.randint(150, 260)
        m = 65536 // (k + 1) + r.choice([1, 1, 2, 3])
        toks = r.choice([m, m + 3, 1000, 4096])
    toks = max(toks, m)
    lens = [(1, 1)] * k + [(m, r.choice([1, 1, m, m - 1]))] * r.choice([1, 1, 2])
    if r.random() < .5:
        lens = [(y, x) for x, y in lens]
    if r.random() < .3:
        r.shuffle(lens)
    if r.random() < .2:
        lens += [(2, 2)] * r.randint(1, 5)
    runs = [run_of(r, toks, r.choice([0, 0, 0, k, k + 1, 1000]), m, 'once') for m in ('eq', 'all')]
    return dict(seed=i, parts=[lens], ids=None, runs=runs, store=r.choice(['single', 'multi']))


def from_model(k, recs, gs):
    r = gen.rng('c16m', k)
    lens = [(x['x'], x['y']) for x in recs]
    n = len(lens)
    cut = r.randint(0, n)
    parts = r.choice([[lens], [lens], [p for p in (lens[:cut], lens[cut:]) if p]])
    seen = sorted({(g['toks'], g['sents'], g['mode']) for g in gs})
    return dict(seed=k, parts=parts, ids=None, store=r.choice(['single', 'multi']),
                runs=[run_of(r, t, 0 if s == 99 else s, m, 'once') for t, s, m in seen])


def main():
    c = Check('C16')
    bs = c.behaviours_from('MCBatching', 'MCBatching_big.cfg' if THOROUGH else None, workers=3)
    groups = {}
    for b in bs:
        groups.setdefault(repr(b['recs']), (b['recs'], []))[1].append(b)
    cases = [from_model(k, recs, gs) for k, (recs, gs) in enumerate(groups.values())]
    c.behaviours += len(bs)
    cases += [make(i) for i in range(4000 if THOROUGH else 500)] + [jump(i) for i in range(800 if THOROUGH else 80)]
    traces = c.case_failures(cases, run_cases(record, cases, timeout=60), 'batching')
    c.validate('TrBatching', traces)
    c.notes['passes'] = sum(len(t['ev']) for t in traces)
    return c.finish(rule='all data sets of up to 3 records with lengths 0..2, every token and row limit of the model, both modes; generated '
                         'single and multi-part data, tight limits, repeated and interleaved passes, records that cannot fit; batches whose size would cross 256 or 65536 at one record')
