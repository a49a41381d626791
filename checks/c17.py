"""C17: a batch tensor is a faithful padded image of its records."""
import random, shutil, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH, cps
from lib import gen
from lib.store import sval


def vals(s):
    return [sval(v) for v in s]


def matrix(b, name, bf):
    m = getattr(b, name)
    return [vals(row) for row in (m if bf else m.T)]


def item_ev(e, has_y):
    """the fields of an example by name"""
    y = lambda k, none: e[k] if has_y else none
    return dict(op='item', x=vals(e.x), y=vals(e.y) if has_y else [], xlen=int(e['x_len']), ylen=int(y('y_len', 0)), gotx=vals(e['x']), goty=vals(y('y', [])))


def mask_ev(b, rows, pad):
    ev = dict(op='mask', outcome='ok', rows=vals_all(rows), pad=sval(pad), mask=[])
    try:
        m = b.make_autoreg_mask(rows)
        ev['mask'] = [[[1 if v else 0 for v in q] for q in p] for p in m]
    except Exception:
        ev['outcome'] = 'raised'
    return ev


def vals_all(rows):
    return [vals(row) for row in rows]


def batch_ev(exs, meta, sort, bf, has_y, masks):
    from nlcodec.db.batch import Batch
    recs = [dict(x=vals(e.x), y=vals(e.y) if has_y else [], xr=cps(e.x_raw or ''), yr=cps((e.y_raw or '') if has_y else '')) for e in exs]
    m = dict(pad=sval(meta.pad_idx), bos=sval(meta.bos_idx), eos=sval(meta.eos_idx), bosx=meta.add_bos_x, bosy=meta.add_bos_y,
             eosx=meta.add_eos_x, eosy=meta.add_eos_y)
    ev = dict(op='batch', recs=recs, meta=m, sort=sort, has_y=has_y, outcome='ok', n=0, x=[], y=[], xlen=[], ylen=[], xtoks=0, ytoks=0, xmax=0,
              ymax=0, xr=[], yr=[])
    try:
        b = Batch(exs, sort_dec=sort, batch_first=bf, meta=meta)
    except Exception:
        ev['outcome'] = 'raised'
        return ev
    raws = lambda name, on: [cps(t) for t in getattr(b, name)] if on and getattr(b, name, None) else [[] for _ in exs]
    ev.update(n=len(b), x=matrix(b, 'x_seqs', bf), xlen=[int(v) for v in b.x_len], xtoks=int(b.x_toks), xmax=int(b.max_x_len),
              xr=raws('x_raw', True), yr=raws('y_raw', has_y))
    if has_y:
        ev.update(y=matrix(b, 'y_seqs', bf), ylen=[int(v) for v in b.y_len], ytoks=int(b.y_toks), ymax=int(b.max_y_len))
    elif b.has_y:
        ev['outcome'] = 'has y'
    if bf:
        masks.append(mask_ev(b, b.x_seqs, meta.pad_idx))
        if has_y:
            masks.append(mask_ev(b, b.y_seqs, meta.pad_idx))
    return ev


def record(case):
    import numpy as np
    from nlcodec.db.core import Db
    from nlcodec.db.batch import BatchMeta, IdExample
    r = random.Random(case['seed'])
    tmp = Path(tempfile.mkdtemp(prefix='c17_'))
    try:
        ev = []
        recs, has_y = case['recs'], case['has_y']
        db = None
        if case['src'] == 'db':
            path = tmp / 'db'
            Db.create([[x, y] for x, y in recs], ['x', 'y'], path=path)
            db = Db.load(path, rec_type=IdExample)
            example = lambda i: db[i]
            stored = lambda: [[vals(db[i].x), vals(db[i].y)] for i in range(len(recs))]
        else:
            mk = (lambda s: np.array(s, dtype=case['dtype'])) if case['src'] == 'array' else list
            arrs = [(mk(x), mk(y) if has_y else None) for x, y in recs]
            example = lambda i: IdExample(i, arrs[i][0], arrs[i][1])
            stored = lambda: [[vals(x), vals(y) if has_y else []] for x, y in arrs]
        before = stored()
        for s in case['batches']:
            exs = [example(i) for i in s['idx']]
            if s['raw']:
                for e, i in zip(exs, s['idx']):
                    e.x_raw, e.y_raw = f'x raw {i}', f'y é {i}'
            meta = BatchMeta(pad_idx=s['pad'], bos_idx=s['bos'], eos_idx=s['eos'], **s['flags'])
            masks = []
            ev.append(item_ev(exs[0], has_y))
            ev.append(batch_ev(exs, meta, s['sort'], s['bf'], has_y, masks))
            if s['again'] and ev[-1]['outcome'] == 'ok':
                ev.append(batch_ev(exs, meta, not s['sort'], s['bf'], has_y, masks))     # the same examples in another batch
            ev.append(item_ev(exs[-1], has_y))
            ev += masks
            ev.append(dict(op='stored', before=before, after=stored()))
        return dict(name='tensor', ev=ev)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def runs(bits):
    """positions that are set, as intervals [first, last] counted from 1"""
    out = []
    for i, b in enumerate(bits, 1):
        if b and out and out[-1][1] == i - 1:
            out[-1][1] = i
        elif b:
            out.append([i, i])
    return out


def wide(case):
    """masks and matrices of long sequences"""
    import numpy as np
    from nlcodec.db.batch import Batch, BatchMeta, IdExample, subsequent_mask
    ev = []
    for n in case['sizes']:
        m = subsequent_mask(n)
        ev.append(dict(op='wide', n=n, pads=[], shape=list(m.shape), vis=[runs(row) for row in m[0].tolist()]))
        r = random.Random(n)
        pad = r.choice([0, -1, 5])
        row = [r.choice([1, 2, 3]) for _ in range(n)]
        for p in r.sample(range(n), min(3, n - 1)) + list(range(n - r.randint(0, n - 1), n)):
            row[p] = pad
        if n > 1 and row[0] == pad:
            row[0] = 1
        m = Batch.make_autogres_mask_(np.array([row, [2] * n]), pad)
        for k, rw in enumerate((row, [2] * n)):
            ev.append(dict(op='wide', n=n, pads=[i + 1 for i, v in enumerate(rw) if v == pad], shape=[len(m) - 1] + list(m.shape[1:]),
                           vis=[runs(q) for q in m[k].tolist()]))
        lens = [n - 1 or 1, n, 1] if n % 3 else [n, n - 1 or 1, 1]
        for sort in (False, True):
            exs = [IdExample(j, np.array([4 + j] * k), np.array([4] * max(1, k // 2))) for j, k in enumerate(lens)]
            ev.append(batch_ev(exs, BatchMeta(0, 2, 3), sort, True, True, []))
    return dict(name='wide', ev=ev)


def make(i):
    r = gen.rng('c17', i)
    n = r.choice([1, 2, 3, 5, 8]) if i % 60 else r.choice([40, 130, 300, 520, 1100])
    markers = r.choice([(0, 2, 3), (0, 1, 2), (3, 2, 1), (0, 300, 301), (7, 0, 1), (0, 70000, 70001), (-1, 2, 3), (-100, 0, 1)])
    pad, bos, eos = markers
    big = r.random() < .1
    top = r.choice([5, 9, 200, 1000, 40000]) if not big else r.choice([2**31, 2**40, 2**53 + 1, 2**60 + 1])
    pool = [pad, bos, eos, bos, eos, top, 4, 5]

    def seq():
        s = [r.choice(pool) if r.random() < .5 else r.randint(4, top) for _ in range(r.randint(1, 6) if r.random() < .97 or n > 8 else r.choice([33, 70, 300]))]
        return s

    clean = r.random() < .6        # markers only where they may be
    flags0 = None

    def tidy(s, b, e):
        if clean:
            if not b and s[0] == bos:
                s = [9] + s[1:] if bos != 9 else [8] + s[1:]
            if not e and s[-1] == eos:
                s = s[:-1] + [9 if eos != 9 else 8]
        return s
    flags0 = dict(add_bos_x=r.random() < .5, add_bos_y=r.random() < .5, add_eos_x=r.random() < .6, add_eos_y=r.random() < .6)
    recs = [(tidy(seq(), flags0['add_bos_x'], flags0['add_eos_x']), tidy(seq(), flags0['add_bos_y'], flags0['add_eos_y'])) for _ in range(n)]
    if r.random() < .2:
        recs = [recs[0]] * n
    src = r.choice(['db', 'db', 'array', 'list'])
    has_y = src == 'db' or r.random() < .7
    batches = []
    for _ in range(r.randint(1, 3)):
        flags = flags0 if r.random() < .8 else {k: r.random() < .5 for k in flags0}
        idx = list(range(n))
        r.shuffle(idx)
        batches.append(dict(idx=idx[:n if n > 8 and r.random() < .7 else r.randint(1, n)], raw=r.random() < .3, pad=pad, bos=bos, eos=eos, flags=flags, sort=r.random() < .5,
                            bf=r.random() < .6, again=r.random() < .4))
    dt = 'int64' if max(top, *markers) > 65535 else r.choice(['int64', 'uint16', 'int32', 'int64'])
    if top > 32767 and dt == 'int16':
        dt = 'int64'
    if pad < 0:
        dt = r.choice(['int64', 'int32']) if top < 2**31 else 'int64'
    return dict(seed=i, recs=recs, src=src, has_y=has_y, batches=batches, dtype=dt)


def replay(bs):
    """every batch of the model: the matrix, or the refusal"""
    import numpy as np
    from nlcodec.db.batch import Batch, BatchMeta, IdExample
    bad = []
    for b in bs:
        for side in 'xy':
            arr = [np.array([int(v) for v in s], dtype=np.uint8) for s in b['batch']]
            other = [np.array([9], dtype=np.uint8) for _ in arr]
            exs = [IdExample(i, *((a, o) if side == 'x' else (o, a))) for i, (a, o) in enumerate(zip(arr, other))]
            f = {f'add_bos_{side}': b['bos'], f'add_eos_{side}': b['eos'], f'add_bos_{"y" if side == "x" else "x"}': False}
            try:
                t = Batch(exs, meta=BatchMeta(pad_idx=0, bos_idx=1, eos_idx=2, **f))
                got = [[str(int(v)) for v in row] for row in getattr(t, side + '_seqs')]
                mask = [[[1 if v else 0 for v in q] for q in p] for p in t.make_autoreg_mask(getattr(t, side + '_seqs'))]
                if b['phase'] == 'done' and mask != b['masks']:
                    bad.append(dict(b, side=side, got=mask))
            except Exception as e:
                got = 'refused'
            if got != (b['rows'] if b['phase'] == 'done' else 'refused'):
                bad.append(dict(b, side=side, got=got))
            if any([str(int(v)) for v in a] != s for a, s in zip(arr, b['batch'])):
                bad.append(dict(b, side=side, got='the stored sequence has changed'))
    return bad


def main():
    c = Check('C17')
    bs = c.behaviours_from('MCBatchTensor', 'MCBatchTensor_big.cfg' if THOROUGH else None, workers=3)
    batches = [bs[i::12] for i in range(12)]
    for b, (s, v) in zip(batches, run_cases(replay, batches, timeout=300)):
        if s != 'ok':
            c.violation('building a batch', dict(status=s, detail=v))
        else:
            for x in v[:3]:
                c.violation('the matrix is that of the model', x)
    c.behaviours += len(bs)
    cases = [make(i) for i in range(6000 if THOROUGH else 1200)]
    traces = c.case_failures(cases, run_cases(record, cases), 'building batches')
    sizes = [1, 2, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 400, 512, 513, 600] + ([700, 1000, 1024, 1025, 1500] if THOROUGH else [])
    wides = [dict(sizes=[n]) for n in sizes]
    traces += c.case_failures(wides, run_cases(wide, wides, timeout=200), 'masks of long sequences')
    c.validate('TrBatchTensor', traces)
    c.notes['batches'] = sum(e['op'] == 'batch' for t in traces for e in t['ev'])
    return c.finish(rule='all batches of up to 2 rows over {pad, bos, eos, other} and all marker settings, on either side; generated batches from '
                         'stores, arrays and lists, sorted, transposed, with markers in and at the ends of the data, built twice; matrices and masks of up to 600 positions')
