"""C15: a database that loads is complete: crashes never expose partial data."""
import random, shutil, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH, tlc, MachineryError
from lib import gen, parts


def att(r, tag, nparts, overwrite, api=None, per=2):
    n = nparts * per
    api = api or r.choice(['create', 'create', 'with', 'plain'])
    a = dict(api=api, has_id=api != 'create' or r.random() < .5, overwrite=overwrite, recs=parts.dataset(r, n, tag), size=per, seed=1, maxp=r.choice([None, 10]))
    if api != 'create':
        order = list(range(nparts))
        r.shuffle(order)
        a['parts'] = [(p, list(range(p * per, (p + 1) * per))) for p in order]
    return a


def see(path, r):
    """what a load sees, lazily and in memory"""
    k = r.random()
    return parts.load(path, keep=k < .5, shuffle=r.random() < .5) + (parts.load(path, keep=k >= .5) if r.random() < .4 else [])


def play(case, base):
    """one history: attempts, each with or without a fault; a load after each"""
    r = random.Random(case['seed'])
    tmp = Path(tempfile.mkdtemp(prefix='h', dir=base))
    path = tmp / 'a' / 'b' / 'db'
    path.parent.mkdir(parents=True)
    try:
        ev = []
        for a, f in case['steps']:
            ev.append(parts.attempt(path, a, dict(f) if f else None))
            if ev[-1]['ended'] != 'returned' and (path / 'part-0').parent.exists() and not (path / '_SUCCESS').exists() and r.random() < .3:
                (path / '_SUCCESS').write_text(r.choice(['', '{', '{"parts": {', '{"parts": {}', 'null', '[]', '"', '{}']))
                ev.append(dict(op='tornflag'))
                ev += see(path, r)
            elif case['look'] or (a, f) == case['steps'][-1]:
                ev += see(path, r)
        past = [f for a, f in case['steps'] if f and f.get('past')]
        return dict(name='crash', ev=ev)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def sweep(case):
    """every crash point of the attempt case['at'] of a history"""
    r = random.Random(case['seed'])
    tmp = Path(tempfile.mkdtemp(prefix='c15_'))
    out = []
    try:
        for kind in case['kinds']:
            k = 0
            while k < 400:
                k += 1
                sizes = [0, 1, 7, 60, 150, 400, 700, 900] if kind in ('torn', 'full') else [0]
                if len(sizes) > 1 and not THOROUGH:
                    sizes = r.sample(sizes, 3)
                past = False
                for n in sizes:
                    fault = dict(kind=kind, k=k, n=n)
                    d = Path(tempfile.mkdtemp(prefix='h', dir=tmp))
                    path = d / 'a' / 'b' / 'db'
                    path.parent.mkdir(parents=True)
                    ev = []
                    for j, a in enumerate(case['attempts']):
                        if j == case['at']:
                            ev.append(parts.attempt(path, a, fault))
                        else:
                            ev.append(parts.attempt(path, a))
                        if case['look'] or j == len(case['attempts']) - 1:
                            ev += see(path, r)
                    shutil.rmtree(d, ignore_errors=True)
                    past = past or fault.get('past', False)
                    out.append(dict(name=f'{kind} {k} {n}', ev=ev))
                if past:
                    break
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


KINDS = ['kill', 'oserror', 'intr', 'torn', 'full', 'raise', 'exit', 'interrupt']


def sweeps():
    cases = []
    r = gen.rng('c15sweep')
    shapes = [([(1, False)], 0), ([(3, False)], 0), ([(2, False), (3, True)], 1), ([(3, False), (2, True)], 1), ([(1, False), (1, True)], 1),
              ([(2, False), (2, False)], 1), ([(2, False), (2, True), (2, True)], 1), ([(2, False), (1, True)], 0), ([(14, False)], 0), ([(2, False), (14, True)], 1)]
    for s, (shape, at) in enumerate(shapes):
        for api in ('create', 'with'):
            for kind in KINDS:
                if shape[at][0] > 9 and kind not in ('torn', 'full') and not THOROUGH:
                    continue
                if shape[at][0] > 9 and api == 'with' and not THOROUGH:
                    continue
                at_list = [att(r, t, n, ow, api, per=1 if n > 9 else 2) for t, (n, ow) in enumerate(shape, 1)]
                cases.append(dict(seed=s, attempts=at_list, at=at, kinds=[kind], look=True))
    return cases


def make(i):
    r = gen.rng('c15', i)
    steps = []
    for t in range(1, r.choice([2, 3, 3, 4]) + 1):
        a = att(r, t, r.choice([1, 1, 2, 3, 5]), r.random() < .7)
        f = None
        if r.random() < .7:
            kind = r.choice(KINDS)
            f = dict(kind=kind, k=r.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 22]), n=r.choice([0, 1, 20, 100, 300, 500]))
            if kind in ('raise', 'exit', 'interrupt'):
                f['k'] = r.randint(1, max(1, len(a['recs'])))
        steps.append((a, f))
    return dict(seed=i, steps=steps, look=r.random() < .7)


def from_model(k, b):
    r = gen.rng('c15m', k)
    steps = []
    for t, h in enumerate(b['hist'], 1):
        a = att(r, t, h['np'], h['ow'], 'create')
        f = None
        if h['ended'] == 'crashed':
            kind = r.choice(KINDS)
            f = dict(kind=kind, k=r.randint(1, 2 * h['np'] if kind in ('raise', 'exit', 'interrupt') else 4 * h['np'] + 6), n=r.choice([0, 30, 200]))
        steps.append((a, f))
    return dict(seed=k, steps=steps, look=r.random() < .7)


def histories(cases):
    tmp = Path(tempfile.mkdtemp(prefix='c15_'))
    try:
        return [play(c, tmp) for c in cases]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    c = Check('C15')
    c.spawn(c.design_refuted, 'MCMultiPart', 'MCMultiPart_bad.cfg', 'NeverPartial')
    bs = c.behaviours_from('MCMultiPart', 'MCMultiPart_big.cfg' if THOROUGH else None, workers=2)
    hists = list({repr(b): b for b in bs}.values())
    hs = [from_model(k, b) for k, b in enumerate(hists)] + [make(i) for i in range(4000 if THOROUGH else 300)]
    c.behaviours += len(hists)
    batches = [hs[i:i + 20] for i in range(0, len(hs), 20)]
    traces = []
    for res in c.case_failures(batches, run_cases(histories, batches, timeout=200, chunk=1), 'histories with crashes'):
        traces += res
    sw = sweeps()
    for res in c.case_failures(sw, run_cases(sweep, sw, timeout=400, chunk=1, procs=8), 'crash points'):
        traces += res
    c.validate('TrMultiPart', traces)
    ended = [e['ended'] for t in traces for e in t['ev'] if e['op'] == 'attempt']
    c.notes['attempts'] = {k: ended.count(k) for k in set(ended)}
    c.notes['loads'] = sum(e['op'] == 'load' for t in traces for e in t['ev'])
    if not THOROUGH and (ended.count('killed') < 100 or ended.count('raised') < 100):
        raise MachineryError(f'faults were not injected: {c.notes["attempts"]}')
    return c.finish(rule='every file operation (open for writing, remove, mkdir, rmdir, rename) of a write as the point of a kill, an I/O error, '
                         'an interrupt, a torn write or a full disk; every record as the point where the stream fails; histories of several attempts')
