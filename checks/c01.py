"""C01: BPE learning merges a currently most frequent adjacent pair at every step."""
from lib.vlib import Check, run_cases, cps, THOROUGH
from lib import gen, learn


def record(case):
    try:
        table = learn.learn(case)
    except AssertionError as e:
        if 'is too small' in str(e):
            return None     # the limit does not admit the initial alphabet: refused
        raise
    rows = learn.rows_of(table)
    n0 = next((i for i, r in enumerate(rows) if r['kids']), len(rows))
    ev = [dict(op='merge', a=r['kids'][0], b=r['kids'][1], freq=r['freq'], name=r['name']) if len(r['kids']) == 2
          else dict(op='merge', a=0, b=0, freq=r['freq'], name=r['name']) for r in rows[n0:]]
    for e in ev:
        e['freq'] = learn.small(e['freq'], case.get('unit'))
    ev.append(dict(op='stop'))
    return dict(learn.header(case), init=[r['name'] for r in rows[:n0]], minev=learn.small(max(case['minev'], 1), case.get('unit')),
                size=learn.BIG if case['minev'] > 1 and case['size'] <= 1 else case['size'], ev=ev)


def make(i):
    r = gen.rng('c01', i)
    c = learn.data(r, reserved=0.15)
    chars = set(''.join(c['lines']) if c['src'] == 'lines' else ''.join(w for w, f in c['tfs']))
    c.update(scheme='bpe', alias=r.random() < .2, minev=r.choice([1, 1, 1, 2, 3, 10]), size=len(chars) + 6 + r.choice([1, 2, 4, 8, 16, 40, 200]))
    if c['minev'] > 1 and r.random() < .3:
        c['size'] = r.choice([0, 1, -1])
    if c['src'] == 'tfs' and r.random() < .4:      # weights that are not floating point numbers
        c['unit'] = unit = r.choice([10**9, 2**31, 2**53, 2**53, 2**62, 10**19])
        base = learn.heavy(r, unit)
        c['tfs'] = [(w, r.choice([base, base + 1, base + 2, learn.heavy(r, unit)]) or 1) for w, f in c['tfs']]
        c['minev'] = r.choice([1, 1, 3, unit, base or 1, base + 1])
        c['size'] = max(c['size'], len(chars) + 7)
    if i % 100 == 17:       # many words and lines
        a = r.choice([gen.NICE, list('abcdefghijkl')])
        c = dict(src='lines', lines=gen.crowd(r, a), nl=r.random() < .5, iter=r.random() < .5, scheme='bpe', minev=r.choice([1, 1, 2, 10]))
        c['size'] = len(set(''.join(c['lines']))) + 6 + r.choice([5, 40, 90])
        return c
    if r.random() < .3 and not c.get('unit'):
        c['cov'] = r.choice([(9, 10), (7, 10), (1, 2), (9995, 10000)])
    return c


def from_model(b):
    """a corpus of the model as a term frequency list: letters 6, 7 -> a, b"""
    tfs = [(''.join('ab?'[x - 6] for x in w['s']), w['f']) for w in b]
    return dict(src='tfs', tfs=tfs, scheme='bpe', minev=1, size=20, line_count=1)


def main():
    c = Check('C01')
    if THOROUGH:
        c.spawn(c.design_check, 'MCBpeIndex', 'MCBpeIndex_big.cfg', workers=4, timeout=3000)
    else:
        c.spawn(c.design_check, 'MCBpeIndex', workers=2)
    bs = c.behaviours_from('MCBpeLearn', workers=4)
    if not THOROUGH:
        bs = gen.rng('c01b').sample(bs, 1500)
    cases = [from_model(b) for b in bs] + [make(i) for i in range(3000 if THOROUGH else 500)]
    traces = c.case_failures(cases, run_cases(record, cases), 'learning from legal input')
    traces = [t for t in traces if t]
    c.behaviours += len(bs)
    c.validate('TrBpeLearn', traces, timeout=3000)
    c.notes['merges'] = sum(len(t['ev']) - 1 for t in traces)
    return c.finish(rule='corpora of the design model (all, or a sample in quick) and generated ones with runs and overlaps, some with weights up to 10^21; '
                         'the trace of a case is its merge history')
