"""C04: vocabulary trimming keeps the most frequent types and accounts for every token."""
from lib.vlib import Check, run_cases, THOROUGH
from lib import gen, learn


def header(case):
    cov = case.get('cov') or ((1, 1) if case['scheme'] == 'bpe' else (0, 1))
    minf = 1 if case['scheme'] == 'bpe' else case.get('minfreq', 1)
    if minf < 1 and not case.get('direct'):
        minf = 1 if case['scheme'] == 'word' else 20      # the documented defaults
    if case['scheme'] == 'word' and not case.get('direct'):
        cov = (0, 1)
    return dict(learn.header(case), scheme=case['scheme'], cov=dict(num=cov[0], den=cov[1]), minfreq=minf,
                size=0 if case['scheme'] == 'bpe' else case['size'])


def record(case):
    try:
        rows = learn.rows_of(learn.learn(case))
    except AssertionError as e:
        if 'is too small' in str(e):
            return None
        raise
    rows = [dict(name=r['name'], freq=r['freq']) for r in rows if not r['kids']]
    return dict(header(case), ev=[dict(op='table', rows=rows)])


def make(i):
    r = gen.rng('c04', i)
    alpha = gen.alphabet(r, r.choice([3, 4, 5]))
    c = learn.data(r, alpha, reserved=0.25)
    if r.random() < .3 and c['src'] == 'lines':   # many types
        ws = [gen.word(r, alpha, 1, 4) for _ in range(25)]
        c['lines'] = [gen.line(r, ws + ws[:5] * 5 + ws[5:8] * 9, lo=1, hi=12) for _ in range(20)]
    flat = r.random() < .1
    if flat:    # many types of the same few frequencies: sums of ratios would be inexact
        f = r.randint(1, 3)
        c = dict(src='tfs', tfs=[(chr(0x4e00 + j), f if j else f * r.choice([1, 1, 3])) for j in range(r.randint(6, 50))])
    c['scheme'] = r.choice(['word'] * 4 + ['char'] * 4 + ['bpe'])
    c['direct'] = c['scheme'] == 'word' and r.random() < .7
    c['minfreq'] = r.choice([0, 1, 1, 2, 3, 5, 10])
    c['size'] = r.choice([-1, 0, 0, 1, 5, 6, 7, 8, 9, 11, 14, 100])
    if r.random() < .6:
        c['cov'] = r.choice([(9, 10), (7, 10), (1, 2), (9995, 10000), (1, 1), (99, 100), (1, 100), (3, 4), (1, 4), (5, 8), (1, 2), (7, 8)])
    if flat:
        c['cov'] = r.choice([(1, 2), (3, 4), (1, 4), (5, 8), (7, 8)])
        c['minfreq'], c['size'] = 1, 0
    if i % 60 == 11:        # large counts around an exact boundary
        a, b = r.choice([(1, 2), (3, 4), (9, 10)])
        u = r.randint(10**5, 10**7) * b
        top, rest = u // b * a + r.choice([-1, 0, 0, 1, -2]), 2
        tail = u - top
        fs = [top - rest, rest] if r.random() < .5 else [top]
        c = dict(src='tfs', tfs=[(w, f) for w, f in zip('abcdefg', fs + [tail // 2, tail - tail // 2])], cov=(a, b), scheme=r.choice(['word', 'char']), direct=True, minfreq=1, size=0, big=True)
        r.shuffle(c['tfs'])
    if c['scheme'] == 'bpe':
        c['minev'] = 1
        chars = set(''.join(c['lines']) if c['src'] == 'lines' else ''.join(w for w, f in c['tfs']))
        c['size'] = len(chars) + 6 + r.choice([1, 5])
    if i % 125 == 17:       # many types and lines
        a = r.choice([gen.NICE, [chr(0x4e00 + k) for k in range(r.choice([40, 300]))]])
        c = dict(src='lines', lines=gen.crowd(r, a), scheme=r.choice(['word', 'char']), direct=r.random() < .5, minfreq=r.choice([1, 1, 2, 5]))
        c['size'] = r.choice([-1, 0, 50, 200, 260, 300, 600])
        if r.random() < .6:
            c['cov'] = r.choice([(9, 10), (9995, 10000), (1, 2), (99, 100)])
    if c['src'] == 'tfs' and sum(f for w, f in c['tfs']) > 100000 and not c.get('big'):
        c['tfs'] = [(w, min(f, 9000)) for w, f in c['tfs']]
    return c


def replay(b):
    """a behaviour of the pipeline -> None, or the recorded trace if the frequencies differ"""
    ok = []
    for scheme in ('word', 'char'):
        case = dict(src='tfs', scheme=scheme, tfs=[('abcdefg'[i], f) for i, f in enumerate(b['fs'])], cov=tuple(b['cov']),
                    minfreq=b['minf'], size=b['size'], direct=scheme == 'word')
        if b['cov'][0] == 0:
            case['cov'] = None
        if scheme == 'char' and b['minf'] < 1:
            continue
        case['tfs'].reverse()
        t = record(case)
        rows = t['ev'][0]['rows']
        if [r['freq'] for r in rows[6:]] != b['kept'] or rows[1]['freq'] != (b['cut'] or -1):
            ok.append(t)
    return ok


def main():
    c = Check('C04')
    bs = c.behaviours_from('MCTrim', workers=4)
    r = gen.rng('c04b')
    bs = bs if THOROUGH else r.sample(bs, min(len(bs), 12000))
    differ = c.case_failures(bs, run_cases(replay, bs), 'learning within limits')
    c.behaviours += len(bs)
    cases = [make(i) for i in range(6000 if THOROUGH else 2500)]
    traces = c.case_failures(cases, run_cases(record, cases), 'learning from legal input')
    # behaviours at an exact coverage boundary have two admissible outcomes: the specification decides
    traces = [t for t in traces if t] + [t for d in differ for t in d]
    c.notes['behaviours_decided_as_traces'] = sum(len(d) for d in differ)
    c.validate('TrTrim', traces)
    return c.finish(rule='every list of up to 4 frequencies with 6 coverages x 4 minimum frequencies x 8 sizes (sampled in quick), '
                         'and generated texts / frequency lists with reserved names among the types')
