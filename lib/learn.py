"""Recording what vocabulary learning does (public API only)."""
import json
from . import gen
from .vlib import cps, MachineryError

BIG = 2**31 - 1


STEP = 4096


def small(n, unit):
    """counts hi * unit + lo (lo < STEP) of a corpus whose weights are beyond the integers of TLC: hi * STEP + lo adds up
    and compares alike; a count that is no sum of such weights is -1"""
    if not unit or n < 0:
        return n
    hi, lo = divmod(n, unit) if isinstance(n, int) else (0, STEP)
    return hi * STEP + lo if lo < STEP and hi < 2**18 else -1


def heavy(r, unit):
    return r.choice([0, 1, 1, 1, 2, 3, 50]) * unit + r.choice([0, 1, 1, 2, 3, 10])


def rows_of(table):
    out = []
    for t in table:
        kids = [k.idx for k in t.kids] if t.kids else []
        out.append(dict(idx=t.idx, name=cps(t.name), level=t.level, freq=t.freq, kids=kids,
                        kidnames=[cps(k.name) for k in t.kids] if t.kids else []))
    return out


def learn(case, model=None):
    from nlcodec.codec import learn_vocab
    kw = {}
    if case['scheme'] == 'bpe':
        kw['min_co_ev'] = case['minev']
    if case.get('cov'):
        kw['char_coverage'] = case['cov'][0] / case['cov'][1]
    elif case['scheme'] != 'word':
        kw['char_coverage'] = 0 if case['scheme'] == 'char' and case.get('cov') is None else 1.0
    if case['src'] == 'tfs':
        inp = ['%s\t%d' % (w, f) for w, f in case['tfs']]
        if case.get('line_count'):
            inp.insert(0, '#' + json.dumps(dict(line_count=case['line_count'], n_types=len(case['tfs']))))
        if case.get('nl', True):
            inp = [l + '\n' for l in inp]
    else:
        inp = list(case['lines'])
        if case.get('nl'):
            inp = [l + '\n' for l in inp]
    if case.get('iter'):
        inp = iter(inp)
    if case['scheme'] == 'word' and case.get('direct'):
        from nlcodec.codec import WordScheme
        cov = case['cov'][0] / case['cov'][1] if case.get('cov') else 0
        return WordScheme.learn(inp, vocab_size=case['size'], min_freq=case.get('minfreq', 1), coverage=cov,
                                term_freqs=case['src'] == 'tfs')
    return learn_vocab(inp, 'subword' if case.get('alias') else case['scheme'], model, case['size'], min_freq=case.get('minfreq', 1),
                       term_freqs=case['src'] == 'tfs', **kw)


def refreq(table, freq):
    """the table with other frequencies: freq(old)"""
    flat = []
    for t in table:
        flat.append(t.copy(freq=freq(t.freq), kids=[flat[k.idx] for k in t.kids] if t.kids else None))
    return flat


def header(case):
    h = dict(src=case['src'])
    if case['src'] == 'tfs':
        h['tfs'] = [dict(w=cps(w), f=small(f, case.get('unit'))) for w, f in case['tfs']]
    else:
        h['lines'] = [cps(l) for l in case['lines']]
    return h


def data(r, alpha=None, reserved=0.0, tf=0.3, big=False):
    """-> dict(src=..., lines|tfs)"""
    alpha = alpha or gen.alphabet(r)
    if r.random() < tf:
        seen = {}
        for _ in range(r.randint(1, 9)):
            w = gen.repeaty(r, alpha) if r.random() < .5 else gen.word(r, alpha, 1, 7)
            seen[w] = r.choice([1, 1, 2, 3, 5, 8, 40, 1000] + ([100000, 2**31, 10**10 + 1, 2**53 + 1, 2**63 - 1, 10**20 + 3] if big else []))
        if r.random() < reserved:
            for w in r.sample(gen.RESERVED + ['a▁b', '▁▁', '<s', '#'], r.randint(1, 3)):
                seen[w] = r.randint(1, 9)
        tfs = list(seen.items())
        r.shuffle(tfs)
        d = dict(src='tfs', tfs=tfs)
        if r.random() < .5:
            d['line_count'] = r.randint(1, 50)
        elif tfs[0][0].startswith('#'):
            d['line_count'] = 3     # a table without header whose first term starts with '#' is still read
        return d
    return dict(src='lines', lines=gen.corpus(r, alpha, reserved=reserved), nl=r.random() < .5, iter=r.random() < .5)
