"""C23: corpus quality and evaluation reports are exact counts of the encoded data."""
import contextlib, io, json, os, re, shutil, tempfile
from collections import Counter
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH, cps
from lib import gen, learn

os.environ['NLCODEC_THREADS'] = '2'
SCALE = 10000


def scaled(x):
    x = float(x)
    if x != x or abs(x) > 1e5:
        return -9 * SCALE
    return round(x * SCALE)


def whole(x):
    r = round(float(x)) if x == x else -1
    return r if abs(r - x) < 1e-4 * max(1, abs(x)) ** .5 else -1


def guarded(e, fn):
    try:
        return dict(e, outcome='ok', **fn())
    except Exception as ex:
        return dict(e, outcome='raised', detail=cps(repr(ex)[:300]))


def quality(codec, lines, enc):
    from nlcodec.qestim import QualityEstimator

    def go():
        q = QualityEstimator(codec).estimate(iter(lines))
        s = sum(1 for x in enc for t in x if t >= 0)
        return dict(n_types=int(q.n_types), n_tokens=int(q.n_tokens), unk=int(q.unk_count), mean=whole(q.mean_seq_len * len(lines)),
                    imb=whole(q.imbalance * 2 * len(codec) * s) if s else 0)
    return guarded(dict(op='quality', tool=False), go)


def quality_tool(model, lines):
    from nlcodec import qestim

    def go():
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            qestim.estimate(model, iter(lines))
        get = lambda k: int(re.search(rf'{k}=(?:np\.int64\()?(\d+)', out.getvalue())[1])
        return dict(n_types=get('n_types'), n_tokens=get('n_tokens'), unk=get('unk_count'))
    return guarded(dict(op='quality', tool=True), go)


def grams(enc, n):
    from nlcodec.utils import make_n_grams_all
    return guarded(dict(op='grams', n=n, sorted=False),
                   lambda: dict(rows=[dict(g=list(g), f=f, names=[]) for g, f in make_n_grams_all(iter(enc), n).items()]))


def termfreq_tool(model, lines, n):
    from nlcodec.eval import termfreq

    def go():
        out = io.StringIO()
        termfreq.main(iter(lines), out, n, model)
        rs = [json.loads(l) for l in out.getvalue().split('\n') if l]
        return dict(rows=[dict(g=g, f=f, names=[cps(x) for x in names]) for g, f, names in rs])
    return guarded(dict(op='grams', n=n, sorted=True), go)


def oov(lines, vocab):
    from nlcodec.eval.oov_count import partition_vocab_toks

    def go():
        iv, ov = partition_vocab_toks(iter(lines), set(vocab))
        return dict(iv=[dict(g=cps(t), f=f) for t, f in iv.items()], oov=[dict(g=cps(t), f=f) for t, f in ov.items()])
    return guarded(dict(op='oov', vocab=[cps(v) for v in vocab]), go)


def oov_tool(model, lines):
    from nlcodec.eval import oov_count

    def go():
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            oov_count.main(iter(lines), model)
        rows = {l.split('\t')[0]: l.split('\t')[1:] for l in out.getvalue().split('\n') if l}
        ints = lambda k: [int(x) for x in rows[k]]
        return dict(types=ints('Types'), toks=ints('Token Count'), pct=[scaled(float(x) / 100) for x in rows['Token %']])
    return guarded(dict(op='oovtool'), go)


def pr(model, cands, refs, n, freqs):
    from nlcodec.eval import pr_measure

    def go():
        out = io.StringIO()
        fs = io.StringIO(''.join(json.dumps([list(g), f, ['?'] * len(g)]) + '\n' for g, f in freqs)) if freqs is not None else None
        pr_measure.main(model, iter(cands), iter(refs), n, out, freqs=fs)
        rows = []
        for l in out.getvalue().split('\n')[1:]:
            if l:
                c = l.split('\t')
                rows.append(dict(rank=int(c[0]), g=[int(x) for x in c[1].split(',')], name=cps(c[2]), rankf=int(c[3]), reff=int(c[4]), candf=int(c[5]),
                                 recall=scaled(c[6]), prec=scaled(c[7]), f1=scaled(c[8])))
        return dict(rows=rows)
    return guarded(dict(op='pr', n=n, given=freqs is not None, freqs=[dict(g=list(g), f=f) for g, f in freqs or []]), go)


def dist(p, q):
    import numpy as np
    from nlcodec.qestim import QualityEstimator as Q

    def go():
        a, b = np.array(p) / sum(p), np.array(q) / sum(q)
        return dict(emd=scaled(Q.earth_mov_dist(a, b)), js=scaled(Q.js_div(a, b)), js2=scaled(Q.js_div(b, a)))
    return guarded(dict(op='dist', p=p, q=q), go)


def distr(p, q):
    """p, q in units of 1e-5: maybe no distributions"""
    import numpy as np
    from nlcodec.qestim import QualityEstimator as Q
    out = {}
    for name, fn in (('emd', Q.earth_mov_dist), ('js', Q.js_div)):
        try:
            fn(np.array(p, dtype=float) / 1e5, np.array(q, dtype=float) / 1e5)
            out[name] = 'ok'
        except Exception:
            out[name] = 'refused'
    return dict(op='distr', p=p, q=q, **out)


def codes(codec, lines, index):
    """the lines as the tools read them, against one line after the other"""
    from nlcodec.eval.termfreq import encode_all
    e = dict(op='codes', index=index, ids=[], want=[], pieces=[], names=[])
    if index:
        e['want'] = [codec.encode(l.strip()) for l in lines]
        return guarded(e, lambda: dict(ids=list(encode_all(iter(lines), codec, index=True))))
    e['names'] = [[cps(x) for x in codec.encode_str(l.strip())] for l in lines]
    return guarded(e, lambda: dict(pieces=[[cps(x) for x in s] for s in encode_all(iter(lines), codec, index=False)]))


def record(case):
    from nlcodec.codec import REGISTRY
    d = Path(tempfile.mkdtemp(prefix='vev'))
    try:
        try:
            table = learn.learn(case)
        except AssertionError as e:
            if 'is too small' in str(e):
                return None
            raise
        codec = REGISTRY[case['scheme']](table)
        model = d / 'm'
        codec.save(model)
        lines = case['texts']
        enc = [codec.encode(l) for l in lines]
        fl = [l + '\n' for l in lines] if case['nl2'] else lines     # as read from a file
        ev = [quality(codec, lines, enc), quality_tool(model, fl)]
        for n in case['ns']:
            ev.append(grams(enc, n))
            ev.append(termfreq_tool(model, fl, n))
        if any(l.split() for l in lines):
            ev.append(oov(fl, case['vocab']))
            if case['scheme'] != 'byte':
                ev.append(oov_tool(model, fl))
        refs, cands = case['pair']
        er, ec = [codec.encode(x) for x in refs], [codec.encode(x) for x in cands]
        n = case['ns'][0]
        small = all(c <= 10 for s in er + ec for c in Counter(tuple(s[i:i + n]) for i in range(len(s) - n + 1)).values())
        if small:
            nl = '\n' if case['nl2'] else ''
            freqs = None
            if case['freqs']:
                gs = Counter(tuple(s[i:i + n]) for s in enc + er[:1] for i in range(len(s) - n + 1))
                freqs = sorted(gs.items(), key=lambda x: -x[1])
            ev.append(pr(model, [x + nl for x in cands], [x + nl for x in refs], n, freqs))
        ev.append(dist(*case['dists']))
        ev += [distr(*pq) for pq in case['distrs']]
        ev += [codes(codec, fl, True)] + ([codes(codec, fl, False)] if case['scheme'] in ('word', 'char', 'bpe') else [])
        return dict(names=[cps(t.name) for t in table], k=len(codec), unk=codec.unk_idx if codec.unk_idx >= 0 else -1, enc=enc, refs=er, cands=ec,
                    lines=[cps(l) for l in lines], ev=ev)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make(i):
    r = gen.rng('c23', i)
    alpha = [a for a in gen.alphabet(r) if a not in '\r\n'] or ['a']
    scheme = r.choice(['word', 'word', 'char', 'bpe', 'class', 'byte'])
    c = learn.data(r, alpha, reserved=.15, tf=0)
    c['lines'] = [l.replace('\r', ' ').replace('\t', ' ') for l in c['lines']]
    words = [w for l in c['lines'] for w in l.split()]
    chars = set(''.join(words))
    c.update(scheme=scheme, iter=False, minev=1, minfreq=r.choice([1, 1, 2]), size=len(chars) + 6 + r.choice([1, 4, 20]) if scheme == 'bpe' else r.choice([-1, -1, 0, 9]))
    pool = words + ['q', 'é'] if r.random() < .6 else words
    mk = lambda lo, hi, n: [gen.line(r, pool, gen.SPACES if r.random() < .3 else None, lo=lo, hi=hi).replace('\t', ' ').replace('\r', ' ') for _ in range(n)]
    c['texts'] = mk(0, 8, r.choice([1, 2, 6, 15]))
    if scheme == 'class':
        c['texts'] = [r.choice(c['lines'] + ['q'] * (r.random() < .5)) for _ in range(r.randint(1, 8))]
    n = r.choice([1, 2, 3, 5])
    refs = mk(0, 5, n) if scheme != 'class' else [r.choice(c['lines']) for _ in range(n)]
    if scheme == 'class' and r.random() < .4:
        refs[0] = 'q'
    cands = [x if r.random() < .3 else y for x, y in zip(refs, mk(0, 5, n) if scheme != 'class' else [r.choice(c['lines'] + ['q', 'zz']) for _ in range(n)])]
    if i % 50 == 7:
        c['texts'] += mk(0, 5, [1500, 130, 1100, 600][i // 50 % 4]) if scheme != 'class' else [r.choice(c['lines']) for _ in range(300)]
        if scheme != 'class':
            c['texts'].append(gen.longline(r, [w.replace('\t', ' ').replace('\r', ' ') for w in pool]))
    if i % 50 == 9 and scheme != 'class':
        refs += mk(0, 5, 60)
        cands += mk(0, 5, 60)
    c['pair'] = (refs, cands)
    c['ns'] = r.sample([1, 2, 3, 4], 2)
    c['freqs'] = r.random() < .4
    c['nl2'] = r.random() < .5
    c['vocab'] = list(dict.fromkeys(r.sample(words, min(3, len(words))) + ['zz']))
    k = r.choice([1, 2, 3, 6])
    w = lambda: [r.choice([0, 1, 1, 2, 5, 9]) for _ in range(k - 1)] + [r.randint(1, 5)]
    p = w()
    c['dists'] = (p, p if r.random() < .15 else w())

    def units(k):
        x = [r.randint(0, 9) for _ in range(k - 1)] + [r.randint(1, 9)]
        t = sum(x)
        x = [v * 100000 // t for v in x]
        x[-1] += 100000 - sum(x)
        return x

    def spoil(x):
        x, i, j = list(x), r.randrange(len(x)), r.randrange(len(x))
        what = r.choice(['sum', 'sum', 'neg', 'len', 'none'])
        if what == 'sum':
            x[i] += r.choice([50, 1000, 100000])
        elif what == 'neg' and i != j:
            x[j] += x[i] + 2000
            x[i] = -2000
        elif what == 'len':
            x = x + [0]
        return x
    c['distrs'] = []
    for _ in range(3):
        k = r.choice([1, 2, 5])
        p, q = units(k), units(k)
        c['distrs'].append((p, spoil(q)) if r.random() < .5 else (spoil(p), q))
    return c


def replay(b):
    from nlcodec.eval.pr_measure import count_gram_recall
    rec, reff, pre, candf = count_gram_recall(b['cands'], b['refs'], n=b['n'])
    key = lambda g: tuple(g)
    bad = []
    for got, want in ((rec, b['recs']), (pre, b['precs'])):
        w = {key(g): num / den for g, num, den in want}
        if set(got) != set(w) or any(abs(got[g] - w[g]) > 1e-9 for g in w):
            bad.append((got, want))
    for got, want in ((reff, b['reff']), (candf, b['candf'])):
        if dict(got) != {key(g): f for g, f in want}:
            bad.append((got, want))
    return repr(bad) if bad else None


def main():
    c = Check('C23')
    bs = c.behaviours_from('MCEvalStats', workers=2)
    c.spawn(c.design_check, 'MCEvalStats', 'MCEvalStats_deep.cfg', 3)
    if THOROUGH:
        c.spawn(c.design_check, 'MCEvalStats', 'MCEvalStats_big.cfg', 3)
    c.spawn(c.design_refuted, 'MCEvalStats', 'MCEvalStats_bad.cfg', 'RecallExact')
    for b, v in zip(bs, run_cases(replay, bs)):
        if v[0] != 'ok' or v[1]:
            c.violation('precision and recall of the model', dict(behaviour=b, got=v))
    c.behaviours += len(bs)
    cases = [make(i) for i in range(3000 if THOROUGH else 400)]
    traces = [t for t in c.case_failures(cases, run_cases(record, cases, procs=7), 'reports') if t]
    c.validate('TrEvalStats', traces)
    return c.finish(rule='every pair of candidate and reference lists of up to 2 sentences of up to 2 symbols, n = 1, 2; generated models of every scheme and texts: '
                         'quality (library and tool), n-grams, vocabulary partitions, precision/recall reports with and without given frequencies, distances')
