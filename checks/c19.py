"""C19: the bitext database pairs each source line with its own target line."""
import random, sys
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH, cps
from lib import gen, sparkrun
from lib.store import sid


def codec_of(scheme, lines):
    from nlcodec.codec import REGISTRY, learn_vocab
    lines = [l for l in lines if l.strip()] or ['a']
    size = len(set(''.join(lines))) + 20 if scheme == 'bpe' else 0
    return REGISTRY[scheme](learn_vocab(lines, scheme, None, size, char_coverage=1.0 if scheme == 'bpe' else 0))


def contents(db, names):
    out = []
    for r in db:
        out.append(dict(id=sid(r.id), x=[int(v) for v in getattr(r, names[0])], y=[int(v) for v in getattr(r, names[1])]))
    return out


def db_event(case, e, run):
    h = dict(op='db', truncate=case['truncate'], srclen=case['sl'], tgtlen=case['tl'], asked=case['names'])
    try:
        recs, n, names = run()
        return dict(h, outcome='ok', recs=recs, n=n, names=names)
    except Exception as ex:
        return dict(h, outcome='raised', recs=[], n=0, names=case['names'], detail=cps(repr(ex)[:300]))


def one(ss, case, d):
    from nlcodec import spark as S
    from nlcodec.db.core import MultipartDb
    ev = []
    if case['kind'] == 'rdd':
        want = [dict(id=sid(i), x=x, y=y) for i, (x, y) in case['recs']]
        try:
            rdd = ss.sparkContext.parallelize(case['recs'], case['slices'])
            if case['over']:
                MultipartDb.create(d / 'db', [[[9], [9]]] * 9, ['x', 'y'], part_size=1)
            kw = dict(overwrite=True) if case['over'] else {}
            db = S.rdd_as_db(rdd, d / 'db', repartition=case['parts'], **kw)
            ev.append(dict(op='rdd', outcome='ok', want=want, recs=contents(db, ['x', 'y']), n=len(db)))
        except Exception as ex:
            ev.append(dict(op='rdd', outcome='raised', want=want, recs=[], n=0, detail=cps(repr(ex)[:300])))
        return dict(pairs=[dict(src=[], tgt=[], x=[], y=[])], ev=ev)
    src, tgt = codec_of(case['schemes'][0], case['train'][0]), codec_of(case['schemes'][1], case['train'][1])
    xs, ys = case['lines']
    sparkrun.write(d / 'src', xs)
    sparkrun.write(d / 'tgt', ys)
    pairs = [dict(src=cps(x), tgt=cps(y), x=src.encode(x), y=tgt.encode(y)) for x, y in zip(xs, ys)]
    names = case['names']
    if case['kind'] == 'tool':
        src.save(d / 'sm')
        tgt.save(d / 'tm')

        def run():
            from nlcodec import bitextdb
            argv = ['nlcodec-db', '-sm', d / 'sm', '-tm', d / 'tm', '-st', d / 'src', '-tt', d / 'tgt', '-db', d / 'db', '-np', case['parts'], '-sn',
                    names[0], '-tn', names[1], '-sl', case['sl'], '-tl', case['tl'], '-spark', 'local[2]', '-dm', '1g']
            argv += [] if case['truncate'] is True and case['short'] else ['--truncate' if case['truncate'] else '--no-truncate']
            sys.argv = [str(a) for a in argv]
            bitextdb.main()
            db = MultipartDb.load(d / 'db')
            return contents(db, names), len(db), [n for n in db.rec_type._fields if n != 'id']
        ev.append(db_event(case, ev, run))
        return dict(pairs=pairs, ev=ev)

    def run():
        st, tt = src.encode, tgt.encode
        if case['numpy']:
            st, tt = sparkrun.ToNumpy(st), sparkrun.ToNumpy(tt)
        df = S.read_raw_bitext_tok(ss, d / 'src', str(d / 'tgt'), case['truncate'], case['sl'], case['tl'], st, tt)
        rdd = df.rdd.map(lambda r: (r.id, (r.x, r.y)))
        db = S.rdd_as_db(rdd, d / 'db', field_names=tuple(names), repartition=case['parts'])
        return contents(db, names), len(db), [n for n in db.rec_type._fields if n != 'id']
    ev.append(db_event(case, ev, run))
    return dict(pairs=pairs, ev=ev)


def batch(cases):
    from nlcodec import spark as S

    def go(tmp):
        out = []
        if cases[0]['kind'] == 'tool':
            for k, c in enumerate(cases):
                d = tmp / f'c{k}'
                d.mkdir()
                out.append(one(None, c, d))
            return out
        with S.session(master='local[2]', driver_mem='1g', config=sparkrun.SPLIT if cases[0]['split'] else sparkrun.SMALL) as ss:
            for k, c in enumerate(cases):
                d = tmp / f'c{k}'
                d.mkdir()
                out.append(one(ss, c, d))
        return out
    return sparkrun.in_scratch(go)


def make(i, kind):
    r = gen.rng('c19', i, kind)
    if kind == 'rdd':
        n = r.choice([1, 2, 3, 5, 9, 17]) if i % 10 != 3 else r.choice([300, 1100])
        ids = r.sample(range(10**6), n)
        recs = [(j, ([r.randint(0, 70000) for _ in range(r.randint(1, 4))], [r.randint(0, 200) for _ in range(r.randint(1, 4))])) for j in ids]
        return dict(kind='rdd', recs=recs, slices=r.choice([1, 2, 3, n, n + 3, 12]), parts=r.choice([0, 0, 1, 2, n + 4]), over=r.random() < .3)
    alphas = [gen.alphabet(r), gen.alphabet(r)]
    n = r.choice([1, 2, 3, 8, 20, 40]) if r.random() < .85 else r.choice([150, 400])
    lines = []
    for a in alphas:
        words = [gen.word(r, a, 1, 4).replace('\r', 'r') for _ in range(6)]
        spaces = [' ', ' ', '  ', '\t', '\u3000']
        lines.append([gen.line(r, words, spaces, lo=0 if r.random() < .2 else 1, hi=8) for _ in range(n)])
    if i % 5 == 3:          # some very long lines, and lines that read the same on both sides
        for k in r.sample(range(n), min(n, 3)):
            side = r.choice([0, 1])
            lines[side][k] = gen.longline(r, (lines[side][k].split() or ['a'])[:4], r.choice([255, 256, 257, 300, 520]))
        k = r.randrange(n)
        lines[0][k] = lines[1][k] = ' '.join(lines[1][k].split()[:1])
    for side in lines:      # empty and blank lines, on either side
        for k in range(n):
            if r.random() < .1:
                side[k] = r.choice(['', '', ' ', '\t'])
    lines[0] = [f'{l} n{k}' if l.strip() and r.random() < .7 else l for k, l in enumerate(lines[0])]   # lines that can be told apart
    lines = [gen.no_bom(l) for l in lines]
    schemes = [r.choice(['word', 'word', 'bpe', 'char']), r.choice(['word', 'word', 'bpe', 'char'])]
    mx = max([1] + [len(l.split()) for s in lines for l in s])
    lim = lambda: r.choice([1, 2, mx, mx - 1 or 1, mx + 1, 3, 5, 12, 256])
    return dict(kind=kind, lines=lines, train=lines, schemes=schemes, truncate=r.random() < .5, short=r.random() < .5, sl=lim(), tl=lim(),
                parts=r.choice([0, 0, 1, 2, 3, n + 5 if n < 20 else 7]), numpy=r.random() < .3,
                names=r.choice([['x', 'y'], ['x', 'y'], ['src', 'tgt'], ['a1', 'b2']]))


def from_model(setting, bs):
    tr, sl, tl = setting
    xs = [' '.join(f'w{k}x{j}' for j in range(b['lx'])) for k, b in enumerate(bs)]
    ys = [' '.join(f'v{k}y{j}' for j in range(b['ly'])) for k, b in enumerate(bs)]
    return dict(kind='tok', lines=[xs, ys], train=[xs, ys], schemes=['word', 'word'], truncate=tr, sl=sl, tl=tl, parts=0, numpy=False, names=['x', 'y'])


def main():
    c = Check('C19')
    bs = c.behaviours_from('MCBitext', 'MCBitext_one.cfg', workers=1)
    c.spawn(c.design_check, 'MCBitext', 'MCBitext_big.cfg' if THOROUGH else None, 2)
    seen = {}
    for b in bs:
        seen.setdefault((b['trunc'], b['sl'], b['tl']), {})[(b['lx'], b['ly'])] = b
    cases = []
    expect = []
    for s, m in seen.items():
        cases.append(from_model(s, list(m.values())))
        expect.append(sum(len(b['out']) for b in m.values()))
    c.behaviours += sum(map(len, seen.values()))
    n_model = len(cases)
    cases += [make(i, 'tok') for i in range(250 if THOROUGH else 22)]
    cases += [make(i, 'rdd') for i in range(250 if THOROUGH else 30)]
    for k, x in enumerate(cases):
        x['split'] = k % 3 == 2
    batches = []
    for sp in (False, True):
        g = [x for x in cases if x['split'] == sp]
        k = 3 if not sp else 3
        batches += [g[j::k] for j in range(k)]
    tools = [make(i, 'tool') for i in range(40 if THOROUGH else 6)]
    batches += [tools[j::2] for j in range(2)]
    res = c.case_failures(batches, run_cases(batch, batches, timeout=450, chunk=1, procs=8), 'encoding a bitext')
    traces = [t for r in res for t in r]
    c.validate('TrBitext', traces)
    order = [x for b in batches for x in b]
    if len(traces) == len(order):
        for x, t in zip(order, traces):
            for y, n in zip(cases[:n_model], expect):
                if x is y and t['ev'][0]['n'] != n:
                    c.violation('as many pairs are stored as in the model', dict(case=repr(y), got=t['ev']))
    c.notes['databases'] = len(traces)
    return c.finish(rule='every pair of lengths 0..3 with every limit 1..3 in both modes; generated parallel corpora with empty and blank lines, '
                         'both reading in one and in many partitions, more parts than records, arrays as tokens, and the nlcodec-db tool itself')
