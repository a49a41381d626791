"""C10: regularising splits never change the text."""
import random
from lib.vlib import Check, run_cases, THOROUGH, SEED, cps
from lib import gen, learn
from checks.c07 import text_of


class Coins:
    """stands in for random.random: heads = 0.0, tails = just below 1; None after the script: tails"""

    def __init__(self, script):
        self.script, self.used = list(script), 0

    def __call__(self):
        self.used += 1
        return 0.0 if self.script and self.script.pop(0) else 0.9999999


def table_of(kids, wide=1):
    from nlcodec.codec import Type, Reseved
    t = Reseved.with_reserved_types()
    for i, k in enumerate(kids):
        ks = tuple(t[6 + x] for x in k)
        t.append(Type(ks[0].name + ks[1].name if ks else 'abcdef'[i] * wide, level=int(bool(ks)), idx=6 + i, freq=1, kids=ks or None))
    return t


def replay(bs):
    from nlcodec.codec import BPEScheme
    bad = []
    bs, outs = bs
    saved = random.random
    try:
        for b in bs:
            codec = BPEScheme(table_of(b['kids']))
            last = len(codec) - 1
            random.random = Coins(b['coins'])
            out = codec.stochastic_split([last], split_ratio=0.5)
            if random.random.used != len(b['coins']):
                continue            # randomness is drawn in another way: recorded runs decide
            got = [x - 6 for x in out]
            # which coin belongs to which piece is left open; what all heads or all tails give is not
            same = len(set(b['coins'])) > 1
            if got != b['out'] and not (same and tuple(got) in outs[repr(b['kids'])]):
                bad.append(dict(b, got=out))
    finally:
        random.random = saved
    return bad


def record(case):
    from nlcodec.codec import BPEScheme
    if case['kind'] == 'learned':
        tab = learn.learn(case)
    else:
        tab = table_of(case['kids'])
    codec = BPEScheme(tab)
    ev = []
    r = random.Random(case['seed'])
    saved = random.random
    for l in case['texts']:
        plain = codec.encode_str(l)
        ids = codec.encode(l)
        for ratio in case['ratios']:
            random.seed(r.randint(0, 2**31))
            if r.random() < .3:
                script = [r.random() < .5 for _ in range(60)]
                random.random = Coins(script)
            try:
                out = codec.stochastic_split(ids, split_ratio=ratio / 100)
                named = codec.stochastic_split(ids, split_ratio=ratio / 100, name=True)
                enc = codec.encode(l, split_ratio=ratio / 100)
                encs = codec.encode_str(l, split_ratio=ratio / 100)
            finally:
                random.random = saved
            ev.append(dict(op='split', seq=ids, out=out, ratio=ratio))
            base = dict(op='encode', plain=[cps(p) for p in plain], ratio=ratio, dec_plain=cps(codec.decode(ids)))
            ev.append(dict(base, out=[cps(p) for p in encs], dec_out=cps(codec.decode_str(encs))))
            ev.append(dict(base, out=[cps(codec.table[i].name) for i in enc], dec_out=cps(codec.decode(enc))))
            ev.append(dict(base, out=[cps(p) for p in named], dec_out=cps(codec.decode_str(named))))
    def leaves(t):
        return sum(map(leaves, t.kids)) if t.kids else 1
    def count(t):
        return 1 + count(t.kids[0]) * count(t.kids[1]) if t.kids else 1
    for t in [t for t in codec.table if leaves(t) <= 7 or count(t) <= case.get('listed', 0)][-8:]:
        ev.append(dict(op='perms', id=t.idx, perms=t.get_permutations(), named=[[cps(n) for n in p] for p in t.get_permutations(name=True)]))
        out = t.get_stochastic_split(split_ratio=case['ratios'][0] / 100)
        ev.append(dict(op='split', seq=[t.idx], out=out, ratio=case['ratios'][0]))
    return dict(names=[cps(t.name) for t in tab], kids=[[k.idx for k in t.kids] if t.kids else [] for t in tab], ev=ev)


def deep(i):
    """merge trees with long chains, or with hundreds of expansions"""
    r = gen.rng('c10d', i)
    n = r.randint(1, 3)
    kids, width, ways = [[] for _ in range(n)], [1] * n, [1] * n
    shape = r.choice(['double', 'left', 'right', 'mixed', 'mixed'])
    for k in range(n, n + r.choice([4, 5, 12, 25, 60])):
        a, b = {'double': (k - 1, k - 1), 'left': (k - 1, r.randrange(n)), 'right': (r.randrange(n), k - 1),
                'mixed': (r.randrange(max(0, k - 4), k), r.randrange(k))}[shape]
        if width[a] + width[b] > 80 or 1 + ways[a] * ways[b] > 1500:
            break
        kids.append([a, b])
        width.append(width[a] + width[b])
        ways.append(1 + ways[a] * ways[b])

    def spell(k):
        return spell(kids[k][0]) + spell(kids[k][1]) if kids[k] else 'abc'[k]
    last = [spell(k) for k in range(max(0, len(kids) - 2), len(kids))]
    return dict(kind='made', kids=kids, texts=[last[-1], last[0] + last[-1] + ' ' + last[0]], ratios=[r.choice([10, 50, 90, 99]), 100],
                seed=i, listed=1500)


def chain(case):
    """pieces nested as deep as they are long"""
    from nlcodec.codec import BPEScheme, Type, Reseved
    n, flipped = case['n'], case['flipped']
    tab = Reseved.with_reserved_types()
    base = len(tab)
    tab.append(Type('a', level=0, idx=base, freq=1))
    for k in range(base + 1, base + n):
        tab.append(Type('a' * (k - base + 1), level=1, idx=k, freq=1, kids=(tab[base], tab[k - 1]) if flipped else (tab[k - 1], tab[base])))
    codec = BPEScheme(tab)
    r = random.Random(case['seed'])
    ev = []
    for ratio in (0, 10, 90, 99, 100):
        random.seed(r.randint(0, 2**31))
        for id in (base + n - 1, r.randrange(base, base + n)):
            e = dict(op='chain', base=base, id=id, ratio=ratio, flipped=flipped, outcome='ok', out=[], perms=[])
            try:
                e['out'] = [int(x) for x in codec.stochastic_split([id], split_ratio=ratio / 100)]
                if ratio == 0:
                    leaf = [base]
                    for p in tab[id].get_permutations():
                        row, rest = (p[-1], p[:-1]) if flipped else (p[0], p[1:])
                        e['perms'].append([row, len(rest)] if rest == leaf * len(rest) else [-1, 0])
            except RecursionError:
                e['outcome'] = 'too deep'
            ev.append(e)
    return dict(names=[cps(t.name) for t in tab[:7]], kids=[[] for t in tab[:7]], ev=ev)


def make(i):
    r = gen.rng('c10', i)
    if r.random() < .5:
        alpha = gen.alphabet(r)
        c = dict(kind='learned', src='lines', lines=gen.corpus(r, alpha, reserved=.1), scheme='bpe', minev=1)
        c['size'] = len(set(''.join(c['lines']))) + 6 + r.choice([4, 12, 40])
        words = [w for l in c['lines'] for w in l.split()]
        c['texts'] = [gen.line(r, words + ['zq', gen.repeaty(r, alpha)], lo=0, hi=4) for _ in range(3)]
    else:
        # arbitrary merge tables; different trees may spell the same piece
        n, m = r.randint(1, 3), r.randint(1, 7)
        kids = [[] for _ in range(n)]
        width = [1] * n
        for k in range(n, n + m):
            a, b = r.randrange(k), r.randrange(k)
            if width[a] + width[b] > 9:
                a = b = 0
            kids.append([a, b])
            width.append(width[a] + width[b])
        c = dict(kind='made', kids=kids)
        letters = 'abc'[:n]
        c['texts'] = [''.join(r.choice(letters + ' ') for _ in range(r.randint(0, 14))) for _ in range(3)]
    if i % 50 == 7:
        c['texts'].append(' '.join([x for x in c['texts'] if x.strip()] or ['a'])[:50] * r.choice([8, 12]))
        c['texts'].append((c['texts'][0].strip() or 'a')[:6] + ' ' + 'a ' * r.choice([520, 1100]))
    c['ratios'] = [r.choice([0, 10, 50, 90]), 100, 0]
    c['seed'] = i
    return c


def main():
    c = Check('C10')
    bs = c.behaviours_from('MCSplits', 'MCSplits_big.cfg' if THOROUGH else None, workers=4, timeout=3000)
    outs = {}
    for b in bs:
        outs.setdefault(repr(b['kids']), set()).add(tuple(b['out']))
    batches = [(bs[i::16], outs) for i in range(16)]
    for b, (s, v) in zip(batches, run_cases(replay, batches, timeout=300)):
        if s != 'ok':
            c.violation('splitting', dict(status=s, detail=v))
        else:
            for x in v[:3]:
                c.violation('a split follows the merge trees', x)
    c.behaviours += len(bs)
    cases = [make(i) for i in range(3000 if THOROUGH else 400)] + [deep(i) for i in range(400 if THOROUGH else 60)]
    traces = c.case_failures(cases, run_cases(record, cases), 'splitting legal text')
    chains = [dict(n=n, flipped=k % 2 == 1, seed=k) for k, n in enumerate([1, 2, 60, 300, 700, 990, 1010, 1300])]
    traces += c.case_failures(chains, run_cases(chain, chains, chunk=1, timeout=60), 'splitting deep pieces')
    c.validate('TrSplits', traces, timeout=3000)
    c.notes['splits'] = sum(len(t['ev']) for t in traces)
    return c.finish(rule='every merge table with 2 leaves and 3 merges and every outcome of the coins (replayed with scripted coins); '
                         'learned and arbitrary merge tables with seeded randomness, ratios 0, 0.1, 0.5, 0.9, 1; pieces of up to 1500 expansions and pieces nested up to 1300 deep')
