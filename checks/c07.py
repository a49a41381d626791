"""C07: BPE segmentation is leftmost-longest over the vocabulary."""
from lib.vlib import Check, run_cases, cps, THOROUGH, SEED
from lib import gen


def table(names):
    from nlcodec.codec import Type, Level, Reseved
    t = Reseved.with_reserved_types()
    return t + [Type(n, level=Level.char, idx=i, freq=1) for i, n in enumerate(names, start=len(t))]


def text_of(codes):
    return ''.join(map(chr, codes))


def replay(batch):
    """behaviours of the model -> differences"""
    from nlcodec.codec import BPEScheme
    from collections import defaultdict
    groups = defaultdict(list)
    for b in batch:
        groups[tuple(sorted(map(tuple, b['vocab'])))].append(b)
    bad = []
    for vocab, bs in groups.items():
        names = [text_of(v) for v in vocab if text_of(v) != gen.MARK]
        codec = BPEScheme(table(names))
        for b in bs:
            line = text_of(b['text'])[:-1]
            want = [text_of(p) or '<unk>' for p in b['out']]
            got = codec.encode_str(line)
            ids = codec.encode(line)
            if got != want or [codec.table[i].name for i in ids] != want:
                bad.append(dict(names=names, line=line, want=want, got=got, ids=ids))
    return bad


def record(case):
    from nlcodec.codec import BPEScheme, learn_vocab
    if case['kind'] == 'learned':
        tab = learn_vocab(case['corpus'], 'bpe', None, case['size'], min_co_ev=1, char_coverage=1.0)
    else:
        tab = table(case['names'])
    codec = BPEScheme(tab)
    ev = []
    for l in case['lines']:
        ids = codec.encode(l)
        pieces = codec.encode_str(l)
        ev.append(dict(op='encode', text=cps(l), ids=list(ids), pieces=[cps(p) for p in pieces]))
        for x in (ids, pieces):         # a result belongs to the caller
            if isinstance(x, list) and case['spoil']:
                x.reverse()
                x += x[:1]
    return dict(names=[cps(t.name) for t in tab], ev=ev)


def make(i):
    r = gen.rng('c07', i)
    alpha = gen.alphabet(r, r.randint(1, 4))
    k = r.random()
    if i % 50 == 3:         # very long pieces, made and learned
        g = gen.giant(r, alpha)
        lines = [g, g[:-1] + ' ' + g[3:] + 'q', g[1:400] + g]
        if r.random() < .5:
            return dict(kind='learned', corpus=[g, g, 'b ' + g[:7]], size=len(set(g)) + 9 + r.choice([4, 9, 12, 16]), lines=lines, spoil=False)
        return dict(kind='made', names=[g[:r.choice([1, 2, 3, 8, 200, 499, 510, 999, 1000, 1024, len(g)])] for _ in range(5)], lines=lines, spoil=False)
    if k < 0.25:
        corpus = gen.corpus(r, alpha, reserved=0.2)
        n_chars = len(set(''.join(corpus))) + 8
        lines = [gen.line(r, corpus + [gen.repeaty(r, alpha), 'zzq']) for _ in range(6)]
        if r.random() < .3:
            lines.append(r.choice(gen.RESERVED) + r.choice(['', ' ', 'a']) + r.choice(alpha))
        return dict(kind='learned', corpus=corpus, size=n_chars + r.randint(1, 30), lines=lines + lines[:2], spoil=r.random() < .5)
    pool = alpha + [gen.MARK]
    names = []
    n = r.randint(0, 12) if i % 50 != 7 else r.choice([100, 300])
    while len(names) < n:
        if names and r.random() < 0.6:   # grow around an existing piece: dead ends, shared prefixes
            b = r.choice(names)
            p = b[:r.randint(0, len(b))] + gen.word(r, pool, 1, r.choice([1, 2, 5, 12]))
        else:
            p = gen.word(r, pool, 1, r.choice([1, 2, 4, 8]))
        names.append(p)
        if r.random() < .1:
            names.append(p)   # duplicate name
    r.shuffle(names)
    if r.random() < .1:
        names += ['<s>a', '<', '</', '<unk>b'][:r.randint(1, 4)]
    pieces = (names or ['a'])
    lines = []
    for _ in range(8):
        # texts put together from (damaged) pieces
        s = ''
        for _ in range(r.randint(0, 8)):
            p = r.choice(pieces)
            s += p if r.random() < .6 else p[:r.randint(0, len(p))]
            if r.random() < .15:
                s += r.choice(['q', 'é', '<unk>', r.choice(alpha)])
        s = s.replace(gen.MARK, ' ') if r.random() < .7 else s
        if r.random() < .2:
            s = s.replace(' ', r.choice(gen.SPACES))
        lines.append(s[:60])
    lines += r.sample(lines, 2)          # again, after others
    if i % 50 == 9:
        lines.append(''.join(r.choice(pieces + alpha) for _ in range(1500)))
    if r.random() < .05:
        lines.append(gen.word(r, pool, 300, 400))
    return dict(kind='made', names=names, lines=lines, spoil=r.random() < .5)


def main():
    c = Check('C07')
    n = 3000 if THOROUGH else 500
    if THOROUGH:
        c.spawn(c.design_check, 'MCSegment', 'MCSegment_big.cfg', workers=3, timeout=3000)
    bs = c.behaviours_from('MCSegment', workers=3)
    batches = [bs[i::24] for i in range(24)]
    for b, (s, v) in zip(batches, run_cases(replay, batches, timeout=120)):
        if s != 'ok':
            c.violation('segmenter fails on a behaviour of the model', dict(status=s, detail=v))
        else:
            for d in v[:3]:
                c.violation('leftmost-longest segmentation', d)
    c.behaviours += len(bs)
    cases = [make(i) for i in range(n)]
    traces = c.case_failures(cases, run_cases(record, cases), 'segmentation of legal input')
    c.validate('TrSegment', traces)
    c.notes['encodings'] = sum(len(t['ev']) for t in traces)
    return c.finish(rule='vocabulary grown around shared prefixes, reserved names and learned ones; texts assembled from '
                         'whole and cut pieces; all vocabularies and texts of the design model replayed')
