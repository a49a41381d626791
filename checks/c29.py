"""C29: a codec that replays its merges one by one is, after k merges, the codec of the model cut at that size."""
import os, shutil, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH, cps
from lib import gen, learn
from checks.c22 import table_of


def codec_of(table, d):
    from nlcodec.codec import Type
    from nlcodec.eval.bpe_len import BPECodecXt
    Type.write_out(table, d / 'm', scheme='bpe')
    return BPECodecXt(d / 'm')


def merge_ev(bpe):
    try:
        m = bpe.merge()
    except Exception:
        return dict(op='merge', outcome='refused', name=[], idx=0)
    return dict(op='merge', outcome='ok', name=cps(m.name), idx=int(m.idx))


def record(case):
    d = Path(tempfile.mkdtemp(prefix='vgrow'))
    r = gen.rng('c29r', case['seed'])
    try:
        if case['kind'] == 'learned':
            try:
                table = learn.learn(case)
            except AssertionError as e:
                if 'is too small' in str(e):
                    return None
                raise
        else:
            table = table_of(case['chars'], case['merges'])
        n0 = next((i for i, t in enumerate(table) if t.kids), None)
        if n0 is None:
            return None
        bpe = codec_of(table, d)
        other = codec_of(table, d) if r.random() < .3 else None     # another one, ahead of it
        ev = []

        def look():
            ev.append(dict(op='sizes', len=len(bpe), left=int(bpe.merges_remaining()), total=int(bpe.total_types())))
            for t in r.sample(case['texts'], min(3, len(case['texts']))):
                ids, pieces = list(bpe.encode(t)), list(bpe.encode_str(t))
                ev.append(dict(op='encode', text=cps(t), ids=[int(i) for i in ids], pieces=[cps(p) for p in pieces]))
                ev.append(dict(op='decode', ids=[int(i) for i in ids], text=cps(bpe.decode(ids))))
            if bpe.merges_remaining() and r.random() < .5:
                m = bpe.peek_merge()
                ev.append(dict(op='peek', name=cps(m.name), idx=int(m.idx)))
        for k in range(len(table) - n0):
            if r.random() < case['rate']:
                look()
            if other is not None and other.merges_remaining() and r.random() < .7:
                other.merge()
            ev.append(merge_ev(bpe))
        look()
        if r.random() < .5:
            ev.append(merge_ev(bpe))
            look()
        return dict(names=[cps(t.name) for t in table], n0=n0, ev=ev)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(b):
    """every text after every merge of the model"""
    d = Path(tempfile.mkdtemp(prefix='vgrow'))
    try:
        table = table_of('ab', [(x, y) for x, y in b['merges']])
        bpe = codec_of(table, d)
        bad = []
        for k in range(len(b['merges']) + 1):
            if k:
                bpe.merge()
            for o in b['outs'][str(k)]:
                t = ''.join(map(chr, o['t']))
                want = [''.join(map(chr, p)) or '<unk>' for p in o['out']]
                ids = bpe.encode(t)
                if bpe.encode_str(t) != want or [bpe.table[i].name for i in ids] != want:
                    bad.append(dict(merges=b['merges'], done=k, text=t, want=want, got=bpe.encode_str(t), ids=[int(i) for i in ids]))
        return bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make(i):
    r = gen.rng('c29', i)
    alpha = gen.alphabet(r, r.choice([1, 2, 3, 4]))
    c = learn.data(r, alpha, reserved=0.1, tf=0)
    c.update(scheme='bpe', minev=1, iter=False, kind='learned', seed=i, rate=r.choice([.2, .5, 1]))
    c['size'] = len(set(''.join(c['lines']))) + 6 + r.choice([1, 2, 4, 10, 25])
    words = [w for l in c['lines'] for w in l.split()]
    if r.random() < .4:
        c.update(kind='made', chars=list(dict.fromkeys(alpha)))
        n = 6 + len(c['chars'])
        c['merges'] = [(r.randrange(5, n + m), r.randrange(5, n + m)) for m in range(r.randint(1, 8))]
    if i % 100 == 7:
        c.update(kind='learned', lines=gen.crowd(r, gen.NICE, 120, 200), rate=.05)
        c['size'] = 130
        words = ' '.join(c['lines'][:30]).split()
    c['texts'] = [gen.longline(r, words, 300)] if i % 50 == 7 else []
    c['texts'] += [gen.line(r, words + [gen.repeaty(r, alpha) for _ in range(4)] + ['q'], lo=0, hi=6) for _ in range(6)]
    return c


def main():
    c = Check('C29')
    c.spawn(c.design_refuted, 'MCGrowCodec', 'MCGrowCodec_bad.cfg', 'TreeIsTable')
    bs = c.behaviours_from('MCGrowCodec', 'MCGrowCodec_big.cfg' if THOROUGH else None, workers=4)
    for b, (s, v) in zip(bs, run_cases(replay, bs, timeout=60)):
        if s != 'ok':
            c.violation('replaying merges', dict(status=s, detail=v, behaviour=b['merges']))
        else:
            for x in v[:1]:
                c.violation('the codec after k merges is that of the cut table', x)
    c.behaviours += sum(len(o) for b in bs for o in b['outs'].values())
    cases = [make(i) for i in range(4000 if THOROUGH else 700)]
    traces = c.case_failures(cases, run_cases(record, cases), 'replaying merges')
    c.validate('TrGrowCodec', [t for t in traces if t])
    return c.finish(rule='every table of 2 letters and 2 (thorough 3) merges x every text of up to 3 symbols after every merge; learned models and made-up '
                         'merge lists with texts encoded and decoded between merges, two codecs of one model side by side')
