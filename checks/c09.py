"""C09: the class codec is a stable bijection between labels and ids."""
import os, tempfile
from lib.vlib import Check, run_cases, THOROUGH, cps
from lib import gen, learn
from checks.c07 import text_of


def code(codec, t):
    ids = codec.encode(t)
    try:
        back = dict(decodes=True, dec=cps(codec.decode(ids)))
    except Exception:
        back = dict(decodes=False, dec=[])
    return dict(op='code', text=cps(t), ids=ids, pieces=[cps(p) for p in codec.encode_str(t)], **back, dec_pieces=cps(codec.decode_str(codec.encode_str(t))))


def safe_code(codec, t):
    try:
        return code(codec, t)
    except Exception:      # refusing an unknown label is fine; the specification decides whether it is unknown
        return dict(op='code', text=cps(t), ids=[], pieces=[], decodes=False, dec=[], dec_pieces=[])


def record(case):
    from nlcodec.codec import ClassScheme
    table = learn.learn(case)
    codec = ClassScheme(table)
    ev = [dict(op='table', rows=[dict(idx=r['idx'], name=r['name'], freq=r['freq']) for r in learn.rows_of(table)])]
    ev += [safe_code(codec, t) for t in case['texts']]
    ids = [case['seed'] * 7919 * k % len(table) for k in range(1, case['seed'] % 5 + 1)] if table else []
    for s in (ids, ids[:1] * 2 + ids[1:]):
        ev.append(dict(op='several', ids=s, out=cps(codec.decode(s)), outp=cps(codec.decode_str([table[k].name for k in s]))))
    return dict(learn.header(case), ev=ev)


LABELS = ['a', 'b', 'B', 'a b', 'a  b', 'a,b', ',', 'NOUN', 'noun', '<unk>', '<pad>', '▁', '', '0', '10', '2', '-1', 'é', 'e\u0301',
          'ß', 'ss', '中', '😀', 'a\u00a0b', '#', '##', '#a', '{', '__label__x', 'a,b,c', '<s>', ' ', '\ufeff', 'Z', '_', '~']


def make(i):
    r = gen.rng('c09', i)
    seed = r.randrange(10**6)
    pool = r.sample(LABELS, r.randint(1, 8))
    if r.random() < .4:
        pool += [gen.word(r, gen.NICE + [' ', ',', '1', 'é'], 1, 5) for _ in range(r.randint(1, 15))]
    labels = [r.choice(pool) for _ in range(r.randint(1, 20))]
    c = dict(scheme='class', size=r.choice([-1, 0, 1, 2, 5, 100]), minfreq=r.choice([0, 1, 2, 5]), cov=r.choice([None, (1, 2), (9, 10), (1, 1)]),
             iter=r.random() < .5, seed=seed)
    if r.random() < .3:
        d = {}
        for l in labels:
            d[l.strip()] = d.get(l.strip(), 0) + r.choice([1, 3, 500])
        c.update(src='tfs', tfs=list(d.items()), line_count=len(labels))
    else:
        deco = lambda l: r.choice(['', '', ' ', '\t', '\u3000']) + l + r.choice(['', '', ' ', '  '])
        c.update(src='lines', lines=[deco(l) for l in labels], nl=r.random() < .6)
    c['texts'] = [l + r.choice(['', ' ', '\n']) for l in r.sample(LABELS, 10) + r.sample(pool, min(len(pool), 6))] + ['nope', 'a b ', 'b a']
    if i % 50 == 7:         # many labels, long labels
        pool = list({gen.line(r, [gen.word(r, gen.NICE, 1, 4), 'of', 'x,'], lo=1, hi=5, edges=False) for _ in range(r.choice([130, 300, 700]))}) + ['long ' * 300 + 'l', 'z' * 1100]
        c.update(src='lines', lines=[r.choice(pool) for _ in range(r.choice([200, 1200]))] + pool[-40:], nl=r.random() < .6)
        c['texts'] = r.sample(pool, 20) + pool[-2:] + ['nope']
    if i % 50 == 13 or i % 100 == 23:  # labels of one kind; many more
        k = ['numbers', 'cases', 'prefix', 'times', 'floats', 'numbers'][i // (50 if i % 50 == 13 else 100) % 6]
        n = r.choice([3, 12, 40]) if i % 50 == 13 else 1700
        pool = {'numbers': lambda: str(r.choice([r.randint(0, 12), r.randint(0, 10**4), r.randint(0, 10**4), r.randint(0, 10**4), 10 ** r.randint(0, 9)])), 'cases': lambda: ''.join(r.choice('aAbBcC') for _ in range(r.randint(1, 7))),
                'prefix': lambda: 'label_%d' % r.randint(0, 3 * n), 'times': lambda: '20%02d-%d' % (r.randint(0, 99), r.randint(1, 99)),
                'floats': lambda: '%s%d.%d' % (r.choice(['', '-', '+']), r.randint(0, 12), r.randint(0, 99))}[k]
        pool = list({pool() for _ in range(n)})
        c.update(src='lines', lines=r.choices(pool, k=n) + pool, nl=r.random() < .6)
        r.shuffle(c['lines'])
        c['texts'] = r.sample(pool, min(len(pool), 12)) + ['nope', '00', '07']
    if r.random() < .2 and c['src'] == 'lines':
        c['lines'].append('a\rb')
        c['texts'].append('a\rb')
    return c


def replay(bs):
    from nlcodec.codec import learn_vocab, ClassScheme
    bad = []
    for b in bs:
        t = learn_vocab([text_of(l) for l in b['lines']], 'class', None, -1)
        got = [dict(idx=x.idx, name=cps(x.name), freq=x.freq) for x in t]
        codec = ClassScheme(t)
        again = [codec.decode(codec.encode(text_of(l))) for l in b['lines']]
        if got != b['table'] or again != [text_of(l) for l in b['lines']]:
            bad.append(dict(b, got=got, again=again))
    return bad


def main():
    c = Check('C09')
    bs = c.behaviours_from('MCClasses', 'MCClasses_big.cfg' if THOROUGH else None, workers=4)
    batches = [bs[i::16] for i in range(16)]
    for b, (s, v) in zip(batches, run_cases(replay, batches, timeout=300)):
        if s != 'ok':
            c.violation('learning and using labels', dict(status=s, detail=v))
        else:
            for x in v[:3]:
                c.violation('exactly the distinct labels, in alphabetical order', x)
    c.behaviours += len(bs)
    cases = [make(i) for i in range(4000 if THOROUGH else 700)]
    traces = c.case_failures(cases, run_cases(record, cases), 'learning labels')
    c.validate('TrClasses', traces)
    return c.finish(rule='every sequence of up to 4 labels out of 6 in the model replayed; generated multisets of odd labels in any order, '
                         'with limits that must not matter; known and unknown labels encoded')
