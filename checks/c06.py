"""C06: word, character and BPE codecs decode back to the original text."""
import unicodedata
from lib.vlib import Check, run_cases, THOROUGH, cps
from lib import gen, learn
from checks.c07 import table, text_of


def make_codec(scheme, tab):
    from nlcodec.codec import REGISTRY
    return REGISTRY[scheme](tab)


def code(codec, l):
    ids = codec.encode(l)
    pieces = codec.encode_str(l)
    return dict(op='code', text=cps(l), ids=ids, pieces=[cps(p) for p in pieces],
                dec_ids=cps(codec.decode(ids)), dec_pieces=cps(codec.decode_str(pieces)))


def record(case):
    if case['kind'] == 'learned':
        try:
            tab = learn.learn(case)
        except AssertionError as e:
            if 'is too small' in str(e):
                return None
            raise
    else:
        tab = table(case['names'])
    codec = make_codec(case['scheme'], tab)
    return dict(scheme=case['scheme'], names=[cps(t.name) for t in tab], ev=[code(codec, l) for l in case['texts']])


def make(i):
    r = gen.rng('c06', i)
    alpha = gen.alphabet(r)
    if r.random() < .2:
        alpha = r.sample(gen.ODD, 5)
    scheme = r.choice(['word', 'char', 'bpe'])
    c = learn.data(r, alpha, reserved=0.2, tf=.1)
    c.update(kind='learned', scheme=scheme, minev=1, iter=False)
    chars = set(''.join(c['lines']) if c['src'] == 'lines' else ''.join(w for w, f in c['tfs']))
    c['size'] = len(chars) + 6 + r.choice([1, 4, 8, 40]) if c['scheme'] == 'bpe' else r.choice([0, 0, 0, 9, 12])
    if scheme == 'char' and r.random() < .3:
        c['minfreq'] = 2
    if scheme == 'bpe' and r.random() < .3:
        c['cov'] = (8, 10)      # rare characters become unknown
        c['size'] += 4
    words = ([w for l in c['lines'] for w in l.split()] if c['src'] == 'lines' else [w for w, f in c['tfs']]) or ['a']
    if r.random() < .2:
        c.update(kind='made', names=list(dict.fromkeys(r.sample(words, min(3, len(words))) + list(set(alpha)) + [''.join(words[:2])])))
        c['names'] = [n for n in c['names'] if n not in gen.RESERVED]
    t = list(c.get('lines', []))
    t += [gen.line(r, words, gen.SPACES) for _ in range(5)]
    t += [gen.line(r, words + ['zq', 'q', 'éa', r.choice(words) + 'q', '😀', r.choice(alpha) + '<unk>'], lo=1) for _ in range(4)]
    t += r.sample(['', ' ', '\t \u3000', '\n', r.choice(words) + '\n', ' ' + r.choice(words) + '\r\n', '▁', 'a▁', 'a ▁ b',
                   '<s> a </s>', 'a<pad>b', '<unk>', '<cls>a'], 4)
    if r.random() < .3:
        t.append(' '.join(r.choice(words + ['q']) for _ in range(r.choice([20, 60, 150]))))
    if r.random() < .2:
        t.append(' '.join(r.choice(gen.NATURAL) for _ in range(r.choice([5, 40]))))
    if i % 75 == 3:
        c.update(src='lines', scheme='bpe', kind='learned', lines=gen.giants(r, alpha))
        c['size'] = len(set(''.join(c['lines']))) + 6 + r.choice([9, 12, 16])
        t = c['lines'][:2] + [c['lines'][-1] + 'q ' + c['lines'][0][:99]]
    if i % 75 == 9:
        t.append(gen.longline(r, words + ['q'], r.choice([300, 1100, 2600])))
    near = lambda w: r.choice([w + '\u200b', '\u200d' + w, '\ufeff' + w, w + '\ufe0f', w.upper(), w.lower(), w.title(), w + '.', w + '\u0301', unicodedata.normalize('NFKC', w),
                               unicodedata.normalize('NFD', w), ''.join(chr(ord(ch) + 0xfee0) if '!' <= ch <= '~' else ch for ch in w), w[::-1], w + w, "'" + w, w + '\xad'])
    t += [' '.join(near(r.choice(words)) if r.random() < .6 else r.choice(words) for _ in range(r.randint(1, 5))) for _ in range(3)]     # words and characters like the known ones
    c['texts'] = t
    return c


def replay(bs):
    bad = []
    from collections import defaultdict
    g = defaultdict(list)
    for b in bs:
        g[(b['scheme'], tuple(map(tuple, b['names'])))].append(b)
    for (scheme, names), gs in g.items():
        codec = make_codec(scheme, table([text_of(n) for n in names]))
        for b in gs:
            line = text_of(b['line'])
            back = codec.decode(codec.encode(line))
            if back != text_of(b['back']):
                bad.append(dict(b, got=back))
    return bad


def main():
    c = Check('C06')
    bs = c.behaviours_from('MCCodec', 'MCCodec_big.cfg' if THOROUGH else None, workers=4)
    batches = [bs[i::16] for i in range(16)]
    for b, (s, v) in zip(batches, run_cases(replay, batches, timeout=300)):
        if s != 'ok':
            c.violation('coding a legal line', dict(status=s, detail=v))
        else:
            for x in v[:3]:
                c.violation('decoding gives back what the model gives', x)
    c.behaviours += len(bs)
    cases = [make(i) for i in range(4000 if THOROUGH else 900)]
    traces = c.case_failures(cases, run_cases(record, cases), 'coding a legal line')
    c.validate('TrCodec', [t for t in traces if t])
    c.notes['lines'] = sum(len(t['ev']) for t in traces if t)
    return c.finish(rule='every line up to 4 characters with every small vocabulary of the model; generated lines with exotic white '
                         'space, unknown words/characters, reserved names, for learned and made vocabularies')
