"""C08: the byte codec is lossless and its decoder total."""
from lib.vlib import Check, run_cases, THOROUGH, cps
from lib import gen
from checks.c07 import text_of


def replay(bs):
    from nlcodec.codec import ByteScheme
    codec = ByteScheme()
    bad = []
    for b in bs:
        try:
            got = cps(codec.decode(b['ids']))
        except Exception as e:
            got = repr(e)
        if got != b['text']:
            bad.append(dict(b, got=got))
    return bad


def encode_ev(codec, t):
    ids = codec.encode(t)
    return dict(op='encode', text=cps(t), ids=ids, dec=cps(codec.decode(ids)), dec_str=cps(codec.decode_str(codec.encode_str(t))))


def decode_ev(codec, ids):
    try:
        return dict(op='decode', ids=list(ids), outcome='ok', text=cps(codec.decode(list(ids))))
    except Exception as e:
        return dict(op='decode', ids=list(ids), outcome='failed', text=cps(repr(e)[:100]))


def record(case):
    from nlcodec.codec import ByteScheme
    codec = ByteScheme(ByteScheme.learn()) if case.get('learned') else ByteScheme()
    return dict(kind='bytes', ev=[encode_ev(codec, t) for t in case['texts']] + [decode_ev(codec, ids) for ids in case['ids']] +
                [encode_ev(codec, t) for t in case['texts'][:2]])


def make(i):
    r = gen.rng('c08', i)
    def char():
        k = r.random()
        c = (r.randint(0, 31) if k < .2 else r.randint(32, 127) if k < .4 else r.randint(128, 0x7ff) if k < .55 else
             r.randint(0x800, 0xffff) if k < .75 else r.randint(0x10000, 0x10ffff) if k < .9 else
             r.choice([0, 9, 10, 13, 0x7f, 0x80, 0x85, 0xa0, 0x2028, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0xe000, 0xd7ff, 0x10ffff]))
        return chr(c if not 0xd800 <= c <= 0xdfff else 0x41)
    texts = [''.join(char() for _ in range(r.randint(0, 12))) for _ in range(6)]
    texts += r.sample(['', '\n', '\r\n', '\t', 'a\x00b', '<s>', 'a</s>', ' a ', '\u0301', '0f', 'f', '\x0f\x01', 'e\u0301', '\ufeffx'], 4)
    if r.random() < .05:
        texts.append(''.join(char() for _ in range(300)))
    ids = []
    for _ in range(8):
        n = r.randint(0, 14)
        k = r.random()
        if k < .3:
            s = [r.randint(0, 257) for _ in range(n)]
        else:   # damaged valid text, markers put in
            s = list(''.join(char() for _ in range(r.randint(0, 6))).encode())
            for _ in range(r.randint(0, 3)):
                op = r.random()
                p = r.randint(0, len(s))
                if op < .4:
                    s.insert(p, r.choice([256, 257]))
                elif op < .7 and s:
                    del s[min(p, len(s) - 1)]
                elif s:
                    s[min(p, len(s) - 1)] = r.randint(0, 255)
        ids.append(s)
    if i % 100 == 5:
        ids.append(list(('x' * r.randint(0, 3) + r.choice('é中😀') * r.choice([2100, 4500])).encode()))
        ids.append(list(''.join(char() for _ in range(r.choice([1100, 4500]))).encode()))
        for n in (1500, 4500):
            s = list(''.join(char() for _ in range(n)).encode())
            for _ in range(20):
                s[r.randrange(len(s))] = r.choice([0x80, 0xff, 0xc3, 0xf0, 256, 257])
            ids.append(s)
        texts.append(''.join(char() for _ in range(1500)))
    return dict(texts=texts, ids=ids, learned=r.random() < .5)


def main():
    c = Check('C08')
    bs = c.behaviours_from('MCBytes', 'MCBytes_big.cfg' if THOROUGH else None, workers=4, timeout=3000)
    batches = [bs[i::16] for i in range(16)]
    for b, (s, v) in zip(batches, run_cases(replay, batches, timeout=300)):
        if s != 'ok':
            c.violation('decoding', dict(status=s, detail=v))
        else:
            for x in v[:3]:
                c.violation('valid runs decode, invalid bytes are replaced, markers appear as themselves', x)
    c.behaviours += len(bs)
    cases = [make(i) for i in range(3000 if THOROUGH else 500)]
    # every code point (a coarse sweep in quick), in blocks
    step = 1 if THOROUGH else 97
    points = [p for p in list(range(0, 0x3000)) + list(range(0x3000, 0x110000, step)) if not 0xd800 <= p <= 0xdfff]
    cases += [dict(texts=[''.join(map(chr, points[k:k + 200]))], ids=[]) for k in range(0, len(points), 200)]
    # every byte on its own and before/after a character, every pair of lead and continuation
    cases += [dict(texts=[], ids=[[b] for b in range(258)] + [[97, b, 98] for b in range(258)]),
              dict(texts=[chr(b) for b in range(256)], ids=[])]
    cases += [dict(texts=[], ids=[[b, x, 65] for x in (10, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc2, 256)]) for b in range(128, 256)]
    traces = c.case_failures(cases, run_cases(record, cases), 'coding a legal text')
    c.validate('TrBytes', [t for t in traces if t['ev']])
    c.notes['code_points_swept'] = len(points)
    return c.finish(rule='every id sequence up to length 3 over 15 representative ids and every text up to 2 of 13 representative '
                         'characters; sweep over code points; random texts and damaged byte sequences with markers')
