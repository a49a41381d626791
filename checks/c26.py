"""C26: explicit-vowel transcription of Devanagari is reversible on regular text."""
import importlib.util, io, os, subprocess, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH, cps, REPO, PY
from lib import gen

FILE = REPO / 'experimental' / 'unicode_fix.py'


def load():
    s = importlib.util.spec_from_file_location('unicode_fix', FILE)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def tool(mod, lang, lines, decode, end, how):
    text = '\n'.join(lines) + ('\n' if end and lines else '')
    seen = text.split('\n')[:-1] if text.endswith('\n') or not text else text.split('\n')
    if how == 'lib':
        out = io.StringIO()
        mod.main(io.StringIO(text), out, lang, decode=decode)
        res = out.getvalue()
    elif how == 'all':
        fn = mod.get_aubugida(lang)
        res = ''.join(l + '\n' for l in (fn.decode_all if decode else fn.encode_all)(io.StringIO(text)))
    else:
        with tempfile.TemporaryDirectory(prefix='vuf') as d:
            i, o = Path(d) / 'i', Path(d) / 'o'
            i.write_bytes(text.encode())
            cmd = [PY, str(FILE), '-l', lang] + (['-d'] if decode else [])
            if how == 'files':
                subprocess.run(cmd + ['-i', str(i), '-o', str(o)], check=True, timeout=60)
                res = o.read_bytes().decode()
            else:
                res = subprocess.run(cmd, input=text.encode(), stdout=subprocess.PIPE, check=True, timeout=60, env=dict(os.environ, PYTHONUTF8='1')).stdout.decode()
    got = res.split('\n')
    return seen, [cps(x) for x in (got[:-1] if got[-1] == '' else got + ['?'])]


def safe(fn, *a):
    try:
        return dict(outcome='ok', out=cps(fn(*a)))
    except Exception:
        return dict(outcome='raised', out=[])


def record(case):
    m = load()
    lang = m.get_aubugida(case['lang'])
    lite = m.AbugidaLangLite('lite', vowels=dict(lang.vowel_to_form), consonants=set(lang.consonants), impl_vowel=lang.impl_vowel, virama=lang.virama)
    ev = []
    for t in case['texts']:
        for a, b, l in (('explicit', 'back', lang), ('lite', 'liteback', lite)):
            x = safe(l.encode, t)
            ev.append(dict(op=a, text=cps(t), **x))
            if x['outcome'] == 'ok':
                ev.append(dict(op=b, text=cps(t), **safe(l.decode, ''.join(map(chr, x['out'])))))
            ev.append(dict(op='any', text=cps(t), **safe(l.decode, t)))
    for decode, end, how in case['tools']:
        lines = case['lines']
        src = [lang.encode(x) for x in lines] if decode else lines
        seen, out = tool(m, case['lang'], src, decode, end, how)
        want = [cps(x) for x in lines][:len(seen)]
        ev.append(dict(op='tool', decode=decode, lines=want, outcome='ok', out=out))
    return dict(name='ab', ev=ev)


CONS = list(range(0x915, 0x93a)) + list(range(0x958, 0x960))
VOWELS = [0x906, 0x907, 0x908, 0x909, 0x90a, 0x90b, 0x960, 0x90d, 0x90e, 0x90f, 0x910, 0x911, 0x912, 0x913, 0x914, 0x90c, 0x961]
SIGNS = [0x93e, 0x93f, 0x940, 0x941, 0x942, 0x943, 0x944, 0x945, 0x946, 0x947, 0x948, 0x949, 0x94a, 0x94b, 0x94c, 0x962, 0x963]
OTHER = [0x901, 0x902, 0x903, 0x93c, 0x93d, 0x964, 0x966, 0x97d, 0x94e, 0x957, 0x61, 0x2c, 0xa0, 0x200d, 0x904, 0x972, 0x995, 0x1f600, 0xe001, 0xb, 0x3000, 0x2d]


def words(r, regular):
    """words put together from syllables"""
    out = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        w = []
        for _ in range(r.choice([1, 2, 3, 5])):
            k = r.random()
            c = r.choice(CONS if r.random() < .6 else CONS[:2] + CONS[-9:])
            if k < .25:
                w += [c]
            elif k < .5:
                w += [c, r.choice(SIGNS)]
            elif k < .7:
                w += [c, 0x94d, r.choice(CONS)] + ([r.choice(SIGNS)] if r.random() < .5 else [])
            elif k < .85:
                w += [r.choice(VOWELS + [0x905])]
            elif k < .93:
                w += [r.choice(OTHER)]
            else:
                w += [c, 0x94d, c, 0x94d, r.choice(CONS)]
        if r.random() < .15:
            w += [r.choice(CONS), 0x94d]
        if not regular and r.random() < .5:
            w.insert(r.randint(0, len(w)), r.choice([0x94d, 0xe000, 0x93e, 0x905, 0x94d]))
        out.append(''.join(map(chr, w)))
    return out


def make(i):
    r = gen.rng('c26', i)
    reg = r.random() < .8
    sp = [' ', ' ', '  ', '\t', '\n']
    texts = []
    for _ in range(8):
        ws = words(r, reg)
        texts.append(r.choice(['', '', ' ']) + ''.join(w + r.choice(sp) for w in ws[:-1]) + ws[-1] + r.choice(['', '', ' ', '\n']))
    if i % 50 == 7:
        texts.append(' '.join(w for _ in range(r.choice([60, 200])) for w in words(r, True)))
        texts.append(''.join(w for _ in range(60) for w in words(r, True)))
    lines = [' '.join(words(r, reg)).replace('\x0b', '') for _ in range(r.choice([0, 1, 3]) if i % 50 != 7 else 150)] + r.choice([[], [''], ['', 'a']])
    how = r.choice(['lib', 'all']) if i % 8 else r.choice(['files', 'pipe'])
    return dict(texts=texts, lines=lines, lang='hin' if i % 8 == 0 and r.random() < .5 else 'devanagari' if i % 8 == 0 else r.choice(['hin', 'devanagari', 'hindi', 'sanskrit']),
                tools=[(d, r.random() < .6, how) for d in (False, True)])


def main():
    c = Check('C26')
    bs = c.behaviours_from('MCAbugida')
    bs += c.behaviours_from('MCAbugida', 'MCAbugida_lite.cfg')
    c.spawn(c.design_refuted, 'MCAbugida', 'MCAbugida_bad.cfg', 'Restored', 1)
    if THOROUGH:
        c.spawn(c.design_check, 'MCAbugida', 'MCAbugida_big.cfg', 4)
    texts = sorted({''.join(map(chr, b['text'])) for b in bs})
    ka, kha, vir = 'क', 'ख', '\u094d'
    dev = [chr(x) for x in range(0x900, 0x980)] + [chr(x) for x in (list(range(0x110000) if THOROUGH else range(0x3000))) if not 0x900 <= x < 0x980 and not 0xd800 <= x < 0xe000][::1 if THOROUGH else 7]
    # every code point in every place: alone, first, after a consonant, between consonants, after a vowel, at the end
    frames = ['{}', '{}क', 'क{}', 'क{}ख', 'आ{}', 'आ{}क', 'का{}', 'का{}ग', 'क्{}', 'क्ख{}', 'a {} b', ' {}']
    singles = [f.format(x) for f in frames for x in dev[:128]]
    singles += [' '.join(f.format(x) for f in frames if f != 'क्{}') for x in dev[128:]]     # only the virama makes these irregular
    pairs = [a + b for a in map(chr, CONS) for b in map(chr, CONS)] + [a + vir + b for a in map(chr, CONS[::5]) for b in map(chr, CONS)]
    pairs += [a + s for a in map(chr, CONS) for s in map(chr, SIGNS)] + [v + s for v in map(chr, VOWELS + [0x905]) for s in map(chr, VOWELS + [0x905] + SIGNS)]
    lines = [' '.join(pairs[k:k + 20]) for k in range(0, len(pairs), 20)]
    alltexts = texts + singles + lines
    cases = [dict(texts=alltexts[k:k + 40], lines=[], tools=[], lang='hin') for k in range(0, len(alltexts), 40)] + [make(i) for i in range(4000 if THOROUGH else 500)]
    traces = c.case_failures(cases, run_cases(record, cases, timeout=100, procs=7), 'transcribing')
    c.behaviours += len(bs)
    c.validate('TrAbugida', traces)
    return c.finish(rule='every regular text of up to 4 symbols over 8 representatives, for both variants; every Devanagari code point and a seventh of those below U+3000 (thorough: all of Unicode) in '
                         'ten places; every pair of consonants, consonant and sign, vowel and vowel; generated words of syllables through the API, the line functions and the tool')
