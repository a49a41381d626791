"""C18: shrinking a vocabulary preserves the encoding of the data it was shrunk to."""
import gzip, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH, cps
from lib import gen, learn
from checks.c05 import rows


def write(path, lines, gz=False, end=True):
    data = ''.join(l + '\n' for l in lines)
    if not end and lines:
        data = data[:-1]
    op = gzip.open if gz else open
    with op(path, 'wb') as f:
        f.write(data.encode('utf-8'))


def replay(bs):
    from nlcodec.codec import BPEScheme, Reseved, Type, Level, load_scheme
    bad = []
    with tempfile.TemporaryDirectory(prefix='c18_') as d:
        f, m = Path(d) / 'data', Path(d) / 'model'
        for b in bs:
            tab = Reseved.with_reserved_types()
            base = len(tab)
            for i, (n, k) in enumerate(zip(b['names'], b['kids'])):
                tab.append(Type(''.join('_abc'[c] for c in n), level=Level.subword if k else Level.char, idx=base + i, freq=1,
                                kids=[tab[base + j - 1] for j in k] if k else None))
            codec = BPEScheme(tab)
            words = [t.name for t, n in zip(tab[base:], b['count']) for _ in range(n)] or ['?']
            write(f, [' '.join(words)])
            old = codec.encode(' '.join(words))
            want = list(range(base)) + [base + i for i, k in enumerate(b['keep']) if k]
            try:
                got = codec.shrink_vocab([f], b['minf'], m)
                new = load_scheme(m)
                ids = new.encode(' '.join(words))
                names = [t.name for t in new.table]
                parts = [[k.name for k in t.kids] if t.kids else [] for t in new.table]
            except Exception as e:
                bad.append(dict(b, got=repr(e)))
                continue
            if list(got) != want or names != [tab[i].name for i in want] or \
                    parts != [[k.name for k in tab[i].kids] if tab[i].kids else [] for i in want] or \
                    (b['minf'] <= 1 and [got[i] for i in ids] != old):
                bad.append(dict(b, got=[int(i) for i in got], want=want, names=names, ids=ids, old=old))
    return bad


def record(case):
    from nlcodec.codec import ByteScheme, REGISTRY, load_scheme
    try:
        table = ByteScheme.learn() if case['scheme'] == 'byte' else learn.learn(case)
    except AssertionError as e:
        if 'is too small' in str(e):
            return None
        raise
    if case['zeros']:       # a table made elsewhere, without counts
        r = gen.rng('c18z', case['zeros'])
        table = learn.refreq(table, lambda f: r.choice([0, 0, f]))
    codec = REGISTRY[case['scheme']](table)
    ev = []
    with tempfile.TemporaryDirectory(prefix='c18_') as d:
        for n, s in enumerate(case['shrinks']):
            files = []
            for k, ls in enumerate(s['files']):
                p = Path(d) / (f'f{n}.{k}' + ('.gz' if s['gz'] else '.txt'))
                write(p, ls, s['gz'], s['end'])
                files.append(p)
            lines = [l for ls in s['files'] for l in ls]
            codes = [codec.encode(l) for l in lines]
            breaks = [[10]] * (sum(map(len, s['files'])) - (0 if s['end'] else sum(1 for x in s['files'] if x))) if case['scheme'] == 'byte' else []
            m = Path(d) / f'm{n}'
            try:
                mp = [int(i) for i in codec.shrink_vocab(files, s['minf'], save_at=m if s['aspath'] else str(m))]
                oc = 'ok'
            except Exception:
                mp, oc = [], 'raised'
            ev.append(dict(op='shrink', codes=codes, breaks=breaks, minf=s['minf'], map=mp, outcome=oc))
            if oc != 'ok':
                break
            try:
                new = load_scheme(m)
                ev.append(dict(op='load', outcome='ok', scheme=new.name, rows=rows(new.table)))
            except Exception:
                ev.append(dict(op='load', outcome='raised', scheme='', rows=[]))
                break
            for k, l in enumerate(lines):
                try:
                    ids, ps = new.encode(l), [cps(p) for p in new.encode_str(l)]
                    ev.append(dict(op='code', k=k + 1, outcome='ok', ids=ids, pieces=ps, oldpieces=[cps(p) for p in codec.encode_str(l)]))
                except Exception:
                    ev.append(dict(op='code', k=k + 1, outcome='raised', ids=[], pieces=[], oldpieces=[]))
            ev.append(dict(op='old', rows=rows(codec.table)))
            if s['chain']:      # shrink the shrunk one: in a trace of its own
                pass
    return dict(scheme=codec.name, rows=rows(table), ev=ev)


def make(i):
    r = gen.rng('c18', i)
    alpha = gen.alphabet(r)
    scheme = r.choice(['bpe', 'bpe', 'bpe', 'word', 'char', 'class', 'byte'])
    c = learn.data(r, alpha, reserved=0.1, tf=.1)
    c.update(scheme=scheme, minev=1, iter=False)
    text = c['lines'] if c['src'] == 'lines' else [w for w, f in c['tfs']]
    words = [w for l in text for w in l.split()] or ['a']
    if scheme == 'class':
        text = [' '.join(w.split()) for w in text if w.strip()] or ['a']
        c = dict(src='lines', lines=text, scheme='class', minev=1, nl=r.random() < .5)
    chars = set(''.join(text))
    c['size'] = len(chars) + 6 + r.choice([2, 5, 12, 40]) if scheme == 'bpe' else 0
    if scheme == 'bpe' and r.random() < .2:
        c['cov'] = (8, 10)
        c['size'] += 3
    c['zeros'] = i if r.random() < .2 else 0
    shrinks = []
    for _ in range(r.choice([1, 1, 2])):
        files = []
        for _ in range(r.choice([1, 1, 2, 3])):
            if scheme == 'class':
                ls = [r.choice(text) for _ in range(r.randint(1, 4))]
                if r.random() < .1:
                    ls.append('some unseen label')
            else:
                ls = [gen.line(r, words + (['qz', 'é', words[0] + words[-1]] if r.random() < .3 else [])) for _ in range(r.choice([1, 1, 2, 4]))]
                if r.random() < .1:
                    ls = ls[:r.randint(0, 1)]
                if r.random() < .15:
                    ls += [gen.line(r, words, lo=20, hi=40)] * r.choice([1, 2, 3])
                ls = [l.replace('\n', ' ') for l in ls]
                if i % 50 == 7:
                    ls.clear()
                    ls.append(gen.longline(r, words[:1] + ['q']) + ' ' + ' '.join(words[-9:] * 2))
                if r.random() < .15:
                    ls = [l.replace(' ', '\r', 1) for l in ls]
            files.append(ls)
        shrinks.append(dict(files=files, minf=r.choice([0, 1, 1, 1, 2, 3]), gz=r.random() < .15, end=r.random() < .8, aspath=r.random() < .7, chain=False))
    if i % 50 == 7:
        shrinks[0]['minf'] = 2
    c['shrinks'] = shrinks
    return c


def main():
    c = Check('C18')
    bs = c.behaviours_from('MCShrink', 'MCShrink_big.cfg' if THOROUGH else None, workers=3)
    batches = [bs[i::24] for i in range(24)]
    for b, (s, v) in zip(batches, run_cases(replay, batches, timeout=300, procs=8)):
        if s != 'ok':
            c.violation('shrinking a legal model', dict(status=s, detail=v))
        else:
            for x in v[:3]:
                c.violation('shrinking gives the rows and codes of the model', x)
    c.behaviours += len(bs)
    cases = [make(i) for i in range(4000 if THOROUGH else 500)]
    traces = [t for t in c.case_failures(cases, run_cases(record, cases, timeout=40), 'shrinking') if t]
    c.validate('TrShrink', traces)
    c.notes['events'] = sum(len(t['ev']) for t in traces)
    return c.finish(rule='all tables of 2 letters and up to 2 (thorough 3) composed pieces, with every usage count and minimum; generated learned '
                         'models of every scheme, several files, unseen text, minimum 0..3')
