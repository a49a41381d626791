"""C03: every learned vocabulary is a well-formed, self-contained table."""
import os, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH
from lib import gen, learn


def record(case):
    from nlcodec.codec import ByteScheme, REGISTRY, load_scheme, Type
    ev = []
    try:
        table = ByteScheme.learn() if case['scheme'] == 'byte' else learn.learn(case)
    except AssertionError as e:
        if 'is too small' in str(e):
            table = None
        else:
            raise
    if table is None:
        ev.append(dict(op='refused'))
    else:
        ev.append(dict(op='table', rows=learn.rows_of(table)))
        codec = REGISTRY[case['scheme']](table)
        ev.append(dict(op='table', rows=learn.rows_of(codec.table)))
        if case.get('shrink') and case['src'] == 'lines':
            with tempfile.TemporaryDirectory(prefix='vc03') as d:
                f = Path(d) / 'data'
                f.write_text('\n'.join(case['lines'][:case['shrink']]) + '\n', encoding='utf8')
                codec.shrink_vocab([f], min_freq=case['shrink_freq'], save_at=Path(d) / 'model')
                # the rows as they are in the file, without load_scheme's own checks on schemes
                rows, meta = Type.read_vocab(Path(d) / 'model')
                if rows or case['scheme'] not in ('byte', 'class'):
                    ev.append(dict(op='table', rows=learn.rows_of(rows)))
    return dict(scheme=case['scheme'], size=learn.BIG if case.get('minev', 0) > 1 and case['size'] <= 1 and
                case['scheme'] == 'bpe' else case['size'], ev=ev)


def make(i):
    r = gen.rng('c03', i)
    c = learn.data(r, reserved=0.5)
    c['scheme'] = r.choice(['bpe', 'bpe', 'bpe', 'word', 'word', 'char', 'char', 'class'] + (['byte'] if i % 20 == 0 else []))
    chars = set(''.join(c['lines']) if c['src'] == 'lines' else ''.join(w for w, f in c['tfs']))
    c['minev'] = r.choice([1, 1, 1, 2, 5])
    if c['scheme'] == 'bpe':
        c['size'] = len(chars) + 6 + r.choice([-2, 0, 1, 2, 4, 8, 30, 100])
        if c['minev'] > 1 and r.random() < .3:
            c['size'] = r.choice([0, 1, -1])
        c['size'] = c['size'] if c['size'] > 0 or c['minev'] > 1 else 1
    else:
        c['size'] = r.choice([-1, 0, 1, 3, 5, 6, 7, 8, 10, 20])
        c['minfreq'] = r.choice([1, 1, 2, 3])
    if r.random() < .5 and c['scheme'] != 'class':
        c['cov'] = r.choice([(9, 10), (7, 10), (1, 2), (9995, 10000)])
        c['direct'] = True
    if r.random() < .12:    # all special tokens occur as text
        if c['src'] == 'lines':
            c['lines'] = c['lines'] + [' '.join(r.sample(gen.RESERVED, 6))] * r.choice([1, 1, 3])
        else:
            c['tfs'] = [x for x in c['tfs'] if x[0] not in gen.RESERVED] + [(w, r.randint(1, 9)) for w in gen.RESERVED]
    # shrinking byte and class tables drops special tokens resp. labels; word/char/bpe keep theirs
    if c['src'] == 'lines' and c['scheme'] in ('word', 'char', 'bpe') and any(l.split() for l in c['lines'][:2]):
        c['shrink'] = r.choice([0, 2, 2])
        c['shrink_freq'] = r.choice([0, 1, 1, 2, 3])
    if i % 100 == 17:       # many types and lines
        a = r.choice([gen.NICE, [chr(0x4e00 + k) for k in range(r.choice([40, 300]))]])
        c = dict(src='lines', lines=gen.crowd(r, a), scheme=r.choice(['bpe', 'word', 'char', 'class']), minev=1)
        c['size'] = len(set(''.join(c['lines']))) + 6 + r.choice([5, 40, 300]) if c['scheme'] == 'bpe' else r.choice([-1, 0, 50, 260, 300, 1000])
        c.update(minfreq=1, shrink=2 if c['scheme'] != 'class' else 0, shrink_freq=1)
        if i % 1000 == 17:      # thousands of merges
            c.update(src='lines', scheme='bpe', lines=[gen.word(r, gen.NICE + list('fghij'), 3, 9) for _ in range(1600)], shrink=0, minfreq=1)
            c['size'] = 9000
    return c


def from_model(b):
    tfs = [(''.join('ab?'[x - 6] for x in w['s']), w['f']) for w in b]
    return dict(src='tfs', tfs=tfs, scheme='bpe', minev=1, size=14, line_count=1)


def main():
    c = Check('C03')
    bs = c.behaviours_from('MCBpeLearn', workers=3)
    bs = gen.rng('c03b').sample(bs, len(bs) if THOROUGH else 500)
    c.behaviours += len(bs)
    cases = [from_model(b) for b in bs] + [make(i) for i in range(4000 if THOROUGH else 2000)]
    traces = c.case_failures(cases, run_cases(record, cases), 'learning from legal input')
    c.validate('TrVocab', traces)
    c.notes['tables'] = sum(1 for t in traces for e in t['ev'] if e['op'] == 'table')
    return c.finish(rule='tables learned (and shrunk) from texts and frequency lists, half of them containing the special '
                         'tokens or the space mark as text; sizes from below the special tokens to exhaustion')
