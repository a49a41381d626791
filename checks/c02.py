"""C02: vocabulary learning is reproducible and always completes."""
import json, os, shutil, subprocess, tempfile
from pathlib import Path
from lib.vlib import Check, VERIF, REPO, PY, THOROUGH, MachineryError
from lib import gen, learn


def make(i):
    r = gen.rng('c02', i)
    alpha = gen.alphabet(r)
    c = learn.data(r, alpha, reserved=0.2)
    c['iter'] = False
    c['scheme'] = r.choice(['bpe'] * 7 + ['word', 'char', 'class'])
    chars = set(''.join(c['lines']) if c['src'] == 'lines' else ''.join(w for w, f in c['tfs']))
    c['minev'] = r.choice([1, 1, 1, 2, 5])
    if c['scheme'] == 'bpe':
        c['size'] = len(chars) + 6 + r.choice([-2, 0, 1, 2, 4, 8, 30, 100, 1000])
        if c['minev'] > 1 and r.random() < .3:
            c['size'] = r.choice([0, 1, -1])
    else:
        c['size'] = r.choice([-1, 0, 3, 7, 10, 20])
        c['minfreq'] = r.choice([1, 1, 2, 3])
    if r.random() < .3 and c['scheme'] != 'class':
        c['cov'] = r.choice([(9, 10), (7, 10), (1, 2), (9995, 10000)])
        c['direct'] = True
    if r.random() < .4 and c['scheme'] == 'bpe' and c['src'] == 'lines':   # runs of one letter: overlapping occurrences
        c['lines'] += [' '.join(r.choice(alpha) * r.randint(2, 11) + r.choice(['', r.choice(alpha)])
                                for _ in range(r.randint(1, 6))) for _ in range(3)]
    if i % 60 == 7:
        c.update(src='lines', lines=gen.giants(r, alpha) + (c['lines'] if c['src'] == 'lines' else []), scheme='bpe')
        c['size'] = len(set(''.join(c['lines']))) + 6 + r.choice([4, 9, 12, 25])
        c.pop('cov', None)
    if i % 60 == 11:
        c.update(src='lines', lines=gen.crowd(r, gen.NICE), scheme=r.choice(['bpe', 'bpe', 'word', 'char', 'class']))
        c['size'] = r.choice([60, 150, 300]) if c['scheme'] == 'bpe' else r.choice([-1, 100, 300])
    c['keep'] = c['scheme'] != 'class' and r.random() < .5 or i % 60 == 7       # also makes a codec and writes its file
    return c


def from_model(b):
    tfs = [(''.join('ab?'[x - 6] for x in w['s']), w['f']) for w in b]
    return dict(src='tfs', tfs=tfs, scheme='bpe', minev=1, size=30, line_count=1)


def run_in_processes(cases, seeds):
    tmp = Path(tempfile.mkdtemp(prefix='vc02'))
    try:
        (tmp / 'cases').write_text('\n'.join(json.dumps(c) for c in cases) + '\n')
        ps = []
        for k, s in enumerate(seeds):
            env = {**os.environ, 'PYTHONHASHSEED': str(s), 'PYTHONPATH': f'{REPO}:{VERIF}'}
            if k % 2:
                env['PYTHONMALLOC'] = 'malloc'
            ps.append(subprocess.Popen([PY, '-m', 'lib.learn_worker', str(tmp / 'cases'), str(tmp / f'out{k}'), str(k)],
                                       cwd=VERIF, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
        outs = []
        for k, p in enumerate(ps):
            try:
                err = p.communicate(timeout=500)[1]
            except subprocess.TimeoutExpired:
                p.kill()
                raise MachineryError('learning processes exceed 800 s')
            rows = [json.loads(l) for l in (tmp / f'out{k}').read_text().splitlines()] if (tmp / f'out{k}').exists() else []
            rows += [dict(outcome='died', rows='', detail=err[-500:])] * (len(cases) - len(rows))
            outs.append(rows)
        return outs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    c = Check('C02')
    c.spawn(c.design_check, 'MCBpeIndex', 'MCBpeIndex_big.cfg' if THOROUGH else None, workers=2, timeout=3000)
    bs = c.behaviours_from('MCBpeLearn', workers=3)
    bs = gen.rng('c02b').sample(bs, len(bs) if THOROUGH else 800)
    cases = [from_model(b) for b in bs] + [make(i) for i in range(3000 if THOROUGH else 500)]
    c.behaviours += len(bs)
    seeds = [0, 1, 424242, 'random', 7, 8][:6 if THOROUGH else 4]
    outs = run_in_processes(cases + cases[-300:], seeds)   # the last ones twice in each process
    traces = []
    for i, case in enumerate(cases):
        ev = [dict(op='run', outcome=o['outcome'], rows=o['rows']) for o in
              [out[i] for out in outs] + ([out[i + 300] for out in outs] if i >= len(cases) - 300 else [])]
        h = learn.header(case)
        traces.append(dict(h, scheme=case['scheme'], ev=ev, _py=case,
                           size=learn.BIG if case['minev'] > 1 and case['size'] <= 1 else case['size']))
    c.validate('TrRepro', traces)
    c.notes['processes'] = len(seeds)
    return c.finish(rule='every case learned in separate processes with different hash seeds and memory layouts, a part of '
                         'them twice in each; limits from below the alphabet to beyond exhaustion')
