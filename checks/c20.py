"""C20: term statistics are exact and learning from them equals learning from text."""
import gc, hashlib, io, json, sys
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH, cps
from lib import gen, learn, sparkrun


def rows(d):
    return [dict(t=cps(t), f=f) for t, f in d.items()]


def limits(case):
    scheme = case['scheme']
    cov = case.get('cov') or ((1, 1) if scheme == 'bpe' else (0, 1))
    minf = 1 if scheme == 'bpe' else case['minfreq']
    if not minf or minf < 1:
        minf = 1 if scheme == 'word' else 20
    if scheme == 'word':
        cov = (0, 1)
    return dict(scheme=scheme, cov=dict(num=cov[0], den=cov[1]), minfreq=minf, size=0 if scheme == 'bpe' else case['size'])


def model_event(case, again, get):
    """None if the size does not admit the alphabet"""
    e = dict(op='model', again=again, **limits(case))
    try:
        table = get()
    except AssertionError as ex:
        if 'is too small' in str(ex):
            return None, None
        return dict(e, outcome='raised', rows=[], model='', detail=cps(repr(ex)[:300])), None
    except Exception as ex:
        return dict(e, outcome='raised', rows=[], model='', detail=cps(repr(ex)[:300])), None
    rs = learn.rows_of(table)
    return dict(e, outcome='ok', rows=[dict(name=r['name'], freq=r['freq'], kids=r['kids']) for r in rs],
                model=hashlib.sha1(json.dumps(rs).encode()).hexdigest()), rs


def bpe_trace(case, rs):
    lines = [l for f in case['files'] for l in f]
    if case['dedup']:
        lines = list(dict.fromkeys(lines))
    n0 = next((i for i, r in enumerate(rs) if r['kids']), len(rs))
    ev = [dict(op='merge', a=r['kids'][0], b=r['kids'][1], freq=r['freq'], name=r['name']) for r in rs[n0:]] + [dict(op='stop')]
    return dict(src='lines', lines=[cps(l) for l in lines], init=[r['name'] for r in rs[:n0]], minev=max(case['minev'], 1), size=case['size'], ev=ev)


def read_stats(path, gz=False):
    from nlcodec.codec import WordScheme
    from nlcodec.utils import IO
    with IO.reader(path) as inp:
        return WordScheme.read_term_freqs(inp)


def exact(i):
    """counts beyond the integers of a machine, written and read back (as text, the integers of TLC are small)"""
    from nlcodec.codec import WordScheme
    from nlcodec.term_freq import write_stats
    r = gen.rng('c20x', i)
    st = {gen.word(r, gen.NICE, 1, 3): r.choice([1, 2**31 - 1, 2**31, 2**32 + 1, 10**12 + 7, 2**53 + 1, 2**63, 10**20 + 3]) for _ in range(6)}
    out = io.StringIO()
    n = r.choice([1, 2**31, 2**53 + 1])
    write_stats(st, out, line_count=n)
    got, m = WordScheme.read_term_freqs(io.StringIO(out.getvalue()))
    t = lambda d: [dict(t=cps(k), f=str(v)) for k, v in d.items()]
    return dict(files=[[]], dedup=False, ev=[dict(op='exact', rows=t(st), n=str(n), got=t(got), m=str(m))])


def file_event(kind, got):
    stats, n = got
    return dict(op='file', kind=kind, rows=rows(stats), n=n)


def one(ss, case, d):
    from nlcodec import term_freq
    paths = []
    for k, f in enumerate(case['files']):
        p = d / f'f{k}'
        sparkrun.write(p, f)
        paths.append(p)
    ev, bpe = [], []
    head = dict(files=[[cps(l) for l in f] for f in case['files']], dedup=case['dedup'])
    done = lambda: (dict(head, ev=ev), bpe)
    argv = sys.argv
    if case['kind'] == 'tool':
        from nlcodec import learn as tool
        from nlcodec.codec import load_scheme
        m = d / 'm.model'
        cmd = ['nlcodec-learn', '-i', *paths, '-m', m, '-vs', case['size'], '-l', case['scheme'], '-spark', 'local[2]', '-dm', '1g',
               '--dedup' if case['dedup'] else '--no-dedup']
        if case['minfreq'] != 0 or case['explicit']:
            cmd += ['-mf', case['minfreq']]
        if case['scheme'] != 'word':
            cmd += ['-cv', case['cov'][0] / case['cov'][1]]
        if case['scheme'] == 'bpe':
            cmd += ['-mce', case['minev']]

        def get():
            sys.argv = [str(x) for x in cmd]
            if m.exists():
                m.unlink()
            tool.main()
            return load_scheme(m).table
        try:
            for again in (False, True):
                e, rs = model_event(case, again, get)
                if e is None:
                    break
                ev.append(e)
                if rs and case['scheme'] == 'bpe' and not again:
                    bpe.append(bpe_trace(case, rs))
            for kind, suf in (('words', '.wordfreq.gz'), ('chars', '.charfreq.gz')):
                if m.with_suffix(suf).exists():
                    ev.append(file_event(kind, read_stats(m.with_suffix(suf))))
        finally:
            sys.argv = argv
        return done()
    if case['kind'] == 'cmd':       # python -m nlcodec.term_freq
        cmd = ['term_freq', '-i', *paths, '-wf', d / 'wf', '-cf', d / 'cf'] + (['-dd'] if case['explicit'] else [] if case['dedup'] else ['-ndd'])
        if not case['dedup']:
            cmd = [c for c in cmd if c != '-dd'] + ([] if '-ndd' in cmd else ['-ndd'])
        sys.argv = [str(x) for x in cmd]
        try:
            term_freq.main()
        except Exception as ex:
            ev.append(dict(op='stats', outcome='raised', detail=cps(repr(ex)[:300])))
            return done()
        finally:
            sys.argv = argv
        gc.collect()
        ev.append(file_event('words', read_stats(d / 'wf')))
        ev.append(file_event('chars', read_stats(d / 'cf')))
        return done()
    try:
        w, c, n = term_freq.word_counts(paths, dedup=case['dedup'], spark=ss)
    except Exception as ex:
        ev.append(dict(op='stats', outcome='raised', detail=cps(repr(ex)[:300])))
        return done()
    ev.append(dict(op='stats', outcome='ok', words=rows(w), chars=rows(c), n=n))
    if case['kind'] == 'model':
        return done()
    texts = {}
    for kind, st in (('words', w), ('chars', c)):
        out = io.StringIO()
        term_freq.write_stats(st, out, line_count=n)
        texts[kind] = out.getvalue()
        from nlcodec.codec import WordScheme
        ev.append(file_event(kind, WordScheme.read_term_freqs(io.StringIO(texts[kind]))))
    if w:
        from nlcodec.codec import learn_vocab
        kw = dict(char_coverage=case['cov'][0] / case['cov'][1]) if case['scheme'] != 'word' else {}
        if case['scheme'] == 'bpe':
            kw['min_co_ev'] = case['minev']

        def get():
            inp = io.StringIO(texts['chars' if case['scheme'] == 'char' else 'words'])
            return learn_vocab(inp, case['scheme'], None, case['size'], min_freq=case['minfreq'], term_freqs=True, **kw)
        for again in (False, True):
            e, rs = model_event(case, again, get)
            if e is None:
                break
            ev.append(e)
            if rs and case['scheme'] == 'bpe' and not again:
                bpe.append(bpe_trace(case, rs))
    return done()


def batch(cases):
    from nlcodec import spark as S

    def go(tmp):
        out = []
        if cases[0]['kind'] in ('tool', 'cmd'):
            for k, c in enumerate(cases):
                d = tmp / f'c{k}'
                d.mkdir()
                out.append(one(None, c, d))
            return out
        with S.session(master='local[2]', driver_mem='1g', config=sparkrun.SPLIT if cases[0]['split'] else sparkrun.SMALL) as ss:
            for k, c in enumerate(cases):
                d = tmp / f'c{k}'
                d.mkdir()
                out.append(one(ss, c, d))
        return out
    return sparkrun.in_scratch(go)


SPECIAL = ['<!S!>', '<unk>', '#', '#{', '<s>', '<! S !>', '1', '▁', '<pad>', 'None', '"', '\\N', '\ufeff']


def make(i, kind):
    r = gen.rng('c20', i, kind)
    a = gen.alphabet(r)
    words = [gen.word(r, a, 1, 4) for _ in range(r.choice([2, 4, 8]))]
    if r.random() < .4:
        words += [gen.repeaty(r, a) for _ in range(3)]
        if r.random() < .2:
            words.append(gen.longword(r, a)[:120])
    if r.random() < .4:
        words += r.sample(SPECIAL, 3)
    words = [w.replace('\r', 'r') for w in words]
    sp = [' ', ' ', '  ', '\t', '\u3000', '\u00a0', '\x0b', '\x1f', '\u2028', '\x85']
    pool = [gen.line(r, words, sp if r.random() < .5 else None, lo=0 if r.random() < .3 else 1, hi=7) for _ in range(r.choice([1, 3, 8]))]
    pool += [l + ' ' for l in pool[:1]]
    files = [[r.choice(pool) for _ in range(r.choice([0, 1, 2, 5, 12, 30]))] for _ in range(r.choice([1, 1, 2, 3]))]
    if not any(l.split() for f in files for l in f):
        files[-1].append('a ab')
    if i % 8 == 3:          # many, long, and very frequent
        files.append(gen.crowd(r, a, r.choice([30, 300]), r.choice([300, 1100, 2100])) if '\r' not in a else [])
        files[0].append(gen.longline(r, words))
        files[-1].append('x' * 1200 + ' ' + 'y' * 70)
    files = [gen.no_bom(f) for f in files]
    chars = set(''.join(''.join(f) for f in files))
    scheme = r.choice(['word', 'char', 'bpe', 'bpe'] + (['class'] if kind != 'cmd' else []))
    minev = r.choice([1, 1, 2, 3])
    size = len(chars) + 6 + r.choice([1, 2, 6, 20]) if scheme == 'bpe' else r.choice([-1, 0, 6, 7, 8, 10, 12, 50])
    return dict(kind=kind, files=files, dedup=r.random() < .5, scheme=scheme, minev=minev, size=size, minfreq=r.choice([0, 1, 1, 2, 3]),
                cov=r.choice([(1, 1), (9995, 10000), (9, 10), (1, 2)]), explicit=r.random() < .5)


def main():
    c = Check('C20')
    bs = c.behaviours_from('MCTermFreq', 'MCTermFreq_one.cfg', workers=1)
    c.spawn(c.design_check, 'MCTermFreq', 'MCTermFreq_big.cfg' if THOROUGH else None, 2)
    c.spawn(c.design_refuted, 'MCTermFreq', 'MCTermFreq_bad.cfg', 'Exact')
    key = lambda b: json.dumps([b['files'], b['dedup']])
    bs = list({key(b): b for b in bs}.values())
    bs = gen.rng('c20b').sample(bs, 400 if THOROUGH else 24)
    mk = lambda b: dict(kind='model', files=[[''.join(map(chr, l)) for l in f] for f in b['files']], dedup=b['dedup'], split=False)
    cases = [mk(b) for b in bs]
    cases += [make(i, 'lib') for i in range(400 if THOROUGH else 40)]
    cases.append(dict(make(0, 'lib'), files=[[]], dedup=False))
    for k, x in enumerate(cases):
        x['split'] = k % 3 == 2
    batches = []
    for sp in (False, True):
        g = [x for x in cases if x['split'] == sp]
        batches += [g[j::3] for j in range(3)]
    for kind, n in (('tool', 60 if THOROUGH else 8), ('cmd', 20 if THOROUGH else 3)):
        t = [make(i, kind) for i in range(n)]
        batches += [t[j::2] for j in range(2)]
    batches = [b for b in batches if b]
    batches.sort(key=lambda b: b[0]['kind'] != 'tool')
    res = c.case_failures(batches, run_cases(batch, batches, timeout=450, chunk=1, procs=8), 'term statistics')
    pairs = [p for r in res for p in r]
    traces = [t for t, _ in pairs if t['ev']]
    c.behaviours += len(bs)
    traces += c.case_failures(list(range(20)), run_cases(exact, list(range(20))), 'a file of large counts')
    c.validate('TrTermFreq', traces)
    bpe = [t for _, b in pairs for t in b]
    c.validate('TrBpeLearn', bpe)
    c.notes['bpe_models'] = len(bpe)
    return c.finish(rule='one- and two-file corpora of the design model (sampled), generated corpora with exotic spaces, tag-like and reserved words, '
                         'read in one and in many partitions, with and without dropping repeats; models from statistics and their repetition; '
                         'nlcodec-learn (twice, the second time from the statistics on disk) and the term_freq tool')
