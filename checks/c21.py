"""C21: command-line encode and decode are line-by-line images of the library."""
import hashlib, json, os, shutil, subprocess, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH, cps, PY
from lib import gen, learn


def sh(args, data=b'', cwd=None, timeout=60):
    p = subprocess.run([PY, '-m', 'nlcodec', *map(str, args)], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, timeout=timeout)
    return p.returncode, p.stdout, p.stderr[-300:].decode('utf-8', 'replace')


def split(data):
    """bytes -> lines, is the last one ended; undecodable output stays visible"""
    text = data.decode('utf-8', 'backslashreplace')
    ls = text.split('\n')
    ended = ls[-1] == ''
    return [cps(l) for l in (ls[:-1] if ended else ls)], ended


def filt(op, mode, case, d, model, data, **extra):
    args = ['decode' if op == 'decode' else 'encode', '-m', model] + (['-idx'] if mode == 'ids' else [])
    files = case['files']
    src, dst = d / 'in.txt', d / 'out.txt'
    if files:
        src.write_bytes(data)
        args += ['-i', src, '-o', dst]
    if op == 'pipe':
        a = subprocess.Popen([PY, '-m', 'nlcodec', *map(str, args[:3 + (mode == 'ids')])] + (['-i', str(src)] if files else []),
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        b = subprocess.Popen([PY, '-m', 'nlcodec', 'decode', '-m', str(model)] + (['--indices'] if mode == 'ids' else []) + (['--out', str(dst)] if files else []),
                             stdin=a.stdout, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        a.stdout.close()
        try:
            if not files:
                a.stdin.write(data)
            a.stdin.close()
        except BrokenPipeError:
            pass
        out = b.communicate(timeout=60)[0]
        rc, err = (a.wait() or b.returncode), ''
    else:
        rc, out, err = sh(args, b'' if files else data)
    if files and rc == 0:
        out = dst.read_bytes()
    lines, ended = split(out)
    return dict(op=op, mode=mode, outcome='ok' if rc == 0 else 'failed', out=lines, ended=ended, err=cps(err), **extra)


def stream(codec, lines, ended):
    """the generators behind the command line, on lines of any characters"""
    from nlcodec import encode, decode
    inp = [l + '\n' * e for l, e in zip(lines, ended)]
    ids, pieces = list(encode(iter(inp), codec, indices=True)), list(encode(iter(inp), codec))
    whole = [p for p in pieces if p and all(t and not any(ch.isspace() for ch in t) for t in p)]
    known = [s for s in ids if all(x >= 0 for x in s)]
    return dict(op='stream', outcome='ok', ids=ids, wantids=[codec.encode(l) for l in lines],
                pieces=[[cps(t) for t in p] for p in pieces], wantpieces=[[cps(t) for t in codec.encode_str(l)] for l in lines],
                backi=[cps(x) for x in decode((' '.join(map(str, s)) + '\n' for s in known), codec, indices=True)], wantbacki=[cps(codec.decode(s)) for s in known],
                backp=[cps(x) for x in decode((' '.join(p) + '\n' for p in whole), codec)], wantbackp=[cps(codec.decode_str(p)) for p in whole])


def digest(rows):
    return hashlib.sha1(json.dumps(rows).encode()).hexdigest()


def to_bytes(lines, ended):
    text = '\n'.join(lines) + ('\n' if ended and lines else '')
    return text.encode('utf-8')


def learn_event(case, d, model):
    opts = ['-l', case['scheme'], '-vs', case['size'], '-m', model]
    if case['minfreq'] is not None:
        opts += ['-mf', case['minfreq']]
    if case.get('cov'):
        opts += ['-cv', case['cov'][0] / case['cov'][1]]
    if case['minev'] is not None:
        opts += ['-mce', case['minev']]
    if case['src'] == 'tfs':
        opts.append('-tfs')
        data = ''.join(f'{w}\t{f}\n' for w, f in case['tfs']).encode('utf-8')
        if case.get('line_count'):
            data = b'#' + json.dumps(dict(line_count=case['line_count'])).encode() + b'\n' + data
    else:
        data = to_bytes(case['lines'], True)
    if case['files']:
        (d / 'train').write_bytes(data)
        opts += ['-i', d / 'train']
        data = b''
    rc, out, err = sh(['learn', *opts], data)
    if rc != 0:
        if 'is too small' in err:
            return None
        return dict(op='learn', outcome='failed', model='', err=cps(err))
    from nlcodec.codec import load_scheme
    s = load_scheme(model)
    return dict(op='learn', outcome='ok', model=s.name + digest(learn.rows_of(s.table)))


def lib_learn(case):
    from nlcodec.codec import learn_vocab
    from nlcodec import DEF_CHAR_COVERAGE, DEF_MIN_CO_EV
    if case['src'] == 'tfs':
        inp = [f'{w}\t{f}\n' for w, f in case['tfs']]
        if case.get('line_count'):
            inp.insert(0, '#' + json.dumps(dict(line_count=case['line_count'])) + '\n')
    else:
        inp = [l + '\n' for l in case['lines']]
    return learn_vocab(inp, case['scheme'], None, case['size'], min_freq=case['minfreq'], term_freqs=case['src'] == 'tfs',
                       char_coverage=case['cov'][0] / case['cov'][1] if case.get('cov') else DEF_CHAR_COVERAGE,
                       min_co_ev=DEF_MIN_CO_EV if case['minev'] is None else case['minev'])


def record(case):
    from nlcodec.codec import REGISTRY
    d = Path(tempfile.mkdtemp(prefix='vcli'))
    try:
        model = d / 'model'
        try:
            table = lib_learn(case)
        except AssertionError as e:
            if 'is too small' in str(e):
                return None
            raise
        codec = REGISTRY[case['scheme']](table)
        ev = [learn_event(case, d, model)]
        if ev[0] is None or ev[0]['outcome'] != 'ok':
            ev = [dict(op='learn', outcome='failed', model='', err=[])] if ev[0] is None else ev
            codec.save(model)
        ev.append(stream(codec, case['stream'], case['breaks']))
        lib = []
        for l in case['texts']:
            ids, pieces = codec.encode(l), codec.encode_str(l)
            lib.append(dict(ids=ids, pieces=[cps(p) for p in pieces], backi=cps(codec.decode(ids)), backp=cps(codec.decode_str(' '.join(pieces).split()))))
        data = to_bytes(case['texts'], case['ended'])
        for op in case['ops']:
            for mode in ('pieces', 'ids'):
                if op == 'decode':
                    seqs = case['seqs']
                    n = len(codec)
                    if mode == 'ids':
                        toks = [[x % n for x in s] for s in seqs]
                        if case['scheme'] == 'byte':
                            toks = [[x for x in s if x not in (10, 13)] for s in toks]
                        want = [cps(codec.decode(s)) for s in toks]
                        toks = [[str(x) for x in s] for s in toks]
                    else:
                        toks = [[codec.idx_to_str[x % n] for x in s] for s in seqs]
                        toks = [[t for t in s if t and not any(ch.isspace() for ch in t)] for s in toks]
                        if case['scheme'] == 'byte':
                            toks = [[t for t in s if t not in ('a', 'd')] for s in toks]
                        want = [cps(codec.decode_str(s)) for s in toks]
                    inp = [case['seps'][0] + case['seps'][1].join(s) for s in toks]
                    ev.append(filt(op, mode, case, d, model, to_bytes(inp, case['ended'] or not inp or not inp[-1]), want=want))
                else:
                    ev.append(filt(op, mode, case, d, model, data))
        return dict(scheme=case['scheme'], names=[cps(t.name) for t in table], lines=[cps(l) for l in case['texts']], lib=lib,
                    model=codec.name + digest(learn.rows_of(table)), ev=ev)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def nocr(l):
    return l.replace('\r', ' ').replace('\n', ' ')


def make(i):
    r = gen.rng('c21', i)
    alpha = [a for a in gen.alphabet(r) if a not in '\r\n']
    scheme = r.choice(['word', 'char', 'bpe', 'bpe', 'class', 'byte'])
    c = learn.data(r, alpha, reserved=0.15, tf=.2)
    if c['src'] == 'lines':
        c['lines'] = [nocr(l) for l in c['lines']]
        words = [w for l in c['lines'] for w in l.split()]
    else:
        words = [w for w, f in c['tfs']]
        c['tfs'] = [(w, f) for w, f in c['tfs']]
    if scheme == 'class' and c['src'] == 'lines':
        c['lines'] = [l.replace('\t', ' ') for l in c['lines']]     # the delimiter of the model file
    chars = set(''.join(words))
    c.update(scheme=scheme, files=r.random() < .5, minev=r.choice([None, 1, 1, 2]) if scheme == 'bpe' else None,
             minfreq=r.choice([None, 1, 1, 1, 2]) if scheme != 'bpe' else r.choice([None, 1]), cov=r.choice([None, (1, 1), (9, 10)]),
             size=len(chars) + 6 + r.choice([1, 4, 30]) if scheme == 'bpe' else r.choice([-1, -1, 0, 9, 30]))
    t = [nocr(gen.line(r, words + ['q', 'é😀'], gen.SPACES, lo=0)) for _ in range(r.choice([0, 1, 2, 5, 12]))]
    if scheme == 'class' and c['src'] == 'lines':
        t += [l for l in c['lines'][:3]]
    t = [x for x in t]
    if r.random() < .6:
        t.insert(r.randint(0, len(t)), r.choice(['', ' ', '\t', '', '']))
    if t and t[0].startswith('\ufeff'):
        t[0] = 'a' + t[0]
    if r.random() < .1:
        t = t * 200
    c['texts'] = t
    c['ended'] = r.random() < .7 or not t or t[-1] == ''
    c['seqs'] = [[r.randint(0, 400) for _ in range(r.choice([0, 1, 3, 8]))] for _ in range(r.choice([1, 3, 6]))]
    if i % 12 == 5:
        c['seqs'].append([r.randint(0, 400) for _ in range(r.choice([520, 1100, 2100]))])
        c['texts'].insert(0, nocr(gen.longline(r, words + ['q'])) if scheme != 'class' else 'x' * 1200)
    c['stream'] = [l + r.choice(['', '', '\r', ' \r', '\r\r', '\x0b', '\x85', '\u2028']) for l in t[:6]] + ['\r', '', 'a\rb\r']
    c['breaks'] = [r.random() < .8 for l in c['stream']]
    c['seps'] = [r.choice(['', '', ' ', '\t']), r.choice([' ', ' ', '  ', '\t', '\u3000'])]
    c['ops'] = ['encode', 'decode', 'pipe'] if r.random() < .5 else ['pipe', 'decode']
    return c


def replay(b):
    """a behaviour of the pipeline, for a scheme"""
    scheme, b = b
    text = dict(empty='', blank=' \t', known='ab', unknown='zq')
    case = dict(scheme=scheme, src='lines', lines=['ab', 'ba ab'] if scheme != 'class' else ['ab', 'ba'], size=20 if scheme == 'bpe' else -1, minev=1, minfreq=1, cov=None,
                files=len(b['input']) % 2 == 0, texts=[text[k] for k in b['input']], ended=b['ended'], stream=['ab\r', 'ba \r', ''], breaks=[1, 1, 0], ops=['pipe'])
    t = record(case)
    return t


def main():
    c = Check('C21')
    bs = c.behaviours_from('MCCli', workers=1)
    c.spawn(c.design_check, 'MCCli', 'MCCli_big.cfg', 2)
    c.spawn(c.design_refuted, 'MCCli', 'MCCli_bad.cfg', 'OneEach')
    r = gen.rng('c21b')
    jobs = [(s, b) for b in (bs if THOROUGH else r.sample(bs, 45)) for s in (('word', 'char', 'bpe', 'byte', 'class') if THOROUGH else r.sample(['word', 'char', 'bpe', 'byte', 'class'], 1))]
    t1 = c.case_failures(jobs, run_cases(replay, jobs, timeout=120, procs=8), 'a pipeline')
    for (s, b), t in zip(jobs, t1):
        for e in t['ev']:
            if e['op'] == 'pipe' and len(e['out']) != len(b['out']):
                c.violation('as many lines as in the model', dict(case=repr((s, b)), got=e))
    c.behaviours += len(jobs)
    cases = [make(i) for i in range(1200 if THOROUGH else 110)]
    t2 = [t for t in c.case_failures(cases, run_cases(record, cases, timeout=240, procs=8), 'the command line') if t]
    c.validate('TrCli', t1 + t2)
    return c.finish(rule='every input of up to 3 lines of 4 kinds through a real pipe (sampled in quick); generated models and texts of every scheme '
                         'through learn, encode, decode and encode|decode as processes, by pipes and by files, as pieces and as ids')
