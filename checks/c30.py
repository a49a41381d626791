"""C30: codecs are values: results depend on the model and the argument alone, not on what the process did before."""
import io, json, os, pickle, random, shutil, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH, quiet_fds
from lib import gen, learn


def show(x):
    """a result as an ascii string"""
    if isinstance(x, str):
        return json.dumps(x)
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(show(y) for y in x) + ']'
    return str(int(x)) if not isinstance(x, (bool, type(None))) else str(x)


def show_table(table):
    return show([[t.name, t.idx, t.level, t.freq, [[k.name, k.idx] for k in t.kids or []]] for t in table])


def build(case):
    from nlcodec.codec import REGISTRY, ByteScheme
    if case['scheme'] == 'byte':
        return ByteScheme(ByteScheme.learn(), **case.get('how', {}))
    return REGISTRY[case['scheme']](learn.learn(case))


def clobber(x):
    if isinstance(x, list):
        for y in x:
            clobber(y)
        x[:] = x[:-1] + ['#'] if x else [-7]


def rows(f):
    """a saved model without its header, which tells the time"""
    return f.read_text(encoding='utf8').split('\n', 1)[1]


def call(codecs, k, op, arg, d):
    """-> (value, the argument afterwards). codecs[k]: the codec (built when first needed)"""
    if op == 'learn':       # another model from the same data
        case = dict(codecs['cases'][k], iter=False, nl=False)
        lines = case['lines'] = list(case['lines'])
        table = learn.learn(case)
        return show_table(table), (arg if lines == codecs['cases'][k]['lines'] else lines)
    if k not in codecs:
        codecs[k] = build(codecs['cases'][k])
    c = codecs[k]
    if op in ('encode', 'encode_str'):
        return getattr(c, op)(arg), arg
    if op in ('decode', 'decode_str'):
        a = list(arg)
        return getattr(c, op)(a), a
    if op == 'split':
        text, ratio, seed = arg
        random.seed(seed)
        return c.encode(text, split_ratio=ratio), arg
    if op == 'split_str':
        text, ratio, seed = arg
        random.seed(seed)
        return c.encode_str(text, split_ratio=ratio), arg
    if op == 'parallel':
        a = list(arg)
        return list(c.encode_parallel(a, n_cpus=2)), a
    if op == 'permutations':
        return c.table[arg % len(c.table)].get_permutations(name=bool(arg % 2)), arg
    if op == 'save':
        f = d / 'model'     # the same path for every codec
        c.save(f)
        return rows(f), arg
    if op == 'reload':
        from nlcodec.codec import load_scheme
        f = d / 'model'
        c.save(f)
        c2 = load_scheme(f)
        return [show_table(c2.table), c2.encode(arg), type(c2).__name__], arg
    if op == 'shrink':
        f = d / 'data'
        f.write_text(arg[0] + '\n', encoding='utf8')
        m = c.shrink_vocab([f], min_freq=arg[1], save_at=d / 'small')
        return [m, rows(d / 'small')], arg
    if op == 'lines':
        from nlcodec.codec import encode
        a = list(arg)
        return list(encode(iter(a), c, indices=True)) + list(encode(a, c)), a
    raise ValueError(op)


def outcome(codecs, k, op, arg, d, then=None):
    try:
        v, after = call(codecs, k, op, arg, d)
    except Exception as e:
        return 'failed', show(arg)      # a text that no codec of the kind takes: the same each time
    out = show(v)
    if then:
        then(v)
    return out, show(after)


def forked(fn):
    """fn() in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with open(w, 'wb') as fh:
                fh.write(pickle.dumps(fn()))
            os._exit(0)
        except BaseException:
            os._exit(9)
    os.close(w)
    with open(r, 'rb') as fh:
        data = fh.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise RuntimeError(f'reference process: status {status}')
    return pickle.loads(data)


def record(case):
    d = Path(tempfile.mkdtemp(prefix='vsess'))
    try:
        refs, tables, known = [], [], {}
        keys = list(dict.fromkeys((k, op, json.dumps(arg)) for k, op, arg, _ in case['calls']))
        for key in keys:    # each alone
            k, op, arg = key[0], key[1], json.loads(key[2])
            out, _ = forked(lambda: outcome(dict(cases=case['codecs']), k, op, arg, d))
            refs.append(dict(codec=k + 1, op=op, arg=show(arg), out=out))
        for k in range(len(case['codecs'])):
            tables.append(forked(lambda: show_table(build(case['codecs'][k]).table)))
        codecs, ev = dict(cases=case['codecs']), []
        for k, op, arg, spoil in case['calls']:
            out, after = outcome(codecs, k, op, arg, d, clobber if spoil else None)
            ev.append(dict(codec=k + 1, op=op, arg=show(arg), out=out, argafter=after))
        for k in codecs:
            if k != 'cases':
                ev.append(dict(op='table', codec=k + 1, out=show_table(codecs[k].table)))
        return dict(refs=refs, tables=tables, ev=ev)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(job):
    """histories of the model on two codecs of a scheme"""
    cases, args, ops, bs = job
    d = Path(tempfile.mkdtemp(prefix='vsess'))
    try:
        want = {(k, op, a): forked(lambda: outcome(dict(cases=cases), k, op, args[op][a], d)[0])
                for k in (0, 1) for op in ops for a in range(len(args[op]))}
        bad = []
        shared = {0: build(cases[0]), 1: build(cases[1]), 'cases': cases}
        for n, b in enumerate(bs):
            codecs = shared if n % 2 else dict(cases=cases)
            op = ops[n % len(ops)]
            for i, s in enumerate(b['h']):
                k, a = s['c'] - 1, s['a'] - 1
                out, _ = outcome(codecs, k, op, args[op][a], d, clobber if s['clobber'] else None)
                if out != want[k, op, a]:
                    bad.append(dict(op=op, history=b['h'][:i + 1], arg=args[op][a], alone=want[k, op, a], got=out, cases=cases))
        return bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model(r, scheme, alpha):
    c = learn.data(r, alpha, reserved=0.1, tf=0)
    c.update(scheme=scheme, minev=1, iter=False)
    c['size'] = len(set(''.join(c['lines']))) + 6 + r.choice([1, 3, 8, 20]) if scheme == 'bpe' else r.choice([0, 8, 30]) or 300
    if scheme == 'class':
        c['lines'] = [l for l in c['lines'] if l.strip()] or ['x']
    return c


def pick(r, cases, texts, k, heavy=0.0):
    scheme = cases[k]['scheme']
    ops = ['encode'] * 3 + ['encode_str'] * 2 + ['decode'] * 3 + ['decode_str', 'lines', 'save', 'reload', 'shrink', 'learn']
    if scheme == 'bpe':
        ops += ['split'] * 3 + ['split_str', 'permutations', 'permutations']
    if scheme == 'byte':
        ops = [o for o in ops if o != 'learn']
    if r.random() < heavy:
        ops = ['parallel']
    op = r.choice(ops)
    t = r.choice(texts)
    if scheme == 'class' and op in ('encode', 'parallel', 'lines', 'reload') or scheme == 'class' and op == 'shrink':
        t = r.choice(cases[k]['lines']).strip()
    arg = (t if op in ('encode', 'encode_str', 'reload') else
           [r.randrange(0, 14) for _ in range(r.randint(0, 5))] if op == 'decode' else
           r.choices(['a', 'b', '▁', '41', 'c3', 'e9', '<s>', 'x'], k=r.randint(0, 5)) if op == 'decode_str' else
           [t, r.choice([.3, .7, 1]), r.randrange(3)] if op.startswith('split') else
           [t, r.choice(texts)] if op == 'lines' and scheme != 'class' else
           [t] if op == 'lines' else
           [t] * 3 if op == 'parallel' else
           [t, r.choice([0, 1, 2])] if op == 'shrink' else
           r.randrange(4, 14) if op == 'permutations' else 0)
    return [k, op, arg]


def make(i):
    r = gen.rng('c30', i)
    alpha = gen.alphabet(r, r.choice([2, 3, 4]))
    n = r.choice([2, 2, 3])
    first = r.choice(['bpe', 'bpe', 'word', 'char', 'class', 'byte'])
    cases = [model(r, first if r.random() < .6 else r.choice(['bpe', 'word', 'char', 'class', 'byte']), alpha) for _ in range(n)]
    for c in cases:
        if c['scheme'] == 'byte':
            c['how'] = r.choice([{}, {}, dict(encoding='latin-1'), dict(errors='ignore'), dict(errors='strict'), dict(encoding='utf-16-le'), dict(encoding='cp1252', errors='backslashreplace')])
    words = [w for c in cases for l in c['lines'] for w in l.split()] + [gen.repeaty(r, alpha) for _ in range(3)]
    texts = [gen.line(r, words, lo=0, hi=4).replace('\n', ' ').replace('\r', ' ') for _ in range(4)]
    texts.append(gen.longline(r, [w.replace('\n', ' ').replace('\r', ' ') for w in words], 60))
    some = [pick(r, cases, texts, r.randrange(n), .03) for _ in range(r.choice([5, 8, 12]))]
    some += [[k2, op, arg] for k, op, arg in some for k2 in range(n)     # the same call on the others
             if k2 != k and r.random() < .5 and (cases[k2]['scheme'] == cases[k]['scheme'] or op in ('encode_str', 'decode', 'save'))]
    calls = [list(r.choice(some)) + [r.random() < .4] for _ in range(r.choice([12, 25, 40]))]
    return dict(codecs=cases, calls=calls)


def jobs(bs):
    out = []
    for s, scheme in enumerate(['bpe', 'word', 'char', 'class', 'byte']):
        r = gen.rng('c30b', s)
        alpha = ['a', 'b', 'c']
        cases = [model(r, scheme, alpha) for _ in range(2)]
        lines = [l.strip() for c in cases for l in c['lines'] if l.strip()]
        n = max(x['a'] for b in bs for x in b['h'])
        args = dict(encode=(lines * 3)[:n], encode_str=(lines * 3)[:n], decode=[[7, 8, 9, 7], [9, 5], [8]][:n], decode_str=[['a', 'b'], ['41'], ['▁', 'a']][:n],
                    lines=[[l] for l in (lines * 3)[:n]])
        ops = list(args)
        if scheme == 'bpe':
            args['split'] = [[l, .7, j] for j, l in enumerate((lines * 3)[:n])]
            args['permutations'] = [11, 12, 10][:n]
            ops += ['split', 'permutations']
        for p in range(len(ops)):
            out.append((cases, args, ops[p:] + ops[:p], bs[p::len(ops)] if not THOROUGH else bs))
    return out


def main():
    import nlcodec, nlcodec.codec, nlcodec.bpe, tqdm, numpy     # loaded once; nothing is called here
    c = Check('C30')
    c.spawn(c.design_refuted, 'MCSessions', 'MCSessions_alias.cfg', 'Alone')
    c.spawn(c.design_refuted, 'MCSessions', 'MCSessions_shared.cfg', 'Alone')
    bs = c.behaviours_from('MCSessions', 'MCSessions_big.cfg' if THOROUGH else None, workers=4)
    js = jobs(bs)
    for j, (s, v) in zip(js, run_cases(replay, js, timeout=350, chunk=1)):
        if s != 'ok':
            c.violation('using two codecs', dict(status=s, detail=v, ops=j[2], cases=j[0]))
        else:
            for x in v[:1]:
                c.violation('a result depends on the codec and the argument alone', x)
    c.behaviours += sum(len(j[3]) for j in js)
    cases = [make(i) for i in range(2500 if THOROUGH else 220)]
    traces = []
    for case, t in zip(cases, c.case_failures(cases, run_cases(record, cases, chunk=1, timeout=120), 'a session')):
        traces.append(t)
    c.validate('TrSessions', traces)
    failed = sum(e['out'] == 'failed' for t in traces for e in t['ev'])
    c.notes['calls'] = dict(all=sum(len(t['ev']) for t in traces), refused=failed)
    return c.finish(rule='every history of 4 calls on two codecs and two (thorough: three) arguments with or without the caller spoiling each result, per scheme and '
                         'operation; generated sessions of 12..40 calls of all operations on 2 or 3 codecs of all schemes, each compared with the '
                         'same call in a process of its own')
