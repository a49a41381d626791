"""C11: parallel encoding equals sequential encoding, in order."""
import zlib
from lib.vlib import Check, run_cases, THOROUGH, cps
from lib import gen, learn, pools


def digest(v):
    return zlib.crc32(repr(v).encode()) & 0x7fffffff


def consume(it, limit=None):
    """-> events"""
    vals, ev = [], []
    outcome = 'ok'
    try:
        for v in it:
            vals.append(v)
            if limit is not None and len(vals) >= limit:
                outcome = None
                break
    except Exception:
        outcome = 'raised'
    if vals:
        ev.append(vals)
    return ev, outcome


def events(it, limit=None, f=digest):
    ev, outcome = consume(it, limit)
    out = [dict(op='yield', vals=[f(v) for v in vs]) for vs in ev]
    if outcome:
        out.append(dict(op='end', outcome=outcome))
    else:
        it.close()
        out.append(dict(op='close'))
    return out


def source(lines, fail_at):
    for i, l in enumerate(lines):
        if i == fail_at:
            raise OSError('source fails')
        yield l


def schedule(case):
    """a behaviour of the pool model: chunks of 2 items with delays that make them finish in the given order"""
    from nlcodec.codec import EncoderScheme
    order, workers, n = case['order'], 3, 7
    delta = 0.03
    finish = {c: (k + 1) * delta for k, c in enumerate(order)}
    free = [0.0] * workers
    delay = {}
    for c in sorted(order):
        w = min(range(workers), key=lambda i: free[i])
        delay[c] = max(finish[c] - free[w], 0)
        free[w] = max(finish[c], free[w])
    items = []
    for i in range(1, n + 1):
        c = (i + 1) // 2
        items.append((i, delay[c] if i % 2 else 0, i == case['fail']))
    ref = list(range(1, n + 1)) if not case['fail'] else list(range(1, case['fail']))
    ev = events(EncoderScheme.parallel_map(pools.Delayed(), iter(items), n_cpus=workers, chunksize=2), f=lambda x: x)
    return dict(ref=ref, fail='yes' if case['fail'] else 'no', ev=ev)


def record(case):
    from nlcodec.codec import REGISTRY, ByteScheme
    scheme = case['scheme']
    codec = ByteScheme() if scheme == 'byte' else REGISTRY[scheme](learn.learn(case))
    r = gen.rng('c11', case['i'])
    words = ['a', 'ab', 'abc', 'b', 'ba', 'cab', 'zzq', 'é']
    lines = ['%s %d %s' % (r.choice(words), k, gen.line(r, words, lo=0, hi=3)) for k in range(case['n'])]
    if case.get('long'):
        words.append(case['lines'][0].split()[0])
        lines = ['%d %s' % (k, r.choice(words)) for k in range(case['n'])]
    if scheme == 'class':
        lines = ['L%d' % (k % 97) for k in range(case['n'])]
    elif r.random() < .6:   # lines without any word, repeated lines
        for k in range(len(lines)):
            if r.random() < case['blanks']:
                lines[k] = r.choice(['', '', ' ', '\t', '\n', 'zzq', 'a', '0', lines[k - 1]])
    fail = 'no'
    if case['fail'] is not None and scheme == 'byte' and case['how'] == 'item':
        lines[case['fail']] = 'bad \ud800'
        fail = 'yes'
    ref = []
    for l in lines:
        try:
            ref.append(codec.encode(l))
        except Exception:
            break
    src = iter(lines)
    if case['fail'] is not None and case['how'] == 'source':
        src = source(lines, case['fail'])
        ref = ref[:case['fail']]
        fail = 'yes'
    elif case['how'] == 'list':
        src = lines
    elif case['how'] == 'generator':
        src = source(lines, -1)
    ev = events(codec.encode_parallel(src, n_cpus=case['cpus']), limit=case['limit'])
    return dict(ref=[digest(x) for x in ref], fail=fail, ev=ev)


def make(i):
    r = gen.rng('c11m', i)
    scheme = r.choice(['byte', 'bpe', 'word', 'char', 'class'])
    alpha = list('abc0123456789')
    c = dict(i=i, scheme=scheme, src='lines', lines=[' '.join(gen.word(r, alpha, 1, 5) for _ in range(6)) for _ in range(30)],
             size=60, minev=1, cpus=r.choice([2, 2, 3, 4, 7]), n=r.choice([0, 1, 2, 3, 20, 999, 1000, 1001, 1999, 2000, 2001, 2500, 3000, 3500]),
             fail=None, blanks=r.choice([.01, .3, .9]), how=r.choice(['list', 'iter', 'generator']), limit=None)
    if i % 20 == 3:
        c.update(scheme='bpe', lines=gen.giants(r, list('abc')) + c['lines'], long=True)
        c['size'] += r.choice([12, 40])
        scheme = 'bpe'
    if i % 12 == 7:     # many lines, one of the cases beyond 64k
        c.update(n=r.randint(3501, 9000) if i > 12 else 70001, cpus=r.choice([2, 3]), how='list')
    if scheme == 'class':
        c['lines'] = ['L%d' % k for k in range(0, 90)]
    if i % 12 == 7:
        return c
    if r.random() < .3 and c['n']:
        c['fail'] = r.choice([0, c['n'] - 1, r.randrange(c['n'])])
        c['how'] = 'source'
        if r.random() < .6:
            c['how'], c['scheme'] = 'item', 'byte'
    elif r.random() < .1 and c['n']:
        c['limit'] = r.randint(1, c['n'])
    return c


def main():
    c = Check('C11')
    bs = c.behaviours_from('MCParMap', workers=3)
    bs = list({(tuple(b['order']), b['fail']): b for b in bs}.values())
    cases = [make(i) for i in range(250 if THOROUGH else 60)]
    r1 = run_cases(schedule, bs, timeout=30, procs=4)
    traces = c.case_failures(bs, r1, 'parallel map')
    c.behaviours += len(bs)
    r2 = run_cases(record, cases, timeout=60, procs=3, chunk=4)
    traces += c.case_failures(cases, r2, 'parallel encoding')
    c.validate('TrParMap', traces)
    c.notes['lines_encoded'] = sum(len(t['ref']) for t in traces)
    return c.finish(rule='every order in which 4 chunks can finish on 3 workers (forced by delays), with and without a failing item; '
                         'streams of 0 to 70001 lines around the chunk size, 2-7 processes, all schemes, failing items and sources, blank and repeated lines')
