"""C27: file streams return exactly the lines that were written, compressed or not."""
import os, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH, cps
from lib import gen


class Stop(Exception):
    pass


def shown(x):
    return cps(x) if isinstance(x, str) else list(x)


def replay(bs):
    from nlcodec.utils import IO
    bad = []
    with tempfile.TemporaryDirectory(prefix='c27_') as d:
        for k, b in enumerate(bs):
            ps = [Path(d) / f'{k}.{p}{".gz" if (k + p) % 2 else ".txt"}' for p in (1, 2)]
            try:
                for h in b['hist']:
                    with IO.writer(ps[h['path'] - 1], text=False, append=h['append']) as out:
                        out.write(bytes(h['chunk']))
                with IO.reader(ps[b['path'] - 1], text=b['text']) as f:
                    got = [shown(l) for l in f]
            except Exception as e:
                got = repr(e)
            if got != b['out']:
                bad.append(dict(b, gz=(k + b['path']) % 2, got=got))
            for p in ps:
                if p.exists():
                    p.unlink()
    return bad


def record(case):
    from nlcodec.utils import IO
    r = gen.rng('c27r', case['i'])
    ev = []
    with tempfile.TemporaryDirectory(prefix='c27_') as d:
        paths = [Path(d) / n for n in case['names']]
        arg = lambda p: paths[p - 1] if r.random() < .7 else str(paths[p - 1])
        for o in case['ops']:
            op, p = o['op'], o.get('path')
            fd = None
            if op == 'write':
                chunks = [c if o['text'] else c.encode('utf-8') if isinstance(c, str) else bytes(c) for c in o['chunks']]
                try:
                    kw = dict(append=True) if o['append'] else {} if r.random() < .5 else dict(append=False)
                    if not o['text'] or r.random() < .5:
                        kw['text'] = o['text']
                    mode = ('a' if o['append'] else 'w') + (r.choice(['', 't']) if o['text'] else 'b')
                    with (IO.writer(arg(p), **kw) if r.random() < .7 else IO(arg(p), mode)) as fd:
                        if r.random() < .3:
                            fd.writelines(chunks)
                        else:
                            for c in chunks:
                                fd.write(c)
                        if o['stop']:
                            raise Stop()
                    oc = 'ok'
                except Stop:
                    oc = 'stopped'
                except Exception as e:
                    oc = 'raised'
                ev.append(dict(op='write', path=p, append=o['append'], text=o['text'], chunks=[shown(c) for c in chunks], stop=o['stop'],
                               outcome=oc, closed=bool(fd is not None and fd.closed)))
                if oc == 'raised':
                    break
            elif op == 'read':
                out = []
                try:
                    mode = r.choice([[], ['r'], ['rt']]) if o['text'] else ['rb']
                    with (IO(arg(p), *mode) if r.random() < .3 else IO.reader(arg(p)) if o['text'] and r.random() < .6 else IO.reader(arg(p), text=o['text'])) as fd:
                        how = r.random()
                        if how < .6:
                            out = list(fd)
                        elif how < .8:
                            while True:
                                l = fd.readline()
                                if not l:
                                    break
                                out.append(l)
                        else:
                            out = fd.readlines()
                    oc = 'ok'
                except Exception:
                    oc = 'raised'
                ev.append(dict(op='read', path=p, text=o['text'], out=[shown(l) for l in out] if oc == 'ok' else [], outcome=oc, closed=bool(fd is not None and fd.closed)))
            elif op == 'stream':
                out = []
                try:
                    out = [shown(l) for l in (IO.read_as_stream([arg(q) for q in o['paths']]) if o['text'] and r.random() < .6 else
                                              IO.read_as_stream([arg(q) for q in o['paths']], text=o['text']))]
                    oc = 'ok'
                except Exception:
                    oc, out = 'raised', []
                ev.append(dict(op='stream', paths=o['paths'], text=o['text'], out=out, outcome=oc))
            elif op == 'cut' and paths[p - 1].exists():
                data = paths[p - 1].read_bytes()
                paths[p - 1].write_bytes(data[:max(1, len(data) - o['n'])])
                ev.append(dict(op='cut', path=p))
    return dict(n=len(paths), ev=ev)


BREAKS = ['\n', '\n', '\n', '\r\n', '\r', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029', '\n\n', '\x00', '\x1a', '\ufeff']
WRONG = [b'\xff', b'\xc3', b'\xe2\x82', b'\xed\xa0\x80', b'\xf0\x9f\x98', b'\xc0\x80', b'\x80', b'\xfe', b'\xf4\x90\x80\x80', b'\xe2\x82\n', b'\xc3\r\n']


def piece(r):
    a = gen.alphabet(r, 4)
    out = ''
    for _ in range(r.randint(0, 4)):
        out += gen.line(r, [gen.word(r, a), r.choice(gen.NATURAL)], lo=0, hi=3) + r.choice(BREAKS)
    if r.random() < .2:
        out += gen.word(r, a)
    if r.random() < .02:     # many lines
        out += ''.join(gen.line(r, ['a', 'é'], lo=0, hi=2) + r.choice(BREAKS) for _ in range(r.choice([130, 300, 1100])))
    if r.random() < .04:     # over the blocks of the layers below
        out += ''.join(r.choice(['é', '中', '😀', 'a', ' ']) for _ in range(r.choice([4090, 8190, 8193, 9000]))) + r.choice(BREAKS) + 'end'
    return out


def make(i):
    r = gen.rng('c27', i)
    n = r.choice([1, 2, 2, 3])
    names = [f'{k}{r.choice([".txt", "", ".gz", ".gz", ".tok.gz", ".gz.txt", "é.gz"])}' for k in range(n)]
    ops = []
    appended = set()
    for k in range(r.randint(3, 9)):
        p = r.randint(1, n)
        op = r.choice(['write', 'write', 'read', 'read', 'stream']) if k else 'write'
        if op == 'write':
            text = r.random() < .7
            chunks = [piece(r) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            if not text and r.random() < .6:
                chunks.insert(r.randint(0, len(chunks)), list(b''.join(r.choice(WRONG) + r.choice([b'', b'a', b'\n']) for _ in range(r.randint(1, 4)))))
            ops.append(dict(op=op, path=p, text=text, append=r.random() < .5, chunks=chunks, stop=r.random() < .1))
            appended.add(p)
        elif op == 'read':
            ops.append(dict(op=op, path=p, text=r.random() < .6))
        else:
            ops.append(dict(op=op, paths=[r.randint(1, n) for _ in range(r.randint(0, 3))], text=r.random() < .6))
    if r.random() < .15:
        names.append('cut.gz')
        ops += [dict(op='write', path=n + 1, text=True, append=False, chunks=[piece(r) + 'x'], stop=False), dict(op='cut', path=n + 1, n=r.choice([1, 2, 7, 8, 9, 12, 20])),
                dict(op='read', path=n + 1, text=r.random() < .5), dict(op='stream', paths=[n + 1], text=True)]
    for o in ops:           # the first character of a file is as good as any other
        if o['op'] == 'write' and o['text'] and o['chunks'] and r.random() < .15:
            o['chunks'][0] = r.choice(['\ufeff', '\ufeff\n', '#', '\ufffe', '\x00']) + o['chunks'][0]
    return dict(i=i, names=names, ops=ops)


def main():
    c = Check('C27')
    bs = c.behaviours_from('MCTextFiles')
    c.spawn(c.design_refuted, 'MCTextFiles', 'MCTextFiles_bad.cfg', 'Refines', 1)
    if THOROUGH:
        c.spawn(c.design_check, 'MCTextFiles', 'MCTextFiles_big.cfg', 3)
    if not THOROUGH:
        bs = gen.rng('c27b').sample(bs, min(len(bs), 16000))
    batches = [bs[i::24] for i in range(24)]
    for b, (s, v) in zip(batches, run_cases(replay, batches, timeout=300)):
        if s != 'ok':
            c.violation('writing and reading files', dict(status=s, detail=v))
        else:
            for x in v[:3]:
                c.violation('what was written is read back, line by line', x)
    c.behaviours += len(bs)
    cases = [make(i) for i in range(6000 if THOROUGH else 700)]
    traces = c.case_failures(cases, run_cases(record, cases, timeout=60), 'files')
    c.validate('TrTextFiles', traces)
    c.notes['events'] = sum(len(t['ev']) for t in traces)
    return c.finish(rule='two files under every two writes or appends of up to 2 bytes (a, CR, LF, a two-byte character) then read as text and bytes (quick: a sample), '
                         'plain and compressed; generated histories of up to 9 operations with all Unicode line separators, invalid UTF-8, texts over the block sizes, '
                         'errors in the block, missing and truncated files')
