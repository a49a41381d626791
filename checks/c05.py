"""C05: a saved model reloads as the same codec."""
import io, json, os, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH, cps
from lib import gen, learn


def rows(table):
    return [dict(idx=t.idx, name=cps(t.name), level=t.level, freq=str(t.freq),
                 kids=[k.idx for k in t.kids] if t.kids else []) for t in table]


def damaged_lines(lines):
    """structure of the row lines of a file"""
    out = []
    for l in lines:
        cols = l.rstrip('\n').split('\t')
        out.append(dict(idx=int(cols[0]), kids=[int(x) for x in cols[4].split()] if len(cols) > 4 else []))
    return out


def load(path):
    from nlcodec.codec import load_scheme
    codec = load_scheme(path)
    return codec


def try_load(path):
    try:
        codec = load(path)
    except Exception:
        return dict(outcome='rejected', rows=[])
    try:
        return dict(outcome='ok', rows=rows(codec.table))
    except Exception:       # rows with parts that are nothing
        return dict(outcome='ok', rows=[])


def coded(codec, text, split=False):
    out = []
    for f in (lambda: codec.encode(text), lambda: codec.encode_str(text), lambda: codec.decode(codec.encode(text)),
              lambda: codec.decode_str(codec.encode_str(text))):
        try:
            v = f()
            out.append([cps(x) if isinstance(x, str) else [x] for x in v] if isinstance(v, list) else [cps(v)])
        except Exception as e:
            out.append([cps(type(e).__name__)])
    return out


def record(case):
    from nlcodec.codec import ByteScheme, REGISTRY
    try:
        table = ByteScheme.learn() if case['scheme'] == 'byte' else learn.learn(case)
    except AssertionError as e:
        if 'is too small' in str(e):
            return None
        raise
    scheme = case['scheme']
    if case['freqs']:
        r = gen.rng('c05f', case['freqs'])
        table = learn.refreq(table, lambda f: r.choice([0, 10, 10**6, 10**10, 10**15, 12 * 10**17, 10**16, 10**20, 2**63, f, f * 100]))
    orig = REGISTRY[scheme](table)
    ev = []
    with tempfile.TemporaryDirectory(prefix='vc05') as d:
        f = Path(d) / 'm.model'
        codec = orig
        for k in range(case['cycles']):
            how = case['how'][k]
            if how == 'path':
                codec.save(f)
                src = f
            elif how == 'str':
                codec.save(str(f))
                src = str(f)
            elif how == 'learn':
                if k == 0 and scheme not in ('byte', 'word'):
                    learn.learn(case, model=f)
                else:
                    codec.save(f)
                src = str(f)
            else:
                buf = io.StringIO()
                codec.save(buf)
                if how == 'file':
                    f.write_text(buf.getvalue(), encoding='utf8', newline='\n')
                    src = open(f, encoding='utf8', newline='\n')
                else:
                    src = io.StringIO(buf.getvalue())
            try:
                codec = load(src)
            except Exception as e:
                ev.append(dict(op='load', outcome='failed', scheme='', rows=[], detail=cps(repr(e)[:200])))
                break
            finally:
                if how == 'file':
                    src.close()
            ev.append(dict(op='load', outcome='ok', scheme=codec.name, rows=rows(codec.table)))
            if type(codec) is not type(orig):
                ev[-1]['scheme'] = type(codec).__name__
            for t in case['texts']:
                ev.append(dict(op='code', orig=coded(orig, t), new=coded(codec, t)))
        else:
            orig.save(f)
            with open(f, encoding='utf8', newline='\n') as fh:
                lines = list(fh)
            head, body = lines[:1], lines[1:]
            level = dict(char=0, bpe=1, word=2).get(scheme)
            if level is not None and max(t.level for t in table) == level:     # written before files named their scheme
                meta = json.loads(head[0][1:])
                del meta['scheme']
                f.write_text('#' + json.dumps(meta) + '\n' + ''.join(body), encoding='utf8', newline='\n')
                try:
                    old = load(f)
                    ev.append(dict(op='load', outcome='ok', scheme=old.name if type(old) is type(orig) else type(old).__name__, rows=rows(old.table)))
                except Exception as e:
                    ev.append(dict(op='load', outcome='failed', scheme='', rows=[], detail=cps(repr(e)[:200])))
            for ops in case['damage']:
                b = list(body)
                for op, i, j, v in ops:
                    i, j = i % max(len(b), 1), j % max(len(b), 1)
                    if not b:
                        continue
                    if op == 'del':
                        del b[i]
                    elif op == 'swap':
                        b[i], b[j] = b[j], b[i]
                    elif op == 'dup':
                        b.insert(i, b[i])
                    elif op in ('kid', 'kids'):
                        both = op == 'kids'
                        cols = b[i].rstrip('\n').split('\t')
                        if len(cols) > 4 and cols[4]:
                            kids = cols[4].split()
                            for k in range(len(kids)) if both else [j % len(kids)]:
                                kids[k] = str(int(cols[0]) + v)
                            b[i] = '\t'.join(cols[:4] + [' '.join(kids)]) + '\n'
                if not b or b == body:
                    continue
                f.write_text(''.join(head + b), encoding='utf8')
                ev.append(dict(op='damaged', lines=damaged_lines(b), **try_load(f)))
    return dict(scheme=scheme, rows=rows(table), ev=ev)


def make(i):
    r = gen.rng('c05', i)
    alpha = gen.alphabet(r)
    c = learn.data(r, alpha, reserved=0.2, big=True)
    c['iter'] = False
    c['scheme'] = r.choice(['bpe'] * 4 + ['word'] * 2 + ['char'] * 2 + ['class'] * 2 + (['byte'] if i % 40 == 0 else []))
    chars = set(''.join(c['lines']) if c['src'] == 'lines' else ''.join(w for w, f in c['tfs']))
    c['minev'] = 1
    c['size'] = len(chars) + 6 + r.choice([1, 4, 8, 40]) if c['scheme'] == 'bpe' else r.choice([0, 0, 9, 12])
    if c['scheme'] == 'class' and c['src'] == 'lines':
        c['lines'] = [' '.join(l.split()) if r.random() < .9 else l.replace('\t', ' ') for l in c['lines']]
        c['lines'] = [l.replace('\t', ' ') for l in c['lines']] + r.choice([[], [''], ['a, b', '#{x}', '"']])
    if c['scheme'] == 'class' and c['src'] == 'lines' and r.random() < .3:
        c['lines'] += r.sample(['a\rb', 'a\r\x0bb', 'b\x85a', 'a\u2028b', 'x\x1cy'], 2)
    words = [w for l in c['lines'] for w in l.split()] if c['src'] == 'lines' else [w for w, f in c['tfs']]
    c['texts'] = [gen.line(r, words + [gen.repeaty(r, alpha), 'zq'] + gen.RESERVED[:2]) for _ in range(4)] + words[:1]
    if c['scheme'] == 'class' and c['src'] == 'lines':
        c['texts'] += r.sample(c['lines'], min(3, len(c['lines'])))
    if i % 50 == 3:
        c.update(src='lines', scheme='bpe', lines=gen.giants(r, alpha))
        c['size'] = len(set(''.join(c['lines']))) + 6 + r.choice([9, 12, 16])
        c['texts'] = c['lines'][:2] + [c['lines'][-1] + 'q ' + c['lines'][0][:99]]
    if i % 50 == 17:        # many rows
        c = dict(src='lines', lines=gen.crowd(r, gen.NICE), iter=False, nl=True, minev=1, scheme=r.choice(['bpe', 'word', 'char', 'class']))
        c['size'] = r.choice([300, 1100]) if c['scheme'] == 'bpe' else -1
        c['texts'] = c['lines'][:3] + [gen.longline(r, c['lines'][:20], 100)]
    c['cycles'] = r.choice([1, 2, 3])
    c['how'] = [r.choice(['path', 'str', 'learn', 'stream', 'file']) for _ in range(3)]
    c['freqs'] = i if r.random() < .2 else 0    # a table made elsewhere, with frequencies of any size
    if c['freqs']:
        c['how'] = [h.replace('learn', 'path') for h in c['how']]
    c['damage'] = []
    for _ in range(6):
        c['damage'].append([(r.choice(['del', 'del', 'swap', 'dup', 'kid', 'kids']), r.randint(0, 200), r.randint(0, 200), r.choice([0, 0, 1, 2, -1, 5]))
                            for _ in range(r.choice([1, 1, 2]))])
    return c


def replay(bs):
    """damage behaviours of the model on a real file; -> differences"""
    from nlcodec.codec import BPEScheme, Type, Level, Reseved
    bad = []
    with tempfile.TemporaryDirectory(prefix='vc05') as d:
        f = Path(d) / 'm'
        cache = {}
        for b in bs:
            key = repr(b['table'])
            if key not in cache:
                t = Reseved.with_reserved_types()
                for i, kids in enumerate(b['table']):
                    ks = tuple(t[6 + k] for k in kids)
                    t.append(Type(ks[0].name + ks[1].name if ks else 'abcdef'[i], level=int(bool(ks)), idx=6 + i, freq=1,
                                  kids=ks or None))
                BPEScheme(t).save(f)
                cache[key] = f.read_text(encoding='utf8').split('\n')[:-1]
            lines = cache[key]
            head, body = lines[:7], [l.rstrip('\n') for l in lines[7:]]
            for op, i, j, v in b['ops']:
                if op == 'del':
                    del body[i - 1]
                elif op == 'swap':
                    body[i - 1], body[j - 1] = body[j - 1], body[i - 1]
                elif op == 'dup':
                    body.insert(i - 1, body[i - 1])
                else:
                    cols = body[i - 1].split('\t')
                    kids = cols[4].split()
                    for k in (0, 1) if op == 'kids' else [j - 1]:
                        kids[k] = str(6 + v)
                    body[i - 1] = '\t'.join(cols[:4] + [' '.join(kids)])
            f.write_text('\n'.join(head + body) + '\n', encoding='utf8')
            got = try_load(f)
            if (got['outcome'] == 'ok') != (b['verdict'] == 'loaded'):
                bad.append(dict(behaviour=b, got=got))
    return bad


def main():
    c = Check('C05')
    bs = c.behaviours_from('MCModel', 'MCModel_big.cfg' if THOROUGH else None, workers=4)
    # an acceptable damaged file need not load (it may be rejected for other reasons): only wrong acceptance counts
    batches = [bs[i::16] for i in range(16)]
    for b, (s, v) in zip(batches, run_cases(replay, batches, timeout=300)):
        if s != 'ok':
            c.violation('loading a damaged model', dict(status=s, detail=v))
            continue
        for x in v:
            if x['behaviour']['verdict'] == 'rejected':
                c.violation('a damaged model is rejected', x)
            elif not x['behaviour']['ops']:
                c.violation('a saved model loads', x)
    c.behaviours += len(bs)
    cases = [make(i) for i in range(2500 if THOROUGH else 400)]
    traces = c.case_failures(cases, run_cases(record, cases), 'save, load and use')
    c.validate('TrModel', [t for t in traces if t])
    c.notes['damaged_files'] = sum(1 for t in traces if t for e in t['ev'] if e['op'] == 'damaged')
    return c.finish(rule='every damage of the design model on a real file; learned models of all schemes saved and loaded up to '
                         'three times by path, str, file object and in-memory stream, with texts coded before and after')
