"""C25: Devanagari expansion is reversible."""
import importlib.util, io, os, subprocess, tempfile
from pathlib import Path
from lib.vlib import Check, run_cases, THOROUGH, cps, REPO, PY
from lib import gen

FILE = REPO / 'experimental' / 'uxdx.py'


def load():
    s = importlib.util.spec_from_file_location('uxdx', FILE)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def tool(mod, lines, decode, end, how):
    text = '\n'.join(lines) + ('\n' if end and lines else '')
    seen = text.split('\n')[:-1] if text.endswith('\n') or not text else text.split('\n')
    if how == 'lib':
        out = io.StringIO()
        mod.main(io.StringIO(text), out, decode=decode)
        res = out.getvalue()
    else:
        with tempfile.TemporaryDirectory(prefix='vux') as d:
            i, o = Path(d) / 'i', Path(d) / 'o'
            i.write_bytes(text.encode())
            cmd = [PY, str(FILE)] + (['-d'] if decode else [])
            if how == 'files':
                subprocess.run(cmd + ['-i', str(i), '-o', str(o)], check=True, timeout=60)
                res = o.read_bytes().decode()
            else:
                res = subprocess.run(cmd, input=text.encode(), stdout=subprocess.PIPE, check=True, timeout=60, env=dict(os.environ, PYTHONUTF8='1')).stdout.decode()
    got = res.split('\n')
    return dict(op='tool', decode=decode, lines=[cps(x) for x in seen], outcome='ok', out=[cps(x) for x in (got[:-1] if got[-1] == '' else got + ['?'])])


def record(case):
    m = load()
    dev = m.Devanagari()
    ev = []
    for t in case['texts']:
        x = dev.encode(t)
        ev += [dict(op='expand', text=cps(t), out=cps(x), outcome='ok'), dict(op='contract', text=cps(t), out=cps(dev.decode(t)), outcome='ok'),
               dict(op='back', text=cps(t), out=cps(dev.decode(x)), outcome='ok')]
    for decode, end, how in case['tools']:
        lines = [dev.encode(x) for x in case['lines']] if decode else case['lines']
        ev.append(tool(m, lines, decode, end, how))
    return dict(name='ux', ev=ev)


EDGE = [0x914, 0x915, 0x916, 0x938, 0x939, 0x93a, 0x93c, 0x94d, 0x957, 0x958, 0x95f, 0x960, 0x22ee, 0x905, 0x93f, 0x20, 0x61, 0x995, 0x1f600]
NOBREAK = [c for c in EDGE if c != 0x20]


def text(r, cs, hi, breaks):
    k = r.random()
    pool = cs if k < .7 else list(range(0x900, 0x980)) if k < .9 else [0x22ed, 0x22ee, 0x22ef, 0x915, 0x92f, 0x85, 0x2028, 0xb, 9, 0x10ffff] + ([10, 13] if breaks else [])
    return ''.join(map(chr, (r.choice(pool) for _ in range(r.randint(0, hi)))))


def make(i):
    r = gen.rng('c25', i)
    if i % 50 == 7:
        big = [''.join(map(chr, r.choices(EDGE, k=n))) for n in (300, 1100, 2100, 5000, 9000)]
        rows = [''.join(map(chr, r.choices(NOBREAK, k=r.choice([1, 3, 600])))) for _ in range(r.choice([30, 300]))]
        return dict(texts=big, lines=rows, tools=[(d, True, r.choice(['lib', 'files', 'pipe'])) for d in (False, True)])
    return dict(texts=[text(r, EDGE, r.choice([3, 8, 30]), True) for _ in range(8)], lines=[text(r, EDGE, 9, False) for _ in range(r.choice([0, 1, 2, 5]))],
                tools=[(d, r.random() < .6, 'lib' if i % 8 else r.choice(['files', 'pipe'])) for d in (False, True)])


def main():
    c = Check('C25')
    bs = c.behaviours_from('MCUxdx')
    c.spawn(c.design_refuted, 'MCUxdx', 'MCUxdx_bad.cfg', 'Refines', 1)
    if THOROUGH:
        c.spawn(c.design_check, 'MCUxdx', 'MCUxdx_big.cfg', 3)
    texts = [''.join(map(chr, b['text'])) for b in bs]
    # every code point once, next to a consonant on either side
    allcp = [chr(x) for x in range(0x110000 if THOROUGH else 0x3000) if not 0xd800 <= x < 0xe000]
    pairs = ['क' + ''.join(y + 'ह' for y in allcp[k:k + 200]) for k in range(0, len(allcp), 200)]
    cases = [dict(texts=(texts + pairs)[k:k + 40], lines=[], tools=[]) for k in range(0, len(texts + pairs), 40)] + [make(i) for i in range(4000 if THOROUGH else 500)]
    traces = c.case_failures(cases, run_cases(record, cases, timeout=100, procs=7), 'expanding')
    c.behaviours += len(bs)
    c.validate('TrUxdx', traces)
    return c.finish(rule='every text of up to 4 symbols over the edges of the consonant ranges, the marker, viram, nukta and others; every code point below U+3000 (thorough: all) between consonants; '
                         'generated texts through the API and generated files through the tool')
