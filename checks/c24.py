"""C24: heap, linked list and trie behave as their abstract data types."""
from lib.vlib import Check, run_cases, THOROUGH
from lib import gen

NODES = dict(int=lambda i: i, neg=lambda i: -i, str=lambda i: f'n{i:04}', pair=lambda i: (i, i * 7 % 5), uni=lambda i: chr(0x900 + i) * 2)
SYMS = dict(str=lambda k: ''.join(chr(96 + s) for s in k), uni=lambda k: ''.join(chr(0x1F600 + s) for s in k), ints=list,
            tuple=tuple, words=lambda k: [f'w{s}' for s in k])


def heap(case):
    from nlcodec.dstruct import MaxHeap
    f = NODES[case['nodes']]
    back = {f(n): n for n in range(0, 300)}
    ops = case['hist']
    h = MaxHeap({f(x['n']): x['p'] for x in ops[0]['items']})
    ev = []

    def give(op, fn):
        try:
            node, p = fn()
            ev.append(dict(op=op, outcome='ok', n=back[node], p=p))
        except IndexError:
            ev.append(dict(op=op, outcome='empty', n=0, p=0))
    for o in ops[1:]:
        if o['op'] == 'push':
            h.push(f(o['n']), o['p'])
            ev.append(dict(op='push', n=o['n'], p=o['p'], outcome='ok'))
        else:
            give(o['op'], h.pop if o['op'] == 'pop' else h.peek)
        ev.append(dict(op='len', n=len(h)))
    if case.get('drain'):
        for _ in range(len(h) + 1):
            give('peek', h.peek)
            give('pop', h.pop)
    return dict(kind='heap', items=[dict(n=x['n'], p=x['p']) for x in {x['n']: x for x in ops[0]['items']}.values()], ev=ev)


def links(case):
    from nlcodec.dstruct import LnNode
    vals, freq, data = case['vals'], case['freq'], case['data']
    as_str = case['as_str']
    v = (lambda x: chr(x)) if as_str else (lambda x: x)
    seq = ''.join(map(v, vals)) if as_str else [v(x) for x in vals]
    nodes = LnNode.from_seq(seq, **({} if freq == 1 and case['default'] else dict(freq=freq)), **({} if data == 0 else dict(data=data)))
    num = {id(n): i for i, n in enumerate(nodes, 1)}
    at = lambda n: 0 if n is None else num.get(id(n), -1)
    inv = (lambda x: ord(x)) if as_str else (lambda x: x)

    def shown(n):
        return [(ord(t.strip('*')) if as_str else int(t.strip('*'))) for t in repr(n).split()]

    def look():
        return dict(op='look', freq=freq, data=data, nodes=[dict(l=at(n.left), r=at(n.right), val=inv(n.val), freq=n.freq, data=0 if n.data is None else n.data,
                                                                 unl=bool(n.is_unlinked), shown=shown(n)) for n in nodes])
    ev = [look()] if len(nodes) else []
    for o in case['ops']:
        n = nodes[o['n'] - 1]
        if o['op'] == 'delete':
            n.delete() if o['unlink'] and case['default'] else n.delete(unlink=o['unlink'])
            ev.append(dict(op='delete', n=o['n'], unlink=o['unlink'], outcome='ok'))
        else:
            n.val = v(o['v'])
            ev.append(dict(op='setval', n=o['n'], v=o['v'], outcome='ok'))
        ev.append(look())
    return dict(kind='list', vals=vals, ev=ev or [dict(op='look', freq=freq, data=data, nodes=[])])


def trie(case):
    from nlcodec.dstruct import TrNode
    f = SYMS[case['keys']]
    root = TrNode(None) if case['named'] else TrNode(idx='')
    store = case['store']                     # what the numbers stand for
    ev = []
    for o in case['hist'][1:]:
        key, one = o['key'], f
        e = dict(op='get', key=key, create=o['create'], put=-1)
        try:
            n = root.get_node(f(key)) if o['create'] and case['named'] else root.get_node(idxs=f(key), create_missing=o['create'])
        except (KeyError, AttributeError, LookupError):
            n = None
        if n is None:
            ev.append(dict(e, outcome='missing'))
            continue
        path, m = [], n
        while m is not root and m is not None and len(path) <= 4000:
            path.append(m.idx)
            m = m.parent
        back = {f([s])[0]: s for s in range(0, 60)}
        path = [back.get(x, -1) for x in reversed(path)]
        ev.append(dict(e, outcome='ok', put=o['put'], path=path, has=bool(n.has_data), data=-1 if n.data is None else store.index(n.data) if n.data in store else -3,
                       kids=n.n_kids, size=n.size, count=n.data_node_count, total=root.size, totalcount=root.data_node_count))
        if o['put'] >= 0:
            n.data = store[o['put']]
        elif o['put'] == -2:
            n.data = None
    return dict(kind='trie', ev=ev)


def record(case):
    return dict(heap=heap, list=links, trie=trie)[case['kind']](case)


def make(i):
    r = gen.rng('c24', i)
    k = ['heap', 'list', 'trie'][i % 3]
    if k == 'heap':
        top = r.choice([1, 2, 5, 50, 10**9])
        n = r.choice([1, 3, 20, 200, 290])
        item = lambda: dict(n=r.randint(0, n), p=r.randint(0, top) if r.random() < .9 else -r.randint(0, top))
        items = list({x['n']: x for x in (item() for _ in range(r.choice([0, 1, 5, 30]) if i % 90 else 280))}.values())
        hist = [dict(op='new', items=items)]
        bias = r.choice([.3, .5, .8])
        for _ in range(r.choice([3, 10, 40]) if i % 90 else r.choice([300, 900])):
            x = r.random()
            hist.append(dict(item(), op='push') if x < bias else dict(op='peek' if x > .9 else 'pop'))
        return dict(kind=k, nodes=r.choice(list(NODES)), hist=hist, drain=r.random() < .7)
    if k == 'list':
        n = r.choice([0, 1, 2, 3, 5, 8, 15]) if i % 90 != 1 else r.choice([100, 260])
        vals = [r.randint(97, 97 + r.choice([0, 2, 25])) for _ in range(n)]
        ops, gone = [], {}
        for _ in range(r.choice([0, 1, 3, min(n, 20), min(n, 20) + 2]) if n else 0):
            m = r.randint(1, n)
            if r.random() < .25:
                ops.append(dict(op='setval', n=m, v=r.randint(97, 122)))
            elif gone.get(m, True):
                u = r.random() < .7
                gone[m] = u
                ops.append(dict(op='delete', n=m, unlink=u))
        return dict(kind=k, vals=vals, freq=r.choice([1, 1, 2, 77]), data=r.choice([0, 5]), as_str=r.random() < .4, default=r.random() < .5, ops=ops)
    ns = r.choice([1, 2, 3, 26])
    keys = [[r.randint(1, ns) for _ in range(r.choice([0, 1, 2, 3, 6]))] for _ in range(r.choice([1, 3, 8]))]
    if r.random() < .05:
        keys.append([r.randint(1, ns) for _ in range(60)])
    if i % 600 == 5:         # deeper than the interpreter lets functions nest
        n = r.choice([500, 700, 1000, 1100])
        deep = [r.randint(1, ns) for _ in range(n)]
        keys = [deep, deep[:n // 2], deep[:n // 2] + [1], deep[:-1]]
    keys += [x[:-1] for x in keys if x and r.random() < .5] + [x + [1] for x in keys if r.random() < .2]
    if i % 90 == 2:
        keys = [[r.randint(1, 26) for _ in range(r.choice([1, 2, 3]))] for _ in range(150)]
    hist = [{}]
    for _ in range(r.choice([2, 6, 20]) if i % 90 != 2 else 260):
        hist.append(dict(key=r.choice(keys), create=r.random() < .6, put=r.choice([-2, -1, -1, 0, 1, 2, 3])))
    return dict(kind=k, keys=r.choice(list(SYMS)), named=r.random() < .5, hist=hist, store=r.choice([[0, '', 'x', 7], [3, 4, 5, 6], [(), (1,), False, 'y']]))


def from_model(i, b):
    r = gen.rng('c24m', i)
    if b['kind'] == 'heap':
        return dict(kind='heap', nodes=r.choice(list(NODES)), hist=b['hist'], drain=i % 4 == 0)
    if b['kind'] == 'list':
        return dict(kind='list', vals=[97 + j for j in range(b['hist'][0]['n'])], freq=1, data=0, as_str=i % 2 == 0, default=i % 3 == 0,
                    ops=b['hist'][1:])
    return dict(kind='trie', keys=r.choice(list(SYMS)), named=i % 2 == 0, hist=b['hist'], store=[0, 'x'])


def main():
    c = Check('C24')
    got = {}
    for m in ('MCHeap', 'MCLinks', 'MCTrie'):
        c.spawn(lambda m=m: got.update({m: c.behaviours_from(m)}))
    for m, inv in (('MCHeap', 'TopIsLargest'), ('MCLinks', 'Refines'), ('MCTrie', 'Refines')):
        c.spawn(c.design_refuted, m, f'{m}_bad.cfg', inv, 1)
    c.join()
    for m in ('MCHeap_big', 'MCHeap_deep', 'MCLinks_big', 'MCTrie_big') if THOROUGH else ('MCTrie_deep',):
        c.spawn(c.design_check, m.split('_')[0], m + '.cfg', 2)
    bs = [from_model(i, b) for m in sorted(got) for i, b in enumerate(got[m])]
    cases = bs + [make(i) for i in range(12000 if THOROUGH else 2400)]
    traces = c.case_failures(cases, run_cases(record, cases, procs=7), 'using a container')
    c.behaviours += len(bs)
    c.validate('TrContainers', traces, workers=6)
    return c.finish(rule='every history of 4 heap operations on up to 2 nodes and 3 priorities, every list of up to 4 nodes under up to 4 deletions, every pair of trie operations on keys of up to 2 symbols; '
                         'random histories up to 40 operations, keys up to 60 symbols, nodes and keys of several types')
