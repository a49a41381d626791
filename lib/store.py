"""records, ids and sequences as the opaque strings of SeqStore.tla"""
import hashlib


def sid(x):
    if isinstance(x, str):
        return 's' + x.encode('utf-8').hex()
    if hasattr(x, '__index__'):
        return f'i{int(x)}'
    return 'o' + repr(x).encode('utf-8').hex()


LONG = 64


def sval(v):
    """exact value of an integer; anything else (e.g. a float out of a wrong conversion) stays visible"""
    if hasattr(v, '__index__'):
        return str(int(v))
    return f'{type(v).__name__}:{v!r}'


def scol(col):
    vals = [sval(v) for v in col]
    if len(vals) > LONG:
        return [f'len{len(vals)}:' + hashlib.sha256(','.join(vals).encode()).hexdigest()]
    return vals


def srec(id, cols):
    return dict(id=sid(id), cols=[scol(c) for c in cols], lens=[len(c) for c in cols])


def out_rec(row, names):
    """what a Db yields: a named tuple (id, *fields)"""
    return dict(id=sid(row.id), cols=[scol(getattr(row, n)) for n in names])
