"""attempts to write a multi-part database, and what a load sees afterwards"""
import hashlib, itertools, os, pickle, random, resource, signal, sys
from pathlib import Path
from .vlib import MachineryError
from .store import srec, out_rec

NAMES = ['x', 'y']


def snap(path):
    path = Path(path)
    if not path.is_dir():
        return 'file' if path.exists() else None
    res = {}
    for p in sorted(path.rglob('*')):
        s = p.stat()
        res[str(p.relative_to(path))] = (s.st_ino, s.st_mtime_ns, hashlib.sha256(p.read_bytes()).hexdigest() if p.is_file() else 'dir')
    return res


def same(a, b):
    if not isinstance(a, dict) or not isinstance(b, dict):
        return a == b
    return {k: v[2] for k, v in a.items()} == {k: v[2] for k, v in b.items()}


def dataset(r, n, tag, lo=0, hi=5, ids=None, top=300):
    ids = list(range(n)) if ids is None else ids
    return [(i, [[r.randint(0, top) for _ in range(r.randint(lo, hi))] + [tag], [tag, k % 250]]) for k, i in enumerate(ids)]


class Stop(Exception):
    pass


ERRORS = [Stop, Stop, GeneratorExit, GeneratorExit, StopIteration, SystemExit, lambda: OSError(5, 'Input/output error'), ValueError, KeyError, EOFError, IndexError, TypeError, AttributeError, RuntimeError,
          MemoryError, AssertionError, FileNotFoundError, BrokenPipeError, lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid')]


class Kill(BaseException):
    pass


def write(path, a, on_rec=None):
    """one attempt, in this process"""
    from nlcodec.db.core import MultipartDb
    r = random.Random(a.get('seed', 0))

    def feed(items):
        for k, x in enumerate(items):
            if on_rec:
                on_rec(x)
            yield x

    recs = a['recs']
    if a['api'] == 'create':
        stream = feed(recs) if a['has_id'] else feed([c for i, c in recs])
        return MultipartDb.create(path, stream, NAMES, has_id=a['has_id'], overwrite=a['overwrite'], part_size=a['size'],
                                  **({'max_parts': a['maxp']} if a.get('maxp') else {}))
    parts = [(num, [recs[j] for j in idx]) for num, idx in a['parts']]
    kw = dict(overwrite=a['overwrite'], **({'max_parts': a['maxp']} if a.get('maxp') else {}))
    if a['api'] == 'with':
        with MultipartDb.Writer(path, NAMES, **kw) as w:
            for num, rs in parts:
                w(num, feed(rs) if r.random() < .7 else iter(list(feed(rs))))
            if on_rec:
                on_rec(None)
    elif a['api'] == 'forked':      # parts written by several processes, as with spark
        with MultipartDb.Writer(path, NAMES, **kw) as w:
            blob = pickle.dumps(w)
            pids = []
            for num, rs in parts:
                pid = os.fork()
                if pid == 0:
                    try:
                        pickle.loads(blob)(num, iter(rs))
                        os._exit(0)
                    except BaseException:
                        os._exit(7)
                pids.append(pid)
            for pid in pids:
                if os.waitpid(pid, 0)[1]:
                    raise Stop('a part writer failed')
    else:
        w = MultipartDb.Writer(path, NAMES, **kw)
        for num, rs in parts:
            w(num, feed(rs))
        w.close()


WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def is_fs_event(name, args):
    if name in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.rename', 'os.truncate', 'os.link', 'os.symlink', 'os.unlink'):
        return True
    if name == 'open':
        p, mode, flags = args
        if isinstance(p, (str, bytes)) and os.fsdecode(p).startswith('/dev/'):
            return False
        return isinstance(flags, int) and bool(flags & WRITING) or (isinstance(mode, str) and any(c in mode for c in 'wax+'))
    return False


def install(fault):
    """
    fault: dict(kind=kill|oserror|torn|full, k=number of the file operation, n=bytes)
      kill: process ends just before the k-th file operation
      oserror: the k-th operation fails
      torn / full: from the k-th operation on, a file holds n bytes at most; the process is killed / gets an error at that point
    """
    count = [0]

    def hook(name, args):
        if not is_fs_event(name, args):
            return
        count[0] += 1
        if count[0] != fault['k']:
            return
        if fault['kind'] == 'kill':
            os._exit(77)
        if fault['kind'] == 'oserror':
            raise OSError(28, 'No space left on device')
        if fault['kind'] == 'intr':
            raise KeyboardInterrupt()
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fault['kind'] == 'torn' else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fault['n'], fault['n']))
    sys.addaudithook(hook)
    return count


def attempt(path, a, fault=None):
    """-> event; the attempt runs in a child process when a fault is injected"""
    path = Path(path)
    pre = snap(path)
    whole = True
    if fault is None:
        try:
            write(path, a)
            ended = 'returned'
        except Exception as e:
            ended = 'raised'
    else:
        stop = fault['kind'] in ('raise', 'exit', 'interrupt')
        pid = os.fork()
        if pid == 0:
            rc = 8
            try:
                os.setpgid(0, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(30)
                n = [0]

                def on_rec(x):
                    n[0] += 1
                    if n[0] == fault['k']:
                        if fault['kind'] == 'raise':
                            raise random.Random(repr((fault['k'], len(a['recs'])))).choice(ERRORS)()
                        if fault['kind'] == 'interrupt':
                            raise Kill()
                        os._exit(77)
                count = [0] if stop else install(fault)
                try:
                    write(path, a, on_rec if stop else None)
                    # not reached: the operation to fail at does not exist
                    rc = 5 if (n[0] if stop else count[0]) < fault['k'] else 0
                except BaseException:
                    rc = 4 if (n[0] if stop else count[0]) < fault['k'] else 6
            finally:
                os._exit(rc)
        _, status = os.waitpid(pid, 0)
        if os.WIFEXITED(status):
            rc = os.WEXITSTATUS(status)
            if rc == 8:
                raise MachineryError(f'attempt child: status {status}')
            ended = {0: 'returned', 5: 'returned', 6: 'raised', 4: 'raised', 77: 'killed'}.get(rc, 'killed')
            if rc in (4, 5):
                fault['past'] = True
            elif stop:
                whole = fault['kind'] == 'exit'    # the stream of records itself ended with an error
        else:
            ended = 'killed'
            if os.WTERMSIG(status) == signal.SIGALRM:
                ended = 'killed'
    post = snap(path)
    left = isinstance(pre, dict) and isinstance(post, dict) and any(
        post.get(k) == v and (k.startswith('part-') or k == '_SUCCESS') for k, v in pre.items())
    return dict(op='attempt', recs=[srec(i, c) for i, c in a['recs']], whole=whole, overwrite=a['overwrite'], ended=ended,
                pre='data' if pre else ('absent' if pre is None else 'empty'), same=same(pre, post), leftover=left, fault=fault is not None and not fault.get('past'))


def load(path, keep=False, shuffle=False, passes=0, rec_type=None):
    """-> events: a load and its first pass, further passes"""
    from nlcodec.db.core import MultipartDb
    try:
        db = MultipartDb.load(path, keep_in_mem=keep, shuffle=shuffle, **({'rec_type': rec_type} if rec_type else {}))
    except Exception:
        return [dict(op='load', outcome='refused', out=[], n=0)]
    try:
        out = [out_rec(x, NAMES) for x in db]
        ev = [dict(op='load', outcome='ok', out=out, n=len(db))]
        for _ in range(passes):
            ev.append(dict(op='pass', out=[out_rec(x, NAMES) for x in db]))
        if passes:
            a, b = iter(db), iter(db)
            oa = [out_rec(x, NAMES) for x in itertools.islice(a, 2)]
            ob = [out_rec(x, NAMES) for x in b]
            oa += [out_rec(x, NAMES) for x in a]
            ev += [dict(op='pass', out=oa), dict(op='pass', out=ob)]
        return ev
    except Exception:
        return [dict(op='load', outcome='partial', out=[], n=0)]
