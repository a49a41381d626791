"""python -m lib.learn_worker CASES OUT JUNK : learn every case in this process, write one outcome per line"""
import tempfile, sys, json, hashlib, random, gc, signal
from pathlib import Path
from lib import vlib


def outcome(case):
    from lib import learn
    try:
        with tempfile.TemporaryDirectory(prefix='vlw') as d:
            rows = learn.rows_of(learn.learn(case, model=Path(d) / 'm' if case.get('keep') else None))
        return dict(outcome='ok', rows=hashlib.sha1(json.dumps(rows).encode()).hexdigest())
    except vlib.CaseTimeout:
        return dict(outcome='hang', rows='')
    except AssertionError as e:
        if 'is too small' in str(e):
            return dict(outcome='refused', rows='')
        return dict(outcome='failed', rows='', detail=repr(e)[:300])
    except Exception as e:
        return dict(outcome='failed', rows='', detail=repr(e)[:300])


def main():
    src, out, junk = sys.argv[1:4]
    vlib.setup_repo_path()
    sys.stderr = open('/dev/null', 'w')
    signal.signal(signal.SIGALRM, vlib._alarm)
    r = random.Random(junk)
    keep = []
    with open(out, 'w') as fh:
        for line in open(src):
            case = json.loads(line)
            # a different memory layout in every process
            tmp = [dict(x=i) for i in range(r.randint(0, 400))]
            r.shuffle(tmp)
            keep = (keep + tmp[:r.randint(0, 100)])[-3000:]
            del tmp
            if r.random() < .2:
                gc.collect()
            signal.setitimer(signal.ITIMER_REAL, 30)
            res = outcome(case)
            signal.setitimer(signal.ITIMER_REAL, 0)
            fh.write(json.dumps(res) + '\n')
            fh.flush()


if __name__ == '__main__':
    main()
