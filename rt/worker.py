"""Run cases on the real code:  worker.py PROPERTY SEED INDEX WORKERS SECONDS OUT [only-task ...]
or replay one of them:          worker.py --replay FILE
Runs under the interpreter of the library, with PYTHONPATH=/repo:/verif and PYTHONHASHSEED fixed."""
import array
import gc
import json
import signal
import sys
import time
import warnings

warnings.simplefilter('ignore')
MAX_FOUND = 25
CASE_SECONDS = 20


class NoAnswer(BaseException):
    pass


def no_answer(signum, frame):
    raise NoAnswer()


def hung(e):
    """The violation of a case without an answer; None for a large case, which may just be slow."""
    from rt import gen
    return None if gen.LARGE else ('exception', 'no result in %d s' % CASE_SECONDS)


signal.signal(signal.SIGALRM, no_answer)


def run(prop, seed, index, workers, seconds, out, only):
    from rt import gen
    from rt.cases import Violation
    from rt.tasks import tasks
    ts = tasks(prop, only)
    if only:        # directed at some functions
        ts = {k: (f, a, 4 if k in only else 1) for k, (f, a, w) in ts.items() if k in only or k.startswith('case:') and w > 1}
        gen.FACTOR = 4
    t0 = time.time()
    count, nontriv, found, samples = {k: 0 for k in ts}, {k: 0 for k in ts}, [], {}
    hashes = array.array('q')
    n = index
    while ts and time.time() - t0 < seconds and len(found) < MAX_FOUND:
        for name, (fn, accept, weight) in ts.items():
            if time.time() - t0 > seconds * 1.5 and n > index or time.time() - t0 > seconds + 2 * CASE_SECONDS:
                break
            for k in range(weight):
                s = (seed << 40) + (n * weight + k)
                count[name] += 1
                signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
                gen.LARGE = False
                try:
                    nt, desc = fn(s, info=None)
                    if nt:
                        nontriv[name] += 1
                        hashes.append(hash(desc))
                        if name not in samples and n > index:
                            samples[name] = desc
                except Violation as e:
                    if e.clause in accept:
                        found.append((name, s, e.clause, e.msg))
                except NoAnswer as e:
                    h = hung(e)
                    if h and h[0] in accept:
                        found.append((name, s) + h)
                except MemoryError:
                    raise
                if time.time() - t0 > seconds * 1.5:
                    break
        n += workers
    signal.setitimer(signal.ITIMER_REAL, 0)
    rep = []
    for name, s, clause, msg in found:
        info = {}
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS if msg[:9] != 'no result' else 1)
        try:
            ts[name][0](s, info=info)
        except (Violation, NoAnswer):
            pass
        signal.setitimer(signal.ITIMER_REAL, 0)
        rep.append({'factor': gen.FACTOR, 'task': name, 'seed': s, 'clause': clause, 'message': msg, 'info': info})
    with open(out + '.hash', 'wb') as f:
        hashes.tofile(f)
    with open(out, 'w') as f:
        json.dump({'count': count, 'nontrivial': nontriv, 'found': rep, 'samples': samples}, f, default=str)


def replay(path):
    from rt import gen
    from rt.cases import Violation
    from rt.tasks import tasks
    r = json.load(open(path))
    gen.FACTOR = r['factor']
    fn, accept, _ = tasks(r['property'], [r['task']])[r['task']]
    info = {}
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    try:
        try:
            fn(r['seed'], info=info)
        except NoAnswer as e:
            h = hung(e)
            if h:
                raise Violation(*h)
    except Violation as e:
        print('reproduced: %s: %s\n%s' % (e.clause, e.msg, json.dumps(info, indent=1, default=str)))
        return 1
    print('not reproduced\n%s' % json.dumps(info, indent=1, default=str))
    return 0


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    a = sys.argv[1:]
    run(a[0], int(a[1]), int(a[2]), int(a[3]), float(a[4]), a[5], a[6:])
