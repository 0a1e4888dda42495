"""Verify contracts and the contracts they rely on, in parallel."""
import multiprocessing
import os
import signal
import sys
import time
import traceback

CONTRACT_SECONDS = 240
SLOW = ['algebras.multiclans.defined_at', 'mathobjects.multiset.Multiset.__getitem__', 'algebras.sets.union',
        'algebras.clans.lhs_cross_functional_union', 'algebras.relations.rename', 'algebras.relations.swap']


class Late(Exception):
    pass


def late(signum, frame):
    raise Late()


def one(task):
    key, mode, repo, max_failed, clauses = task
    t0 = time.time()
    r = dict(key=key, mode=mode, status='crash', obs=[], used=[], inlined=[], note='', s=0, solver_s=0, queries=0)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(CONTRACT_SECONDS)
    try:
        from pyvc import verify
        from spec.contracts import CONTRACTS
        sys.setrecursionlimit(20000)
        v = verify.Verifier(repo, CONTRACTS)
        x = v.verify(CONTRACTS[key], [mode], max_failed, clauses)
        r.update(status=x.status, obs=x.obs, used=sorted(x.used), inlined=sorted(x.inlined), assumed=sorted(x.assumed), note=x.note,
                 solver_s=round(x.solver_s, 2), queries=x.queries)
    except Late:
        r.update(status='unsupported', note='no answer in %d s' % CONTRACT_SECONDS)
    except Exception as e:
        r.update(note='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    r['s'] = round(time.time() - t0, 2)
    return r


def modes(c): return [True, False] if c.checked else [True]


def run(keys, repo, procs=8, closure=True, max_failed=3, clauses=None, seconds=400):
    """Results {(key, mode): result} for keys and the contracts that their proofs rely on."""
    from spec.contracts import CONTRACTS
    from spec.mapping import UNPROVED
    from pyvc import verify  # noqa: imported before the fork
    res, asked = {}, set()
    end = time.time() + seconds
    with multiprocessing.get_context('fork').Pool(procs, maxtasksperchild=1) as pool:
        running = {}

        def ask(ks):
            for k in sorted(ks, key=lambda k: (SLOW.index(k) if k in SLOW else len(SLOW), k)):
                if k in asked or closure and k in UNPROVED:
                    continue
                asked.add(k)
                for m in modes(CONTRACTS[k]):
                    running[k, m] = pool.apply_async(one, ((k, m, repo, max_failed, clauses),))
        ask(keys)
        while running:
            done = [k for k, r in running.items() if r.ready()]
            for k in done:
                try:
                    res[k] = running.pop(k).get()
                except Exception as e:
                    res[k] = dict(key=k[0], mode=k[1], status='crash', obs=[], used=[], inlined=[], note=repr(e), s=0, solver_s=0, queries=0)
                if closure:
                    ask(res[k]['used'])
            if not done:
                time.sleep(0.02)
            if time.time() > end:
                for k in running:
                    res[k] = dict(key=k[0], mode=k[1], status='unsupported', obs=[], used=[], inlined=[],
                                  note='no answer: %d s are over' % seconds, s=0, solver_s=0, queries=0)
                break
    return res


def fixed_hash():
    """Solver runs depend on the order of sets of names: fix it."""
    if os.environ.get('PYTHONHASHSEED') != '0' and not os.environ.get('PYVC_HASH'):
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.orig_argv[1:])


def main():
    fixed_hash()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    from spec.contracts import CONTRACTS
    repo = os.environ.get('VERIF_REPO', '/repo')
    from collections import Counter
    t0 = time.time()
    keys = [k for k in CONTRACTS if not sys.argv[1:] or any(a == k or a in k for a in sys.argv[1:])]
    res = run(keys, repo, closure=False)
    for (k, m), r in sorted(res.items()):
        bad = [o for o in r['obs'] if not o['ok']]
        if r['status'] != 'verified' or os.environ.get('PYVC_ALL'):
            print('%-11s %-50s %-5s %3d/%3d %5.1fs (solver %.1fs, %d queries) %s' % (
                r['status'], k, m, len(r['obs']) - len(bad), len(r['obs']), r['s'], r['solver_s'], r['queries'], r['note']))
            for o in bad:
                print('       %s | %s | %s' % (o['name'], o['clause'], o['where']))
                if os.environ.get('PYVC_OUT'):
                    print(o.get('output'))
    print(Counter(r['status'] for r in res.values()), 'obligations', sum(len(r['obs']) for r in res.values()),
          'cpu %.0f s, wall %.0f s' % (sum(r['s'] for r in res.values()), time.time() - t0))


if __name__ == '__main__':
    main()
