#!/usr/bin/env python3
"""Decide one property of /repo:  check.py PROPERTY [--tier quick|thorough] | check.py --replay FILE

1. Proof: the contracts of the functions of the property, and the contracts that their proofs rely on, are
   verified (pyvc) against the source in /repo as it is now.
2. Contracts evaluated on the real code (rt), bounded: looks for inputs that break a contract - a replay of failed
   obligations, and the only check of functions outside of the prover's reach (labelled bounded)."""
import array
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

# seconds of bounded checking: with a proof, without one, and to find the input for a failed obligation
SECONDS = {'quick': (12, 20, 40), 'thorough': (180, 240, 180)}
RULE = ('Operands are generated from a seeded grammar of math objects (small pools of components, so that lefts, '
        'rights, elements and relations collide; empty, nested and mixed-type values; random subsets of the true '
        'cached properties already known; shared and separate operand objects; checked and unchecked calls). A case '
        'is non-trivial if the specified result is defined and an operand is a non-empty collection or couplet.')


def env(seed):
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO + os.pathsep + HERE, PYTHONHASHSEED=str(seed % 4294967295), PYTHONDONTWRITEBYTECODE='1',
             PYTHONWARNINGS='ignore')
    return e


class Concrete:
    """The workers that run contracts on the real code."""

    def __init__(self, prop, seed, seconds, workers, only=()):
        self.dir = tempfile.mkdtemp(prefix='verif-')
        self.outs, self.procs = [], []
        for i in range(workers):
            o = os.path.join(self.dir, '%d.json' % i)
            self.outs.append(o)
            self.procs.append(subprocess.Popen(
                [PYPY, '-m', 'rt.worker', prop, str(seed), str(i), str(workers), str(seconds), o] + list(only),
                cwd=HERE, env=env(seed), stdout=subprocess.DEVNULL, stderr=open(o + '.err', 'w')))

    def wait(self):
        """{'count', 'nontrivial', 'found', 'samples', 'distinct', 'errors'}"""
        r = {'count': {}, 'nontrivial': {}, 'found': [], 'samples': {}, 'errors': [], 'answers': 0}
        distinct = set()
        for p, o in zip(self.procs, self.outs):
            p.wait()
            if p.returncode or not os.path.exists(o):
                r['errors'].append(open(o + '.err').read()[-2000:])
                continue
            r['answers'] += 1
            d = json.load(open(o))
            for k in ('count', 'nontrivial'):
                for n, c in d[k].items():
                    r[k][n] = r[k].get(n, 0) + c
            r['found'] += d['found']
            for n, s in d['samples'].items():
                r['samples'].setdefault(n, s)
            a = array.array('q')
            with open(o + '.hash', 'rb') as f:
                a.frombytes(f.read())
            distinct.update(a)
        r['distinct'] = len(distinct)
        shutil.rmtree(self.dir, ignore_errors=True)
        return r


def known_findings(prop):
    """Recorded defects that are not repaired: lines 'finding: property=ID {"task": .., "match": .., "what": ..}'."""
    l = []
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        if line.startswith('finding: property=%s ' % prop):
            l.append(json.loads(line.split(' ', 2)[2]))
    return l


def write_replay(prop, name, data):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, name))
    with open(p, 'w') as f:
        json.dump(data, f, indent=1, default=str)
    return p


def replay(path):
    d = json.load(open(path))
    if d.get('task'):
        return subprocess.call([PYPY, '-m', 'rt.worker', '--replay', os.path.abspath(path)], cwd=HERE, env=env(d['hashseed']))
    from pyvc import report, run
    run.fixed_hash()
    rc = flag_replay(path)[0] if d['property'] == 'C08' else 0
    engine = report.engine(d['property']) or report.extra(d['property'])
    results = engine.run(REPO) if engine else {}
    for o in d['failed_obligations']:
        r = results.get((o['function'], o['mode'])) or run.one((o['function'], o['mode'], REPO, 1000, None))
        bad = [x for x in r['obs'] if not x['ok'] and x['name'] == o['name']]
        print('%s: %s: %s' % (o['function'], o['name'], 'still fails' if bad else r['status']))
        for x in bad:
            print(x.get('output'))
            rc = 1
    return rc


def flag_replay(path):
    p = subprocess.run([PYPY, '-m', 'rt.flagreplay', os.path.abspath(path)], cwd=HERE, env=env(0), capture_output=True, text=True)
    print(p.stdout + p.stderr)
    return p.returncode, p.stdout


def lean_lemmas():
    """The lemmas behind the axioms that are not definitions do not depend on the source: only checked in the thorough tier."""
    try:
        p = subprocess.run(['lean', 'Lemmas.lean'], cwd=os.path.join(HERE, 'lean'), capture_output=True, text=True, timeout=300)
    except (OSError, subprocess.TimeoutExpired) as e:
        return 'not checked in this run: %s' % e
    return 'lean/Lemmas.lean: all theorems checked' if p.returncode == 0 and 'sorry' not in p.stdout else 'FAILED: ' + p.stdout[:2000]


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    from pyvc import report, run
    from spec.contracts import CONTRACTS
    run.fixed_hash()
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    pf = report.Proof(prop)
    engine = report.engine(prop)
    if engine:
        pf.results = engine.run(REPO)
    elif pf.keys:
        pf.results = run.run(pf.keys, REPO, closure=pf.closure, clauses=pf.only, seconds=400 if tier == 'quick' else 3000)
        if report.extra(prop):
            pf.results.update(report.extra(prop).run(REPO))
    pf.evaluate()
    lines = list(dict.fromkeys('obligation not discharged: %s: %s (%s)' % (o['function'], o['name'], o['where']) for o in pf.failed))
    print('\n'.join(lines[:20] + ['and %d more' % (len(lines) - 20)] * (len(lines) > 20) + ['']), end='')
    for k, why in pf.lost:
        print('outside of the prover\'s subset, bounded check only: %s: %s' % (k, why))

    secs = SECONDS[tier]
    res = Concrete(prop, seed, secs[0] if pf.keys else secs[1], 8).wait()
    found = res['found']
    bad = {o['function'] for o in pf.failed} | {k for k, _ in pf.lost}
    directed = [t + k for k in sorted(bad & set(CONTRACTS)) for t in ('contract:', 'undefined:')] + ([report.EXTRA[prop][3]] if bad & pf.extra else [])
    extra = 0
    if not found and (directed or engine and bad):
        r2 = Concrete(prop, seed + 1, secs[2] if pf.failed else secs[1], 8, directed).wait()
        found, extra = [dict(f, hashseed=seed + 1) for f in r2['found']], sum(r2['count'].values())

    known = known_findings(prop)
    new, shown = [], set()
    for f in sorted(found, key=lambda f: (len(str(f['info'].get('call'))), f['task'], f['seed'])):
        k = [x for x in known if x['task'] == f['task'] and x['match'] in str(f['info'].get('call'))]
        if k:
            shown.add(k[0]['what'])
        else:
            new.append(f)
    for w in sorted(shown):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    status = 0
    obl = [dict(o, output=o.get('output', '')[:6000]) for o in pf.failed]
    if new:
        f = new[0]
        rp = write_replay(prop, 'input', dict(f, property=prop, hashseed=f.get('hashseed', seed), failed_obligations=obl,
                                              replay_cmd='python3-vt check.py --replay <this file>'))
        print('%s: %s\n  %s' % (f['task'], f['message'], f['info'].get('call')))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        status = 1
    elif obl:
        data = dict(
            property=prop, task=None, failed_obligations=obl, replay_cmd='python3-vt check.py --replay <this file>',
            note='The verifier gives no counterexample; %d generated calls of the functions found no failing input.' % (extra + sum(res['count'].values())))
        rp = write_replay(prop, 'obligation', data)
        confirmed = prop == 'C08' and flag_replay(rp)[0] == 1
        if confirmed:
            write_replay(prop, 'obligation', dict(data, note='The counterexample of the verifier (model) was replayed on the real code.'))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if confirmed else ' no-failing-input-found'))
        status = 1
    for e in res['errors']:
        print('worker failed:\n' + e, file=sys.stderr)

    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    bounded = {'evaluations': sum(res['count'].values()) + extra, 'distinct_nontrivial': res['distinct'], 'rule': RULE,
               'samples': ['%s: %s' % kv for kv in sorted(res['samples'].items())[:12]],
               'evaluations_by_task': res['count']}
    cov = dict(bounded)
    if pf.keys:
        if tier == 'thorough':
            cov['lean_lemmas'] = lean_lemmas()
        cov.update(pf.coverage('python3-vt check.py %s --tier %s' % (prop, tier)))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if pf.keys else 'exploration', 'coverage': cov,
          'assumptions': pf.assumptions(), 'wall_s': round(time.time() - t0, 2), 'violations': len(new) or len(obl)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not res['answers'] and not status:
        return 2
    print('%s: %d of %d obligations discharged for %d functions; %d cases, %d distinct non-trivial; %.1f s' % (
        prop, pf.discharged, pf.obligations, pf.functions, bounded['evaluations'], bounded['distinct_nontrivial'], ev['wall_s']))
    return status


if __name__ == '__main__':
    sys.exit(main())
