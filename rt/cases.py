"""Evaluate contracts on the real code: one seeded case per call."""
import collections.abc
import importlib
import random
import traceback

import algebraixlib.mathobjects as mo
import algebraixlib.undef as undef
from spec import contracts as C, logic as L
from spec.prims import UNDEF
from rt import gen as G
from rt.objs import absv, mk, show, truth, wrong_flags, flags_of, Bad

DOM = {'set': L.is_set, 'mset': L.is_mset, 'coll': L.is_coll, 'couplet': L.is_couplet, 'rel': L.is_rel,
       'clan': L.is_clan, 'mclan': L.is_mclan, 'mo': L.is_mo, 'graph': L.is_graph}
COSTLY = {'binary_extend', 'join', 'lhs_cross_functional_union', 'cross_functional_union'}
FUNS = {'fun1': G.FUN1, 'fun2': G.FUN2, 'pred': G.PRED, 'inv': G.INV}


def resolve(key):
    parts = key.split('.')
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module('.'.join(['algebraixlib'] + parts[:i]))
        except ImportError:
            continue
        for p in parts[i:]:
            o = getattr(o, p)
        return o
    raise ImportError(key)


def function(con):
    if 'code' not in con.opts:
        return resolve(con.key)
    env = vars(importlib.import_module('algebraixlib.' + con.module)).copy()
    exec(con.opts['code'], env)
    return env['f']


class Violation(Exception):
    def __init__(self, clause, msg):
        super().__init__(msg)
        self.clause, self.msg = clause, msg


def gen_arg(g, dom, prev, bad):
    """Abstract argument; bad: outside of its domain (or undefined)."""
    r = g.r
    if dom in DOM:
        if bad:
            if r.random() < .4:
                return UNDEF
            for _ in range(20):
                v = g.mo(2)
                if not DOM[dom](v):
                    return v
            return UNDEF
        for p in prev:
            if p[0] in 'SMC' and r.random() < .45:
                v = g.related(dom, p)
                if v is not None and DOM[dom](v):
                    return v
        return getattr(g, dom)()
    if dom == 'any': return g.any()
    if dom == 'left': return UNDEF if r.random() < .05 else g.comp() if r.random() < .9 else g.mo(1)
    if dom == 'val': return g.comp() if r.random() < .9 else g.mo(1)
    if dom == 'lefts': return g.seq(True)
    if dom in ('vals', 'iter', 'moiter'): return g.seq(False)
    if dom == 'scalaru' and r.random() < .2: return UNDEF
    if dom in ('scalar', 'scalaru'): return g.comp() if r.random() < .7 else g.mo(1)
    if dom == 'counter': return g.mset()
    if dom == 'dict': return g.dict_()
    if dom == 'mos': return ('Q', tuple(g.clan() if r.random() < .9 else g.mo(2) for _ in range(g.n(2))))
    if dom == 'optval': return g.optval()
    if dom == 'optdict': return ('N',) if r.random() < .2 else g.dict_()
    if dom in FUNS: return ('F', r.choice(sorted(FUNS[dom])), dom)
    raise ValueError(dom)


def biased(g, con, dom, prev):
    """Arguments that make the interesting branches of some operations frequent (None: no special rule)."""
    r = g.r
    if r.random() < .35:
        return None
    n = con.name
    if con.module.endswith('.rdf'):
        return {'is_graph': g.almost_graph, 'is_absolute_graph': g.almost_graph, 'is_triple': g.triple, 'is_absolute_triple': g.triple,
                'join': g.clan, 'pattern_match': g.graph, 'match_and_project': g.graph}.get(n, lambda: None)()
    if n.startswith('big_'):
        f = g.rel if r.random() < .3 else (lambda: g.set(0)) if con.module.endswith('.sets') and r.random() < .6 else \
            (lambda: g.mset(0)) if r.random() < .9 else g.mclan
        es = [f()]
        for _ in range(g.n(3)):
            x = g.related('mset' if es[0][0] == 'M' else 'set', r.choice(es))
            es.append(f() if x is None or r.random() < .3 else x)
        return ('S', frozenset(es))
    if n == 'single':
        x = g.mo(1)
        return ('S', frozenset({x})) if con.module.endswith('.sets') else ('M', frozenset({(x, 1 + g.n(1))}))
    if n in ('substrict', 'superstrict', 'is_subset_of', 'is_superset_of') and prev:
        a = prev[0]
        if a[0] != ('M' if con.module.split('.')[-1] in ('multisets', 'multiclans') else 'S'):
            return None
        down = (n in ('superstrict', 'is_superset_of'))
        if con.module.endswith('clans') and r.random() < .7:
            o = []
            for e in (a[1] if a[0] == 'S' else [e for e, _ in a[1]]):
                if e[0] != 'S': return None
                o.append(('S', frozenset(c for c in e[1] if r.random() < .7)) if down else ('S', e[1] | g.rel()[1]))
            return ('S', frozenset(o)) if a[0] == 'S' else g.counts(o)
        if a[0] == 'S':
            if down:
                return ('S', frozenset(e for e in a[1] if r.random() < .7))
            return ('S', a[1] | getattr(g, dom)()[1])
        d = {}
        for e, k in a[1]:
            m = k - g.n(k) if down else k + g.n(2)
            if m > 0: d[e] = m
        if not down:
            for e, k in getattr(g, dom)()[1]:
                d.setdefault(e, k)
        return ('M', frozenset(d.items()))
    if con.opts.get('prop'):
        return r.choice([g.rel, g.clan, g.mclan])()
    if n == '__call__' and dom == 'set':
        return ('S', frozenset(('C', x, g.comp()) for x in g.pool if r.random() < .7))
    if n in ('get_left_set', 'get_right_set', '__getitem__') and r.random() < .6:
        if dom == 'mset':
            return g.mclan() if n != '__getitem__' or r.random() < .5 else g.counts(g.rel()[1])
        if dom == 'set':
            return g.rel() if r.random() < .5 else g.clan()
    if n in ('functional_union', 'right_functional_union', 'functional_add') and dom == 'rel':
        if not prev:
            d = {x: g.comp() for x in g.pool if r.random() < .6}
            return ('S', frozenset(('C', a, b) if n[0] == 'f' else ('C', b, a) for a, b in d.items()))
        if prev[0][0] == 'S' and r.random() < .7:
            es = [e for e in prev[0][1] if r.random() < .5]
            used = {e[1] if n[0] == 'f' else e[2] for e in prev[0][1] if e[0] == 'C'}
            for x in g.pool:
                if x not in used and r.random() < .5:
                    es.append(('C', x, g.comp()) if n[0] == 'f' else ('C', g.comp(), x))
            return ('S', frozenset(es))
    return None


def plain(v, rng, o, force=False):
    """Use the plain Python value instead of the Atom sometimes."""
    if v[0] == 'A' and rng.random() < .4 and not force:
        return v[2]
    return o


class Sharing:
    """Reuse equal operands as the same object sometimes."""


def iterable(dom, v, rng, hist):
    """A list, tuple, generator, ... of the items."""
    l = [plain(x, rng, mk(x, rng, hist), dom == 'moiter') for x in v[1]]
    k = rng.randrange(6)
    if k == 5 and len(set(v[1])) == len(v[1]):
        return frozenset(mk(x, rng, hist) for x in v[1]) if rng.random() < .5 else {mk(x, rng, hist): 0 for x in v[1]}.keys()
    return [list, tuple, iter, lambda l: (x for x in l), lambda l: map(lambda x: x, l), list][k](l)


def real_arg(dom, v, rng, hist, pool, checked=True):
    if dom in ('iter', 'moiter'):
        return iterable(dom, v, rng, hist)
    if dom in ('counter', 'plaincounter'):
        d = {plain(x, rng, mk(x, rng, hist), dom == 'counter'): n for x, n in v[1]}
        if len(d) < len(v[1]):
            d = {mk(x, rng, hist): n for x, n in v[1]}
        return d if rng.random() < .5 else collections.Counter(d)
    if v[0] == 'F':
        f = FUNS[dom][v[1]]
        if dom == 'pred':
            return lambda x: f(absv(x))
        if dom == 'inv':
            def inv(x):
                r = f(absv(x))
                return r[2] if r[0] == 'A' and hash(str(x)) % 3 == 0 else mk(r, random.Random(1), 0)
            return inv
        def fun(*a):
            r = f(*[absv(x) for x in a])
            for x in a:
                if absv(x) == r:
                    return x
            return mk(r, random.Random(1), hist)
        return fun
    if v[0] == 'N':
        return None
    if v[0] == 'P':
        return v[2]
    if v[0] == 'Q':
        return [plain(x, rng, mk(x, rng, hist), not checked or dom == 'mos') for x in v[1]]
    if v[0] == 'D':
        return {plain(a, rng, mk(a, rng, hist)): plain(b, rng, mk(b, rng, hist)) for a, b in v[1]}
    if v in pool and rng.random() < .5:
        return pool[v]
    o = mk(v, rng, hist)
    pool[v] = o
    if dom in ('scalar', 'scalaru') and v[0] == 'A' and not isinstance(v[2], str) and isinstance(v[2], collections.abc.Iterable):
        return o                # a plain value that is iterable stands for its elements
    if dom in ('left', 'val', 'scalar', 'scalaru'):
        return plain(v, rng, o, not checked)
    return o


def spec_arg(v):
    if v[0] == 'F':
        return FUNS[v[2]][v[1]]
    return v


def costly(con):
    """Pairs of relations, and pairs of couplets for each of them."""
    return sum(d in ('clan', 'mclan', 'coll') for d in con.params.values()) > 1


_fn = {}


def from_caching(e):
    """The exception comes from the code that records cached properties: a contradictory status."""
    return any(f.name.startswith('cache_') or f.name == '_setter_helper' for f in traceback.extract_tb(e.__traceback__))


def run_case(con, seed, clauses, info=None):
    """One case of contract con. clauses: subset of value (result, for operands inside of their domains),
    undef (the same for others, and other undefined-handling levels), flags, frame. Raises Violation.
    Returns (nontrivial, description)."""
    rng = random.Random(seed)
    sizes = (5, 8) if con.name in COSTLY or con.name.startswith('big_') else (5, 12) if costly(con) else (5, 12, 40)
    g = G.Gen(rng, 0 if con.name == 'power_set' else .03, sizes)
    names = list(con.params)
    bad_at = -1
    algebra = [i for i, n in enumerate(names) if con.params[n] in DOM]
    if 'undef' in clauses and algebra and not con.opts.get('total') and rng.random() < .5:
        bad_at = rng.choice(algebra)
    args = []
    for i, n in enumerate(names):
        dom = con.params[n]
        a = biased(g, con, dom, args) if i != bad_at and dom in ('set', 'mset', 'coll', 'rel', 'clan', 'mclan', 'any', 'mo') \
            else None
        if a is None or dom in DOM and not DOM[dom](a):
            a = gen_arg(g, dom, args, i == bad_at)
        args.append(a)
    # unary operations: sometimes on something derived
    checked = True
    if con.checked and not con.opts.get('prop'):
        if bad_at >= 0 and args[bad_at][0] != 'U':
            checked = True                      # unchecked with a non-member breaks the precondition
        else:
            checked = rng.random() < .5
    hist = rng.choice([0, 0, .3, .6, 1])
    level = rng.choice([0, 0, 0, 1, 2, 3]) if 'undef' in clauses else 0
    pool = {}
    rargs = [real_arg(con.params[n], a, rng, hist, pool, checked) for n, a in zip(names, args)]
    desc = '%s(%s)%s' % (con.key, ', '.join(show(a) for a in args), '' if checked else ' unchecked')
    if info is not None:
        info['call'] = desc
        info['flags_before'] = [flags_of(o) for o in rargs if isinstance(o, mo.MathObject)]
    # --- expected outcome
    sargs = [spec_arg(a) for a in args]
    outside = any(con.params[n] in DOM and not DOM[con.params[n]](a) for n, a in zip(names, args))
    unspec = (con.opts.get('prop') or con.name in ('get_left_set', 'get_right_set')) and L.nested(args[0])
    if con.opts.get('prop') and L.is_mset(args[0]) is None:
        unspec = True
    if outside:
        expected = UNDEF
    elif con.opts.get('relational'):
        expected = None
    else:
        expected = con.fn(*sargs)
    # --- call
    fn = _fn.get(con.key)
    if fn is None:
        fn = _fn[con.key] = function(con)
    kw = {}
    if not checked:
        kw['_checked'] = False
    pos = []
    for n, o in zip(names, rargs):
        if con.params[n] in ('lefts', 'vals', 'mos'):
            pos.extend(o)
        else:
            pos.append(o)
    before = [(o, absv(o), hash(o)) for o in pos if isinstance(o, mo.MathObject)]
    undef.RaiseOnUndef.set_level(level)
    raised = False
    try:
        result = fn(*pos, **kw)
    except undef.UndefException:
        raised = True
        result = undef.Undef()
        if level == 0:
            raise Violation('undef', 'UndefException at level 0')
    except RecursionError:
        raise
    except Exception as e:
        if unspec:
            return False, desc
        raise Violation('caching' if from_caching(e) else 'exception', '%s: %s' % (type(e).__name__, e))
    finally:
        undef.RaiseOnUndef.reset()
    if info is not None:
        info['result'] = str(result)
        info['flags_after'] = [flags_of(o) for o in list(pos) + [result] if isinstance(o, mo.MathObject)]
    # --- value and undef clauses
    try:
        if not unspec and not (raised and level > 0) and 'value' in clauses:
            if con.rtype == 'V':
                av = absv(result)
            elif result is undef.Undef():
                av = UNDEF
            else:
                av = result
                if type(result) is not {'int': int}.get(con.rtype, bool):
                    raise Violation('value', 'result %r is not of type %s' % (result, {'int': 'int'}.get(con.rtype, 'bool')))
            if con.opts.get('relational') and not outside:
                ok = con.fn(*(sargs + [av]))
                exp = 'see contract'
            else:
                ok = av == expected and (av is UNDEF or type(av) == type(expected))
                exp = show(expected) if isinstance(expected, tuple) else expected
            if not ok:
                got = show(av) if isinstance(av, tuple) else av
                cl = 'undef' if av == UNDEF or expected == UNDEF else 'value'
                raise Violation(cl, 'result is %s, expected %s' % (got, exp))
        if isinstance(result, mo.MathObject) and 'flags' in clauses:
            w = wrong_flags(result)
            if w:
                raise Violation('flags', 'result: cached %s of %s is %d, truth is %d' % (w[1], w[0], w[2], w[3]))
        for o, a, h in before:
            if 'frame' in clauses:
                try:
                    same, now = absv(o) == a and hash(o) == h, o
                except Bad as e:
                    same, now = False, e
                if not same:
                    raise Violation('frame', 'operand %s was changed to %s' % (show(a), now))
            if 'flags' in clauses:
                w = wrong_flags(o, a)
                if w:
                    raise Violation('flags', 'operand: cached %s of %s is %d, truth is %d' % (w[1], w[0], w[2], w[3]))
    except Bad as e:
        raise Violation('value', 'ill-formed object: %s' % e)
    nontrivial = expected != UNDEF and any(a[0] in 'SMC' and L.card(a) != 0 or a[0] in 'CQD' for a in args)
    return nontrivial, desc
