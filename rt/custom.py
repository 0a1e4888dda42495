"""Checks on the real code that are not one contract applied once: histories, pairs of calls, files."""
import copy
import importlib
import io
import os
import random
import shutil
import tempfile
from collections import Counter
from collections.abc import Iterable

import algebraixlib.mathobjects as mo
import algebraixlib.structure as st
import algebraixlib.undef as undef
from spec import contracts as C, logic as L
from spec.prims import UNDEF
from rt import cases, gen as G
from rt.cases import Violation, resolve
from rt.objs import absv, mk, show, truth, wrong_flags, flags_of, PROPS, Bad


def size(rng, k, big=100):
    """Below k, rarely much more than that (for code that treats large input in a way of its own)."""
    return rng.randrange(k) if rng.random() < .97 else rng.randrange(big)


def check_flags(objs, what):
    for o in objs:
        if isinstance(o, mo.MathObject):
            try:
                w = wrong_flags(o)
            except Bad:
                continue            # reported by the properties about values
            if w:
                raise Violation('flags', '%s: cached %s of %s is %d, truth is %d' % (what, w[1], w[0], w[2], w[3]))


# === C07: histories ===============================================================================
HISTORY = [k for k, c in C.CONTRACTS.items() if 'custom' not in c.opts]


def c07_history(seed, clauses, info=None):
    rng = random.Random(seed)
    g = G.Gen(rng)
    pool = []                                   # (abstract, real)
    trace = []
    n = rng.randint(3, 9)
    for _ in range(n):
        con = C.CONTRACTS[rng.choice(HISTORY)]
        names = list(con.params)
        args, rargs = [], []
        for nm in names:
            dom = con.params[nm]
            if dom in cases.DOM or dom == 'any':
                cand = [(v, o) for v, o in pool if dom == 'any' or cases.DOM[dom](v)]
                if cand and rng.random() < .75:
                    v, o = rng.choice(cand)
                else:
                    v = cases.biased(g, con, dom, args) if dom in ('set', 'mset', 'rel', 'clan', 'mclan', 'any') else None
                    if v is None or dom != 'any' and not cases.DOM[dom](v):
                        v = cases.gen_arg(g, dom, args, False)
                    o = mk(v, rng, rng.choice([0, 0, .5]))
                    if v[0] != 'U' and len(pool) < 12:
                        pool.append((v, o))
            else:
                v = cases.gen_arg(g, dom, args, False)
                o = cases.real_arg(dom, v, rng, 0, {}, True)
            args.append(v)
            rargs.append(o)
        pos = []
        for nm, o in zip(names, rargs):
            if con.params[nm] in ('lefts', 'vals', 'mos'):
                pos.extend(o)
            else:
                pos.append(o)
        trace.append('%s(%s)' % (con.key, ', '.join(show(a) for a in args)))
        if info is not None:
            info['call'] = '; '.join(trace)
        try:
            res = cases.function(con)(*pos)
        except Exception as e:
            if cases.from_caching(e):
                raise Violation('caching', 'step %d: a contradictory property was recorded: %s: %s'
                                % (len(trace), type(e).__name__, e))
            continue
        check_flags([res], 'result of step %d' % len(trace))
        if isinstance(res, mo.MathObject):
            try:
                v = absv(res)
            except Bad:
                return False, '; '.join(trace)
            if L.card(v) <= 8 and len(pool) < 12:
                pool.append((v, res))
        check_flags([o for _, o in pool], 'operand or other object after step %d' % len(trace))
    return len(pool) > 1, '; '.join(trace)


# === C08: recording properties ====================================================================
IMPLIED = {     # property, status -> what else it records, unless the object is empty
    ('relation', 1): {'clan': 2, 'multiclan': 2, 'regular': 3, 'right_regular': 3},
    ('clan', 1): {'relation': 2},
}
IMPLIED_ALWAYS = {('regular', 1): {'functional': 1}, ('right_regular', 1): {'right_functional': 1}}
NEVER_NA = {'relation', 'clan', 'multiclan', 'absolute'}


def state(o):
    return {p: getattr(o, 'cached_' + p) for p in PROPS}


def c08_record(seed, clauses, info=None):
    rng = random.Random(seed)
    g = G.Gen(rng, .03, (5, 12, 40))
    v = g.mo(2) if rng.random() < .4 else rng.choice([g.rel, g.clan, g.mclan, g.set, g.mset])()
    t = truth(v)
    o = mk(v, rng, rng.choice([0, .3, .6, 1]))
    desc = show(v)
    if info is not None:
        info['call'] = desc
    log = []
    for _ in range(4):
        p = rng.choice(PROPS)
        w = rng.randrange(4) if rng.random() < .6 else t[p] or 0
        before, h, d = state(o), hash(o), repr(absv(o))
        cur = before[p]
        log.append('cache_%s(%d)' % (p, w))
        if info is not None:
            info['call'] = '%s; %s; before the last: %s' % (desc, '; '.join(log), before)
        try:
            r = getattr(o, 'cache_' + p)(w)
            refused = False
        except Exception:
            refused = True
        after = state(o)
        for q in PROPS:
            if before[q] != 0 and after[q] != before[q]:
                raise Violation('flags', 'known property %s changed from %d to %d' % (q, before[q], after[q]))
        if hash(o) != h or repr(absv(o)) != d:
            raise Violation('frame', 'recording a property changed the value')
        wrong = w == 3 and p in NEVER_NA
        imp = dict(IMPLIED_ALWAYS.get((p, w), {}))
        if not (L.is_coll(v) and L.is_empty(v)):
            imp.update(IMPLIED.get((p, w), {}))
        conflict = any(before[q] not in (0, s) for q, s in imp.items()) or cur not in (0, w) or wrong
        if conflict:
            if not refused:
                raise Violation('flags', 'status %d for %s was accepted, it is known to be %d' % (w, p, cur))
            return True, '%s; %s' % (desc, '; '.join(log))      # an error of the caller: end of this history
        if refused:
            raise Violation('flags', 'status %d for %s was refused' % (w, p))
        if r is not o:
            raise Violation('value', 'cache_%s does not return the object' % p)
        if after[p] != w:
            raise Violation('flags', 'cached %s is %d after recording %d' % (p, after[p], w))
        for q, s in imp.items():
            if after[q] != s:
                raise Violation('flags', '%s is %d, not %d, as implied by %s = %d' % (q, after[q], s, p, w))
        for q in PROPS:
            if q != p and q not in imp and after[q] != before[q]:
                raise Violation('flags', 'recording %s changed %s' % (p, q))
        for q in PROPS:
            c = getattr(o, 'cached_' + q)
            if getattr(o, 'cached_is_' + q) != (c == 1) or getattr(o, 'cached_is_not_' + q) != (c == 2):
                raise Violation('value', 'cached_is_%s or cached_is_not_%s disagree with cached_%s' % (q, q, q))
        if t[p] is not None and w != t[p]:
            return True, '%s; %s' % (desc, '; '.join(log))      # a wrong status: end of this history
    return True, '%s; %s' % (desc, '; '.join(log))


# === C09, C10, C13: sequences of questions to the same object =====================================
def _questions(names, kinds, key):
    return [(k, c) for k, c in C.CONTRACTS.items() if c.name in names and any(s in k for s in kinds)]


QUERIES = [c for k, c in C.CONTRACTS.items()
           if c.opts.get('prop') or c.rtype == 'bool' and c.checked and c.name.startswith('is_')
           and not c.name.endswith('_of') and not c.module.endswith('rdf')]
MEMBERS = [c for c in C.CONTRACTS.values() if ('is_member' in c.name or 'is_absolute' in c.name) and not c.module.endswith('rdf')]
LOOKUPS = [c for c in C.CONTRACTS.values() if c.name in ('__call__', '__getitem__')]


def ask(seed, cons, info, lookups=False):
    """Ask the same object several questions in a random order."""
    rng = random.Random(seed)
    g = G.Gen(rng, .03, (5, 12))
    if lookups:
        v = rng.choice([g.set, g.mset, g.rel, g.clan, g.mclan, g.rel, lambda: g.counts(g.rel()[1])])()
    else:
        v = g.any() if rng.random() < .3 else rng.choice([g.rel, g.clan, g.mclan, g.set, g.mset])()
    o = mk(v, rng, rng.choice([0, 0, .4]))
    log = []
    for _ in range(rng.randint(2, 7)):
        con = rng.choice(cons)
        dom = list(con.params.values())[0]
        if dom in cases.DOM and not cases.DOM[dom](v):
            continue
        if con.opts.get('prop') and L.nested(v):
            continue
        args, rargs = [v], [o]
        if lookups:
            x = g.comp() if rng.random() < .9 else g.mo(1)
            args.append(x)
            rargs.append(cases.plain(x, rng, mk(x, rng, .3)))
        log.append('%s(%s)' % (con.key, ', '.join(['it'] + [show(a) for a in args[1:]])))
        if info is not None:
            info['call'] = 'it = %s; %s' % (show(v), '; '.join(log))
            info['flags_before'] = flags_of(o)
        exp = con.fn(*args)
        try:
            res = cases.function(con)(*rargs)
            if con.rtype == 'V':
                res = absv(res)
            elif res is undef.Undef():
                res = UNDEF
        except (Exception, Bad) as e:
            raise Violation('exception', '%s: %s' % (type(e).__name__, e))
        if res != exp or type(res) != type(exp):
            raise Violation('value', 'question %d: answer is %s, expected %s' % (
                len(log), show(res) if isinstance(res, tuple) else res, show(exp) if isinstance(exp, tuple) else exp))
    return len(log) > 1 and v[0] in 'SM', 'it = %s; %s' % (show(v), '; '.join(log))


def c09_sequence(seed, clauses, info=None): return ask(seed, QUERIES, info)
def c10_sequence(seed, clauses, info=None): return ask(seed, MEMBERS, info)
def c13_sequence(seed, clauses, info=None): return ask(seed, LOOKUPS, info, True)


# === C11: undefined ===============================================================================
C11_OPS = [c for c in C.CONTRACTS.values() if not c.opts.get('total') and not c.opts.get('relational')]


def outcome(fn, pos, kw):
    try:
        r = fn(*pos, **kw)
    except undef.UndefException:
        return ('raised',)
    except Exception as e:
        return ('exception', '%s: %s' % (type(e).__name__, e), e)
    if r is undef.Undef():
        return ('undef',)
    if isinstance(r, mo.MathObject):
        try:
            return ('value', absv(r))
        except Bad as e:
            return ('bad', str(e))
    return ('value', r)


def c11_case(seed, clauses, info=None):
    rng = random.Random(seed)
    con = C11_OPS[seed % len(C11_OPS)] if clauses is None or not isinstance(clauses, C.Contract) else clauses
    g = G.Gen(rng)
    names = list(con.params)
    algebra = [i for i, n in enumerate(names) if con.params[n] in cases.DOM]
    lefts = [i for i, n in enumerate(names) if con.params[n] == 'left']
    bad = set()
    if algebra and rng.random() < .6:
        bad = {i for i in algebra if rng.random() < .5} or {rng.choice(algebra)}
    args = []
    for i, n in enumerate(names):
        dom = con.params[n]
        a = None
        if i in bad:
            a = UNDEF if rng.random() < .5 else None
        elif dom in ('set', 'mset', 'coll', 'rel', 'clan', 'mclan', 'any'):
            a = cases.biased(g, con, dom, args)
            if a is not None and dom in cases.DOM and not cases.DOM[dom](a):
                a = None
        if i in lefts and rng.random() < .2:
            a = UNDEF
        args.append(a if a is not None else cases.gen_arg(g, dom, args, i in bad))
    outside = any(not cases.DOM[con.params[names[i]]](args[i]) for i in algebra)
    undefined = any(args[i][0] == 'U' for i in algebra)
    others_ok = all(args[i][0] == 'U' or cases.DOM[con.params[names[i]]](args[i]) for i in algebra)
    unspec = con.opts.get('prop') and (args[0][0] == 'U' or L.nested(args[0]))
    hist = rng.choice([0, 0, .5, 1])
    fn = cases.function(con)
    desc = '%s(%s)' % (con.key, ', '.join(show(a) for a in args))

    def run(level, kw, checked):
        r2 = random.Random(seed + 1)
        pos = []
        for n, a in zip(names, args):
            o = cases.real_arg(con.params[n], a, r2, hist, {}, checked)
            if con.params[n] in ('lefts', 'vals', 'mos'):
                pos.extend(o)
            else:
                pos.append(o)
        undef.RaiseOnUndef.set_level(level)
        try:
            return outcome(fn, pos, kw)
        finally:
            undef.RaiseOnUndef.reset()

    if info is not None:
        info['call'] = desc
    a = run(0, {}, True)
    if a[0] == 'raised':
        raise Violation('undef', 'the undefined exception is raised at level 0')
    if outside:
        if unspec:
            return False, desc
        if a[0] != 'undef':
            raise Violation('undef', 'the operation is not undefined: %s' % str(a[:2]))
    if a[0] == 'exception' or a[0] == 'bad':
        return False, desc
    if con.checked and not con.opts.get('prop') and others_ok:
        b = run(0, {'_checked': False}, False)
        if b[:2] != a[:2]:
            raise Violation('undef', 'unchecked: %s, checked: %s' % (str(b[:2]), str(a[:2])))
    level = rng.randint(1, 3)
    c = run(level, {}, True)
    if c[:2] != a[:2] and c[0] != 'raised':
        raise Violation('undef', 'at undefined-handling level %d: %s, at level 0: %s' % (level, str(c[:2]), str(a[:2])))
    return True, desc


# === C12: values ==================================================================================
def variant(v, rng, g):
    """A value that differs from v in one small place."""
    k = v[0]
    w = rng.random()
    if k == 'A':
        return g.atom()
    if k == 'C':
        return ('C', variant(v[1], rng, g), v[2]) if w < .4 else ('C', v[1], variant(v[2], rng, g)) if w < .8 else \
            ('C', v[2], v[1])
    if k == 'S':
        l = sorted(v[1], key=show)
        if l and w < .4:
            i = rng.randrange(len(l))
            l[i] = variant(l[i], rng, g)
        elif l and w < .6:
            l.pop()
        elif w < .8:
            l.append(g.comp())
        else:
            return ('M', frozenset((e, 1) for e in l))
        return ('S', frozenset(l))
    if k == 'M':
        d = dict(v[1])
        ks = sorted(d, key=show)
        if ks and w < .6:
            e = rng.choice(ks)
            d[e] = 1 + g.n(2)
        elif ks and w < .75:
            del d[rng.choice(ks)]
        elif w < .9:
            d[g.comp()] = 1
        else:
            return ('S', frozenset(ks))
        return ('M', frozenset(d.items()))
    return v


def c12_equal(seed, clauses, info=None):
    rng = random.Random(seed)
    g = G.Gen(rng, .03, (5, 12, 40))
    v = g.mo(2)
    w = v if rng.random() < .35 else variant(v, rng, g) if rng.random() < .8 else g.mo(2)
    a, b = mk(v, rng, rng.choice([0, .5, 1])), mk(w, rng, rng.choice([0, .5, 1]))
    desc = '%s == %s' % (show(v), show(w))
    if info is not None:
        info['call'] = desc
    same = v == w
    if rng.random() < .5:
        hash(a)
    if rng.random() < .3:
        copy.deepcopy(b)
    if (a == b) is not same or (b == a) is not same:
        raise Violation('value', 'equality is %s, expected %s' % (a == b, same))
    if (a != b) is same or (b != a) is same:
        raise Violation('value', 'inequality is %s, expected %s' % (a != b, not same))
    if not a == a or a != a:
        raise Violation('value', 'equality is not reflexive')
    if same and hash(a) != hash(b):
        raise Violation('value', 'equal objects have different hashes')
    if same != (b in {a}) or same != (b in {a: 1}) or same != (mo.Set(a) == mo.Set(b)) or \
            same != mo.Set(a, direct_load=True).has_element(b):
        raise Violation('value', 'lookup of an equal object in a set disagrees with equality')
    for o, x in ((a, v), (b, w)):
        if absv(o) != x:
            raise Violation('frame', 'comparison or hashing changed %s' % show(x))
        if x[0] in 'SM':
            l = list(o)
            if x[0] == 'S' and (len(l) != len(x[1]) or ('S', frozenset(absv(e) for e in l)) != x):
                raise Violation('value', 'iteration over %s gives %s' % (show(x), l))
            if x[0] == 'M':
                d = {}
                for e in l:
                    d[absv(e)] = d.get(absv(e), 0) + 1
                if ('M', frozenset(d.items())) != x:
                    raise Violation('value', 'iteration over %s gives %s' % (show(x), l))
            if o.cardinality != L.card(x) or len(o) != L.card(x) or o.is_empty != (not x[1]):
                raise Violation('value', 'cardinality of %s is %d' % (show(x), o.cardinality))
            probe = rng.choice([g.comp(), variant(rng.choice(sorted(L.elems(x), key=show)), rng, g)]
                               if x[1] else [g.comp()])
            po = mk(probe, rng, 0)
            if o.has_element(po) != L.mem(probe, x) or (po in o) != L.mem(probe, x):
                raise Violation('value', 'has_element(%s) of %s' % (show(probe), show(x)))
            if x[0] == 'M' and o.get_multiplicity(po) != L.mult(probe, x):
                raise Violation('value', 'get_multiplicity(%s) of %s' % (show(probe), show(x)))
            if absv(o) != x:
                raise Violation('frame', 'a query changed %s to %s' % (show(x), show(absv(o))))
        if x[0] == 'C' and (absv(o.left) != x[1] or absv(o.right) != x[2]):
            raise Violation('value', 'left or right of %s' % show(x))
        if x[0] == 'A' and not (o.value == x[2] and type(o.value).__name__ == x[1]):
            raise Violation('value', 'value of %s' % show(x))
        for other in (1, 'a', None, frozenset(), o.__class__):
            if o == other or not (o != other):
                raise Violation('value', '%s equals %r' % (show(x), other))
    return v[0] in 'SMC', desc


# === C23: construction and content ================================================================
def c23_build(seed, clauses, info=None):
    rng = random.Random(seed)
    g = G.Gen(rng, .03, (5, 12, 40))
    what = rng.choice(['S', 'S', 'M', 'M', 'M', 'C', 'A'])
    if what == 'A':
        v = g.comp()
        while v[0] != 'A':
            v = g.comp()
        a = mo.Atom(v[2]) if rng.random() < .5 else mo.Atom(mo.Atom(v[2])) if rng.random() < .5 else mo.Atom(v[2], direct_load=True)
        if absv(a) != v:
            raise Violation('value', 'Atom(%r) is %s' % (v[2], a))
        return False, 'Atom(%r)' % (v[2],)
    if what == 'C':
        l, r = g.mo(1), g.comp()
        direct = rng.random() < .4
        a, b = [cases.plain(x, rng, mk(x, rng, rng.choice([0, 1])), direct) for x in (l, r)]
        kw = {'direct_load': True} if direct else {}
        call, exp = rng.choice([(lambda: mo.Couplet(a, b, **kw), (l, r)), (lambda: mo.Couplet(left=a, right=b, **kw), (l, r)),
                                (lambda: mo.Couplet(right=b, left=a, **kw), (l, r)), (lambda: mo.Couplet(a, **kw), (l, l))])
        desc = 'Couplet(%r, %r)' % (a, b)
        if info is not None:
            info['call'] = desc
        o = call()
        if absv(o) != ('C',) + exp or absv(o.left) != exp[0] or absv(o.right) != exp[1]:
            raise Violation('value', 'the couplet is %s' % o)
        check_flags([o], 'new couplet')
        return True, desc
    cls = mo.Set if what == 'S' else mo.Multiset
    vs = [g.comp() if rng.random() < .7 else g.mo(1) for _ in range(size(rng, 5))]
    if vs and rng.random() < .5:
        vs.append(rng.choice(vs))
    direct = rng.random() < .4
    kw = {'direct_load': True} if direct else {}
    real = [cases.plain(x, rng, mk(x, rng, rng.choice([0, 0, 1])), direct) for x in vs]
    shape = rng.choice(['args', 'list', 'tuple', 'iter', 'gen', 'counts', 'str', 'one'])
    source = None
    if shape == 'counts' and what == 'S':
        shape = 'list'
    if shape == 'args' and len(vs) == 1 and not isinstance(real[0], (mo.MathObject, str)) and isinstance(real[0], Iterable):
        shape = 'list'
    if shape == 'str':
        vs, text = [('A', 'str', 'text')], 'text'
        call = lambda: cls('text')
        real = [text]
    elif shape == 'one':
        vs = [g.mo(2)]
        real = [mk(vs[0], rng, rng.choice([0, 1]))]
        call = lambda: cls(real[0], **kw)
    elif shape == 'args':
        call = lambda: cls(*real, **kw)
    elif shape == 'counts':
        d = {}
        for x in vs:
            d[x] = d.get(x, 0) + 1 + size(rng, 3)
        vs = [x for x in d for _ in range(d[x])]
        source = {mk(x, rng, 0): n for x, n in d.items()}
        if rng.random() < .5:
            source = Counter(source)
        call = lambda: cls(source, **kw)
    else:
        source = list(real)
        call = {'list': lambda: cls(source, **kw), 'tuple': lambda: cls(tuple(real), **kw), 'iter': lambda: cls(iter(real), **kw),
                'gen': lambda: cls((x for x in real), **kw)}[shape]
    exp = ('S', frozenset(vs)) if what == 'S' else ('M', frozenset((x, vs.count(x)) for x in set(vs)))
    desc = '%s from %s of %s%s' % (cls.__name__, shape, [show(x) for x in vs], ', direct_load' if kw else '')
    if info is not None:
        info['call'] = desc
    o = call()
    if absv(o) != exp:
        raise Violation('value', 'the object is %s' % o)
    check_flags([o], 'new object')
    for what_ in rng.sample(range(8), 4):
        if what_ == 0 and (len(o) != len(vs) * (what == 'M') + len(set(vs)) * (what == 'S') or o.cardinality != len(o)):
            raise Violation('value', 'size is %d' % len(o))
        if what_ == 1 and o.is_empty is not (not vs):
            raise Violation('value', 'is_empty is %s' % o.is_empty)
        if what_ == 2:
            it = [absv(x) for x in o]
            if sorted(map(show, it)) != sorted(map(show, vs if what == 'M' else set(vs))):
                raise Violation('value', 'iteration gives %s' % it)
        x = rng.choice(vs) if vs and rng.random() < .6 else g.comp()
        rx = mk(x, rng, 0)
        if what_ == 3 and o.has_element(rx) is not (x in vs):
            raise Violation('value', 'has_element(%s) is %s' % (show(x), o.has_element(rx)))
        if what_ == 4 and (cases.plain(x, rng, rx) in o) is not (x in vs):
            raise Violation('value', '%s in the object is %s' % (show(x), x not in vs))
        if what_ == 5 and what == 'M' and o.get_multiplicity(rx) != vs.count(x):
            raise Violation('value', 'multiplicity of %s is %d' % (show(x), o.get_multiplicity(rx)))
        if what_ == 6 and source is not None and not isinstance(source, frozenset):
            source.clear()                                   # what it was made from is not shared
            if type(source) is list:
                source.append(mo.Atom('later'))
            else:
                source[mo.Atom('later')] = 1
        if absv(o) != exp:
            raise Violation('frame', 'the object became %s' % o)
    return len(vs) > 0, desc


# === C14: slicing =================================================================================
def c14_slice(seed, clauses, info=None):
    import algebraixlib.algebras.multiclans as m
    rng = random.Random(seed)
    g = G.Gen(rng, .03, (5, 12, 40))
    v = g.mclan()
    if rng.random() < .6:
        v = g.counts(list(L.elems(v)) + [g.rel() for _ in range(g.n(3))])
    if L.card(v) > 700:
        v = ('M', frozenset((e, 1 + k % 9) for e, k in v[1]))
    n = L.card(v)
    if rng.random() < .6:
        ranks = sorted(L.elems(v), key=lambda x: rng.random())
        rank = {x: i for i, x in enumerate(ranks)}                     # a total order
    else:
        rank = {x: rng.randrange(2) for x in L.elems(v)}               # with ties

    known = {}

    def less(x, y):
        for z in (x, y):
            if id(z) not in known:
                known[id(z)] = (rank[absv(z)], z)
        return mo.Atom(known[id(x)][0] < known[id(y)][0])
    off = rng.randint(0, n + 1)
    lim = rng.choice([float('inf'), rng.randint(0, n + 2), rng.randint(0, n + 2)])
    fn = rng.choice(['order_slice', 'order_slice_to_listgen', 'multiclan_to_listgen', 'tile' if n < 30 else 'order_slice'])
    form = rng.choice(['plain', 'atom', 'unchecked'])
    o = mk(v, rng, rng.choice([0, .5, 1]))
    desc = '%s(%s, order %s, %s, %s) %s' % (fn, show(v), {show(k): r for k, r in rank.items()}, off, lim, form)
    if info is not None:
        info['call'] = desc

    def call(f, off, lim):
        args = [o] + ([less] if f.startswith('order') else [])
        if form == 'plain':
            return getattr(m, f)(*args, off, lim)
        if form == 'atom':
            return getattr(m, f)(*args, mo.Atom(off), mo.Atom(lim))
        return getattr(m, f)(*args, mo.Atom(off), mo.Atom(lim), _checked=False)
    try:
        if fn == 'tile':
            total, p = {}, 0
            while p < n or p == 0:
                k = rng.randint(1, 3)
                for e, c in dict(absv(call('order_slice', p, k))[1]).items():
                    total[e] = total.get(e, 0) + c
                p += k
            if ('M', frozenset(total.items())) != v:
                raise Violation('value', 'the slices add up to %s' % show(('M', frozenset(total.items()))))
            return n > 1, desc
        res = call(fn, off, lim)
        if fn == 'order_slice':
            got = absv(res)
            check = got[1]
        else:
            check = [(absv(e), c) for e, c in res]
    except Bad as e:
        raise Violation('value', 'ill-formed result: %s' % e)
    except Violation:
        raise
    except Exception as e:
        raise Violation('exception', '%s: %s' % (type(e).__name__, e))
    size = min(max(n - off, 0), lim)
    if sum(c for _, c in check) != size or any(c <= 0 for _, c in check):
        raise Violation('value', 'the slice is %s, expected %s relations' % (
            [(show(e), c) for e, c in check], size))
    if any(c > L.mult(e, v) for e, c in check) or len({e for e, _ in check}) != len(check):
        raise Violation('value', 'the slice is not a part of the multiclan: %s' % [(show(e), c) for e, c in check])
    if fn == 'multiclan_to_listgen':
        return n > 1, desc
    got = sorted(rank[e] for e, c in check for _ in range(c))
    exp = sorted(rank[e] for e in L.elems(v) for _ in range(L.mult(e, v)))[off:]
    exp = exp[:len(exp) if lim == float('inf') else lim]
    if got != exp:
        raise Violation('value', 'the slice has positions %s, expected %s' % (got, exp))
    if fn == 'order_slice_to_listgen':
        rs = [rank[e] for e, _ in check]
        if rs != sorted(rs):
            raise Violation('value', 'the list is not ordered')
    if isinstance(res, mo.MathObject) and clauses and 'flags' in clauses:
        check_flags([res, o], 'slice')
    return n > 1, desc


# === C15: partition ===============================================================================
def c15_parts(seed, clauses, info=None):
    """Directly from the property statement (the contracts say the same in another way)."""
    import algebraixlib.partition as p
    rng = random.Random(seed)
    g = G.Gen(rng, .03, (5, 12, 40))
    v = g.coll()
    name = rng.choice(sorted(G.INV))
    f = G.INV[name]
    o = mk(v, rng, rng.choice([0, .5, 1]))
    fn = rng.choice(['partition', 'make_labeled_partition'])
    desc = '%s(%s, %s)' % (fn, show(v), name)
    if info is not None:
        info['call'] = desc
    inv = cases.real_arg('inv', ('F', name, 'inv'), rng, 0, {})
    try:
        res = absv(getattr(p, fn)(o, inv))
    except Bad as e:
        raise Violation('value', 'ill-formed result: %s' % e)
    except Exception as e:
        raise Violation('exception', '%s: %s' % (type(e).__name__, e))
    parts = []
    for e in L.elems(res):
        if fn == 'partition':
            parts.append((None, e))
        elif e[0] != 'C':
            raise Violation('value', 'no labelled part: %s' % show(e))
        else:
            parts.append((e[1], e[2]))
    total = {}
    for label, part in parts:
        if part[0] != v[0] or not part[1]:
            raise Violation('value', 'wrong or empty part %s' % show(part))
        invs = {f(x) for x in L.elems(part)}
        if len(invs) != 1:
            raise Violation('value', 'different invariants in one part %s' % show(part))
        if label is not None and invs != {label}:
            raise Violation('value', 'label %s of part %s' % (show(label), show(part)))
        for x in L.elems(part):
            if x in total:
                raise Violation('value', '%s is in two parts' % show(x))
            total[x] = L.mult(x, part) if part[0] == 'M' else 1
    if total != {x: (L.mult(x, v) if v[0] == 'M' else 1) for x in L.elems(v)}:
        raise Violation('value', 'the parts do not add up: %s' % show(res))
    if len({frozenset(f(x) for x in L.elems(part)) for _, part in parts}) != len(parts):
        raise Violation('value', 'one invariant in two parts: %s' % show(res))
    return L.card(v) > 1, desc


# === C16: structures ==============================================================================
def rand_struct(rng, depth):
    w = rng.random()
    if depth <= 0 or w < .35:
        return rng.choice([st.GenesisSetA, st.GenesisSetM, st.GenesisSetN, st.GenesisSetA, st.Structure])()
    if w < .6:
        return st.PowerSet(rand_struct(rng, depth - 1))
    if w < .8:
        return st.CartesianProduct(rand_struct(rng, depth - 1), rand_struct(rng, depth - 1))
    return st.Union([rand_struct(rng, depth - 1) for _ in range(rng.randint(1, 3))])


def grow(s, rng):
    """A structure that has s as subset, by monotonicity."""
    w = rng.random()
    if w < .2 and not has_n(s):
        return st.GenesisSetM()
    if w < .4:
        return st.Union([s, rand_struct(rng, 1)])
    if isinstance(s, st.PowerSet):
        return st.PowerSet(grow(s.base_set, rng))
    if isinstance(s, st.CartesianProduct):
        return st.CartesianProduct(grow(s.left, rng), grow(s.right, rng))
    if isinstance(s, st.Union):
        return st.Union([grow(x, rng) for x in s.data])
    return copy_struct(s, rng)


def copy_struct(s, rng):
    if isinstance(s, st.PowerSet):
        r = st.PowerSet(copy_struct(s.base_set, rng))
    elif isinstance(s, st.CartesianProduct):
        r = st.CartesianProduct(copy_struct(s.left, rng), copy_struct(s.right, rng))
    elif isinstance(s, st.Union):
        l = [copy_struct(x, rng) for x in s.data]
        rng.shuffle(l)
        return st.Union(l)
    else:
        r = type(s)()
    return st.Union([r]) if rng.random() < .15 else r


def has_n(s):
    """N occurs outside of a power set or product (those are subsets of M)."""
    return type(s) in (st.GenesisSetN, st.Structure) or isinstance(s, st.Union) and any(has_n(x) for x in s.data)


def belongs(v, s):
    """The value (or ('N', n), or ('P', value, n) for an element of a multiset) belongs to the structure."""
    if isinstance(s, st.Union):
        return any(belongs(v, x) for x in s.data)
    if isinstance(s, st.GenesisSetA):
        return v[0] == 'A'
    if isinstance(s, st.GenesisSetN):
        return v[0] == 'N'
    if isinstance(s, st.GenesisSetM):
        return v[0] in 'ACSMP'        # the product of anything is a subset of M
    if isinstance(s, st.CartesianProduct):
        return v[0] in 'CP' and belongs(v[1], s.left) and belongs(v[2] if v[0] == 'C' else ('N', v[2]), s.right)
    if isinstance(s, st.PowerSet):
        if v[0] == 'S':
            return all(belongs(x, s.base_set) for x in v[1])
        return v[0] == 'M' and all(belongs(('P', e, n), s.base_set) for e, n in v[1])
    return False


def has_empty(v):
    if v[0] == 'C':
        return has_empty(v[1]) or has_empty(v[2])
    if v[0] in 'SM':
        return not v[1] or any(has_empty(e) for e in L.elems(v))
    return False


def c16_order(seed, clauses, info=None):
    rng = random.Random(seed)
    a = rand_struct(rng, 3)
    b = grow(a, rng) if rng.random() < .6 else rand_struct(rng, 3)
    c = grow(b, rng) if rng.random() < .6 else rand_struct(rng, 3)
    desc = 'structures %r, %r, %r' % (a, b, c)
    if info is not None:
        info['call'] = desc
    for s in (a, b, c):
        if not s.is_subset(s) or not s == s or s != s:
            raise Violation('value', 'not reflexive: %r' % s)
        d = copy_struct(s, rng)
        if not (d == s and s == d) or d != s or hash(d) != hash(s) or not (d <= s and s <= d):
            raise Violation('value', 'the same structure, built in another way, is different: %r, %r' % (s, d))
    for x, y in ((a, b), (b, c), (a, c)):
        if (x == y) != (y == x) or (x == y) == (x != y):
            raise Violation('value', 'equality is not symmetric or no negation of inequality: %r, %r' % (x, y))
        if x == y and (hash(x) != hash(y) or not x <= y or not y <= x):
            raise Violation('value', 'equal structures differ in hash or are not subsets: %r, %r' % (x, y))
        if (x <= y) != x.is_subset(y):
            raise Violation('value', '<= is not is_subset')
    if a.is_subset(b) and b.is_subset(c) and not a.is_subset(c):
        raise Violation('value', 'not transitive')
    for k in (grow(a, rng), b):
        if k is not b and not a.is_subset(k):
            raise Violation('value', '%r must be a subset of %r' % (a, k))
    return True, desc


def c16_levels(v, gs):
    for name in ('relations', 'clans'):
        n = gs.get_powerset_level(importlib.import_module('algebraixlib.algebras.' + name).get_ground_set())
        if not getattr(L, 'ground_' + name)(v, n):
            raise Violation('value', 'power set level of the ground set %r over that of %s: %d' % (gs, name, n))


def c16_level(seed, clauses, info=None):
    """The contracts of get_powerset_level that the proofs assume, also for values with empty parts."""
    rng = random.Random(seed)
    g = G.Gen(rng)
    v = g.mo(3) if rng.random() < .4 else rng.choice([g.rel, g.clan, g.mclan, g.set, g.mset])()
    if rng.random() < .4:
        v = ('S', frozenset([v] + [g.mo(2) if rng.random() < .4 else rng.choice([g.rel, g.clan, g.set])() for _ in range(rng.randrange(2))]))
    desc = 'power set level of the ground set of %s' % show(v)
    if info is not None:
        info['call'] = desc
    c16_levels(v, mk(v, rng, 0).get_ground_set())
    return v[0] in 'SMC', desc


def c16_ground(seed, clauses, info=None):
    rng = random.Random(seed)
    g = G.Gen(rng)
    for _ in range(20):
        v = g.mo(2) if rng.random() < .4 else rng.choice([g.rel, g.clan, g.mclan, g.set, g.mset])()
        if not has_empty(v):
            break
    else:
        return False, 'none'
    o = mk(v, rng, 0)
    desc = 'ground set of %s' % show(v)
    if info is not None:
        info['call'] = desc
    gs = o.get_ground_set()
    c16_levels(v, gs)
    if not belongs(v, gs):
        raise Violation('value', 'the object does not belong to its ground set %r' % gs)
    s = grow(gs, rng) if rng.random() < .5 else rand_struct(rng, 3)
    if gs.is_subset(s) and not belongs(v, s):
        raise Violation('value', 'ground set %r is a subset of %r, but the object does not belong to it' % (gs, s))
    for name, pred in (('sets', L.is_set), ('couplets', L.is_couplet), ('relations', L.is_rel), ('clans', L.is_clan),
                       ('multiclans', L.is_mclan), ('multisets', L.is_mset)):
        a = importlib.import_module('algebraixlib.algebras.' + name)
        if name in ('sets', 'multisets'):
            if not pred(v):
                continue        # the ground set of sets is P(M), of which multisets are a subset as well
            if not gs.is_subset(a.get_ground_set()):
                raise Violation('value', 'the ground set %r is no subset of that of %s' % (gs, name))
            continue
        if gs.is_subset(a.get_ground_set()) != pred(v):
            raise Violation('value', 'ground set %r, member of %s: %s' % (gs, name, pred(v)))
    return v[0] in 'SMC', desc


# === C17: mojson ==================================================================================
def json_value(rng, depth=2):
    w = rng.random()
    if w < .25: return rng.choice(['', 'a', 'é\u2028', '"', '\\', 'Atom', '__cls__', '\U0001f600', '\n', '1', 'x  y', ' a', 'a ', 'A', '\0',
                                   '\ud800', 'null', 'true', '1.0', 'b\'a\'', 'x' * 300])
    if w < .4: return rng.choice([0, 1, -1, 2 ** 70, 255, -2 ** 63, 10 ** 30, 2 ** 53 + 1, rng.randrange(10 ** 6)])
    if w < .5: return rng.choice([0.0, 1.0, -0.5, 1e300, 1.5e-7, float('inf'), -float('inf'), -0.0, 1 / 3, 5e-324, rng.random(), 2.0 ** 53])
    if w < .57: return rng.choice([True, False, None])
    if w < .65: return rng.choice([b'', b'a', bytes(range(256)), b'\x00\xff'])
    if w < .71: return rng.choice([1j, 1 + 2j, complex(-.5, 2), complex(0, -1)])
    if w < .77: return rng.choice([range(3), range(0), range(1, 10, 2), range(5, 0, -1)])
    if depth <= 0: return 'x'
    if w < .9: return tuple(json_value(rng, depth - 1) for _ in range(size(rng, 4, 40)))
    return frozenset(json_value(rng, depth - 1) for _ in range(size(rng, 4, 40)))


def deep_type(x):
    """Value with the types of all parts, so that 1, 1.0 and True are different."""
    if isinstance(x, tuple): return ('tuple',) + tuple(deep_type(e) for e in x)
    if isinstance(x, frozenset): return ('frozenset', frozenset(deep_type(e) for e in x))
    return (type(x).__name__, repr(x) if isinstance(x, (float, complex)) else x)


def deep(o):
    if isinstance(o, mo.Atom): return ('A', deep_type(o.value))
    if isinstance(o, mo.Couplet): return ('C', deep(o.left), deep(o.right))
    if isinstance(o, mo.Set): return ('S', frozenset(deep(e) for e in o))
    if isinstance(o, mo.Multiset): return ('M', frozenset((deep(e), n) for e, n in o.data.items()))
    return ('?', type(o).__name__)


def c17_roundtrip(seed, clauses, info=None):
    import json
    import algebraixlib.import_export.mojson as mj
    rng = random.Random(seed)

    def build(depth):
        w = rng.random()
        if depth <= 0 or w < .3:
            return mo.Atom(json_value(rng))
        if w < .5:
            return mo.Couplet(build(depth - 1), build(depth - 1), direct_load=True)
        n = size(rng, 4, 30)
        if w < .75:
            return mo.Set([build(depth - 1) for _ in range(n)], direct_load=True)
        return mo.Multiset({build(depth - 1): 1 + size(rng, 5, 2000) for _ in range(n)}, direct_load=True)
    o = build(3)
    desc = 'decode(encode(%s))' % repr(deep(o))
    if info is not None:
        info['call'] = desc
    try:
        text = json.dumps(o, cls=mj.ExportJson) if seed % 3 else json.dumps(mj.encode(o))
        back = json.loads(text, cls=mj.ImportJson) if seed % 5 else mj.decode(json.loads(text))
    except Exception as e:
        raise Violation('exception', '%s: %s' % (type(e).__name__, e))
    if not isinstance(back, mo.MathObject) or deep(back) != deep(o) or back != o or hash(back) != hash(o):
        raise Violation('value', 'decoded object is %s' % (back,))
    if clauses and 'flags' in clauses:
        check_flags([back], 'decoded object')
    return not o.is_atom, desc


# === Files ========================================================================================
class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-rt-')
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def A(x): return ('A', type(x).__name__, x)
def rel_of(d): return ('S', frozenset(('C', A(k), A(x)) for k, x in d.items()))


CELLS = ['a', 'b', 'a', 'b', 'c d', ' x ', 'q"q', 'k,k', "it's", 'é', 'l1\nl2', '0', '12', ' ', '\t', 'None',
         'nan', 'False', '#c', '00', '-1', '']
MORE_CELLS = ['x  y', 'a ', ' a', 'A', 'B', '1.0', '1', '\\', "''", '""', ';', 'a\tb', '\u00a0', 'e\u0301', 'x' * 300, '=1', '%s', '|', '0.10', '\ufeffa',
              'l1\r\nl2', 'N/A', 'null', '-', '{}', '_']


def cell(rng):
    return rng.choice(CELLS[:-1] if rng.random() < .8 else MORE_CELLS)


HEADS = ['id', 'name', 'a b', 'x,y', 'q"', 'é', 'val', '1']


# === C18: CSV =====================================================================================
def c18_import(seed, clauses, info=None):
    import csv
    import algebraixlib.import_export.csv as m
    rng = random.Random(seed)
    heads = rng.sample(HEADS, rng.randint(1, 4))
    rows = [[cell(rng) if rng.random() < .8 else '' for _ in heads] for _ in range(size(rng, 6, 400))]
    if rows and rng.random() < .4:
        rows.append(list(rng.choice(rows)))
    if rng.random() < .4:       # a regular table
        rows = [[c or 'z' for c in r] for r in rows]
    types = {}
    if rng.random() < .4:
        h = rng.randrange(len(heads))
        for r in rows:
            r[h] = rng.choice(['1', '2', '', '17', '0', '-3', ' 4', '007'])
        types[heads[h]] = rng.choice([int, float, str, len])
    if rng.random() < .1:
        types['no such column'] = int
    short = rng.random() < .2
    skip = rng.choice([0, 0, 0, 1, 2])
    cols = rng.random() < .2
    dup = rng.random() < .4
    index = rng.choice(['row_id', heads[0]]) if not dup and rng.random() < .3 else None
    buf = io.StringIO(newline='')
    w = csv.writer(buf)
    for i in range(skip):
        w.writerow(['junk', 'line', str(i)])
    if not cols:
        w.writerow(heads)
    real = []
    for r in rows:
        if short and len(heads) > 1 and rng.random() < .5:
            k = rng.randint(1, len(heads) - 1)
            w.writerow(r[:k])
            r = r[:k]
        else:
            w.writerow(r)
        real.append(r)
    text = buf.getvalue()
    exp, n = {}, 0
    for r in real:
        d = {h: c for h, c in zip(heads, r) if c != ''}
        for h, t in types.items():
            if h in d:
                d[h] = t(d[h])
        if index:
            d[index] = n
            n += 1
        v = rel_of(d)
        exp[v] = exp.get(v, 0) + 1
    exp = ('M', frozenset(exp.items())) if dup else ('S', frozenset(exp))
    kw = {'types': types or None, 'skip_rows': skip, 'index_column': index, 'has_dup_rows': dup,
          'columns': heads if cols else None}
    desc = 'import_csv(%r, %s)' % (text, kw)
    if info is not None:
        info['call'] = desc
    try:
        if rng.random() < .5:
            res = m.import_csv(io.StringIO(text, newline=''), **kw)
        else:
            with Scratch() as d:
                with open(os.path.join(d, 't.csv'), 'w', encoding='utf-8', newline='') as f:
                    f.write(text)
                res = m.import_csv(os.path.join(d, 't.csv'), **kw)
        got = absv(res)
    except Bad as e:
        raise Violation('value', 'ill-formed result: %s' % e)
    except Exception as e:
        raise Violation('exception', '%s: %s' % (type(e).__name__, e))
    if clauses is None or 'value' in clauses:
        if got != exp:
            raise Violation('value', 'imported %s, expected %s' % (show(got), show(exp)))
    check_flags([res], 'imported object')
    return len(rows) > 1, desc


def c18_roundtrip(seed, clauses, info=None):
    import algebraixlib.import_export.csv as m
    rng = random.Random(seed)
    heads = rng.sample(HEADS, rng.randint(1, 4))
    types = {}
    if rng.random() < .4:       # columns of numbers, read back with their types
        for h in heads:
            if rng.random() < .6:
                types[h] = rng.choice([int, float])

    def value(h):
        t = types.get(h)
        if t is int:
            return rng.choice([0, 1, -7, 10 ** 20, rng.randrange(1000), rng.randrange(-10 ** 9, 10 ** 9)])
        if t is float:
            return rng.choice([0.0, 1.0, -2.5, 1e300, 1e-9, 1 / 3, float('inf'), rng.random(), rng.random() * 1e6])
        return cell(rng)
    rels = [rel_of({h: value(h) for h in heads}) for _ in range(1 + size(rng, 5, 200))]
    mult = rng.random() < .5
    v = ('M', frozenset((r, 1 + size(rng, 3, 400)) for r in set(rels))) if mult else ('S', frozenset(rels))
    o = mk(v, rng, rng.choice([0, .5, 1]))
    if rng.random() < .1:
        v = L.MEMPTY if mult else L.EMPTY
        o = mk(v, rng, 0)
    kw = {}
    if rng.random() < .5:
        kw['ordered_lefts'] = rng.sample(heads, len(heads))
    if rng.random() < .4:
        kw['sort_key'] = lambda rel: str(sorted(str(c.right.value) for c in rel))
    desc = 'import_csv(export_csv(%s, %s))' % (show(v), sorted(kw))
    if info is not None:
        info['call'] = desc
    try:
        with Scratch() as d:
            if rng.random() < .5:
                buf = io.StringIO(newline='')
                ok = m.export_csv(o, buf, **kw)
                text = buf.getvalue()
            else:
                p = os.path.join(d, 't.csv')
                ok = m.export_csv(o, p, **kw)
                text = open(p, newline='', encoding='utf-8').read()
            back = m.import_csv(io.StringIO(text, newline=''), has_dup_rows=mult, types=types or None)
        got = absv(back)
    except Bad as e:
        raise Violation('value', 'ill-formed result: %s' % e)
    except Exception as e:
        raise Violation('exception', '%s: %s' % (type(e).__name__, e))
    if ok is not True:
        raise Violation('value', 'export_csv returned %r' % (ok,))
    if got != v:
        raise Violation('value', 'exported as %r, imported as %s' % (text, show(got)))
    check_flags([back], 'imported object')
    if absv(o) != v:
        raise Violation('frame', 'export changed the object')
    return L.card(v) > 1, desc


# === C19: JSON and XML ============================================================================
def json_doc(rng, depth):
    d = {}
    for _ in range(rng.randrange(4)):
        k = rng.choice(['a', 'b', 'c', '', 'é', '$', 'k 1'] if rng.random() < .9 else ['A', ' a', 'a ', '0', 'k  1', '\n', 'id', 'values'])
        w = rng.random()
        if depth <= 0 or w < .5:
            d[k] = rng.choice(['x', 'y', '', 1, 0, 2.5, True, 'é', 1.0]) if rng.random() < .8 else rng.choice(
                [False, -1, 10 ** 20, 1e-9, 1 / 3, 1e300, 'x  y', ' x', 'x ', 'X', '1', '1.0', 'true', '\n', '\u2028', '"', '\\', 'x' * 300, 0.0])
        elif w < .75:
            d[k] = json_doc(rng, depth - 1)
        else:
            d[k] = [json_doc(rng, depth - 1) if rng.random() < .85 else [json_doc(rng, depth - 1)]
                    for _ in range(size(rng, 4, 30))]
    return d


def json_sem(x):
    if isinstance(x, list):
        return ('S', frozenset(json_sem(y) for y in x))
    cs = []
    for k, y in x.items():
        if isinstance(y, list):
            cs.extend(('C', A(k), json_sem(e)) for e in y)
        elif isinstance(y, dict):
            cs.append(('C', A(k), json_sem(y)))
        else:
            cs.append(('C', A(k), A(y)))
    return ('S', frozenset(cs))


def c19_json(seed, clauses, info=None):
    import json
    import algebraixlib.import_export.json as m
    rng = random.Random(seed)
    doc = json_doc(rng, 3) if rng.random() < .7 else [json_doc(rng, 2) for _ in range(size(rng, 4, 60))]
    text = json.dumps(doc, ensure_ascii=rng.random() < .7, indent=rng.choice([None, 2]))
    desc = 'import_json(%s)' % text
    if info is not None:
        info['call'] = desc
    try:
        if rng.random() < .6:
            res = m.import_json(io.StringIO(text))
        else:
            text = json.dumps(doc)
            with Scratch() as d:
                with open(os.path.join(d, 'f.json'), 'w') as f:
                    f.write(text)
                res = m.import_json(os.path.join(d, 'f.json'))
        got = absv(res)
    except Bad as e:
        raise Violation('value', 'ill-formed result: %s' % e)
    except Exception as e:
        raise Violation('exception', '%s: %s' % (type(e).__name__, e))
    if got != json_sem(doc):
        raise Violation('value', 'imported %s, expected %s' % (show(got), show(json_sem(doc))))
    if clauses and 'flags' in clauses:
        check_flags([res], 'imported object')
    return len(doc) > 0, desc


TAGS = ['a', 'b', 'c', 'tag', 'x-y', 'é']
TEXTS = ['t', '1', '2.5', ' padded ', 'a & b', '<', '-3', '1e3', 'é', '007']
MORE_TEXTS = ['x  y', 'X', 'T', '1_000', '0x1', ' 0', '1.', '.5', '1e400', 'inf', '-0', '+4', '１', 'True', 'None', '%s', '{0}', '\\n', 'a\u00a0b',
              '1,5', 'e\u0301', '&amp;', "it's", '"', ']]>', '\u2028', '3.0', '12345678901234567890', '0.1234567890123', 'x' * 300]


def xml_doc(rng, depth):
    """(tag, attributes, children); children are texts or elements."""
    def text():
        return rng.choice(TEXTS if rng.random() < .7 else MORE_TEXTS)
    at = {rng.choice(TAGS): text() for _ in range(rng.choice([0, 0, 0, 1, 2]))}
    ch = []
    for _ in range(size(rng, 4, 30) if depth > 0 else rng.randrange(2)):
        if depth > 0 and rng.random() < .6:
            ch.append(xml_doc(rng, depth - 1))
        elif not (ch and isinstance(ch[-1], str)):
            w = rng.random()
            ch.append(text() if w < .7 else rng.choice([' ', '\n  ']) if w < .9 else
                      rng.choice([' %s ', '%s\n', '\t%s', '%s\t%s', '%s\n  %s']).replace('%s', rng.choice(TEXTS)))
    if ch and rng.random() < .2:
        x = [c for c in ch if not isinstance(c, str)]
        if x:
            ch.append(rng.choice(x))
    return (rng.choice(TAGS), at, ch)


def xml_text(e, esc):
    if isinstance(e, str):
        return esc(e)
    t, at, ch = e
    return '<%s%s>%s</%s>' % (t, ''.join(' %s="%s"' % (k, esc(v).replace('"', '&quot;')) for k, v in at.items()),
                              ''.join(xml_text(c, esc) for c in ch), t)


def xml_atom(s, conv):
    if conv:
        for t in (int, float):
            try:
                return A(t(s))
            except ValueError:
                pass
    return A(s)


def xml_sem(e, conv):
    t, at, ch = e
    cs = {('C', A(k), xml_atom(v, conv)) for k, v in at.items()}
    for c in ch:
        if isinstance(c, str):
            if c.strip():
                cs.add(('C', A('$'), xml_atom(c.strip(), conv)))
        else:
            cs.add(xml_sem(c, conv))
    if len(cs) == 1 and next(iter(cs))[1] == A('$'):
        return ('C', A(t), next(iter(cs))[2])
    return ('C', A(t), ('S', frozenset(cs)))


def c19_xml(seed, clauses, info=None):
    from xml.sax.saxutils import escape
    import algebraixlib.import_export.xml as m
    rng = random.Random(seed)
    e = xml_doc(rng, 3)
    conv = rng.random() < .4
    text = ('<?xml version="1.0" encoding="utf-8"?>\n' if rng.random() < .4 else '') + xml_text(e, escape)
    desc = 'import_xml(%r, convert_numerics=%s)' % (text, conv)
    if info is not None:
        info['call'] = desc
    exp = ('S', frozenset({xml_sem(e, conv)}))
    try:
        if rng.random() < .6:
            res = m.import_xml(io.BytesIO(text.encode('utf-8')), convert_numerics=conv)
        else:
            with Scratch() as d:
                with open(os.path.join(d, 'f.xml'), 'w', encoding='utf-8') as f:
                    f.write(text)
                res = m.import_xml(os.path.join(d, 'f.xml'), convert_numerics=conv)
        got = absv(res)
    except Bad as ex:
        raise Violation('value', 'ill-formed result: %s' % ex)
    except Exception as ex:
        raise Violation('exception', '%s: %s' % (type(ex).__name__, ex))
    if got != exp:
        raise Violation('value', 'imported %s, expected %s' % (show(got), show(exp)))
    if clauses and 'flags' in clauses:
        check_flags([res], 'imported object')
    return bool(e[1] or e[2]), desc


# === C20: RDF =====================================================================================
def c20_import(seed, clauses, info=None):
    import rdflib
    import algebraixlib.import_export.rdf as m
    rng = random.Random(seed)
    n = 1 + size(rng, 6, 60)
    uris = [rdflib.URIRef('http://ex.org/' + x) for x in ('a', 'b', 'c', 'p', 'q')]
    if n > 6:
        uris += [rdflib.URIRef('http://ex.org/n%d' % i) for i in range(n)]
    lits = [rdflib.Literal('x'), rdflib.Literal('y "q" \\ é'), rdflib.Literal(1), rdflib.Literal(2), rdflib.Literal('1'),
            rdflib.Literal(2.5), rdflib.Literal(True), rdflib.Literal('x', lang='en'), rdflib.Literal('')]
    if rng.random() < .3:
        lits += [rdflib.Literal(x) for x in ('x  y', ' x', 'x ', 'X', 'l1\nl2', 'a\tb', '1.0', 'http://ex.org/a', 'x' * 300, -1, 10 ** 20, 0, 0.1,
                                             0.125, False)]
    bn = [rdflib.BNode() for _ in range(2)] if rng.random() < .2 else []
    triples = {(rng.choice(uris + bn), rng.choice(uris), rng.choice(uris + lits + bn)) for _ in range(n)}
    fmt = rng.choice(['nt', 'turtle', 'xml', None])
    gr = rdflib.Graph()
    for t in sorted(triples):
        gr.add(t)
    text = gr.serialize(format=fmt or 'turtle')
    desc = 'import_graph(%r, %s)' % (text, fmt)
    if info is not None:
        info['call'] = desc
    try:
        with Scratch() as d:
            p = os.path.join(d, 'g.' + {'nt': 'nt', 'turtle': 'ttl', 'xml': 'rdf', None: rng.choice(['ttl', 'dat'])}[fmt])
            with open(p, 'w', encoding='utf-8') as f:
                f.write(text)
            if rng.random() < .5:
                res = m.import_graph(p, fmt)
            else:
                with open(p, 'rb') as f:
                    res = m.import_graph(f, fmt or 'turtle')
        got = absv(res)
    except Bad as ex:
        raise Violation('value', 'ill-formed result: %s' % ex)
    except Exception as ex:
        raise Violation('exception', '%s: %s' % (type(ex).__name__, ex))

    def conv(x):
        return A(x.toPython()) if isinstance(x, rdflib.Literal) else A(x)
    if not bn:
        exp = ('S', frozenset(('S', frozenset({('C', A('s'), conv(s)), ('C', A('p'), conv(p)), ('C', A('o'), conv(o))}))
                              for s, p, o in triples))
        # the relation of a triple with an equal subject and object has three couplets all the same
        if got != exp:
            raise Violation('value', 'imported %s, expected %s' % (show(got), show(exp)))
    elif L.card(got) != len({tuple(map(lambda x: conv(x) if not isinstance(x, rdflib.BNode) else x, t)) for t in triples}):
        raise Violation('value', 'imported %d relations for %d triples' % (L.card(got), len(triples)))
    if clauses and 'flags' in clauses:
        check_flags([res], 'imported object')
    return n > 1, desc


def c20_table(seed, clauses, info=None):
    import csv
    import json
    import algebraixlib.import_export.rdf as m
    import rdflib
    rng = random.Random(seed)
    vals = ['a', 'b', 'q"q', 'k, k', 'é', 'x y', 'l\nm', '', '\\', '0', 'None']
    if rng.random() < .5:
        vals += [rdflib.URIRef('http://x/a'), rdflib.BNode('b0'), 0, 1, -7, 2.5, True, False]
    cols = rng.sample(['?x', '?y', '?z', 'q"', '?X', '10', '9'], rng.randint(1, 4))
    heads = cols if rng.random() < .7 else cols[:rng.randint(1, len(cols))]     # the columns to write
    rels = []
    for _ in range(size(rng, 5)):
        rels.append(rel_of({h: rng.choice(vals) for h in cols if rng.random() < .8}))
    v = ('S', frozenset(rels))
    o = mk(v, rng, rng.choice([0, .5]))
    lefts = mk(('S', frozenset(A(h) for h in heads)), rng, 0)
    fmt = rng.choice(['csv', 'json'])
    desc = 'export_table(%s, %s, %s)' % (heads, show(v), fmt)
    if info is not None:
        info['call'] = desc
    buf = io.StringIO(newline='')
    try:
        if rng.random() < .1:
            with Scratch() as d:
                name = os.path.join(d, 'table')
                m.export_table(name, lefts, o, fmt)
                with open(name, newline='') as f:
                    text = f.read()
        else:
            m.export_table(buf, lefts, o, fmt)
            text = buf.getvalue()
        if fmt == 'json':
            def pairs(ps):
                if len({k for k, _ in ps}) != len(ps):
                    raise ValueError('a key occurs twice')
                return dict(ps)
            doc = json.loads(text, object_pairs_hook=pairs)
            hd = doc['head']['vars']
            got = [{k: (x['value'], x['type'], x.get('datatype')) for k, x in b.items()} for b in doc['results']['bindings']]
        else:
            rd = list(csv.reader(io.StringIO(text, newline=''), skipinitialspace=True))
            hd, got = rd[0], [{h: c for h, c in zip(rd[0], r)} for r in rd[1:]]
            if len(heads) == 1 and any(all(c[1][2] != heads[0] for c in r[1]) for r in rels):
                return False, desc      # an empty line: CSV readers do not see the row
    except Exception as ex:
        raise Violation('exception', '%s: %s' % (type(ex).__name__, ex))
    if sorted(hd) != sorted(heads):
        raise Violation('value', 'header of %r is %s' % (text, hd))
    exp = [{c[1][2]: c[2][2] for c in r[1] if c[1][2] in heads} for r in v[1]]
    if fmt == 'csv':
        exp = [{h: str(d.get(h, '')) for h in heads} for d in exp]
    else:
        xsd = 'http://www.w3.org/2001/XMLSchema#'
        types = {rdflib.URIRef: ('uri', None), rdflib.BNode: ('bnode', None), str: ('literal', None), bool: ('literal', xsd + 'boolean'),
                 int: ('literal', xsd + 'integer'), float: ('literal', xsd + 'double')}
        exp = [{h: (str(x),) + types[type(x)] for h, x in d.items()} for d in exp]
    key = lambda d: sorted((k, str(x)) for k, x in d.items())
    if sorted(got, key=key) != sorted(exp, key=key):
        raise Violation('value', 'rows of %r are %s, expected %s' % (text, got, exp))
    return len(v[1]) > 1, desc


def rand_graph(rng):
    n = 1 + size(rng, 6, 40)
    ns, ps = [A('n%d' % i) for i in range(max(3, n // 2))] + [A(1)], [A('p'), A('q')]
    return ('S', frozenset(('S', frozenset({('C', A('s'), rng.choice(ns)), ('C', A('p'), rng.choice(ps)),
                                            ('C', A('o'), rng.choice(ns))})) for _ in range(n))), ns, ps


def c20_match(seed, clauses, info=None):
    import algebraixlib.util.rdf as m
    rng = random.Random(seed)
    gv, ns, ps = rand_graph(rng)
    g = mk(gv, rng, rng.choice([0, .5]))

    def pattern():
        names = rng.sample(['?x', '?y', '?z', '$w'], 3)
        t = []
        for i, dom in enumerate((ns, ps, ns)):
            w = rng.random()
            t.append(None if w < .15 else names[i] if w < .7 else rng.choice(dom))
        return t

    def sem(t):
        r = set()
        for tr in gv[1]:
            d = {c[1][2]: c[2] for c in tr[1]}
            if all(x is None or isinstance(x, str) or d[k] == x for k, x in zip('spo', t)):
                r.add(('S', frozenset(('C', A(x), d[k]) for k, x in zip('spo', t) if isinstance(x, str))))
        return ('S', frozenset(r))

    def call(t):
        a = [x if x is None or isinstance(x, str) else (x[2] if rng.random() < .5 else mk(x, rng, 0)) for x in t]
        return m.triple_match(g, *a)
    pats = [pattern() for _ in range(rng.randint(1, 3))]
    desc = 'match %s against %s' % (pats, show(gv))
    if info is not None:
        info['call'] = desc
    try:
        sols = [call(t) for t in pats]
        got = [absv(s) for s in sols]
        exps = [sem(t) for t in pats]
        for a, e in zip(got, exps):
            if a != e:
                raise Violation('value', 'the matches are %s, expected %s' % (show(a), show(e)))
        if len(pats) > 1:
            res = absv(m.join(*sols))
            exp = exps[0]
            for e in exps[1:]:
                exp = ('S', frozenset(('S', a[1] | b[1]) for a in exp[1] for b in e[1]
                                      if L.r_functional(('S', a[1] | b[1]))))
            if res != exp:
                raise Violation('value', 'the join is %s, expected %s' % (show(res), show(exp)))
        if m.is_graph(g) is not True or m.is_absolute_graph(g) is not True:
            raise Violation('value', 'is_graph is not true for a graph')
    except Bad as ex:
        raise Violation('value', 'ill-formed result: %s' % ex)
    except Violation:
        raise
    except Exception as ex:
        raise Violation('exception', '%s: %s' % (type(ex).__name__, ex))
    if clauses and 'flags' in clauses:
        check_flags(sols, 'solution')
    return len(gv[1]) > 1, desc
