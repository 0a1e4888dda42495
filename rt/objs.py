"""Real math objects <-> abstract values, truth of the cached properties."""
import algebraixlib.mathobjects as mo
import algebraixlib.undef as undef
from spec import logic as L
from spec.prims import UNDEF

PROPS = ['relation', 'clan', 'multiclan', 'absolute', 'functional', 'right_functional', 'reflexive',
         'symmetric', 'transitive', 'regular', 'right_regular']
UNSPEC_IF_NESTED = {'functional', 'right_functional', 'reflexive', 'symmetric', 'transitive', 'regular',
                    'right_regular'}
ST = {p: getattr(L, 'st_' + p) for p in PROPS}
GETTERS = [(p, 'cached_' + p) for p in PROPS]


class Bad(Exception):
    """An object that is not a well-formed value."""


def absv(o):
    if isinstance(o, mo.Atom):
        v = o.value
        return ('A', type(v).__name__, v)
    if isinstance(o, mo.Couplet):
        return ('C', absv(o.left), absv(o.right))
    if isinstance(o, mo.Set):
        return ('S', frozenset([absv(e) for e in o.data]))
    if isinstance(o, mo.Multiset):
        l = []
        for e, n in o.data.items():
            if not isinstance(n, int) or n <= 0:
                raise Bad('multiplicity %r of %r' % (n, e))
            l.append((absv(e), n))
        r = frozenset(l)
        return ('M', r)
    if o is undef.Undef():
        return UNDEF
    raise Bad('not a math object: %r' % (o,))


_truth = {}


def truth(v):
    """{property: status} of the abstract value v; None where it is not specified."""
    t = _truth.get(v)
    if t is None:
        if len(_truth) > 20000:
            _truth.clear()
        n = L.nested(v)
        t = _truth[v] = {p: (None if n and p in UNSPEC_IF_NESTED else ST[p](v)) for p in PROPS}
    return t


def wrong_flags(o, v=None):
    """First wrong cached property in o or anything inside of it: (object, property, cached, truth) or None."""
    if v is None:
        v = absv(o)
    if v[0] == 'U':
        return None
    t = truth(v)
    for p, g in GETTERS:
        c = getattr(o, g)
        if c != 0 and t[p] is not None and c != t[p]:
            return (str(o), p, c, t[p])
    if v[0] == 'C':
        return wrong_flags(o.left) or wrong_flags(o.right)
    if v[0] in 'SM':
        for e in o.data:
            w = wrong_flags(e)
            if w:
                return w
    return None


def mk(v, rng, hist=0.0):
    """A new real object for v; every property of it and its elements is cached with probability hist."""
    k = v[0]
    if k == 'U':
        return undef.Undef()
    if k == 'A':
        return mo.Atom(v[2])
    if k == 'C':
        l, r = mk(v[1], rng, hist), mk(v[2], rng, hist)
        o = mo.Couplet(l, r, direct_load=rng.random() < .5)
    elif k == 'S':
        es = [mk(e, rng, hist) for e in v[1]]
        rng.shuffle(es)
        w = rng.random()
        if w < .4:
            o = mo.Set(es, direct_load=True)
        elif w < .6:
            o = mo.Set(*es) if not (len(es) == 1) else mo.Set(es)
        elif w < .8:
            o = mo.Set(e for e in es)
        else:
            o = mo.Set([e.value if e.is_atom else e for e in es])
    elif k == 'M':
        es = [(mk(e, rng, hist), n) for e, n in v[1]]
        rng.shuffle(es)
        w = rng.random()
        if w < .5:
            o = mo.Multiset(dict(es), direct_load=True)
        elif w < .75:
            o = mo.Multiset(dict(es))
        else:
            o = mo.Multiset([e for e, n in es for _ in range(n)])
    else:
        raise ValueError(v)
    if hist:
        t = truth(v)
        ps = PROPS[:]
        rng.shuffle(ps)
        for p in ps:
            if rng.random() < hist and t[p] is not None:
                getattr(o, 'cache_' + p)(t[p])
    return o


def show(v):
    k = v[0]
    if k == 'U': return 'Undef()'
    if k == 'A': return 'Atom(%r)' % (v[2],)
    if k == 'C': return 'Couplet(%s, %s)' % (show(v[1]), show(v[2]))
    if k == 'S': return 'Set([%s])' % ', '.join(sorted(show(e) for e in v[1]))
    if k == 'M': return 'Multiset({%s})' % ', '.join(sorted('%s: %d' % (show(e), n) for e, n in v[1]))
    if k == 'Q': return '*(%s)' % ', '.join(show(e) for e in v[1])
    if k == 'D': return '{%s}' % ', '.join('%s: %s' % (show(a), show(b)) for a, b in v[1])
    if k == 'F': return v[1]
    if k == 'N': return 'None'
    if k == 'P': return repr(v[2])
    return repr(v)


def flags_of(o):
    """Known cached properties of o and its elements, for reports."""
    if not isinstance(o, mo.MathObject):
        return ''
    names = {1: 'IS', 2: 'IS_NOT', 3: 'N_A'}
    s = str(o) + ': ' + (' '.join('%s=%s' % (p, names[getattr(o, g)]) for p, g in GETTERS if getattr(o, g)) or '-')
    if o.is_set or o.is_multiset:
        return [s] + [flags_of(e) for e in o.data]
    return s
