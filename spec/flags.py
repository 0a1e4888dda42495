"""Contracts of the cache of properties (C08). Each function of this file is used on z3 terms (proof) and on
plain integers and booleans (replay on the real code): E has And, Or, Not, Implies, eq, ite.

State: the statuses of the 15 properties; `empty`: the object is empty."""

KINDS = ['atom', 'couplet', 'set', 'multiset']
PROPS = ['relation', 'clan', 'multiclan', 'absolute', 'functional', 'right_functional', 'reflexive',
         'symmetric', 'transitive', 'regular', 'right_regular']
FIELDS = KINDS + PROPS
UNKNOWN, IS, IS_NOT, N_A = 0, 1, 2, 3
NEVER_NA = {'relation', 'clan', 'multiclan', 'absolute'}
# property -> what recording IS for it also records: of a non-empty object; of every object
IMPLIED = {
    'relation': {'clan': IS_NOT, 'multiclan': IS_NOT, 'regular': N_A, 'right_regular': N_A},
    'clan': {'relation': IS_NOT},
}
IMPLIED_ALWAYS = {'regular': {'functional': IS}, 'right_regular': {'right_functional': IS}}
# may also be refused: a non-empty object is at most one of these
EXCLUSIVE = {'relation', 'clan', 'multiclan'}


class Plain:
    And = staticmethod(lambda *a: all(a))
    Or = staticmethod(lambda *a: any(a))
    Not = staticmethod(lambda a: not a)
    ite = staticmethod(lambda c, a, b: a if c else b)


def implied(p):
    """[(other property, status, only if the object is not empty)]"""
    return [(q, s, True) for q, s in IMPLIED.get(p, {}).items()] + \
        [(q, s, False) for q, s in IMPLIED_ALWAYS.get(p, {}).items()]


def legal(E, p, v):
    return E.And(0 <= v, v <= 3, *([E.Not(v == N_A)] if p in NEVER_NA else []))


def implies_now(E, p, v, empty, only_nonempty):
    return E.And(v == IS, E.Not(empty)) if only_nonempty else v == IS


def refused(E, p, v, s, empty):
    """Must be refused: not a status of p, or it contradicts something that is known."""
    return E.Or(E.Not(legal(E, p, v)),
                E.And(E.Not(s[p] == UNKNOWN), E.Not(s[p] == v)),
                *[E.And(implies_now(E, p, v, empty, o), E.Not(s[q] == UNKNOWN), E.Not(s[q] == t)) for q, t, o in implied(p)])


def may_refuse(E, p, v, s, empty):
    ex = [s[q] == IS for q in EXCLUSIVE - {p}] if p in EXCLUSIVE else []
    return E.Or(refused(E, p, v, s, empty), *([E.And(v == IS, E.Not(empty), E.Or(*ex))] if ex else []))


def after(E, p, v, s, empty):
    """The state after the call returned."""
    n = dict(s)
    n[p] = v
    for q, t, o in implied(p):
        n[q] = E.ite(implies_now(E, p, v, empty, o), t, s[q])
    return n


def kept(E, s, n):
    """No known status changed."""
    return E.And(*[E.Or(s[q] == UNKNOWN, n[q] == s[q]) for q in FIELDS])


def unaffected(E, p, v, s, n, empty):
    """A refused call changed nothing but p and what it implies."""
    imp = {q: o for q, _, o in implied(p)}
    return E.And(*[E.Or(implies_now(E, p, v, empty, imp[q]), n[q] == s[q]) if q in imp else n[q] == s[q]
                   for q in FIELDS if q != p])


def measure(E, p, v):
    """Decreases with every call of one recording method by another."""
    return E.ite(v == IS, 10, 0) + (5 if p in IMPLIED_ALWAYS else 0)
