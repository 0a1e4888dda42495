"""Contracts of equality, inequality and hash of math objects (C12).

Objects have a kind vk (0: no math object; 1 to 4: atom, couplet, set, multiset) and components: the plain value pv of an
atom, vl and vr of a couplet, the elements vin of a set or multiset, the multiplicities mu."""
import z3
from z3 import And, Or, Not, If, Implies, ForAll, Exists, Function, Const, DeclareSort, IntSort, BoolSort

V, P, T, I, B = DeclareSort('Object'), DeclareSort('Plain'), DeclareSort('Type'), IntSort(), BoolSort()
vk, size = Function('vk', V, I), Function('size', V, I)
pv = Function('pv', V, P)
ptype, peq, phash, thash = Function('ptype', P, T), Function('peq', P, P, B), Function('phash', P, I), Function('thash', T, I)
vl, vr = Function('vl', V, V), Function('vr', V, V)
vin, mu = Function('vin', V, V, B), Function('mu', V, V, I)       # vin(e, v); mu(e, v)
veq = Function('veq', V, V, B)
h = Function('h', V, I)
hset = Function('hset', V, I)          # hash of the frozenset of the elements
hitems = Function('hitems', V, I)      # hash of the frozenset of the pairs of element and multiplicity
card = Function('card', V, I)           # number of different elements
pairhash = Function('pairhash', I, I, I)
x, y, z, d, e = (Const(n, V) for n in ('x', 'y', 'z', 'd', 'e'))
p, q, s = (Const(n, P) for n in ('p', 'q', 's'))
KINDS = {'Atom': 1, 'Couplet': 2, 'Set': 3, 'Multiset': 4}


def fa(vs, pats, body): return ForAll(vs, body, patterns=[t if not isinstance(t, tuple) else z3.MultiPattern(*t) for t in pats])


TYPES = [
    fa([x], [vk(x)], And(0 <= vk(x), vk(x) <= 4, size(x) >= 1)),
    fa([x], [vl(x)], Implies(vk(x) == 2, And(size(vl(x)) < size(x), vk(vl(x)) >= 1))),
    fa([x], [vr(x)], Implies(vk(x) == 2, And(size(vr(x)) < size(x), vk(vr(x)) >= 1))),
    fa([x, d], [vin(d, x)], Implies(vin(d, x), And(Or(vk(x) == 3, vk(x) == 4), vk(d) >= 1, size(d) < size(x)))),
    fa([x], [card(x)], card(x) >= 0),
    fa([x, d], [mu(d, x)], Implies(And(vk(x) == 4, vin(d, x)), mu(d, x) >= 1)),
    # a frozenset and a Counter keep one of several equal elements
    fa([x, d, e], [(vin(d, x), vin(e, x), veq(d, e))], Implies(And(vin(d, x), vin(e, x), veq(d, e)), d == e)),
]
# plain values of the same type: == is an equivalence that respects hash (assumption)
PLAIN = [
    fa([x], [pv(x)], peq(pv(x), pv(x))),
    fa([p, q], [peq(p, q)], Implies(And(ptype(p) == ptype(q), peq(p, q)), And(peq(q, p), phash(p) == phash(q)))),
    fa([p, q, s], [(peq(p, q), peq(q, s))], Implies(And(ptype(p) == ptype(q), ptype(q) == ptype(s), peq(p, q), peq(q, s)), peq(p, s))),
]


def cover(x, y, mult):
    """every element of x is equal to one of y (with the same multiplicity)"""
    t = And(vin(e, y), veq(d, e), mu(d, x) == mu(e, y)) if mult else And(vin(e, y), veq(d, e))
    return ForAll([d], Implies(vin(d, x), Exists([e], t, patterns=[vin(e, y)])), patterns=[vin(d, x)])


def eqsets(x, y): return And(cover(x, y, False), cover(y, x, False))
def eqmsets(x, y): return And(cover(x, y, True), cover(y, x, True))


def veq_def(x, y):
    """the same value"""
    return And(vk(x) == vk(y), vk(x) >= 1,
               Implies(vk(x) == 1, And(ptype(pv(x)) == ptype(pv(y)), peq(pv(x), pv(y)))),
               Implies(vk(x) == 2, And(veq(vl(x), vl(y)), veq(vr(x), vr(y)))),
               Implies(vk(x) == 3, eqsets(x, y)),
               Implies(vk(x) == 4, eqmsets(x, y)))


VEQ = fa([x, y], [veq(x, y)], veq(x, y) == veq_def(x, y))


def _l(vs, pats, hyp, goal, measure, uses): return dict(vs=vs, pats=pats, hyp=hyp, goal=goal, measure=measure, uses=uses, defs=[VEQ] + PLAIN)


LEMMAS = {
    'equality is reflexive': _l([x], [vk(x)], vk(x) >= 1, veq(x, x), size(x), []),
    'equality is symmetric': _l([x, y], [veq(x, y)], veq(x, y), veq(y, x), size(x) + size(y), []),
    'equality is transitive': _l([x, y, z], [(veq(x, y), veq(y, z))], And(veq(x, y), veq(y, z)), veq(x, z), size(x) + size(y) + size(z), []),
}
