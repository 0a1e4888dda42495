"""Contracts of structures and ground sets (C16): structure.py, MathObject.get_ground_set, get_ground_set of the algebras.

Structures have a kind k (KIND), components l, r (CartesianProduct), b (PowerSet) and elements inn (Union). Items are math
objects (vk 1 to 4: atom, couplet, set, multiset) and what multisets consist of: numbers (7) and pairs (8) of an element and
a number."""
import z3
from z3 import And, Or, Not, If, Implies, ForAll, Exists, Function, Const, DeclareSort, IntSort, BoolSort

S, V, I, B = DeclareSort('Struct'), DeclareSort('Item'), IntSort(), BoolSort()
KIND = {'Structure': 0, 'GenesisSetA': 1, 'GenesisSetM': 2, 'GenesisSetN': 3, 'CartesianProduct': 4, 'Union': 5, 'PowerSet': 6}
# attribute -> component, in the order of the arguments of the constructor
FIELDS = {'CartesianProduct': ['left', 'right'], 'Union': ['data'], 'PowerSet': ['base_set']}
k, size = Function('k', S, I), Function('size', S, I)
l, r, b, the = (Function(n, S, S) for n in ('l', 'r', 'b', 'the'))
COMPONENT = {'left': l, 'right': r, 'base_set': b}
inn = Function('inn', S, S, B)
sub, same = Function('sub', S, S, B), Function('same', S, S, B)
lev = Function('lev', S, S, I)
h, hs = Function('h', S, I), Function('hs', S, I)
vk, vsize = Function('vk', V, I), Function('vsize', V, I)
vl, vr = Function('vl', V, V), Function('vr', V, V)
vin = Function('vin', V, V, B)
pair = Function('pair', V, V, V)          # pair(e, m): the element e of the multiset m with its multiplicity
bel = Function('bel', V, S, B)
g = Function('g', V, S)
noempty = Function('noempty', V, B)
uf = Function('uf', S, B)
x, y, z, d, e = (Const(n, S) for n in ('x', 'y', 'z', 'd', 'e'))
v, w, u = (Const(n, V) for n in ('v', 'w', 'u'))


def fa(vs, pats, body): return ForAll(vs, body, patterns=[p if not isinstance(p, tuple) else z3.MultiPattern(*p) for p in pats])


one = Function('one', S, B)       # a union has one element


def fl(x, q):
    """q is x, or an element of the union x"""
    return Or(And(k(x) != 5, q == x), And(k(x) == 5, inn(q, x)))


# --- invariants of the classes (established by the constructors: obligations) ---------------------
TYPES = [
    fa([x], [k(x)], And(0 <= k(x), k(x) <= 6, size(x) >= 0)),
    fa([x], [l(x)], Implies(k(x) == 4, size(l(x)) < size(x))),
    fa([x], [r(x)], Implies(k(x) == 4, size(r(x)) < size(x))),
    fa([x], [b(x)], Implies(k(x) == 6, size(b(x)) < size(x))),
    fa([x, d], [inn(d, x)], Implies(And(k(x) == 5, inn(d, x)), And(size(d) < size(x), k(d) != 5))),
    fa([x], [the(x)], Implies(k(x) == 5, inn(the(x), x))),
    fa([x], [one(x)], one(x) == ForAll([d], Implies(inn(d, x), d == the(x)), patterns=[inn(d, x)])),
    fa([x, d, e], [(inn(d, x), inn(e, x), sub(d, e))], Implies(And(k(x) == 5, inn(d, x), inn(e, x), sub(d, e)), d == e)),
]


# --- is_subset ------------------------------------------------------------------------------------
def sub_def(x, y):
    # the alternatives of `other`; a structure that is no union is a subset of a union if it is one of an element
    some = Exists([d], And(inn(d, y), sub(x, d)), patterns=[inn(d, y)])
    plain = Or(k(x) == 0,
               And(k(y) == 5, some),
               And(k(y) == 2, Or(k(x) == 1, k(x) == 2, k(x) == 4, k(x) == 6)),
               And(k(y) == 1, k(x) == 1),
               And(k(y) == 3, k(x) == 3),
               And(k(y) == 4, k(x) == 4, sub(l(x), l(y)), sub(r(x), r(y))),
               And(k(y) == 6, k(x) == 6, sub(b(x), b(y))))
    return If(k(x) == 5, ForAll([d], Implies(inn(d, x), sub(d, y)), patterns=[inn(d, x)]), plain)


SUB = fa([x, y], [sub(x, y)], sub(x, y) == sub_def(x, y))


# --- is_same --------------------------------------------------------------------------------------
def seteq(x, y):
    return And(ForAll([d], Implies(inn(d, x), Exists([e], And(inn(e, y), same(d, e)), patterns=[inn(e, y)])), patterns=[inn(d, x)]),
               ForAll([e], Implies(inn(e, y), Exists([d], And(inn(d, x), same(d, e)), patterns=[inn(d, x)])), patterns=[inn(e, y)]))


def same_def(x, y):
    q = If(And(k(y) == 5, one(y)), the(y), y)
    return If(k(x) == 5, If(k(y) == 5, seteq(x, y), And(one(x), same(the(x), y))),
              And(k(x) == k(q), Implies(k(x) == 4, And(same(l(x), l(q)), same(r(x), r(q)))), Implies(k(x) == 6, same(b(x), b(q)))))


SAME = fa([x, y], [same(x, y)], same(x, y) == same_def(x, y))


# --- get_powerset_level ---------------------------------------------------------------------------
def lev_def(x, y):
    return If(k(x) == 6, If(sub(b(x), y), 1, If(lev(b(x), y) > 0, lev(b(x), y) + 1, 0)), 0)


LEV = fa([x, y], [lev(x, y)], lev(x, y) == lev_def(x, y))
# contract of the recursion inside of PowerSet.get_powerset_level, for a level that is not negative
def level_from(x, y, n): return If(lev(x, y) > 0, n + lev(x, y), 0)


# --- items ----------------------------------------------------------------------------------------
ITEMS = [
    fa([v], [vk(v)], And(Or(And(1 <= vk(v), vk(v) <= 4), vk(v) == 7, vk(v) == 8), vsize(v) >= 0)),
    fa([v], [vl(v)], Implies(Or(vk(v) == 2, vk(v) == 8), And(vsize(vl(v)) < vsize(v), vk(vl(v)) <= 4))),
    fa([v], [vr(v)], Implies(Or(vk(v) == 2, vk(v) == 8), vsize(vr(v)) < vsize(v))),
    fa([v], [vr(v)], And(Implies(vk(v) == 2, vk(vr(v)) <= 4), Implies(vk(v) == 8, vk(vr(v)) == 7))),
    fa([v, w], [vin(w, v)], Implies(vin(w, v), And(Or(vk(v) == 3, vk(v) == 4), vk(w) <= 4, vsize(w) < vsize(v)))),
    fa([v, w], [pair(w, v)], And(vk(pair(w, v)) == 8, vl(pair(w, v)) == w)),
]


def bel_def(v, x):
    """the item v belongs to the structure x"""
    return Or(And(k(x) == 1, vk(v) == 1),
              And(k(x) == 2, vk(v) != 7),           # the product of anything is a subset of M
              And(k(x) == 3, vk(v) == 7),
              And(k(x) == 4, Or(vk(v) == 2, vk(v) == 8), bel(vl(v), l(x)), bel(vr(v), r(x))),
              And(k(x) == 5, Exists([d], And(inn(d, x), bel(v, d)), patterns=[inn(d, x)])),
              And(k(x) == 6, Or(And(vk(v) == 3, ForAll([w], Implies(vin(w, v), bel(w, b(x))), patterns=[vin(w, v)])),
                                And(vk(v) == 4, ForAll([w], Implies(vin(w, v), bel(pair(w, v), b(x))), patterns=[vin(w, v)])))))


BEL = fa([v, x], [bel(v, x)], bel(v, x) == bel_def(v, x))


def empty(v): return ForAll([w], Not(vin(w, v)), patterns=[vin(w, v)])
def noempty_def(v):
    """no empty set or multiset inside"""
    return And(Implies(Or(vk(v) == 2, vk(v) == 8), noempty(vl(v))), Implies(vk(v) == 2, noempty(vr(v))),
               Implies(Or(vk(v) == 3, vk(v) == 4), And(Exists([w], vin(w, v)), ForAll([w], Implies(vin(w, v), noempty(w)), patterns=[vin(w, v)]))))


NOEMPTY = fa([v], [noempty(v)], noempty(v) == noempty_def(v))
UF = fa([x], [uf(x)], uf(x) == And(k(x) != 0, k(x) != 5, Implies(k(x) == 4, And(uf(l(x)), uf(r(x)))), Implies(k(x) == 6, uf(b(x)))))


# --- ground sets of math objects ------------------------------------------------------------------
def union_of_ground(x, v):
    """x is the union of the ground sets of the elements of v (ground sets are no unions)"""
    return And(ForAll([d], Implies(And(k(x) == 5, inn(d, x)), Exists([w], And(vin(w, v), d == g(w)))), patterns=[inn(d, x)]),
               Implies(k(x) != 5, Exists([w], And(vin(w, v), x == g(w)))),
               ForAll([w], Implies(vin(w, v), Exists([e], And(fl(x, e), sub(g(w), e)))), patterns=[vin(w, v)]))


def ground_def(v, q):
    """q is the ground set of the math object v"""
    return And(Implies(vk(v) == 1, k(q) == 1),
               Implies(vk(v) == 2, And(k(q) == 4, same(l(q), g(vl(v))), same(r(q), g(vr(v))))),
               Implies(vk(v) == 3, If(empty(v), k(q) == 0, And(k(q) == 6, union_of_ground(b(q), v)))),
               Implies(vk(v) == 4, If(empty(v), k(q) == 0, And(k(q) == 6, k(b(q)) == 4, k(r(b(q))) == 3, union_of_ground(l(b(q)), v)))))


GROUND = fa([v], [g(v)], Implies(vk(v) <= 4, ground_def(v, g(v))))


def is_rel(v): return And(vk(v) == 3, ForAll([w], Implies(vin(w, v), vk(w) == 2), patterns=[vin(w, v)]))
def is_kclan(v, kind): return And(vk(v) == kind, ForAll([u], Implies(vin(u, v), is_rel(u)), patterns=[vin(u, v)]))
MEMBER = {
    'sets': lambda v: Or(vk(v) == 3, vk(v) == 4),      # P(M): the multisets are a subset of it as well
    'multisets': lambda v: vk(v) == 4, 'couplets': lambda v: vk(v) == 2, 'relations': is_rel,
    'clans': lambda v: is_kclan(v, 3), 'multiclans': lambda v: is_kclan(v, 4),
}


# --- lemmas: name -> (variables, hypothesis, conclusion, measure or None, lemmas used, definitions used) ---------------
def _l(vs, pats, hyp, goal, measure, uses, defs): return dict(vs=vs, pats=pats, hyp=hyp, goal=goal, measure=measure, uses=uses, defs=defs)


LEMMAS = {
    'is_subset is reflexive': _l([x], [k(x)], z3.BoolVal(True), sub(x, x), size(x), [], [SUB]),
    'is_subset is transitive': _l([x, y, z], [(sub(x, y), sub(y, z))], And(sub(x, y), sub(y, z)), sub(x, z), size(x) + size(y) + size(z), [], [SUB]),
    'a subset of a union that is no union itself is a subset of an element': _l(
        [x, y], [sub(x, y)], And(sub(x, y), k(x) != 5, k(y) == 5, inn(the(y), y)), Exists([d], And(inn(d, y), sub(x, d)), patterns=[inn(d, y)]), None, [], [SUB]),
    'equal structures are exactly mutual subsets': _l(
        [x, y], [same(x, y), (sub(x, y), sub(y, x))], z3.BoolVal(True), same(x, y) == And(sub(x, y), sub(y, x)), size(x) + size(y),
        ['is_subset is reflexive', 'is_subset is transitive',
         'a subset of a union that is no union itself is a subset of an element'], [SUB, SAME]),
    'is_subset is sound: what belongs to a structure belongs to every structure of which it is a subset': _l(
        [v, x, y], [(sub(x, y), bel(v, x))], And(sub(x, y), bel(v, x)), bel(v, y), size(x) + size(y), [], [SUB, BEL]),
    'an object without empty parts belongs to its ground set': _l(
        [v], [g(v)], And(noempty(v), vk(v) <= 4), bel(v, g(v)), vsize(v),
        ['is_subset is sound: what belongs to a structure belongs to every structure of which it is a subset',
         'equal structures are exactly mutual subsets'], [SUB, BEL, NOEMPTY, GROUND]),
    'the ground set of what belongs to a union-free structure is a subset of it': _l(
        [x, v], [(uf(x), bel(v, x), g(v))], And(uf(x), bel(v, x), noempty(v), vk(v) <= 4), sub(g(v), x), size(x) + vsize(v),
        ['is_subset is transitive', 'equal structures are exactly mutual subsets'], [SUB, BEL, NOEMPTY, GROUND, UF]),
}


def level_facts(name, v, n):
    """spec/logic.py: ground_relations, ground_clans"""
    is_set, clan = vk(v) == 3, is_kclan(v, 3)
    some = Exists([w], And(vin(w, v), Or(vk(w) == 3, And(vk(w) == 4, empty(w)))))
    nested = And(is_set, Not(is_rel(v)), Not(clan), some)
    coll = Or(vk(w) == 3, vk(w) == 4)
    every = ForAll([w], Implies(vin(w, v), And(coll, Or(empty(w), And(vk(w) == 3, BoolVal_(name == 'relations', is_rel(w)))))))
    out = [('a level is found only of clans and nested sets', Implies(n > 0, And(is_set, Not(empty(v)), Or(clan, And(nested, every)))))]
    if name == 'relations':
        out.append(('the level of a clan is found', Implies(And(n <= 0, clan), empty(v))))
    return out


def BoolVal_(c, rel): return z3.BoolVal(True) if c else Not(rel)
