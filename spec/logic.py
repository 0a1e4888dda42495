"""Mathematical definitions (glossary of algebraixlib), in the specification language.

Every function here is both executed (rt/) and compiled to z3 (pyvc/)."""
from spec.prims import *


# --- Classification -------------------------------------------------------------------------------
def left_of(c): return left(c)
def is_mo(v): return is_atom(v) or is_couplet(v) or is_set(v) or is_mset(v)
def is_coll(v): return is_set(v) or is_mset(v)
def is_rel(v): return is_set(v) and all(is_couplet(c) for c in elems(v))
def is_clan(v): return is_set(v) and all(is_rel(r) for r in elems(v))
def is_mclan(v): return is_mset(v) and all(is_rel(r) for r in elems(v))
def is_multirel(v): return is_mset(v) and all(is_couplet(c) for c in elems(v))
def is_empty(v): return is_coll(v) and not any(True for x in elems(v))


# --- Properties of relations ----------------------------------------------------------------------
def r_functional(r):
    return all(c == d for c in elems(r) for d in elems(r) if left(c) == left(d))
def r_rfunctional(r):
    return all(c == d for c in elems(r) for d in elems(r) if right(c) == right(d))
def r_reflexive(r):
    return all(mem(couplet(left(c), left(c)), r) and mem(couplet(right(c), right(c)), r) for c in elems(r))
def r_symmetric(r): return all(mem(couplet(right(c), left(c)), r) for c in elems(r))
def r_transitive(r):
    return all(mem(couplet(left(d), right(c)), r) for c in elems(r) for d in elems(r) if left(c) == right(d))
def c_absolute(c): return is_atom(left(c)) and is_atom(right(c))
def r_absolute(r): return all(c_absolute(c) for c in elems(r))


# --- Properties of clans and multiclans -----------------------------------------------------------
def k_functional(v): return all(r_functional(r) for r in elems(v))
def k_rfunctional(v): return all(r_rfunctional(r) for r in elems(v))
def k_reflexive(v): return all(r_reflexive(r) for r in elems(v))
def k_symmetric(v): return all(r_symmetric(r) for r in elems(v))
def k_transitive(v): return all(r_transitive(r) for r in elems(v))
def k_absolute(v): return all(r_absolute(r) for r in elems(v))
def has_left(r, x): return any(left(c) == x for c in elems(r))
def has_right(r, x): return any(right(c) == x for c in elems(r))
def lefts_within(r, q): return all(has_left(q, left(c)) for c in elems(r))
def rights_within(r, q): return all(has_right(q, right(c)) for c in elems(r))
def k_regular(v):
    return k_functional(v) and all(lefts_within(r, q) for r in elems(v) for q in elems(v))
def k_rregular(v):
    return k_rfunctional(v) and all(rights_within(r, q) for r in elems(v) for q in elems(v))


# --- The truth about cached properties ------------------------------------------------------------
# `nested(v)`: sets that are neither relation nor clan but hold sets (or an empty multiset, whose ground
# set is a subset of every other); the status of their properties follows the ground set (P^k of
# relations) and is not specified here.
def is_kclan(v): return is_clan(v) or is_mclan(v)
def nested(v): return is_set(v) and not is_rel(v) and not is_clan(v) and any(is_set(x) or is_empty(x) for x in elems(v))
# a property of a nested value that applies (is not N_A): what its elements are
def nested_elems(v): return all(is_coll(x) and (is_empty(x) or is_set(x) and not is_rel(x)) for x in elems(v))
def nested_elems2(v): return all(is_coll(x) and (is_empty(x) or is_set(x)) for x in elems(v))
# Contract of v.get_ground_set().get_powerset_level(ground set of relations or clans) == n (C16)
def ground_relations(v, n):
    return ((n <= 0 or is_set(v) and not is_empty(v) and (is_clan(v) or nested(v) and nested_elems2(v)))
            and (n > 0 or not is_clan(v) or is_empty(v)))
def ground_clans(v, n):
    return n <= 0 or is_set(v) and not is_empty(v) and (is_clan(v) or nested(v) and nested_elems(v))
def st_relation(v): return from_bool(is_rel(v))
def st_clan(v): return from_bool(is_clan(v))
def st_multiclan(v): return from_bool(is_mclan(v))
def t_absolute(v):
    return (is_atom(v) or (is_couplet(v) and c_absolute(v)) or (is_rel(v) and r_absolute(v))
            or (is_kclan(v) and k_absolute(v))
            or (is_coll(v) and not is_rel(v) and not is_kclan(v) and all(is_atom(x) for x in elems(v))))
def st_absolute(v): return from_bool(t_absolute(v))
def st_functional(v):
    return from_bool(r_functional(v)) if is_rel(v) else from_bool(k_functional(v)) if is_kclan(v) else N_A
def st_right_functional(v):
    return from_bool(r_rfunctional(v)) if is_rel(v) else from_bool(k_rfunctional(v)) if is_kclan(v) else N_A
def st_reflexive(v):
    return (from_bool(left(v) == right(v)) if is_couplet(v) else from_bool(r_reflexive(v)) if is_rel(v)
            else from_bool(k_reflexive(v)) if is_kclan(v) else N_A)
def st_symmetric(v):
    return from_bool(r_symmetric(v)) if is_rel(v) else from_bool(k_symmetric(v)) if is_kclan(v) else N_A
def st_transitive(v):
    return from_bool(r_transitive(v)) if is_rel(v) else from_bool(k_transitive(v)) if is_kclan(v) else N_A
def st_regular(v): return from_bool(k_regular(v)) if is_kclan(v) else N_A
def st_right_regular(v): return from_bool(k_rregular(v)) if is_kclan(v) else N_A


# --- Sets -----------------------------------------------------------------------------------------
def msum(a, b): return msetby(lambda x: mult(x, a) + mult(x, b), a, b)
def union(a, b): return setby(lambda x: mem(x, a) or mem(x, b), a, b)
def intersect(a, b): return setby(lambda x: mem(x, a) and mem(x, b), a, b)
def minus(a, b): return setby(lambda x: mem(x, a) and not mem(x, b), a)
def subset(a, b): return all(mem(x, b) for x in elems(a))
def substrict(a, b): return a if subset(a, b) else UNDEF
def superstrict(a, b): return a if subset(b, a) else UNDEF
def multify(s): return msetof((x, 1) for x in elems(s))
def all_sets(s): return all(is_set(x) for x in elems(s))
def all_msets(s): return all(is_mset(x) for x in elems(s))
def big_union(s):
    return (setof(x for e in elems(s) for x in elems(e)) if all_sets(s) else UNDEF)
def big_intersect(s):
    return (s if is_empty(s) else setby(lambda x: all(mem(x, e) for e in elems(s)), *elems(s))) if all_sets(s) else UNDEF
def power_up(s): return setof(single(x) for x in elems(s))


# --- Couplets and relations -----------------------------------------------------------------------
def c_transpose(c): return couplet(right(c), left(c))
def c_compose(c, d): return couplet(left(d), right(c)) if left(c) == right(d) else UNDEF
def r_transpose(r): return setof(couplet(right(c), left(c)) for c in elems(r))
def r_compose(a, b):
    return setof(couplet(left(d), right(c)) for c in elems(a) for d in elems(b) if left(c) == right(d))
def r_funion(a, b): return union(a, b) if r_functional(union(a, b)) else UNDEF
def r_rfunion(a, b): return union(a, b) if r_rfunctional(union(a, b)) else UNDEF
def r_lefts(r): return setof(left(c) for c in elems(r))
def r_rights(r): return setof(right(c) for c in elems(r))
def r_rights_for(r, x): return setof(right(c) for c in elems(r) if left(c) == x)
def r_right(r, x):
    return (the(right(c) for c in elems(r) if left(c) == x)
            if unique(right(c) for c in elems(r) if left(c) == x) else UNDEF)
def r_left(r, x):
    return (the(left(c) for c in elems(r) if right(c) == x)
            if unique(left(c) for c in elems(r) if right(c) == x) else UNDEF)
def s_diag(s): return setof(couplet(x, x) for x in elems(s))
def r_fill_lefts(r, n): return union(n, s_diag(minus(r_lefts(r), r_rights(n))))
def r_rename(r, n): return r_compose(r, r_fill_lefts(r, n))
def r_swap(r, n): return r_rename(r, union(n, r_transpose(n)))
def r_defined_at(r, x): return r if has_left(r, x) else UNDEF


# --- Clans ----------------------------------------------------------------------------------------
def k_transpose(k): return setof(r_transpose(r) for r in elems(k))
def k_compose(a, b): return setof(r_compose(r, q) for r in elems(a) for q in elems(b))
def k_cross_union(a, b): return setof(union(r, q) for r in elems(a) for q in elems(b))
def k_cross_funion(a, b):
    return setof(union(r, q) for r in elems(a) for q in elems(b) if r_functional(union(r, q)))
def k_cross_rfunion(a, b):
    return setof(union(r, q) for r in elems(a) for q in elems(b) if r_rfunctional(union(r, q)))
def k_joinable(r, b): return any(r_functional(union(r, q)) for q in elems(b))
def k_lhs_cross_funion(a, b):
    return setby(lambda x: mem(x, k_cross_funion(a, b)) or mem(x, a) and not k_joinable(x, b),
                 k_cross_funion(a, b), a)
def k_cross_intersect(a, b): return setof(intersect(r, q) for r in elems(a) for q in elems(b))
def k_substrict(a, b): return setof(r for r in elems(a) if any(subset(r, q) for q in elems(b)))
def k_superstrict(a, b): return setof(r for r in elems(a) if any(subset(q, r) for q in elems(b)))
def k_lefts(k): return setof(left(c) for r in elems(k) for c in elems(r))
def k_rights(k): return setof(right(c) for r in elems(k) for c in elems(r))
def k_rights_for(k, x): return setof(right(c) for r in elems(k) for c in elems(r) if left(c) == x)
def k_defined_at(k, x):
    return setof(r for r in elems(k) if has_left(r, x)) if any(has_left(r, x) for r in elems(k)) else UNDEF


# --- RDF graphs -----------------------------------------------------------------------------------
def spo(): return union(union(single(SUBJECT), single(PREDICATE)), single(OBJECT))
def is_triple(v): return is_rel(v) and card(v) == 3 and r_lefts(v) == spo()
def is_graph(v): return is_clan(v) and k_regular(v) and k_lefts(v) == spo()
def make_triple(s, p, o):
    return union(union(single(couplet(SUBJECT, s)), single(couplet(PREDICATE, p))), single(couplet(OBJECT, o)))
# a pattern holds None (anything), variables ('?...' or '$...') and values
def t_fits(r, k, v): return is_none(v) or is_var(v) or mem(couplet(k, conv(v)), r)
def t_bind(r, k, v): return setof(couplet(conv(v), right(c)) for c in elems(r) if is_var(v) and left(c) == k)
def g_match(g, s, p, o):
    return setof(union(union(t_bind(r, SUBJECT, s), t_bind(r, PREDICATE, p)), t_bind(r, OBJECT, o)) for r in elems(g)
                 if t_fits(r, SUBJECT, s) and t_fits(r, PREDICATE, p) and t_fits(r, OBJECT, o))


# --- Multisets ------------------------------------------------------------------------------------
def m_union(a, b): return msetby(lambda x: max(mult(x, a), mult(x, b)), a, b)
def m_intersect(a, b): return msetby(lambda x: min(mult(x, a), mult(x, b)), a, b)
def m_minus(a, b): return msetby(lambda x: max(mult(x, a) - mult(x, b), 0), a)
def m_add(a, b): return msetby(lambda x: mult(x, a) + mult(x, b), a, b)
def m_subset(a, b): return all(mult(x, a) <= mult(x, b) for x in elems(a))
def m_substrict(a, b): return a if m_subset(a, b) else UNDEF
def m_superstrict(a, b): return a if m_subset(b, a) else UNDEF
def m_big_union(s): return msetby(lambda x: maxof(mult(x, e) for e in elems(s)), *elems(s))
def m_big_intersect(s): return msetby(lambda x: minof(mult(x, e) for e in elems(s)), *elems(s))
def demultify(m): return setof(x for x in elems(m))


# --- Multiclans -----------------------------------------------------------------------------------
def mk_transpose(k): return msetof((r_transpose(r), mult(r, k)) for r in elems(k))
def mk_compose(a, b): return msetof((r_compose(r, q), mult(r, a) * mult(q, b)) for r in elems(a) for q in elems(b))
def mk_cross_union(a, b): return msetof((union(r, q), mult(r, a) * mult(q, b)) for r in elems(a) for q in elems(b))
def mk_cross_funion(a, b):
    return msetof((union(r, q), mult(r, a) * mult(q, b)) for r in elems(a) for q in elems(b)
                  if r_functional(union(r, q)))
def mk_cross_rfunion(a, b):
    return msetof((union(r, q), mult(r, a) * mult(q, b)) for r in elems(a) for q in elems(b)
                  if r_rfunctional(union(r, q)))
def mk_cross_intersect(a, b):
    return msetof((intersect(r, q), mult(r, a) * mult(q, b)) for r in elems(a) for q in elems(b))
def mk_substrict(a, b):
    return msetby(lambda r: mult(r, a) if any(subset(r, q) for q in elems(b)) else 0, a)
def mk_superstrict(a, b):
    return msetby(lambda r: mult(r, a) if any(subset(q, r) for q in elems(b)) else 0, a)
def mk_rights_for(k, x): return msetof((y, mult(r, k)) for r in elems(k) for y in elems(r_rights_for(r, x)))
def mk_defined_at(k, x):
    return (msetby(lambda r: mult(r, k) if has_left(r, x) else 0, k)
            if any(has_left(r, x) for r in elems(k)) else UNDEF)
