"""Contracts of the functions of /repo/algebraixlib, in the specification language.

@op(key, param=domain, ...) attaches a contract to the function `key` (module path below algebraixlib).
The decorated function is the specification: the abstract result value for arguments inside of their
domains (UNDEF where the operation is undefined). Outside: with `_checked=True` the outcome is undefined;
with `_checked=False` every argument must be in its domain or undefined (precondition), and one undefined
argument makes the outcome undefined.

Domains: set, mset, coll, couplet, rel, clan, mclan, mo   predicates of logic.py
         left    any plain value, math object or undefined (converted with auto_convert)
         val     any plain value or math object; lefts/vals: *args of these
         fun1/fun2/pred/inv  deterministic function of element(s): partial operation, predicate, invariant
         dict    dict whose keys convert to distinct math objects
         scalar  math object, string or plain value that is not iterable; scalaru: or undefined
         iter, moiter  any iterable of plain values and math objects, of math objects only
         counter dict or Counter of math objects with positive counts
Clauses besides the value: see CLAUSES at the end."""
from spec.logic import *

CONTRACTS = {}


class Contract:
    def __init__(self, key, fn, params, opts):
        self.key, self.fn, self.params, self.opts = key, fn, params, opts
        self.checked = opts.get('checked', True)     # has a _checked parameter
        self.rtype = opts.get('rtype', 'V')
        self.module, self.name = key.rsplit('.', 1)

    def __repr__(self): return 'Contract(%s)' % self.key


def op(key, opts=None, **params):
    def deco(fn):
        assert key not in CONTRACTS, key
        CONTRACTS[key] = Contract(key, fn, params, opts or {})
        return fn
    return deco


NOCHK = {'checked': False}
BOOL = {'rtype': 'bool'}
QUERY = {'rtype': 'bool', 'checked': False, 'total': True}   # for every math object


# === algebras.couplets ============================================================================
@op('algebras.couplets.is_member', QUERY, obj='any')
def couplets_is_member(obj): return is_couplet(obj)
@op('algebras.couplets.is_member_or_undef', QUERY, obj='any')
def couplets_is_member_or_undef(obj): return is_couplet(obj) or is_undef(obj)
@op('algebras.couplets.is_absolute_member', QUERY, obj='any')
def couplets_is_absolute_member(obj): return is_couplet(obj) and c_absolute(obj)
@op('algebras.couplets.transpose', couplet='couplet')
def couplets_transpose(couplet): return c_transpose(couplet)
@op('algebras.couplets.compose', couplet1='couplet', couplet2='couplet')
def couplets_compose(couplet1, couplet2): return c_compose(couplet1, couplet2)
@op('algebras.couplets.is_reflexive', BOOL, couplet='couplet')
def couplets_is_reflexive(couplet): return left(couplet) == right(couplet)


# === extension ====================================================================================
@op('extension.unary_extend', {'pristine': True}, set_='set', op='fun1')
def extension_unary_extend(set_, op):
    return setof(op(x) for x in elems(set_) if not is_undef(op(x)))
@op('extension.binary_extend', {'pristine': True}, set1='set', set2='set', op='fun2')
def extension_binary_extend(set1, set2, op):
    return setof(op(x, y) for x in elems(set1) for y in elems(set2) if not is_undef(op(x, y)))
@op('extension.binary_multi_extend', {'pristine': True}, multiset1='mset', multiset2='mset', op='fun2')
def extension_binary_multi_extend(multiset1, multiset2, op):
    return msetof((op(x, y), mult(x, multiset1) * mult(y, multiset2))
                  for x in elems(multiset1) for y in elems(multiset2) if not is_undef(op(x, y)))
@op('extension.unary_multi_extend', {'pristine': True}, set_or_mset='coll', op='fun1')
def extension_unary_multi_extend(set_or_mset, op):
    return (msetof((op(x), mult(x, set_or_mset)) for x in elems(set_or_mset) if not is_undef(op(x)))
            if is_mset(set_or_mset) else
            msetof((op(x), 1) for x in elems(set_or_mset) if not is_undef(op(x))))


# === algebras.sets ================================================================================
@op('algebras.sets.is_member', QUERY, obj='any')
def sets_is_member(obj): return is_set(obj)
@op('algebras.sets.is_member_or_undef', QUERY, obj='any')
def sets_is_member_or_undef(obj): return is_set(obj) or is_undef(obj)
@op('algebras.sets.is_absolute_member', QUERY, obj='any')
def sets_is_absolute_member(obj):
    return is_set(obj) and not is_rel(obj) and not is_clan(obj) and all(is_atom(x) for x in elems(obj))
@op('algebras.sets.union', {'known': [('relation', ('set1', 'set2'))]}, set1='set', set2='set')
def sets_union(set1, set2): return union(set1, set2)
@op('algebras.sets.intersect', set1='set', set2='set')
def sets_intersect(set1, set2): return intersect(set1, set2)
@op('algebras.sets.minus', set1='set', set2='set')
def sets_minus(set1, set2): return minus(set1, set2)
@op('algebras.sets.substrict', set1='set', set2='set')
def sets_substrict(set1, set2): return substrict(set1, set2)
@op('algebras.sets.superstrict', set1='set', set2='set')
def sets_superstrict(set1, set2): return superstrict(set1, set2)
@op('algebras.sets.is_subset_of', BOOL, set1='set', set2='set')
def sets_is_subset_of(set1, set2): return subset(set1, set2)
@op('algebras.sets.is_superset_of', BOOL, set1='set', set2='set')
def sets_is_superset_of(set1, set2): return subset(set2, set1)
@op('algebras.sets.multify', set_='set')
def sets_multify(set_): return multify(set_)
@op('algebras.sets.big_union', set_='set')
def sets_big_union(set_): return big_union(set_)
@op('algebras.sets.big_intersect', set_='set')
def sets_big_intersect(set_): return big_intersect(set_)
@op('algebras.sets.single', NOCHK, set_='set')
def sets_single(set_): return the(x for x in elems(set_)) if unique(x for x in elems(set_)) else UNDEF
@op('algebras.sets.some', {'checked': False, 'relational': True}, set_='set')
def sets_some(set_, result): return is_undef(result) if is_empty(set_) else mem(result, set_)
@op('algebras.sets.power_set', NOCHK, set_='set')
def sets_power_set(set_): return powerset(set_)
@op('algebras.sets.power_up', NOCHK, set_='set')
def sets_power_up(set_): return power_up(set_)
@op('algebras.sets.restrict', NOCHK, set_='set', selector='pred')
def sets_restrict(set_, selector): return setof(x for x in elems(set_) if selector(x))


# === algebras.relations ===========================================================================
@op('algebras.relations.is_member', {'rtype': 'bool', 'checked': False, 'total': True, 'knows': [('obj', 'relation')]},
    obj='any')
def relations_is_member(obj): return is_rel(obj)
@op('algebras.relations.is_member_or_undef',
    {'rtype': 'bool', 'checked': False, 'total': True, 'knows': [('obj', 'relation')]}, obj='any')
def relations_is_member_or_undef(obj): return is_rel(obj) or is_undef(obj)
@op('algebras.relations.is_absolute_member', QUERY, obj='any')
def relations_is_absolute_member(obj): return is_rel(obj) and r_absolute(obj)
@op('algebras.relations.transpose', rel='rel')
def relations_transpose(rel): return r_transpose(rel)
@op('algebras.relations.compose', rel1='rel', rel2='rel')
def relations_compose(rel1, rel2): return r_compose(rel1, rel2)
@op('algebras.relations.functional_union', rel1='rel', rel2='rel')
def relations_functional_union(rel1, rel2): return r_funion(rel1, rel2)
@op('algebras.relations.right_functional_union', rel1='rel', rel2='rel')
def relations_right_functional_union(rel1, rel2): return r_rfunion(rel1, rel2)
@op('algebras.relations.get_lefts', rel='rel')
def relations_get_lefts(rel): return r_lefts(rel)
@op('algebras.relations.get_rights', rel='rel')
def relations_get_rights(rel): return r_rights(rel)
@op('algebras.relations.get_rights_for_left', rel='rel', left='left')
def relations_get_rights_for_left(rel, left): return EMPTY if is_undef(left) else r_rights_for(rel, left)
@op('algebras.relations.get_right', rel='rel', left='left')
def relations_get_right(rel, left): return UNDEF if is_undef(left) else r_right(rel, left)
@op('algebras.relations.get_left', rel='rel', right='left')
def relations_get_left(rel, right): return UNDEF if is_undef(right) else r_left(rel, right)
@op('algebras.relations.is_functional', BOOL, rel='rel')
def relations_is_functional(rel): return r_functional(rel)
@op('algebras.relations.is_right_functional', BOOL, rel='rel')
def relations_is_right_functional(rel): return r_rfunctional(rel)
@op('algebras.relations.is_reflexive', BOOL, rel='rel')
def relations_is_reflexive(rel): return r_reflexive(rel)
@op('algebras.relations.is_symmetric', BOOL, rel='rel')
def relations_is_symmetric(rel): return r_symmetric(rel)
@op('algebras.relations.is_transitive', BOOL, rel='rel')
def relations_is_transitive(rel): return r_transitive(rel)
@op('algebras.relations.fill_lefts', rel='rel', renames='rel')
def relations_fill_lefts(rel, renames): return r_fill_lefts(rel, renames)
@op('algebras.relations.rename', rel='rel', renames='rel')
def relations_rename(rel, renames): return r_rename(rel, renames)
@op('algebras.relations.swap', rel='rel', swaps='rel')
def relations_swap(rel, swaps): return r_swap(rel, swaps)
@op('algebras.relations.functional_add', NOCHK, func='rel', element='couplet')
def relations_functional_add(func, element):
    return (union(func, single(element))
            if r_functional(func) and not has_left(func, left(element)) else UNDEF)
@op('algebras.relations.from_dict', {'checked': False}, dict1='dict')
def relations_from_dict(dict1): return setof(couplet(x, y) for x, y in ditems(dict1))
@op('algebras.relations.diag', {'known_const': ['relation']}, args='lefts')
def relations_diag(args):
    return UNDEF if any(is_undef(x) for x in items(args)) else setof(couplet(x, x) for x in items(args))
@op('algebras.relations.defined_at', rel='rel', left='left')
def relations_defined_at(rel, left): return UNDEF if is_undef(left) else r_defined_at(rel, left)


# === algebras.clans ===============================================================================
@op('algebras.clans.is_member', {'rtype': 'bool', 'checked': False, 'total': True, 'knows': [('obj', 'clan')]}, obj='any')
def clans_is_member(obj): return is_clan(obj)
@op('algebras.clans.is_member_or_undef',
    {'rtype': 'bool', 'checked': False, 'total': True, 'knows': [('obj', 'clan')]}, obj='any')
def clans_is_member_or_undef(obj): return is_clan(obj) or is_undef(obj)
@op('algebras.clans.is_absolute_member', QUERY, obj='any')
def clans_is_absolute_member(obj): return is_clan(obj) and k_absolute(obj)
@op('algebras.clans.transpose', clan='clan')
def clans_transpose(clan): return k_transpose(clan)
@op('algebras.clans.compose', clan1='clan', clan2='clan')
def clans_compose(clan1, clan2): return k_compose(clan1, clan2)
@op('algebras.clans.cross_union', clan1='clan', clan2='clan')
def clans_cross_union(clan1, clan2): return k_cross_union(clan1, clan2)
@op('algebras.clans.cross_functional_union', clan1='clan', clan2='clan')
def clans_cross_functional_union(clan1, clan2): return k_cross_funion(clan1, clan2)
@op('algebras.clans.lhs_cross_functional_union', lhs='clan', rhs='clan')
def clans_lhs_cross_functional_union(lhs, rhs): return k_lhs_cross_funion(lhs, rhs)
@op('algebras.clans.cross_right_functional_union', clan1='clan', clan2='clan')
def clans_cross_right_functional_union(clan1, clan2): return k_cross_rfunion(clan1, clan2)
@op('algebras.clans.cross_intersect', clan1='clan', clan2='clan')
def clans_cross_intersect(clan1, clan2): return k_cross_intersect(clan1, clan2)
@op('algebras.clans.substrict', clan1='clan', clan2='clan')
def clans_substrict(clan1, clan2): return k_substrict(clan1, clan2)
@op('algebras.clans.superstrict', clan1='clan', clan2='clan')
def clans_superstrict(clan1, clan2): return k_superstrict(clan1, clan2)
@op('algebras.clans.get_lefts', clan='clan')
def clans_get_lefts(clan): return k_lefts(clan)
@op('algebras.clans.get_rights', clan='clan')
def clans_get_rights(clan): return k_rights(clan)
@op('algebras.clans.is_functional', BOOL, clan='clan')
def clans_is_functional(clan): return k_functional(clan)
@op('algebras.clans.is_right_functional', BOOL, clan='clan')
def clans_is_right_functional(clan): return k_rfunctional(clan)
@op('algebras.clans.is_regular', BOOL, clan='clan')
def clans_is_regular(clan): return k_regular(clan)
@op('algebras.clans.is_right_regular', BOOL, clan='clan')
def clans_is_right_regular(clan): return k_rregular(clan)
@op('algebras.clans.is_reflexive', BOOL, clan='clan')
def clans_is_reflexive(clan): return k_reflexive(clan)
@op('algebras.clans.is_symmetric', BOOL, clan='clan')
def clans_is_symmetric(clan): return k_symmetric(clan)
@op('algebras.clans.is_transitive', BOOL, clan='clan')
def clans_is_transitive(clan): return k_transitive(clan)
@op('algebras.clans.project', NOCHK, clan='clan', lefts='lefts')
def clans_project(clan, lefts):
    return (UNDEF if any(is_undef(x) for x in items(lefts)) else
            setof(setof(c for c in elems(r) if any(left(c) == x for x in items(lefts))) for r in elems(clan)))
@op('algebras.clans.from_set', {'checked': False}, left='val', values='vals')
def clans_from_set(left, values): return setof(single(couplet(left, x)) for x in items(values))
@op('algebras.clans.from_dict', {'checked': False}, dict1='dict')
def clans_from_dict(dict1): return single(setof(couplet(x, y) for x, y in ditems(dict1)))
@op('algebras.clans.diag', args='lefts')
def clans_diag(args):
    return UNDEF if any(is_undef(x) for x in items(args)) else single(setof(couplet(x, x) for x in items(args)))
@op('algebras.clans.defined_at', clan='clan', left='left')
def clans_defined_at(clan, left): return UNDEF if is_undef(left) else k_defined_at(clan, left)


# === algebras.multisets ===========================================================================
@op('algebras.multisets.is_member', QUERY, obj='any')
def multisets_is_member(obj): return is_mset(obj)
@op('algebras.multisets.is_member_or_undef', QUERY, obj='any')
def multisets_is_member_or_undef(obj): return is_mset(obj) or is_undef(obj)
@op('algebras.multisets.is_absolute_member', QUERY, obj='any')
def multisets_is_absolute_member(obj):
    return is_mset(obj) and not is_mclan(obj) and all(is_atom(x) for x in elems(obj))
@op('algebras.multisets.union', multiset1='mset', multiset2='mset')
def multisets_union(multiset1, multiset2): return m_union(multiset1, multiset2)
@op('algebras.multisets.intersect', multiset1='mset', multiset2='mset')
def multisets_intersect(multiset1, multiset2): return m_intersect(multiset1, multiset2)
@op('algebras.multisets.minus', multiset1='mset', multiset2='mset')
def multisets_minus(multiset1, multiset2): return m_minus(multiset1, multiset2)
@op('algebras.multisets.add', multiset1='mset', multiset2='mset')
def multisets_add(multiset1, multiset2): return m_add(multiset1, multiset2)
@op('algebras.multisets.substrict', multiset1='mset', multiset2='mset')
def multisets_substrict(multiset1, multiset2): return m_substrict(multiset1, multiset2)
@op('algebras.multisets.superstrict', multiset1='mset', multiset2='mset')
def multisets_superstrict(multiset1, multiset2): return m_superstrict(multiset1, multiset2)
@op('algebras.multisets.is_subset_of', BOOL, multiset1='mset', multiset2='mset')
def multisets_is_subset_of(multiset1, multiset2): return m_subset(multiset1, multiset2)
@op('algebras.multisets.is_superset_of', BOOL, multiset1='mset', multiset2='mset')
def multisets_is_superset_of(multiset1, multiset2): return m_subset(multiset2, multiset1)
@op('algebras.multisets.demultify', multiset='mset')
def multisets_demultify(multiset): return demultify(multiset)
@op('algebras.multisets.big_union', set_of_multisets='set')
def multisets_big_union(set_of_multisets):
    return ((set_of_multisets if is_empty(set_of_multisets) else m_big_union(set_of_multisets))
            if all_msets(set_of_multisets) else UNDEF)
@op('algebras.multisets.big_intersect', set_of_multisets='set')
def multisets_big_intersect(set_of_multisets):
    return ((set_of_multisets if is_empty(set_of_multisets) else m_big_intersect(set_of_multisets))
            if all_msets(set_of_multisets) else UNDEF)
@op('algebras.multisets.single', NOCHK, mset='mset')
def multisets_single(mset): return the(x for x in elems(mset)) if card(mset) == 1 else UNDEF
@op('algebras.multisets.some', {'checked': False, 'relational': True}, mset='mset')
def multisets_some(mset, result): return is_undef(result) if is_empty(mset) else mem(result, mset)


# === algebras.multiclans ==========================================================================
@op('algebras.multiclans.is_member', {'rtype': 'bool', 'checked': False, 'total': True, 'knows': [('obj', 'multiclan')]},
    obj='any')
def multiclans_is_member(obj): return is_mclan(obj)
@op('algebras.multiclans.is_member_or_undef',
    {'rtype': 'bool', 'checked': False, 'total': True, 'knows': [('obj', 'multiclan')]}, obj='any')
def multiclans_is_member_or_undef(obj): return is_mclan(obj) or is_undef(obj)
@op('algebras.multiclans.is_absolute_member', QUERY, obj='any')
def multiclans_is_absolute_member(obj): return is_mclan(obj) and k_absolute(obj)
@op('algebras.multiclans.transpose', multiclan='mclan')
def multiclans_transpose(multiclan): return mk_transpose(multiclan)
@op('algebras.multiclans.compose', multiclan1='mclan', multiclan2='mclan')
def multiclans_compose(multiclan1, multiclan2): return mk_compose(multiclan1, multiclan2)
@op('algebras.multiclans.cross_union', mclan1='mclan', mclan2='mclan')
def multiclans_cross_union(mclan1, mclan2): return mk_cross_union(mclan1, mclan2)
@op('algebras.multiclans.cross_functional_union', mclan1='mclan', mclan2='mclan')
def multiclans_cross_functional_union(mclan1, mclan2): return mk_cross_funion(mclan1, mclan2)
@op('algebras.multiclans.cross_right_functional_union', multiclan1='mclan', multiclan2='mclan')
def multiclans_cross_right_functional_union(multiclan1, multiclan2): return mk_cross_rfunion(multiclan1, multiclan2)
@op('algebras.multiclans.cross_intersect', multiclan1='mclan', multiclan2='mclan')
def multiclans_cross_intersect(multiclan1, multiclan2): return mk_cross_intersect(multiclan1, multiclan2)
@op('algebras.multiclans.substrict', multiclan1='mclan', multiclan2='mclan')
def multiclans_substrict(multiclan1, multiclan2): return mk_substrict(multiclan1, multiclan2)
@op('algebras.multiclans.superstrict', multiclan1='mclan', multiclan2='mclan')
def multiclans_superstrict(multiclan1, multiclan2): return mk_superstrict(multiclan1, multiclan2)
@op('algebras.multiclans.get_lefts', mclan='mclan')
def multiclans_get_lefts(mclan): return mclan if is_empty(mclan) else k_lefts(mclan)
@op('algebras.multiclans.get_rights', mclan='mclan')
def multiclans_get_rights(mclan): return mclan if is_empty(mclan) else k_rights(mclan)
@op('algebras.multiclans.get_rights_for_left', mclan='mclan', left='left')
def multiclans_get_rights_for_left(mclan, left): return EMPTY if is_undef(left) else mk_rights_for(mclan, left)
@op('algebras.multiclans.is_functional', BOOL, mclan='mclan')
def multiclans_is_functional(mclan): return k_functional(mclan)
@op('algebras.multiclans.is_right_functional', BOOL, mclan='mclan')
def multiclans_is_right_functional(mclan): return k_rfunctional(mclan)
@op('algebras.multiclans.is_regular', BOOL, mclan='mclan')
def multiclans_is_regular(mclan): return k_regular(mclan)
@op('algebras.multiclans.is_right_regular', BOOL, mclan='mclan')
def multiclans_is_right_regular(mclan): return k_rregular(mclan)
@op('algebras.multiclans.is_reflexive', BOOL, mclan='mclan')
def multiclans_is_reflexive(mclan): return k_reflexive(mclan)
@op('algebras.multiclans.is_symmetric', BOOL, mclan='mclan')
def multiclans_is_symmetric(mclan): return k_symmetric(mclan)
@op('algebras.multiclans.is_transitive', BOOL, mclan='mclan')
def multiclans_is_transitive(mclan): return k_transitive(mclan)
@op('algebras.multiclans.project', NOCHK, mclan='mclan', lefts='lefts')
def multiclans_project(mclan, lefts):
    return (UNDEF if any(is_undef(x) for x in items(lefts)) else
            msetof((setof(c for c in elems(r) if any(left(c) == x for x in items(lefts))), mult(r, mclan))
                   for r in elems(mclan)))
@op('algebras.multiclans.from_dict', {'checked': False}, dict1='dict')
def multiclans_from_dict(dict1): return msingle(setof(couplet(x, y) for x, y in ditems(dict1)))
@op('algebras.multiclans.diag', args='lefts')
def multiclans_diag(args):
    return UNDEF if any(is_undef(x) for x in items(args)) else msingle(setof(couplet(x, x) for x in items(args)))
@op('algebras.multiclans.defined_at', mclan='mclan', left='left')
def multiclans_defined_at(mclan, left): return UNDEF if is_undef(left) else mk_defined_at(mclan, left)


# === algebras.properties ==========================================================================
def st_to_result(st): return True if st == IS else False if st == IS_NOT else UNDEF
PROP = {'rtype': 'optbool', 'prop': True}
@op('algebras.properties.is_functional', PROP, mo='any')
def properties_is_functional(mo): return st_to_result(st_functional(mo))
@op('algebras.properties.is_right_functional', PROP, mo='any')
def properties_is_right_functional(mo): return st_to_result(st_right_functional(mo))
@op('algebras.properties.is_reflexive', PROP, mo='any')
def properties_is_reflexive(mo): return st_to_result(st_reflexive(mo))
@op('algebras.properties.is_symmetric', PROP, mo='any')
def properties_is_symmetric(mo): return st_to_result(st_symmetric(mo))
@op('algebras.properties.is_transitive', PROP, mo='any')
def properties_is_transitive(mo): return st_to_result(st_transitive(mo))
@op('algebras.properties.is_regular', PROP, mo='any')
def properties_is_regular(mo): return st_to_result(st_regular(mo))
@op('algebras.properties.is_right_regular', PROP, mo='any')
def properties_is_right_regular(mo): return st_to_result(st_right_regular(mo))
@op('algebras.properties.is_bijective', PROP, mo='any')
def properties_is_bijective(mo):
    return st_to_result(st_functional(mo) if st_functional(mo) != IS else st_right_functional(mo))
@op('algebras.properties.is_equivalence_relation', PROP, mo='any')
def properties_is_equivalence_relation(mo):
    return st_to_result(st_symmetric(mo) if st_symmetric(mo) != IS else
                        st_transitive(mo) if st_transitive(mo) != IS else st_reflexive(mo))


# === partition ====================================================================================
@op('partition.partition', {'checked': False, 'total': True}, set_or_mset='coll', class_invariant_func='inv')
def partition_partition(set_or_mset, class_invariant_func):
    return (setof(setof(y for y in elems(set_or_mset) if class_invariant_func(y) == class_invariant_func(x))
                  for x in elems(set_or_mset)) if is_set(set_or_mset) else
            setof(msetby(lambda y: mult(y, set_or_mset) if class_invariant_func(y) == class_invariant_func(x) else 0,
                         set_or_mset) for x in elems(set_or_mset)))
@op('partition.make_labeled_partition', {'checked': False, 'total': True}, set_or_mset='coll', class_invariant_func='inv')
def partition_make_labeled_partition(set_or_mset, class_invariant_func):
    return (setof(couplet(class_invariant_func(x),
                          setof(y for y in elems(set_or_mset) if class_invariant_func(y) == class_invariant_func(x)))
                  for x in elems(set_or_mset)) if is_set(set_or_mset) else
            setof(couplet(class_invariant_func(x),
                          msetby(lambda y: mult(y, set_or_mset) if class_invariant_func(y) == class_invariant_func(x)
                                 else 0, set_or_mset)) for x in elems(set_or_mset)))


# === util.rdf =====================================================================================
PRE = {'checked': False, 'total': True}          # arguments outside of the domains are not specified
@op('util.rdf.is_triple', QUERY, obj='any')
def rdf_is_triple(obj): return is_triple(obj)
@op('util.rdf.is_absolute_triple', QUERY, obj='any')
def rdf_is_absolute_triple(obj): return is_triple(obj) and r_absolute(obj)
@op('util.rdf.is_graph', QUERY, obj='any')
def rdf_is_graph(obj): return is_graph(obj)
@op('util.rdf.is_absolute_graph', QUERY, obj='any')
def rdf_is_absolute_graph(obj): return is_graph(obj) and k_absolute(obj)
@op('util.rdf.make_triple', PRE, subject='val', predicate='val', object_='val')
def rdf_make_triple(subject, predicate, object_): return make_triple(subject, predicate, object_)
@op('import_export.rdf.import_graph', {**PRE, 'custom': 'c20_import'}, graph_file_or_filepath='optval', rdf_format='optstr')
def rdf_import_graph(src, fmt): return setof(make_triple(node(t, 0), node(t, 1), node(t, 2)) for t in triples(src, fmt))
@op('util.rdf.pattern_match', PRE, graph='clan', pattern='dict')
def rdf_pattern_match(graph, pattern):
    return setof(r for r in elems(graph) if all(mem(couplet(k, v), r) for k, v in ditems(pattern)))
@op('util.rdf.match_and_project', PRE, graph='clan', pattern='optdict', projection='optdict')
def rdf_match_and_project(graph, pattern, projection):
    return setof(setof(couplet(n, right(c)) for c in elems(r) for k, n in ditems(projection) if left(c) == k)
                 for r in elems(graph) if all(mem(couplet(k, v), r) for k, v in ditems(pattern)))
def join2(a, b): return k_cross_funion(a, b) if is_clan(a) and is_clan(b) else UNDEF
@op('util.rdf.join', PRE, rdf_solution1='mo', rdf_solution2='mo', rdf_solutions='mos')
def rdf_join(rdf_solution1, rdf_solution2, rdf_solutions):
    return fold(lambda a, x: join2(a, x), join2(rdf_solution1, rdf_solution2), items(rdf_solutions))
@op('util.rdf.triple_match', PRE, rdf_graph='graph', subject='optval', predicate='optval', object_='optval')
def rdf_triple_match(rdf_graph, subject, predicate, object_): return g_match(rdf_graph, subject, predicate, object_)


# === mathobjects: lookups =========================================================================
@op('mathobjects.set.Set.__call__', {'checked': False, 'total': True, 'method': True}, self='set', left='val')
def set_call(self, left):
    return (r_right(self, left) if is_rel(self) and r_functional(self) else UNDEF)
@op('mathobjects.set.Set.__getitem__', {'checked': False, 'total': True, 'method': True}, self='set', left='val')
def set_getitem(self, left):
    return r_rights_for(self, left) if is_rel(self) else k_rights_for(self, left) if is_clan(self) else UNDEF
@op('mathobjects.multiset.Multiset.__getitem__', {'checked': False, 'total': True, 'method': True},
    self='mset', left='val')
def multiset_getitem(self, left):
    return (msetof((right(c), mult(c, self)) for c in elems(self) if left_of(c) == left) if is_multirel(self) else
            mk_rights_for(self, left) if is_mclan(self) else UNDEF)
@op('mathobjects.set.Set.get_left_set', {'checked': False, 'total': True, 'method': True, 'not_nested': True}, self='set')
def set_get_left_set(self):
    return r_lefts(self) if is_rel(self) else k_lefts(self) if is_clan(self) else UNDEF
@op('mathobjects.set.Set.get_right_set', {'checked': False, 'total': True, 'method': True, 'not_nested': True}, self='set')
def set_get_right_set(self):
    return r_rights(self) if is_rel(self) else k_rights(self) if is_clan(self) else UNDEF
@op('mathobjects.multiset.Multiset.get_left_set', {'checked': False, 'total': True, 'method': True}, self='mset')
def multiset_get_left_set(self):
    return (self if is_empty(self) else k_lefts(self)) if is_mclan(self) else UNDEF
@op('mathobjects.multiset.Multiset.get_right_set', {'checked': False, 'total': True, 'method': True}, self='mset')
def multiset_get_right_set(self):
    return (self if is_empty(self) else k_rights(self)) if is_mclan(self) else UNDEF


# === mathobjects: construction and content ========================================================
# The contract is that of a piece of code that uses the classes ("client").
def client(code, key, rtype='V', **params):
    return op(key, {'checked': False, 'total': True, 'code': code, 'rtype': rtype}, **params)


SET, MSET, CPL = 'mathobjects.set.', 'mathobjects.multiset.', 'mathobjects.couplet.'
@client('def f(): return Set()', SET + 'Set()')
def new_set_empty(): return EMPTY
@client('def f(x): return Set(x)', SET + 'Set(value)', x='scalar')
def new_set_of_value(x): return single(x)
@client('def f(x): return Set(x, direct_load=True)', SET + 'Set(object, direct_load)', x='mo')
def new_set_of_object(x): return single(x)
@client('def f(x, y): return Set(x, y)', SET + 'Set(two values)', x='val', y='val')
def new_set_of_values(x, y): return union(single(x), single(y))
@client('def f(x, y, z): return Set(x, y, z)', SET + 'Set(three values)', x='val', y='val', z='val')
def new_set_of_3_values(x, y, z): return union(union(single(x), single(y)), single(z))
@client('def f(q): return Set(q)', SET + 'Set(iterable)', q='iter')
def new_set_of_iterable(q): return setof(x for x in items(q))
@client('def f(q): return Set(q, direct_load=True)', SET + 'Set(iterable, direct_load)', q='moiter')
def new_set_of_objects(q): return setof(x for x in items(q))

@client('def f(): return Multiset()', MSET + 'Multiset()')
def new_mset_empty(): return MEMPTY
@client('def f(x): return Multiset(x)', MSET + 'Multiset(value)', x='scalar')
def new_mset_of_value(x): return msingle(x)
@client('def f(x): return Multiset(x, direct_load=True)', MSET + 'Multiset(object, direct_load)', x='mo')
def new_mset_of_object(x): return msingle(x)
@client('def f(x, y): return Multiset(x, y)', MSET + 'Multiset(two values)', x='val', y='val')
def new_mset_of_values(x, y): return msum(msingle(x), msingle(y))
@client('def f(x, y, z): return Multiset(x, y, z)', MSET + 'Multiset(three values)', x='val', y='val', z='val')
def new_mset_of_3_values(x, y, z): return msum(msum(msingle(x), msingle(y)), msingle(z))
@client('def f(q): return Multiset(q)', MSET + 'Multiset(iterable)', q='iter')
def new_mset_of_iterable(q): return msetof((x, n) for x, n in counts(q))
@client('def f(q): return Multiset(q, direct_load=True)', MSET + 'Multiset(iterable, direct_load)', q='moiter')
def new_mset_of_objects(q): return msetof((x, n) for x, n in counts(q))
@client('def f(d): return Multiset(d)', MSET + 'Multiset(counts)', d='counter')
def new_mset_of_counts(d): return d
@client('def f(d): return Multiset(d, direct_load=True)', MSET + 'Multiset(counts, direct_load)', d='counter')
def new_mset_of_counts_direct(d): return d

@client('def f(x, y): return Couplet(x, y)', CPL + 'Couplet(left, right)', x='val', y='val')
def new_couplet(x, y): return couplet(x, y)
@client('def f(x, y): return Couplet(left=x, right=y)', CPL + 'Couplet(left=, right=)', x='val', y='val')
def new_couplet_named(x, y): return couplet(x, y)
@client('def f(x): return Couplet(x)', CPL + 'Couplet(left)', x='val')
def new_couplet_same(x): return couplet(x, x)
@client('def f(x, y): return Couplet(x, y, direct_load=True)', CPL + 'Couplet(left, right, direct_load)', x='mo', y='mo')
def new_couplet_direct(x, y): return couplet(x, y)
@client('def f(x): return Couplet(x, direct_load=True)', CPL + 'Couplet(left, direct_load)', x='mo')
def new_couplet_same_direct(x): return couplet(x, x)
@client('def f(x, y): return make_couplet(x, y)', CPL + 'make_couplet(left, right)', x='left', y='left')
def make_couplet(x, y): return UNDEF if is_undef(x) or is_undef(y) else couplet(x, y)
@client('def f(x, y): return make_set(x, y)', SET + 'make_set(two values)', x='scalaru', y='scalaru')
def make_set(x, y):
    return union(EMPTY if is_undef(x) else single(x), EMPTY if is_undef(y) else single(y))
@client('def f(c): return c.left', CPL + 'left', c='couplet')
def couplet_left(c): return left(c)
@client('def f(c): return c.right', CPL + 'right', c='couplet')
def couplet_right(c): return right(c)

@client('def f(s): return Set(x for x in s)', SET + 'iteration', s='set')
def set_iteration(s): return s
@client('def f(s, x): return s.has_element(x)', SET + 'has_element', 'bool', s='set', x='mo')
def set_has_element(s, x): return mem(x, s)
@client('def f(s, x): return x in s', SET + 'in', 'bool', s='set', x='val')
def set_contains(s, x): return mem(x, s)
@client('def f(s): return s.cardinality', SET + 'cardinality', 'int', s='set')
def set_cardinality(s): return card(s)
@client('def f(s): return len(s)', SET + 'len', 'int', s='set')
def set_len(s): return card(s)
@client('def f(s): return s.is_empty', SET + 'is_empty', 'bool', s='set')
def set_is_empty(s): return is_empty(s)

@client('def f(s): return Multiset(x for x in s)', MSET + 'iteration', s='mset')
def mset_iteration(s): return s
@client('def f(s, x): return s.has_element(x)', MSET + 'has_element', 'bool', s='mset', x='mo')
def mset_has_element(s, x): return mem(x, s)
@client('def f(s, x): return x in s', MSET + 'in', 'bool', s='mset', x='val')
def mset_contains(s, x): return mem(x, s)
@client('def f(s, x): return s.get_multiplicity(x)', MSET + 'get_multiplicity', 'int', s='mset', x='mo')
def mset_get_multiplicity(s, x): return mult(x, s)
@client('def f(s): return s.cardinality', MSET + 'cardinality', 'int', s='mset')
def mset_cardinality(s): return card(s)
@client('def f(s): return s.is_empty', MSET + 'is_empty', 'bool', s='mset')
def mset_is_empty(s): return is_empty(s)
