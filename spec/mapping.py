"""Which property the value of a contract belongs to, and the contracts that are not proved."""


def is_query(c):
    return bool(c.opts.get('prop')) or c.rtype == 'bool' and c.name.startswith('is_') and 'member' not in c.name \
        and not c.name.endswith('_of')


def is_membership(c): return 'is_member' in c.name or 'is_absolute_member' in c.name


def group(c):
    """The property about the value of a contract."""
    m = c.module.split('.')
    if 'code' in c.opts: return 'C23'
    if m[-1] == 'rdf': return 'C20'
    if c.name in ('__call__', '__getitem__'): return 'C13'
    if c.name in ('get_left_set', 'get_right_set'): return 'C03' if 'set.Set' in c.key else 'C05'
    if c.module == 'extension': return 'C06'
    if c.module == 'partition': return 'C15'
    if is_membership(c): return 'C10'
    if is_query(c): return 'C09'
    return {'sets': 'C01', 'couplets': 'C02', 'relations': 'C02', 'clans': 'C03', 'multisets': 'C04',
            'multiclans': 'C05'}[m[-1]]


UNPROVED = {}

# obligations that the solver does not discharge reliably: not attempted, checked only in a bounded way
UNPROVED_OBLIGATIONS = {
    ('algebras.clans.lhs_cross_functional_union', 'write of right_functional is the truth'),
}
