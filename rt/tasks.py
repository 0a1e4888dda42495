"""What runs on the real code for each property: name -> (function(seed, info), accepted clauses)."""
import functools

from spec import contracts as C
from spec.mapping import group
from rt import cases, custom

IO = ['c18_import', 'c18_roundtrip', 'c19_json', 'c19_xml', 'c20_import', 'c20_match', 'c17_roundtrip', 'c14_slice']
VALUE = {'value', 'undef', 'exception', 'caching'}
FLAGS = {'flags', 'caching'}


def _contract(con, clauses, seed, info=None):
    return cases.run_case(con, seed, clauses, info)


def _custom(name, clauses, seed, info=None):
    return getattr(custom, name)(seed, clauses, info)


def _c11(con, seed, info=None):
    return custom.c11_case(seed, con, info)


def tasks(prop, extra=()):
    """extra: further contracts ('contract:KEY')"""
    t = {}

    def contract(c, clauses, accept, w=1):
        if 'custom' in c.opts:      # arguments that are not generated from the domains
            return cust(c.opts['custom'], clauses, accept, w)
        t['contract:' + c.key] = (functools.partial(_contract, c, clauses), accept, w)

    def cust(name, clauses, accept, w=1):
        t['case:' + name] = (functools.partial(_custom, name, clauses), accept, w)

    cs = list(C.CONTRACTS.values())
    for c in cs:
        if group(c) == prop:
            contract(c, {'value'}, VALUE)
    if prop == 'C07':
        for c in cs:
            contract(c, {'flags'}, FLAGS)
        cust('c07_history', {'flags'}, FLAGS, 12)
        for n in IO:
            cust(n, {'flags'}, FLAGS)
    if prop == 'C08': cust('c08_record', None, VALUE | {'flags', 'frame'})
    if prop == 'C09': cust('c09_sequence', None, VALUE, 20)
    if prop == 'C10': cust('c10_sequence', None, VALUE, 8)
    if prop == 'C13': cust('c13_sequence', None, VALUE, 3)
    if prop == 'C11':
        for c in custom.C11_OPS:
            t['undefined:' + c.key] = (functools.partial(_c11, c), {'undef'}, 1)
    if prop == 'C12':
        for c in cs:
            contract(c, {'frame'}, {'frame'})
        cust('c12_equal', None, {'value', 'frame', 'exception'}, 60)
    if prop == 'C14': cust('c14_slice', {'value'}, VALUE)
    if prop == 'C15': cust('c15_parts', None, VALUE, 2)
    if prop == 'C16':
        cust('c16_order', None, VALUE)
        cust('c16_ground', None, VALUE)
        cust('c16_level', None, VALUE)
    if prop == 'C17': cust('c17_roundtrip', {'value'}, VALUE)
    if prop == 'C23': cust('c23_build', None, VALUE | {'frame'}, 8)
    if prop == 'C18':
        cust('c18_import', None, VALUE | FLAGS)
        cust('c18_roundtrip', None, VALUE | FLAGS)
    if prop == 'C19':
        cust('c19_json', {'value'}, VALUE)
        cust('c19_xml', {'value'}, VALUE)
    if prop == 'C20':
        for n in ('c20_import', 'c20_match', 'c20_table'):
            cust(n, {'value'}, VALUE)
    for n in extra:
        if prop != 'C11' and n not in t and n.startswith('contract:'):
            contract(C.CONTRACTS[n[9:]], {'value'}, VALUE)
    return t
