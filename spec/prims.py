"""Concrete meaning of the primitives of the specification language.

Abstract values are nested tuples:
    ('U',)                  undefined
    ('A', type, value)      atom
    ('C', left, right)      couplet
    ('S', frozenset)        set
    ('M', frozenset((e,n))) multiset
The symbolic meaning of the same primitives is in pyvc/theory.py.
"""
UNDEF = ('U',)
UNKNOWN, IS, IS_NOT, N_A = 0, 1, 2, 3


def is_undef(v): return v[0] == 'U'
def is_atom(v): return v[0] == 'A'
def is_couplet(v): return v[0] == 'C'
def is_set(v): return v[0] == 'S'
def is_mset(v): return v[0] == 'M'
def left(c): return c[1]
def right(c): return c[2]
def couplet(l, r): return ('C', l, r)


def elems(s):
    """Distinct elements of a set or multiset (none for anything else)."""
    if s[0] == 'S':
        return s[1]
    if s[0] == 'M':
        return [e for e, _ in s[1]]
    return ()


def mem(x, s):
    if s[0] == 'S':
        return x in s[1]
    if s[0] == 'M':
        return any(e == x for e, _ in s[1])
    return False


def mult(x, m):
    for e, n in m[1]:
        if e == x:
            return n
    return 0


def setof(gen): return ('S', frozenset(gen))


def msetof(gen):
    d = {}
    for k, n in gen:
        d[k] = d.get(k, 0) + n
    return ('M', frozenset((k, n) for k, n in d.items() if n > 0))


def setby(pred, *bounds):
    """The set of all x that satisfy pred; every such x is an element of one of the bounds."""
    return ('S', frozenset(x for b in bounds for x in elems(b) if pred(x)))


def msetby(f, *bounds):
    """The multiset with multiplicity f(x) of x; f is 0 except for elements of the bounds."""
    return ('M', frozenset((x, f(x)) for b in bounds for x in elems(b) if f(x) > 0))


def powerset(s):
    l = list(elems(s))
    return ('S', frozenset(('S', frozenset(l[i] for i in range(len(l)) if m >> i & 1)) for m in range(1 << len(l))))


def single(s): return ('S', frozenset((s,)))
def msingle(s): return ('M', frozenset(((s, 1),)))
EMPTY = ('S', frozenset())
MEMPTY = ('M', frozenset())


def card(s):
    if s[0] == 'S':
        return len(s[1])
    if s[0] == 'M':
        return sum(n for _, n in s[1])
    return 0


def the(gen):
    """The unique value of gen (unspecified if there is not exactly one)."""
    l = set(gen)
    return l.pop() if len(l) == 1 else UNDEF


def unique(gen):
    """There is exactly one value in gen."""
    return len(set(gen)) == 1


def is_none(v): return v[0] == 'N'
def conv(v): return ('A',) + v[1:] if v[0] == 'P' else v        # the math object of a plain value
def is_var(v): return v[0] == 'P' and v[1] == 'str' and v[2][:1] in ('?', '$')
SUBJECT, PREDICATE, OBJECT = [('A', 'str', x) for x in 'spo']
def seq(*args): return ('Q', tuple(args))
def items(q): return q[1]
def counts(q):
    """(math object of an item, number of occurrences) of a sequence."""
    d = {}
    for x in q[1]:
        d[x] = d.get(x, 0) + 1
    return list(d.items())
def from_bool(b): return IS if b else IS_NOT
def fold(step, init, q):
    for x in q:
        init = step(init, x)
    return init
def ditems(d): return d[1] if d[0] == 'D' else ()
def maxof(gen): return max(gen)
def minof(gen): return min(gen)
