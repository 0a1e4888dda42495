"""Seeded generators of abstract values, biased to collisions and boundary shapes."""
from spec.prims import UNDEF
from spec import logic as L


def A(v): return ('A', type(v).__name__, v)
POOLS = [[A('a'), A('b'), A('c')], [A(1), A(2), A('1')], [A('a'), A('b')], [A(1), A(True), A(1.0)],
         [A('x'), A(''), A('y'), A('z')], [A(0), A(False), A('')], [A(b'a'), A('a'), A((1, 2))],
         [A('s'), A('p'), A('o'), A('q')]]

FACTOR = 1
LARGE = False      # the current case is a large one


class Gen:
    def __init__(self, rng, big=0, sizes=(5, 12, 40)):
        big *= FACTOR
        self.r = rng
        self.big = 1
        self.new_case()
        if big and rng.random() < big:
            # more elements than small examples have, for code that treats large collections in a way of its own
            self.big = rng.choice(sizes)
            global LARGE
            LARGE = True
            mix = [lambda i: A('v%d' % i), lambda i: A(i), lambda i: ('C', A(i), A('w'))]
            f = rng.choice(mix[:2] if rng.random() < .8 else mix)
            self.pool += [f(i) for i in range(self.big * rng.choice([1, 2, 4]))]

    def new_case(self):
        r = self.r
        self.pool = list(r.choice(POOLS))
        self.deep = r.random() < .25
        if self.deep:
            self.pool.append(self.mo(1))

    def n(self, k):
        return int(self.r.random() * (k * self.big + 1))

    def atom(self): return self.r.choice([x for x in self.pool if x[0] == 'A'])
    def comp(self):
        return self.r.choice(self.pool)

    def couplet(self):
        if self.r.random() < .2:
            x = self.comp()
            return ('C', x, x)
        return ('C', self.comp(), self.comp())

    def rel(self):
        r = self.r
        w = r.random()
        if self.big > 5 and .6 < w:
            w = .59 - w / 10
        if w < .08:
            return L.EMPTY
        if w < .2:
            s = [x for x in self.pool if r.random() < .6]
            cs = {('C', x, x) for x in s}
            if r.random() < .5 and s:
                cs |= {('C', r.choice(s), r.choice(s))}
            return ('S', frozenset(cs))
        if w < .5:          # functional or right-functional
            d = {}
            for x in self.pool:
                if r.random() < .6:
                    d[x] = self.comp()
            return ('S', frozenset(('C', a, b) if w < .4 else ('C', b, a) for a, b in d.items()))
        cs = {self.couplet() for _ in range(1 + self.n(3))}
        if w < .6:
            cs |= {('C', b, a) for _, a, b in cs}
        if w > .9:
            for _ in range(3):
                cs |= {('C', d[1], c[2]) for c in cs for d in cs if c[1] == d[2]}
        return ('S', frozenset(cs))

    def small(self, f):
        """f() as part of a collection: not large on all levels."""
        b, self.big = self.big, self.r.choice([1, 1, min(self.big, 5)])
        try:
            return f()
        finally:
            self.big = b

    def clan(self):
        r = self.r
        w = r.random()
        if w < .07:
            return L.EMPTY
        if w < .12:
            return ('S', frozenset({L.EMPTY}))
        if w < .35:         # same lefts (or rights)
            ls = [x for x in self.pool if r.random() < .6] or [self.comp()]
            rels = []
            ls = ls[:40 // self.big + 4]
            odd = [self.mo(1) for _ in range(2)] if r.random() < .3 else None
            for _ in range(1 + self.n(2)):
                cs = [('C', x, r.choice(odd) if odd and r.random() < .3 else self.comp()) for x in ls]
                if w > .25:
                    cs = [('C', b, a) for _, a, b in cs]
                rels.append(('S', frozenset(cs)))
            return ('S', frozenset(rels))
        return ('S', frozenset(self.small(self.rel) for _ in range(1 + self.n(2 if r.random() < .8 else 4))))

    def counts(self, es):
        return ('M', frozenset((e, 1 if self.r.random() < .5 else 1 + self.small(lambda: self.n(3)) if self.r.random() < .9 or self.big == 1 else 300) for e in set(es)))

    def mclan(self):
        if self.r.random() < .07:
            return L.MEMPTY
        return self.counts(self.clan()[1])

    def set(self, depth=1):
        r = self.r
        w = r.random()
        if w < .08: return L.EMPTY
        if w < .3: return self.rel()
        if w < .5: return self.clan()
        if w < .7: return ('S', frozenset(self.comp() for _ in range(1 + self.n(3))))
        if w < .85: return ('S', frozenset(self.small(lambda: self.mo(depth)) for _ in range(1 + self.n(3))))
        if w < .93: return ('S', frozenset(self.small(lambda: self.mset(0)) for _ in range(1 + self.n(2))))
        return ('S', frozenset(self.small(self.clan) for _ in range(1 + self.n(2))))

    def mset(self, depth=1):
        r = self.r
        w = r.random()
        if w < .08: return L.MEMPTY
        if w < .3: return self.mclan()
        if w < .5: return self.counts(self.rel()[1])
        if w < .75: return self.counts(self.comp() for _ in range(1 + self.n(3)))
        return self.counts(self.small(lambda: self.mo(depth)) for _ in range(1 + self.n(3)))

    def triple(self):
        r = self.r
        ks = [A(x) for x in ('spo' if r.random() < .9 else 'sp' if r.random() < .5 else 'spq')]
        return ('S', frozenset(('C', k, self.comp()) for k in ks))

    def graph(self):
        ks, r = [A(x) for x in 'spo'], self.r
        t = [('S', frozenset(('C', k, self.comp()) for k in ks)) for _ in range(1 + self.n(3))]
        return ('S', frozenset(t))

    def almost_graph(self):
        g = self.graph()
        return ('S', g[1] | {self.triple()}) if self.r.random() < .3 else g

    def optval(self):
        w = self.r.random()
        return ('N',) if w < .2 else ('P', 'str', self.r.choice(['?x', '?y', '$x', '?', '?z'])) if w < .65 else self.comp()

    def coll(self): return self.set() if self.r.random() < .5 else self.mset()

    def mo(self, depth=1):
        w = self.r.random()
        if depth <= 0:
            return self.atom() if w < .6 else self.couplet()
        if w < .3: return self.atom()
        if w < .55: return self.couplet()
        if w < .8: return self.set(depth - 1)
        return self.mset(depth - 1)

    def any(self):
        return UNDEF if self.r.random() < .03 else self.mo(2)

    def related(self, kind, v):
        """A value of the given kind that has something to do with v (subset, superset, same, ...)."""
        r = self.r
        w = r.random()
        k = v[0]
        if w < .1:
            return v
        if k in 'SM' and r.random() < .12:      # other elements with the same hashes
            def turned(e): return ('C', e[2], e[1]) if e[0] == 'C' else L.r_transpose(e) if e[0] == 'S' and L.is_rel(e) else e
            if k == 'S':
                return ('S', frozenset(turned(e) if r.random() < .9 else e for e in v[1]))
            return ('M', frozenset({turned(e): n for e, n in v[1]}.items()))
        if k == 'S' and kind in ('set', 'rel', 'clan'):
            es = [e for e in v[1] if r.random() < .7]
            if w < .35:
                return ('S', frozenset(es))
            if w < .6:
                return ('S', v[1] | getattr(self, kind)()[1])
            if kind == 'clan' and w < .85:
                o = []
                for e in v[1]:
                    if e[0] != 'S': return None
                    if r.random() < .5:
                        o.append(('S', frozenset(c for c in e[1] if r.random() < .6)))
                    else:
                        o.append(('S', e[1] | self.rel()[1]))
                return ('S', frozenset(o))
            if kind == 'rel' and w < .7 and L.is_rel(v):
                return L.r_transpose(v)
        if k == 'M' and kind in ('mset', 'mclan'):
            d = {}
            for e, n in v[1]:
                if w < .35:
                    m = n - self.n(1)
                elif w < .6:
                    m = n + self.n(2)
                else:
                    m = n + self.n(2) - 1
                if kind == 'mclan' and w > .8:
                    e = ('S', frozenset(c for c in e[1] if r.random() < .6))
                if m > 0:
                    d[e] = m
            if .45 < w < .6:
                for e, n in getattr(self, kind)()[1]:
                    d.setdefault(e, n)
            return ('M', frozenset(d.items()))
        if kind == 'couplet' and k == 'C':
            return ('C', self.comp(), v[1]) if w < .7 else ('C', v[2], v[1])
        return None

    def dict_(self):
        keys, seen = [], set()
        for x in self.pool:         # keys have to be different dict keys, whatever they are converted to
            k = x[2] if x[0] == 'A' else x
            if k not in seen and self.r.random() < .7:
                seen.add(k)
                keys.append(x)
        if self.r.random() < .4:
            keys = [A(x) for x in 'spo' if self.r.random() < .4]
        return ('D', tuple((x, self.comp()) for x in keys))

    def seq(self, undef_ok):
        l = [self.comp() for _ in range(self.n(3))]
        if undef_ok and self.r.random() < .05:
            l.insert(self.n(len(l)), UNDEF)
        return ('Q', tuple(l))


# --- Function arguments: name -> abstract function ------------------------------------------------
def _flat(x): return x[1] if x[0] == 'C' else x
FUN1 = {
    'identity': lambda x: x,
    'left-or-undefined': lambda x: x[1] if x[0] == 'C' else UNDEF,
    'always-undefined': lambda x: UNDEF,
    'constant': lambda x: A('k'),
    'singleton-set': lambda x: ('S', frozenset({x})),
    'swap-or-self': lambda x: ('C', x[2], x[1]) if x[0] == 'C' else x,
    'undefined-for-atoms': lambda x: UNDEF if x[0] == 'A' else x,
    'kind': lambda x: A(x[0]),
}
FUN2 = {
    'pair': lambda x, y: ('C', x, y),
    'first': lambda x, y: x,
    'second-if-equal': lambda x, y: y if x == y else UNDEF,
    'first-if-different': lambda x, y: x if x != y else UNDEF,
    'always-undefined': lambda x, y: UNDEF,
    'constant': lambda x, y: A('k'),
    'compose': lambda x, y: L.c_compose(x, y) if x[0] == 'C' and y[0] == 'C' else UNDEF,
    'union-of-sets': lambda x, y: L.union(x, y) if x[0] == 'S' and y[0] == 'S' else UNDEF,
}
PRED = {
    'true': lambda x: True, 'false': lambda x: False, 'is-atom': lambda x: x[0] == 'A',
    'reflexive-or-no-couplet': lambda x: x[0] != 'C' or x[1] == x[2],
    'not-empty-set': lambda x: x[0] != 'S' or bool(x[1]),
    'card-even': lambda x: L.card(x) % 2 == 0,
}
INV = {
    'constant': lambda x: A(1), 'identity': lambda x: x, 'kind': lambda x: A(x[0]),
    'left': lambda x: x[1] if x[0] == 'C' else x,
    'lefts': lambda x: L.r_lefts(x) if L.is_rel(x) else A(0),
    'card': lambda x: A(L.card(x)),
    'card-as-type': lambda x: A(bool(L.card(x))) if L.card(x) < 2 else A(1),
}
