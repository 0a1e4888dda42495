"""The logical theory: values of algebraixlib in first-order logic (z3 terms).

Sort V, kind(v): 0 undefined, 1 atom, 2 couplet, 3 set, 4 multiset, 5 plain Python value, 6 sequence.
Comprehensions, quantifiers and aggregates are lambda-lifted to symbols; two comprehensions with the same
canonical body share one symbol. Every axiom about a symbol is one of the schemas below (`Theory.add`);
lean/Lemmas.lean proves the schemas that are not definitions (cardinality of images, folds)."""
import z3
from z3 import And, Or, Not, If, Implies, ForAll, Exists, BoolVal, IntVal, Function, Const, IntSort, BoolSort, is_true, is_false

V = z3.DeclareSort('V')
I, B = IntSort(), BoolSort()
kind = Function('kind', V, I)
occ = Function('occ', V, V, I)             # occurrences of an item in a sequence
left = Function('left', V, V)
right = Function('right', V, V)
cpl = Function('cpl', V, V, V)
mem = Function('mem', V, V, B)
mult = Function('mult', V, V, I)
item = Function('item', V, V, B)          # x is an item of a sequence of arguments (raw)
ditem = Function('ditem', V, V, V, B)     # (k, v) is an item of a dict (converted values)
conv = Function('conv', V, V)             # auto_convert of a raw value
single = Function('single', V, V)
msingle = Function('msingle', V, V)
card = Function('card', V, I)
diff = Function('diff', V, V, V)
eqv = Function('eqv', V, V, B)             # equality, with extensionality
other = Function('other', V, V, V)         # an element of a set besides x
nonempty = Function('nonempty', V, B)
UNDEF, EMPTY, MEMPTY = Const('UNDEF', V), Const('EMPTY', V), Const('MEMPTY', V)
# RDF library (contracts): the graph that is parsed and skolemized, parts of a triple, native value of a literal
RDF = {n: Function('rdf_' + n, *s) for n, s in dict(
    skolemized=(V, V), parsed=(V, V, V), part=(V, I, V), native=(V, V), guess=(V, V), guess_fails=(V, B)).items()}
RDF_CLASSES = ('URIRef', 'BNode', 'Literal')
CONSTS = {'UNDEF', 'EMPTY', 'MEMPTY', 'NONE'}
NONE = Const('NONE', V)                   # None as the value of an optional parameter
def strname(text): return ''.join(c if c.isalnum() and c.isascii() else '_%x_' % ord(c) for c in text)
def strc(text): return Const('str_' + strname(text), V)     # a string literal (plain value)
is_str = Function('is_str', V, B)
def starts(v, prefix): return Function('startswith_' + strname(prefix), V, B)(v)


T, F = BoolVal(True), BoolVal(False)

x, y, z, s, t, a, b = [Const(n, V) for n in 'x y z s t a b'.split()]
def fa(vs, pats, body): return ForAll(vs, body, patterns=[p if z3.is_pattern(p) else z3.MultiPattern(*p) if isinstance(p, (tuple, list)) else p for p in pats])


BASE = [
    fa([x], [kind(x)], And(kind(x) >= 0, kind(x) <= 6)),
    kind(UNDEF) == 0, fa([x], [kind(x)], Implies(kind(x) == 0, x == UNDEF)),
    kind(EMPTY) == 3, kind(MEMPTY) == 4,
    fa([x], [mem(x, EMPTY)], Not(mem(x, EMPTY))), fa([x], [mem(x, MEMPTY)], Not(mem(x, MEMPTY))),
    fa([x, y], [cpl(x, y)], And(Implies(And(kind(x) >= 1, kind(x) <= 4, kind(y) >= 1, kind(y) <= 4), kind(cpl(x, y)) == 2),
                                left(cpl(x, y)) == x, right(cpl(x, y)) == y)),
    fa([x], [left(x), right(x)], Implies(kind(x) == 2, And(cpl(left(x), right(x)) == x))),
    fa([x], [left(x)], Implies(kind(x) == 2, And(kind(left(x)) >= 1, kind(left(x)) <= 4))),
    fa([x], [right(x)], Implies(kind(x) == 2, And(kind(right(x)) >= 1, kind(right(x)) <= 4))),
    fa([x, s], [mem(x, s)], Implies(mem(x, s), And(kind(x) >= 1, kind(x) <= 4, kind(s) >= 3, kind(s) <= 4))),
    fa([x, s], [mult(x, s)], And(mult(x, s) >= 0, Implies(kind(s) == 4, mem(x, s) == (mult(x, s) > 0)))),
    fa([x, s], [mem(x, s)], Implies(kind(s) == 4, mem(x, s) == (mult(x, s) > 0))),
    fa([x], [single(x)], kind(single(x)) == 3),
    fa([x], [single(x)], Implies(And(kind(x) >= 1, kind(x) <= 4), mem(x, single(x)))),
    fa([x, y], [mem(y, single(x))], Implies(mem(y, single(x)), y == x)),
    fa([x], [msingle(x)], kind(msingle(x)) == 4),
    fa([x], [msingle(x)], Implies(And(kind(x) >= 1, kind(x) <= 4), mult(x, msingle(x)) == 1)),
    fa([x, y], [mem(y, msingle(x))], Implies(mem(y, msingle(x)), y == x)),
    fa([x, y], [mult(y, msingle(x))], mult(y, msingle(x)) == If(y == x, IntVal(1), IntVal(0))),
    fa([x, s], [item(x, s)], Implies(item(x, s), And(kind(x) >= 0, kind(x) <= 5, kind(s) == 6))),
    fa([x, y, s], [ditem(x, y, s)], Implies(ditem(x, y, s), And(kind(x) >= 1, kind(x) <= 5, kind(y) >= 1, kind(y) <= 5))),
    fa([x, y, z, t, s], [(ditem(x, y, s), ditem(z, t, s))], Implies(And(ditem(x, y, s), ditem(z, t, s), conv(x) == conv(z)), And(x == z, y == t))),
    fa([x], [conv(x)], Implies(And(kind(x) >= 1, kind(x) <= 4), conv(x) == x)),
    fa([x], [conv(x)], Implies(kind(x) == 5, kind(conv(x)) == 1)),
    fa([x], [conv(x)], Implies(kind(x) == 0, conv(x) == UNDEF)),
    fa([s], [card(s)], And(card(s) >= 0, (card(s) == 0) == Not(nonempty(s)))),
    fa([s], [card(s)], Implies(And(kind(s) == 3, card(s) == 1), s == single(diff(s, EMPTY)))),
    fa([s], [card(s)], Implies(And(kind(s) == 4, card(s) == 1), s == msingle(diff(s, EMPTY)))),
    fa([x, s], [(mem(x, s), card(s))], Implies(And(kind(s) == 3, mem(x, s), card(s) != 1), And(mem(other(s, x), s), other(s, x) != x))),
    fa([s, t], [eqv(s, t)], eqv(s, t) == (s == t)),
    fa([s, t], [eqv(s, t)], Or(eqv(s, t), Not(And(kind(s) == 3, kind(t) == 3)), mem(diff(s, t), s) != mem(diff(s, t), t))),
    fa([s, t], [eqv(s, t)], Or(eqv(s, t), Not(And(kind(s) == 4, kind(t) == 4)), mult(diff(s, t), s) != mult(diff(s, t), t))),
    card(EMPTY) == 0, card(MEMPTY) == 0, Not(nonempty(EMPTY)), Not(nonempty(MEMPTY)),
    fa([s], [nonempty(s)], And(Implies(nonempty(s), mem(diff(s, EMPTY), s)),
                               Implies(And(kind(s) == 3, Not(nonempty(s))), s == EMPTY),
                               Implies(And(kind(s) == 4, Not(nonempty(s))), s == MEMPTY))),
    fa([x, s], [(mem(x, s), nonempty(s))], Implies(mem(x, s), nonempty(s))),
    fa([x], [card(single(x))], card(single(x)) == 1), fa([x], [card(msingle(x))], card(msingle(x)) == 1),
]
BASE_TRUST = ('finite sets, multisets, couplets and atoms of the library as first-order values; kind, membership, '
              'multiplicity, extensionality')


def fv_key(e): return e.get_id()


def is_compr(e):
    while z3.is_app_of(e, z3.Z3_OP_ITE):
        if is_compr(e.arg(1)):
            return True
        e = e.arg(2)
    return z3.is_app(e) and e.decl().name().startswith(('Set_', 'SetBy_', 'MSet_', 'MSetBy_', 'EMPTY', 'single', 'msingle'))


def equal(l, r):
    """l == r, with extensionality where a comprehension is compared."""
    if l.sort() == V and not l.eq(r) and (is_compr(l) or is_compr(r)):
        return eqv(l, r)
    return l == r


class Theory:
    def __init__(self):
        self.syms = {}          # canonical key -> decl
        self.axioms = {}        # decl name -> [axiom]
        self.info = {}          # decl name -> dict (kind of symbol, parameters, bodies) for the congruence rule
        self.nfresh = 0
        self.hint = ''
        self._closed = {}
        self.deps_cache = {}
        self.decl_memo = {}

    # --- fresh constants --------------------------------------------------------------------------
    def fresh(self, name, sort=V):
        self.nfresh += 1
        return Const('%s!%d' % (name, self.nfresh), sort)

    # --- lambda lifting ---------------------------------------------------------------------------
    def abstract(self, binders, exprs):
        """(parameters, bodies): bodies = exprs with maximal closed non-Boolean subterms (and Boolean constants)
        replaced by canonical parameters."""
        bids = {v.get_id() for v in binders}
        params, order, subst = {}, [], []
        closed_memo = {}

        def closed(e):
            i = e.get_id()
            r = closed_memo.get(i)
            if r is None:
                if z3.is_var(e) or i in bids:
                    r = False
                elif z3.is_quantifier(e):
                    r = closed(e.body())
                else:
                    r = all(closed(c) for c in e.children())
                closed_memo[i] = r
            return r
        seen = set()

        def walk(e):
            if e.get_id() in seen:
                return
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                return walk(e.body())
            if z3.is_var(e):
                return
            if closed(e):
                if e.num_args() == 0:
                    if z3.is_int_value(e) or is_true(e) or is_false(e) or e.decl().name() in CONSTS:
                        return
                    return add(e)
                if e.sort() == V:
                    return add(e)
            for c in e.children():
                walk(c)

        def add(e):
            if e.get_id() not in params:
                p = Const('?p%d' % len(order), e.sort())
                params[e.get_id()] = p
                order.append(e)
                subst.append((e, p))
        for e in exprs:
            walk(e)
        bs = [Const('?b%d' % i, v.sort()) for i, v in enumerate(binders)]
        bodies = [z3.substitute(e, *(subst + list(zip(binders, bs)))) for e in exprs]
        return order, [params[e.get_id()] for e in order], bs, bodies

    def symbol(self, tag, binders, exprs, sort, build):
        """The term tag{binders | exprs}; build(app, params, bs, bodies) returns its axioms."""
        args, ps, bs, bodies = self.abstract(binders, exprs)
        key = (tag, str(sort), tuple(str(b.sort()) for b in bs), tuple(e.sexpr() for e in bodies), tuple(str(p.sort()) for p in ps))
        d = self.syms.get(key)
        if d is None:
            name = '%s_%s%d' % (tag, self.hint and self.hint + '_', len(self.syms))
            d = Function(name, *([p.sort() for p in ps] + [sort])) if ps else Const(name, sort)
            self.syms[key] = d
            app = d(*ps) if ps else d
            self.info[name] = dict(tag=tag, params=ps, binders=bs, bodies=bodies)
            self.axioms[name] = []
            build(name, app, ps, bs, bodies)
        return d(*args) if args else d

    def add(self, name, ax):
        self.axioms[name].append(ax)

    def quant(self, vs, pats, body):
        if not vs:
            return body
        pats = [p for p in pats if p]
        ok = []
        for p in pats:
            p = list(p) if isinstance(p, (tuple, list)) else [p]
            if not all(self.pattern_ok(q) for q in p):
                continue
            # a pattern must hold all variables
            have = set()
            for q in p:
                have |= self.consts(q)
            if all(v.get_id() in have for v in vs):
                ok.append(p)
        return ForAll(vs, body, patterns=[z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in ok]) if ok else ForAll(vs, body)

    def pattern_ok(self, e):
        stack = [e]
        while stack:
            q = stack.pop()
            if not z3.is_app(q) or q.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ANUM):
                return False
            stack += q.children()
        return True

    def consts(self, e, memo={}):
        i = e.get_id()
        out, stack, seen = set(), [e], set()
        while stack:
            q = stack.pop()
            if q.get_id() in seen:
                continue
            seen.add(q.get_id())
            if z3.is_quantifier(q):
                stack.append(q.body())
            elif z3.is_app(q):
                if q.num_args() == 0:
                    out.add(q.get_id())
                stack += q.children()
        return out

    @staticmethod
    def triggers(doms):
        """Trigger terms of the domains of binders."""
        out = []
        for d in doms:
            stack = [d]
            while stack:
                e = stack.pop()
                if z3.is_and(e):
                    stack += e.children()
                elif z3.is_app(e) and e.decl().name() in ('mem', 'item', 'ditem'):
                    out.append(e)
                    break
        return out

    # --- comprehensions ---------------------------------------------------------------------------
    # A branch is (binders, dom, cond, val): dom is a list of Booleans that hold the triggers.
    def defined_case(self, cond, val, *more):
        """Undefined values are never members: {If(c, v, UNDEF) | cond} = {v | cond and c}."""
        while z3.is_app_of(val, z3.Z3_OP_ITE):
            c, v, w = val.children()
            if w.eq(UNDEF):
                sub = lambda e: z3.simplify(z3.substitute(e, (c, T)))
                nc = c
            elif v.eq(UNDEF):
                sub = lambda e: z3.simplify(z3.substitute(e, (c, F)))
                v, nc = w, z3.simplify(Not(c))
            else:
                break
            cond = z3.simplify(And(sub(cond), nc))
            val = v
            more = tuple(sub(m) if z3.is_expr(m) else m for m in more)
        return (cond, val) + more

    def one_point(self, binders, doms, cond, val):
        """{v | n, n == t, ...} without the number n."""
        for n in binders:
            if n.sort() != I:
                continue
            for c in self.conjuncts(cond):
                if z3.is_eq(c) and (c.arg(0).eq(n) or c.arg(1).eq(n)):
                    t = c.arg(1 if c.arg(0).eq(n) else 0)
                    if n.get_id() in self.consts(t):
                        continue
                    sub = lambda e: z3.substitute(e, (n, t))
                    mine = [d for d in doms if n.get_id() in self.consts(d)]
                    if any(m.decl().name() in ('mem', 'item', 'ditem') for d in mine for m in self.conjuncts(d)):
                        continue
                    cond = z3.simplify(And(sub(cond), *[sub(d) for d in mine]))
                    return self.one_point([b for b in binders if not b.eq(n)], [d for d in doms if not any(d.eq(m) for m in mine)], cond, sub(val))
        return binders, doms, cond, val

    @staticmethod
    def is_comprehension(t): return z3.is_app(t) and t.decl().name().startswith(('Set_', 'SetBy_'))

    def of_single(self, binders, doms, cond, val):
        """{f(v) | v in single(t)} = {f(t)} for a set t."""
        for v in binders:
            for d in doms:
                if d.decl().name() == 'mem' and d.arg(0).eq(v) and d.arg(1).decl().eq(single) and \
                        self.is_comprehension(d.arg(1).arg(0)):
                    t = d.arg(1).arg(0)
                    sub = lambda e: z3.substitute(e, (v, t))
                    return self.of_single([b for b in binders if not b.eq(v)], [sub(e) for e in doms if not e.eq(d)],
                                          z3.simplify(sub(cond)), sub(val))
        return binders, doms, cond, val

    def setof(self, binders, doms, cond, val):
        cond, val = self.defined_case(cond, val)
        binders, doms, cond, val = self.one_point(binders, doms, cond, val)
        binders, doms, cond, val = self.of_single(binders, doms, cond, val)
        if is_false(z3.simplify(cond)):
            return EMPTY
        if not binders and not doms and is_true(z3.simplify(cond)) and self.is_comprehension(val):
            return single(val)
        if len(binders) == 1 and val.eq(binders[0]) and is_true(cond) and len(doms) == 1 and \
                doms[0].decl().name() == 'mem' and doms[0].arg(0).eq(binders[0]) and \
                doms[0].arg(1).decl().name().startswith(('Set_', 'SetBy_', 'EMPTY', 'single')):
            return doms[0].arg(1)
        dom = And(*doms) if len(doms) != 1 else doms[0]

        def build(name, app, ps, bs, bodies):
            dom, cond, val = bodies
            ds = list(dom.children()) if z3.is_and(dom) else [dom]
            zz = Const('?z', V)
            self.add(name, self.quant(ps, [[app]], kind(app) == 3))
            ident = len(bs) == 1 and val.eq(bs[0])
            if ident:
                sub = lambda e: z3.substitute(e, (bs[0], zz))
                self.add(name, self.quant(ps + [zz], [[mem(zz, app)]] + [[z3.substitute(tr, (bs[0], zz)), app] for tr in self.triggers(ds)],
                                          mem(zz, app) == And(sub(dom), sub(cond))))
                return
            ws = [Function('%s_w%d' % (name, i), *([p.sort() for p in ps] + [V, v.sort()]))(*(ps + [zz])) for i, v in enumerate(bs)]
            sub = lambda e: z3.substitute(e, *zip(bs, ws))
            self.add(name, self.quant(ps + [zz], [[mem(zz, app)]],
                                      Implies(mem(zz, app), And(sub(dom), sub(cond), zz == sub(val)))))
            tr = self.triggers(ds)
            if len(tr) == len(bs) or len(tr) == 1 and tr[0].decl().name() == 'ditem' and len(bs) == 2:
                pats = [tr + [app]]
                if z3.is_app(val) and val.num_args() > 0:
                    pats.append([mem(val, app)])
                self.add(name, self.quant(ps + bs, pats, Implies(And(dom, cond, kind(val) >= 1, kind(val) <= 4), mem(val, app))))
            else:
                self.add(name, self.quant(ps + bs, [[mem(val, app)]], Implies(And(dom, cond, kind(val) >= 1, kind(val) <= 4), mem(val, app))))
            if len(bs) == 1 and is_true(cond) and dom.decl().name() == 'mem' and dom.arg(0).eq(bs[0]):
                # card of an image (lemma card_image)
                D = dom.arg(1)
                u, w = Const('?u', V), Const('?w', V)
                f = lambda e: z3.substitute(val, (bs[0], e))
                inj = ForAll([u, w], Implies(And(mem(u, D), mem(w, D), f(u) == f(w)), u == w),
                             patterns=[z3.MultiPattern(mem(u, D), mem(w, D))])
                self.add(name, self.quant(ps, [[card(app)]], Implies(kind(D) == 3, And((card(app) == card(D)) == inj, card(app) <= card(D)))))
        return self.symbol('Set', binders, [dom, cond, val], V, build)

    def fold(self, acc, elem, step, init, q):
        return self.symbol('Fold', [acc, elem], [step, init, q], V, lambda *a: None)

    def setby(self, v, pred, bounds):
        """{v | pred, v in one of the bounds}"""
        bnd = z3.simplify(Or(*[mem(v, b_) for b_ in bounds])) if not isinstance(bounds, z3.BoolRef) else bounds
        body = pred if pred.eq(bnd) else And(pred, bnd)

        def build(name, app, ps, bs, bodies):
            self.add(name, self.quant(ps, [[app]], kind(app) == 3))
            trs = [[tr, app] for tr in self.mems_of(bodies[0], bs[0])]
            self.add(name, self.quant(ps + bs, [[mem(bs[0], app)]] + trs, mem(bs[0], app) == bodies[0]))
            self.commutative(name, app, ps, bodies)
        return self.symbol('SetBy', [v], [body], V, build)

    def commutative(self, name, app, ps, bodies):
        """A function of two parameters that are exchangeable."""
        if len(ps) != 2 or ps[0].sort() != ps[1].sort():
            return
        sw = lambda e: z3.substitute(e, (ps[0], ps[1]), (ps[1], ps[0]))
        s = z3.Solver()
        s.set('rlimit', 100000)
        s.add(Or(*[e != sw(e) for e in bodies]))
        if s.check() == z3.unsat:
            self.add(name, self.quant(ps, [[app]], app == sw(app)))

    def mems_of(self, e, v):
        """mem(v, s) / mult(v, s) atoms of e with s a parameter term."""
        out, stack, seen = [], [e], set()
        while stack:
            q = stack.pop()
            if q.get_id() in seen or not z3.is_app(q):
                continue
            seen.add(q.get_id())
            if q.decl().name() in ('mem', 'mult') and q.arg(0).eq(v) and not z3.is_var(q.arg(1)):
                out.append(q)
            stack += q.children()
        return out

    def msetof(self, binders, doms, cond, key, weight):
        dom = And(*doms) if len(doms) != 1 else doms[0]
        cond, key, weight = self.defined_case(cond, key, weight)
        if is_false(z3.simplify(cond)):
            return MEMPTY
        if len(binders) == 1 and key.eq(binders[0]) and is_true(cond) and dom.decl().eq(mem) and dom.arg(0).eq(key) and \
                z3.simplify(weight).eq(z3.simplify(mult(key, dom.arg(1)))) and dom.arg(1).decl().name().startswith(('MSet_', 'MSetBy_', 'MEMPTY', 'msingle')):
            return dom.arg(1)

        def build(name, app, ps, bs, bodies):
            dom, cond, key, weight = bodies
            ds = list(dom.children()) if z3.is_and(dom) else [dom]
            pos = self.positive(weight, ds)
            zz = Const('?z', V)
            self.add(name, self.quant(ps, [[app]], kind(app) == 4))
            ws = [Function('%s_w%d' % (name, i), *([p.sort() for p in ps] + [V, v.sort()]))(*(ps + [zz])) for i, v in enumerate(bs)]
            sub = lambda e: z3.substitute(e, *zip(bs, ws))
            self.add(name, self.quant(ps + [zz], [[mem(zz, app)]],
                                      Implies(mem(zz, app), And(sub(dom), sub(cond), zz == sub(key), sub(pos)))))
            tr = self.triggers(ds)
            if len(tr) == len(bs) or len(tr) == 1 and tr[0].decl().name() == 'ditem' and len(bs) == 2:
                h = And(dom, cond, pos, kind(key) >= 1, kind(key) <= 4)
                self.add(name, self.quant(ps + bs, [tr + [app]], Implies(h, mem(key, app))))
                self.add(name, self.quant(ps + bs, [tr + [mult(key, app)]], Implies(h, mult(key, app) >= weight)))
            if len(bs) == 1 and key.eq(bs[0]):
                sub2 = lambda e: z3.substitute(e, (bs[0], zz))
                self.add(name, self.quant(ps + [zz], [[mult(zz, app)], [mem(zz, app)]],
                                          mult(zz, app) == If(And(sub2(dom), sub2(cond), sub2(weight) > 0), sub2(weight), 0)))
        return self.symbol('MSet', binders, [dom, cond, key, weight], V, build)

    def positive(self, w, ds):
        """weight > 0, without products"""
        if z3.is_int_value(w):
            return BoolVal(w.as_long() > 0)
        if z3.is_mul(w):
            return And(*[self.positive(c, ds) for c in w.children()])
        if w.decl().eq(mult) and any(mem(w.arg(0), w.arg(1)).eq(d) for d in ds):
            return Or(kind(w.arg(1)) == 4, w > 0)
        return w > 0

    def msetby(self, v, f, bounds):
        bnd = z3.simplify(Or(*[mem(v, b_) for b_ in bounds])) if not isinstance(bounds, z3.BoolRef) else bounds

        def build(name, app, ps, bs, bodies):
            f, bnd = bodies
            self.add(name, self.quant(ps, [[app]], kind(app) == 4))
            trs = [[tr, app] for e in bodies for tr in self.mems_of(e, bs[0])]
            self.add(name, self.quant(ps + bs, [[mult(bs[0], app)], [mem(bs[0], app)]] + trs,
                                      mult(bs[0], app) == If(And(bnd, f > 0), f, 0)))
            self.commutative(name, app, ps, bodies)
        return self.symbol('MSetBy', [v], [f, bnd], V, build)

    # --- quantifiers ------------------------------------------------------------------------------
    def all(self, binders, doms, cond, body):
        """For all binders in doms with cond: body."""
        body = z3.simplify(Implies(cond, body))
        if is_true(body):
            return T
        dom = And(*doms) if len(doms) != 1 else doms[0]

        def build(name, app, ps, bs, bodies):
            dom, body = bodies
            ds = list(dom.children()) if z3.is_and(dom) else [dom]
            tr = self.triggers(ds)
            q = self.quant(bs, [tr] if len(tr) >= 1 else [], Implies(dom, body))
            self.add(name, self.quant(ps, [[app]], app == q))
        return self.symbol('All', binders, [dom, body], B, build)

    def any(self, binders, doms, cond, body):
        return z3.simplify(Not(self.all(binders, doms, cond, Not(body))))

    def unique(self, binders, doms, cond, val):
        dom = And(*doms) if len(doms) != 1 else doms[0]

        def build(name, app, ps, bs, bodies):
            dom, cond, val = bodies
            ds = list(dom.children()) if z3.is_and(dom) else [dom]
            tr = self.triggers(ds)
            cs = [Const('?c%d' % i, v.sort()) for i, v in enumerate(bs)]
            sub = lambda e: z3.substitute(e, *zip(bs, cs))
            q1 = Not(self.quant(bs, [tr], Not(And(dom, cond))))
            q2 = self.quant(bs + cs, [tr + [sub(e) for e in tr]], Implies(And(dom, cond, sub(dom), sub(cond)), val == sub(val)))
            self.add(name, self.quant(ps, [[app]], app == And(q1, q2)))
        return self.symbol('Unique', binders, [dom, cond, val], B, build)

    def the(self, binders, doms, cond, val):
        u = self.unique(binders, doms, cond, val)
        dom = And(*doms) if len(doms) != 1 else doms[0]

        def build(name, app, ps, bs, bodies):
            dom, cond, val = bodies
            uu = self.unique(bs, list(dom.children()) if z3.is_and(dom) else [dom], cond, val)
            tr = self.triggers(list(dom.children()) if z3.is_and(dom) else [dom])
            self.add(name, self.quant(ps + bs, [tr + [app]], Implies(And(uu, dom, cond), app == val)))
        return self.symbol('The', binders, [dom, cond, val], V, build)

    def extremum(self, binders, doms, cond, val, sign):
        """Maximum (sign 1) or minimum (-1) of val; unspecified if there is none."""
        dom = And(*doms) if len(doms) != 1 else doms[0]

        def build(name, app, ps, bs, bodies):
            dom, cond, val = bodies
            tr = self.triggers(list(dom.children()) if z3.is_and(dom) else [dom])
            self.add(name, self.quant(ps + bs, [tr + [app]], Implies(And(dom, cond), app >= val if sign > 0 else app <= val)))
            q = self.quant(bs, [tr], Not(And(dom, cond)))
            ex = Not(self.quant(bs, [tr], Not(And(dom, cond, app == val))))
            self.add(name, self.quant(ps, [[app]], Or(q, ex)))
        return self.symbol('Max' if sign > 0 else 'Min', binders, [dom, cond, val], I, build)

    def defined(self, name, params, body_fn, sort):
        """A named function with its definition as axiom."""
        if name not in self.syms:
            ps = [Const('?a%d' % i, p) for i, p in enumerate(params)]
            d = Function(name, *(params + [sort]))
            self.syms[name] = d
            self.info[name] = dict(tag='def')
            self.axioms[name] = []
            self.add(name, self.quant(ps, [[d(*ps)]], d(*ps) == body_fn(*ps)))
        return self.syms[name]

    # --- axioms relevant to formulas --------------------------------------------------------------
    def decls(self, e):
        """Names of the symbols of e that have axioms."""
        r = self.decl_memo.get(e.get_id())
        if r is not None:
            return r[0]
        if z3.is_quantifier(e):
            out = set(self.decls(e.body()))
            for i in range(e.num_patterns()):
                out |= self.decls(e.pattern(i))
        elif z3.is_app(e):
            out = set()
            n = e.decl().name()
            if n in self.axioms:
                out.add(n)
            for i in range(e.num_args()):
                out |= self.decls(e.arg(i))
        else:
            out = set()
        self.decl_memo[e.get_id()] = (out, e)
        return out

    def relevant(self, fs):
        todo = set()
        for f in fs:
            todo |= self.decls(f)
        done = set()
        while todo:
            n = todo.pop()
            if n in done:
                continue
            done.add(n)
            d = self.deps_cache.get(n)
            if d is None:
                d = set()
                for ax in self.axioms[n]:
                    d |= self.decls(ax)
                self.deps_cache[n] = d
            todo |= d - done
        return [ax for n in sorted(done) for ax in self.axioms[n]]

    def conjuncts(self, d):
        return list(d.children()) if z3.is_and(d) else [d]
