"""Compile the specification language (spec/logic.py, spec/contracts.py) to terms of the theory."""
import ast
import os
import z3
from z3 import And, Or, Not, If, Implies, is_true, is_false
from . import theory as th
from .theory import V, I, B, kind, mem, mult, item, ditem

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unsupported(Exception):
    pass


class Gen:
    """Comprehension: binders, domains (Booleans with triggers), condition, value(s)."""
    def __init__(self, binders, doms, cond, val):
        self.binders, self.doms, self.cond, self.val = binders, doms, cond, val


class Elems:
    def __init__(self, v): self.v = v


class Items:
    def __init__(self, v, d=False, counted=False, raw=False): self.v, self.d, self.counted, self.raw = v, d, counted, raw


def rdf_graph(src, fmt):
    """The graph that is parsed from src, blank nodes are replaced; no format: guessed, or turtle."""
    g, t = th.RDF['guess'](src), th.strc('turtle')
    fmt = If(fmt == th.NONE, If(Or(th.RDF['guess_fails'](src), g == th.NONE), t, g), fmt)
    return th.RDF['skolemized'](th.RDF['parsed'](src, fmt))


def rdf_node(x): return th.conv(If(z3.Function('is_Literal', V, B)(x), th.RDF['native'](x), x))


class OptB:
    def __init__(self, b, undef): self.b, self.undef = b, undef


class Lam:
    def __init__(self, node, env): self.node, self.env = node, env


def simp(e): return z3.simplify(e)


class Spec:
    """Compiler; `path` is a list that receives the conditions in scope (binders, branches)."""
    DEFS = {}

    def __init__(self, theory, path=None):
        self.th = theory
        self.path = path if path is not None else []

    @classmethod
    def load(cls):
        if not cls.DEFS:
            for f in ('logic', 'contracts'):
                for n in ast.parse(open(os.path.join(HERE, 'spec', f + '.py')).read()).body:
                    if isinstance(n, ast.FunctionDef):
                        cls.DEFS[n.name] = n

    def call(self, name, *args):
        self.load()
        n = self.DEFS[name]
        env = {p.arg: a for p, a in zip(n.args.args, args)}
        assert len(n.args.args) == len(args), name
        body = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        assert len(body) == 1 and isinstance(body[0], ast.Return), name
        return self.ev(body[0].value, env)

    PRIM = {'is_undef': lambda s, v: kind(v) == 0, 'is_atom': lambda s, v: kind(v) == 1,
            'is_couplet': lambda s, v: kind(v) == 2, 'is_set': lambda s, v: kind(v) == 3,
            'is_mset': lambda s, v: kind(v) == 4, 'left': lambda s, v: th.left(v), 'right': lambda s, v: th.right(v),
            'couplet': lambda s, l, r: th.cpl(l, r), 'mem': lambda s, x, v: mem(x, v), 'mult': lambda s, x, v: mult(x, v),
            'single': lambda s, x: th.single(x), 'msingle': lambda s, x: th.msingle(x), 'card': lambda s, v: th.card(v),
            'elems': lambda s, v: Elems(v), 'items': lambda s, v: Items(v), 'ditems': lambda s, v: Items(v, True),
            'counts': lambda s, v: Items(v, counted=True), 'triples': lambda s, src, fmt: Items(rdf_graph(src, fmt), raw=True),
            'node': lambda s, t, i: rdf_node(th.RDF['part'](t, i)),
            'is_none': lambda s, v: v == th.NONE, 'conv': lambda s, v: th.conv(v),
            'is_var': lambda s, v: And(kind(v) == 5, th.is_str(v), Or(th.starts(v, '?'), th.starts(v, '$'))),
            'from_bool': lambda s, b: If(b, z3.IntVal(1), z3.IntVal(2)),
            'is_empty': lambda s, v: And(Or(kind(v) == 3, kind(v) == 4), Not(th.nonempty(v))),
            'min': lambda s, a, b: If(a <= b, a, b), 'max': lambda s, a, b: If(a >= b, a, b),
            }
    CONST = {'UNDEF': th.UNDEF, 'EMPTY': th.EMPTY, 'MEMPTY': th.MEMPTY, 'UNKNOWN': z3.IntVal(0), 'IS': z3.IntVal(1),
             'IS_NOT': z3.IntVal(2), 'N_A': z3.IntVal(3), 'SUBJECT': th.conv(th.strc('s')),
             'PREDICATE': th.conv(th.strc('p')), 'OBJECT': th.conv(th.strc('o'))}

    def st(self, prop, v):
        """st_<prop>(v): the true status of a cached property."""
        name = 'st_' + prop

        def body(p):
            d = Spec(self.th).call_def(name, p)
            if prop in ('relation', 'clan', 'multiclan', 'absolute', 'atom', 'couplet', 'set', 'multiset'):
                return d
            # unspecified for nested values (see logic.py)
            return If(self.th.defined('nested', [V], lambda q: Spec(self.th).call('nested', q), B)(p), z3.Function('ust_' + prop, V, I)(p), d)
        if name not in self.th.axioms:
            self.th.defined(name, [V], body, I)
            a = z3.Const('?a0', V)
            f = self.th.syms[name]
            self.th.add(name, th.fa([a], [f(a)], And(f(a) >= 1, f(a) <= 3)))
            u, e = z3.Function('ust_' + prop, V, I), z3.Const('?e', V)
            if 'nested' not in self.th.axioms:
                return self.th.syms[name](v)
            nst = self.th.syms['nested']
            self.th.add(name, th.fa([a, e], [(u(a), mem(e, a))], Implies(And(nst(a), u(a) != 3, mem(e, a)),
                And(kind(e) >= 3, Or(Not(th.nonempty(e)), kind(e) == 3 if prop in ('symmetric', 'transitive') else
                                     And(kind(e) == 3, Not(self.call('is_rel', e))))))))
        return self.th.syms[name](v)

    def call_def(self, name, *args):
        return self.call(name, *args)

    def fn(self, name, args):
        if name in self.PRIM:
            return self.PRIM[name](self, *args)
        if name == 'st_to_result':
            return OptB(simp(args[0] == 1), simp(Not(Or(args[0] == 1, args[0] == 2))))
        if name == 'nested':
            return self.th.defined('nested', [V], lambda q: Spec(self.th).call('nested', q), B)(*args)
        if name == 'powerset':
            return powerset(self.th, *args)
        if name.startswith('st_') and name != 'st_to_result':
            return self.st(name[3:], *args)
        return self.call(name, *args)

    def ev(self, e, env):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('spec: ' + ast.dump(e))
        return m(e, env)

    def ev_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in self.CONST:
            return self.CONST[e.id]
        raise Unsupported('spec name ' + e.id)

    def ev_Constant(self, e, env):
        if e.value is True or e.value is False:
            return z3.BoolVal(e.value)
        if isinstance(e.value, int):
            return z3.IntVal(e.value)
        raise Unsupported('spec constant')

    def with_(self, cond, f):
        self.path.append(cond)
        try:
            return f()
        finally:
            self.path.pop()

    def ev_BoolOp(self, e, env):
        vals, n0 = [], len(self.path)
        isand = isinstance(e.op, ast.And)
        try:
            for v in e.values:
                t = simp(self.ev(v, env))
                vals.append(t)
                if is_false(t) and isand or is_true(t) and not isand:
                    break
                self.path.append(t if isand else Not(t))
        finally:
            del self.path[n0:]
        return simp(And(*vals) if isand else Or(*vals))

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        return Not(v) if isinstance(e.op, ast.Not) else -v

    def ev_BinOp(self, e, env):
        l, r = self.ev(e.left, env), self.ev(e.right, env)
        return {ast.Add: lambda: l + r, ast.Sub: lambda: l - r, ast.Mult: lambda: l * r}[type(e.op)]()

    def ev_Compare(self, e, env):
        assert len(e.ops) == 1
        l, r = self.ev(e.left, env), self.ev(e.comparators[0], env)
        return {ast.Eq: lambda: th.equal(l, r), ast.NotEq: lambda: Not(th.equal(l, r)), ast.LtE: lambda: l <= r, ast.Lt: lambda: l < r,
                ast.Gt: lambda: l > r, ast.GtE: lambda: l >= r}[type(e.ops[0])]()

    def ev_IfExp(self, e, env):
        c = simp(self.ev(e.test, env))
        if is_true(c):
            return self.ev(e.body, env)
        if is_false(c):
            return self.ev(e.orelse, env)
        l = self.with_(c, lambda: self.ev(e.body, env))
        r = self.with_(Not(c), lambda: self.ev(e.orelse, env))
        return ite(c, l, r)

    def ev_Lambda(self, e, env): return Lam(e, env)

    def ev_Tuple(self, e, env): return tuple(self.ev(x, env) for x in e.elts)

    def ev_GeneratorExp(self, e, env):
        env = dict(env)
        binders, doms, conds, n0 = [], [], [], len(self.path)
        try:
            for g in e.generators:
                it = self.ev(g.iter, env)
                if isinstance(g.target, ast.Tuple):
                    names = [t.id for t in g.target.elts]
                else:
                    names = [g.target.id]
                vs = [self.th.fresh('b_' + n) for n in (names[:1] if isinstance(it, Items) and it.counted else names)]
                binders += vs
                if isinstance(it, Elems):
                    env[names[0]] = vs[0]
                    d = mem(vs[0], it.v)
                elif it.counted:
                    d = item(vs[0], it.v)
                    env[names[0]], env[names[1]] = th.conv(vs[0]), th.occ(vs[0], it.v)
                elif it.d:
                    d = ditem(vs[0], vs[1], it.v)
                    env[names[0]], env[names[1]] = th.conv(vs[0]), th.conv(vs[1])
                else:
                    d = item(vs[0], it.v)
                    env[names[0]] = vs[0] if it.raw else th.conv(vs[0])
                doms.append(d)
                self.path.append(d)
                for c in g.ifs:
                    t = simp(self.ev(c, env))
                    conds.append(t)
                    self.path.append(t)
            val = self.ev(e.elt, env)
        finally:
            del self.path[n0:]
        return Gen(binders, doms, simp(And(*conds)) if conds else th.T, val)

    def ev_Call(self, e, env):
        T = self.th
        if isinstance(e.func, ast.Name):
            name = e.func.id
            if name in env:
                return env[name](*[self.ev(a, env) for a in e.args])
            if name in ('all', 'any', 'setof', 'msetof', 'the', 'unique', 'maxof', 'minof'):
                g = self.ev(e.args[0], env)
                a = (g.binders, g.doms, g.cond)
                if name == 'all':
                    return T.all(*a, g.val)
                if name == 'any':
                    return T.any(*a, g.val)
                if name == 'setof':
                    return T.setof(*a, g.val)
                if name == 'msetof':
                    return T.msetof(*a, g.val[0], simp(g.val[1]))
                if name == 'the':
                    return T.the(*a, g.val)
                if name == 'unique':
                    return T.unique(*a, g.val)
                return T.extremum(*a, g.val, 1 if name == 'maxof' else -1)
            if name == 'fold':
                lam, init, its = [self.ev(a, env) for a in e.args]
                acc, x = T.fresh('b_acc'), T.fresh('b_x')
                n0 = len(self.path)
                self.path += [And(kind(acc) >= 0, kind(acc) <= 4), item(x, its.v)]
                step = self.ev(lam.node.body, {**lam.env, **dict(zip([p.arg for p in lam.node.args.args], (acc, x)))})
                del self.path[n0:]
                return T.fold(acc, x, step, init, its.v)
            if name in ('setby', 'msetby'):
                lam = self.ev(e.args[0], env)
                v = T.fresh('b_y')
                f = simp(self.ev(lam.node.body, {**lam.env, lam.node.args.args[0].arg: v}))
                bs = []
                for b in e.args[1:]:
                    if isinstance(b, ast.Starred):
                        w = T.fresh('b_e')
                        bs.append(T.any([w], [mem(w, self.ev(b.value, env).v)], th.T, mem(v, w)))
                    else:
                        bs.append(mem(v, self.ev(b, env)))
                bnd = simp(Or(*bs))
                return T.setby(v, f, bnd) if name == 'setby' else T.msetby(v, f, bnd)
            return self.fn(name, [self.ev(a, env) for a in e.args])
        raise Unsupported('spec call')


def ite(c, l, r):
    if isinstance(l, tuple):
        return tuple(ite(c, p, q) for p, q in zip(l, r))
    return l if l.eq(r) else If(c, l, r)


def powerset(T, s):
    if 'Powerset' not in T.axioms:
        d = z3.Function('Powerset', V, V)
        T.axioms['Powerset'], T.info['Powerset'] = [], dict(tag='powerset')
        p, q = z3.Const('?a', V), z3.Const('?q', V)
        w = z3.Const('?w', V)
        sub = z3.ForAll([w], Implies(mem(w, q), mem(w, p)), patterns=[mem(w, q)])
        T.add('Powerset', th.fa([p], [d(p)], kind(d(p)) == 3))
        T.add('Powerset', th.fa([p, q], [mem(q, d(p))], mem(q, d(p)) == And(kind(q) == 3, sub)))
        T.add('Powerset', th.fa([p], [d(p)], And(mem(th.EMPTY, d(p)), Implies(kind(p) == 3, mem(p, d(p))))))
        T.add('Powerset', th.fa([p, q], [mem(q, d(p))], Implies(And(mem(q, d(p)), kind(p) == 3), th.card(q) <= th.card(p))))
        T.powerset = d
    return T.powerset(s)
