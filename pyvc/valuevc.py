"""Verification of equality, inequality and hash of math objects (C12).

__eq__, __ne__ and __hash__ of Atom, Couplet, Set and Multiset are executed symbolically from the source in /repo, all
paths; ==, != and hash of components go through their contracts (spec/values.py), with a termination measure; other calls
(get_hash) are executed in place. That equality is an equivalence, and that equal objects have equal hashes, are lemmas
over the contracts, proved by induction."""
import ast
import os
import time
import z3
from z3 import And, Or, Not, If, Implies, ForAll, Exists, BoolVal, IntVal
from spec import values as SP
from spec.values import V, P, T, I, B, vk
from pyvc import structvc as SV
from pyvc.structvc import Unsupported, Coll, Cell, Fn, Cls, Mod, Bi, New, Len, State, is_z3, simp, Source

MODS = {1: 'atom', 2: 'couplet', 3: 'set', 4: 'multiset'}
CLS = {n: c for c, n in SP.KINDS.items()}
BASE = 'algebraixlib.mathobjects.mathobject'
NOT_IMPLEMENTED = Bi('NotImplemented')
PUBLIC = {1: {'value': SP.pv}, 2: {'left': SP.vl, 'right': SP.vr}, 3: {'data': None}, 4: {'data': None}}
KIND_TEST = {'is_atom': 1, 'is_couplet': 2, 'is_set': 3, 'is_multiset': 4}


class Data:
    """The frozenset or Counter of the elements of x."""
    def __init__(self, x): self.x = x


class Items:
    """The pairs of element and multiplicity of the multiset x."""
    def __init__(self, x): self.x = x


class Keys:
    def __init__(self, x): self.x = x


class Splat:
    """The elements of a collection, in unknown order, within a sequence."""
    def __init__(self, c): self.c = c


class Frozen:
    """frozenset(c)"""
    def __init__(self, c): self.c = c


class Pair:
    def __init__(self, e, m): self.e, self.m = e, m


class ClassOf:
    def __init__(self, x): self.x = x


class Exec(SV.Exec):
    def __init__(self, src):
        super().__init__(src)
        self.bound, self.eq_first = None, False
        self.folds = []

    def feasible(self, st, c):
        s = z3.Solver()
        s.set('rlimit', 300000)
        s.set('smt.mbqi', False)
        s.set('smt.auto_config', False)
        s.add(*SP.TYPES)
        s.add(*st.pc)
        s.add(c)
        self.queries += 1
        t = time.time()
        r = s.check() != z3.unsat
        self.solver_s += time.time() - t
        return r

    def kind(self, st, o):
        """The kind of o on this path, or None."""
        for n in range(5):
            if not self.feasible(st, vk(o) != n):
                return n
        return None

    def is_undetermined(self, x): return is_z3(x, V)

    def global_(self, mod, name):
        m = self.src.mod(mod)
        if name == 'NotImplemented':
            return NOT_IMPLEMENTED
        if name in ('super', 'hasattr', 'sum', 'map', 'sorted', 'bool', 'int', 'str', 'Counter', 'dict', 'id') and name not in m.defs and name not in m.imports:
            return Bi(name)
        if name not in m.defs and name not in m.classes and name not in m.imports:
            for s in m.tree.body:       # constants of the module
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name and \
                        isinstance(s.value, ast.Constant):
                    return s.value.value
        return super().global_(mod, name)

    def imported(self, full):
        if full.startswith('.'):
            raise Unsupported('relative import')
        return super().imported(full)

    # --- attributes -------------------------------------------------------------------------------
    def lookup(self, kind, name):
        mod = 'algebraixlib.mathobjects.' + MODS[kind]
        d = self.src.method(mod, CLS[kind], name)
        if d is not None:
            return d, mod
        c = self.src.mod(mod).classes[CLS[kind]]
        for s in c.body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
                return s.value, mod
        d = self.src.method(BASE, 'MathObject', name)
        return (d, BASE) if d is not None else (None, None)

    def attr(self, o, name, st, node):
        if is_z3(o, V):
            return self.attr_object(o, name, st, node)
        if isinstance(o, (Data, Cell)):
            return [(st, Bi(name, o))]
        if isinstance(o, Cls):
            return [(st, Bi('class.' + name, o))]
        if isinstance(o, ClassOf) and name in ('__name__', '__qualname__'):
            return [(st, z3.Function('class_name', I, I)(vk(o.x)))]
        if isinstance(o, Bi) and o.name == 'super':
            return [(st, Bi('super.' + name, o.self_))]
        return super().attr(o, name, st, node)

    def attr_object(self, o, name, st, node):
        if name == '__class__':
            return [(st, ClassOf(o))]
        key = (o.get_id(), name)
        if key in st.fields:
            return [(st, st.fields[key])]
        out = []
        for n in range(5):
            c = vk(o) == n
            if not self.feasible(st, c):
                continue
            s = st
            if self.feasible(st, Not(c)):
                s = st.copy()
                s.pc.append(c)
            if n == 0:
                self.ob(s, 'no attribute %s: it may be no math object' % name, 'undef', BoolVal(False), node)
                continue
            if name in KIND_TEST:
                out.append((s, KIND_TEST[name] == n))
                continue
            pub = next((p for (m, a), p in self.private.items() if m == n and a == name), None)
            if pub is not None:
                out.append((s, self.component(o, n, pub)))
                continue
            if name == '_hash':
                h0 = z3.Function('_hash', V, I)(o)
                s = s.copy()
                # invariant: no hash is known, or the hash of the object (of an atom: always known)
                s.pc.append(h0 == SP.h(o) if n == 1 else Or(h0 == 0, h0 == SP.h(o)))
                s.fields[key] = h0
                out.append((s, h0))
                continue
            d, mod = self.lookup(n, name)
            if d is None:
                self.ob(s, 'no attribute %s of %s' % (name, CLS[n]), 'undef', BoolVal(False), node)
                continue
            if isinstance(d, ast.expr):
                try:
                    out += self.ev(d, s, self.frame(s, None, mod))
                except Unsupported:
                    out.append((s, Bi('constant ' + name)))
                continue
            f = Fn(d, mod, None, o)
            if name == '__eq__':
                out.append((s, Bi('__eq__', o)))
            elif name in ('__ne__', '__hash__'):
                out.append((s, Bi(name, o)))
            elif SV.is_property(d):
                out += self.call(f, [], {}, s, node)
            else:
                out.append((s, f))
        return out

    def component(self, o, n, pub):
        f = PUBLIC[n][pub]
        return Data(o) if f is None else f(o)

    # --- expressions ------------------------------------------------------------------------------
    def ev_Name(self, e, st, fr):
        if e.id == 'NotImplemented':
            return [(st, NOT_IMPLEMENTED)]
        return super().ev_Name(e, st, fr)

    def ev_List(self, e, st, fr):
        out = []
        for s, vs in self.seqs(e.elts, st, fr):
            s = s.copy()
            self.n += 1
            s.heap[self.n] = tuple(vs)
            out.append((s, Cell(self.n)))
        return out

    def ev_Tuple(self, e, st, fr): return [(s, tuple(vs)) for s, vs in self.seqs(e.elts, st, fr)]

    def seqs(self, es, st, fr):
        """The values of a sequence of expressions, which may have stars."""
        res = [(st, [])]
        for e in es:
            new = []
            for s, vs in res:
                if isinstance(e, ast.Starred):
                    new += [(s2, vs + self.spread(v, s2)) for s2, v in self.ev(e.value, s, fr)]
                else:
                    new += [(s2, vs + [v]) for s2, v in self.ev(e, s, fr)]
            res = new
        return res

    def spread(self, v, st):
        if isinstance(v, Cell):
            v = st.heap[v.key]
        if isinstance(v, tuple) and not (v and v[0] == 'gen'):
            return list(v)
        if isinstance(v, (Data, Items, Keys)):
            return [Splat(v)]
        if isinstance(v, Frozen):
            return [Splat(v.c)]
        raise Unsupported('star')

    def ev_Call(self, e, st, fr):
        out = []
        for s, f in self.ev(e.func, st, fr):
            if any(kw.arg is None for kw in e.keywords):
                raise Unsupported('star argument')
            for s2, vs in self.seqs(e.args, s, fr):
                for s3, ks in self.evs([kw.value for kw in e.keywords], s2, fr):
                    out += self.call(f, vs, dict(zip([kw.arg for kw in e.keywords], ks)), s3, e)
        return out

    def truth(self, v, st):
        if v is NOT_IMPLEMENTED:
            return True
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, (Data, Items, Keys)):
            q = self.fresh('q', V)
            return Exists([q], SP.vin(q, v.x))
        if isinstance(v, tuple):
            return self.length(v, st) > 0
        if isinstance(v, Cell):
            return self.length(st.heap[v.key], st) > 0
        if isinstance(v, Frozen):
            return self.truth(v.c, st)
        return super().truth(v, st)

    def length(self, v, st):
        """of a sequence; with stars a lower bound is not enough in general"""
        n, more = 0, []
        for t in v:
            if isinstance(t, Splat):
                more.append(self.card(t.c))
            else:
                n += 1
        return n if not more else n + sum(more[1:], more[0])

    def card(self, c):
        """number of elements (or of different elements)"""
        return SP.card(c.x)

    def compare(self, op, a, c, st, node):
        ne = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        neg = lambda t: (not t) if isinstance(t, bool) else simp(Not(t))
        eqs = isinstance(op, (ast.Eq, ast.NotEq))
        ident = isinstance(op, (ast.Is, ast.IsNot))
        if is_z3(a, V) and is_z3(c, V):
            if ident:
                t = a == c
            elif eqs:
                self.decreases(st, a, c, node, same_size=isinstance(op, ast.Eq))
                t = SP.veq(a, c)
            else:
                raise Unsupported('order')
            return [(st, neg(t) if ne else t)]
        if is_z3(a, P) and is_z3(c, P) and (eqs or ident):
            t = SP.peq(a, c) if eqs else a == c
            return [(st, neg(t) if ne else t)]
        if is_z3(a, T) and is_z3(c, T) and (eqs or ident):
            return [(st, a != c if ne else a == c)]
        if isinstance(a, (ClassOf, Cls)) and isinstance(c, (ClassOf, Cls)) and (eqs or ident):
            k = lambda t: vk(t.x) if isinstance(t, ClassOf) else IntVal(SP.KINDS.get(t.name, 99))
            return [(st, k(a) != k(c) if ne else k(a) == k(c))]
        if isinstance(a, Data) and isinstance(c, Data) and eqs:
            out = []
            for s, both in self.fork(st, vk(a.x) == vk(c.x)):
                if not both:
                    out.append((s, ne))
                    continue
                for s2, isset in self.fork(s, vk(a.x) == 3):
                    self.decreases(s2, a.x, c.x, node, elements=True)
                    t = SP.eqsets(a.x, c.x) if isset else SP.eqmsets(a.x, c.x)
                    out.append((s2, neg(t) if ne else t))
            return out
        unwrap = lambda t: t.c if isinstance(t, Frozen) else t
        if isinstance(unwrap(a), (Items, Keys)) and type(unwrap(a)) is type(unwrap(c)) and eqs:
            p, q = unwrap(a).x, unwrap(c).x
            self.decreases(st, p, q, node, elements=True)
            t = SP.eqmsets(p, q) if isinstance(unwrap(a), Items) else SP.eqsets(p, q)
            return [(st, neg(t) if ne else t)]
        if ident and (a is NOT_IMPLEMENTED or c is NOT_IMPLEMENTED):
            return [(st, (a is c) != ne)]
        if isinstance(a, (bool,)) and is_z3(c, B) or is_z3(a, B) and isinstance(c, bool) or is_z3(a, B) and is_z3(c, B):
            if eqs or ident:
                return [(st, neg(a == c) if ne else a == c)]
        return super().compare(op, a, c, st, node)

    def decreases(self, st, a, c, node, elements=False, same_size=False):
        self.used.add('==')
        if self.bound is None:
            return
        if elements or same_size and self.eq_first:        # the elements are smaller than the objects; __ne__ may use __eq__
            self.ob(st, 'recursion terminates: comparison of the elements', 'value', SP.size(a) + SP.size(c) <= self.bound, node)
        else:
            self.ob(st, 'recursion terminates: comparison of components', 'value', SP.size(a) + SP.size(c) < self.bound, node)

    # --- calls ------------------------------------------------------------------------------------
    def isinst(self, x, c):
        if isinstance(c, tuple):
            ts = [self.isinst(x, q) for q in c]
            return any(ts) if all(isinstance(t, bool) for t in ts) else Or(*[t if not isinstance(t, bool) else BoolVal(t) for t in ts])
        if isinstance(c, ClassOf) and is_z3(x, V):
            return vk(x) == vk(c.x)
        if isinstance(c, Cls) and is_z3(x, V):
            if c.name == 'MathObject':
                return vk(x) >= 1
            if c.name in SP.KINDS:
                return vk(x) == SP.KINDS[c.name]
        if isinstance(c, Cls) and is_z3(x, P) and (c.name == 'MathObject' or c.name in SP.KINDS):
            return False
        raise Unsupported('isinstance')

    def construct(self, c, args, kw, st, node):
        raise Unsupported('constructor')

    def builtin(self, f, args, kw, st, node):
        name = f.name
        if kw:
            raise Unsupported('keywords of ' + name)
        if name in ('__eq__', '__ne__') and is_z3(f.self_, V) and len(args) == 1:
            return self.compare(ast.Eq() if name == '__eq__' else ast.NotEq(), f.self_, args[0], st, node)
        if name == '__hash__' and is_z3(f.self_, V):
            return self.hash_(f.self_, st, node)
        if name == 'isinstance':
            return [(st, self.isinst(*args))]
        if name == 'super' and not args:
            return [(st, Bi('super', New()))]
        if name == 'super.__init__':
            return [(st, None)]         # MathObject.__init__ writes _flags only (obligation of the writers)
        if name == 'hasattr':
            if is_z3(args[0], V) and isinstance(args[1], str):
                return [(st, z3.Const('initialised', B))]
            raise Unsupported('hasattr')
        if name == 'type' and len(args) == 1:
            if is_z3(args[0], P):
                return [(st, SP.ptype(args[0]))]
            if is_z3(args[0], V):
                return [(st, ClassOf(args[0]))]
        if name == 'bool' and len(args) == 1:
            return [(st, self.truth(args[0], st))]
        if name == 'len' and len(args) == 1:
            v = args[0]
            if isinstance(v, Cell):
                v = st.heap[v.key]
            if isinstance(v, tuple):
                return [(st, self.length(v, st))]
            if isinstance(v, Frozen):
                v = v.c
            if isinstance(v, (Data, Items, Keys)):
                return [(st, self.card(v))]
        if isinstance(f.self_, Data) and not args:
            if name == 'items':
                return [(st, Items(f.self_.x))]
            if name == 'keys':
                return [(st, Keys(f.self_.x))]
        if isinstance(f.self_, Cell) and isinstance(st.heap[f.self_.key], tuple):
            st = st.copy()
            old = st.heap[f.self_.key]
            if name == 'append' and len(args) == 1:
                st.heap[f.self_.key] = old + (args[0],)
                return [(st, None)]
            if name == 'extend' and len(args) == 1:
                st.heap[f.self_.key] = old + tuple(self.spread(args[0], st))
                return [(st, None)]
            raise Unsupported('list.' + name)
        if name in ('list', 'tuple') and len(args) == 1:
            vs = tuple(self.spread(args[0], st))
            if name == 'tuple':
                return [(st, vs)]
            st = st.copy()
            self.n += 1
            st.heap[self.n] = vs
            return [(st, Cell(self.n))]
        if name == 'frozenset' and len(args) == 1 and isinstance(args[0], (Data, Items, Keys)):
            return [(st, Frozen(args[0]))]
        if name == 'hash' and len(args) == 1:
            return self.hash_(args[0], st, node)
        if name == 'sum' and len(args) == 1 and isinstance(args[0], tuple) and args[0] and args[0][0] == 'gen':
            raise Unsupported('sum')
        raise Unsupported('call of ' + name)

    def hash_(self, v, st, node):
        if isinstance(v, str):
            return [(st, z3.Function('hash_of_text', z3.StringSort(), I)(z3.StringVal(v)))]
        if isinstance(v, (int, bool)) or is_z3(v, I):
            return [(st, z3.Function('hash_of_int', I, I)(IntVal(int(v)) if not is_z3(v) else v))]
        if is_z3(v, P):
            return [(st, SP.phash(v))]
        if is_z3(v, T):
            return [(st, SP.thash(v))]
        if isinstance(v, (Cls, ClassOf)):
            n = vk(v.x) if isinstance(v, ClassOf) else IntVal(SP.KINDS.get(v.name, 99))
            return [(st, z3.Function('hash_of_class', I, I)(n))]
        if is_z3(v, V):
            self.used.add('hash')
            if self.bound is not None:
                self.ob(st, 'recursion terminates: hash of a component', 'value', SP.size(v) < self.bound, node)
            return [(st, SP.h(v))]
        if isinstance(v, Data) and self.kind(st, v.x) == 3:
            self.used.add('hash')
            return [(st, SP.hset(v.x))]
        if isinstance(v, Frozen):
            self.used.add('hash')
            return [(st, (SP.hitems if isinstance(v.c, Items) else SP.hset)(v.c.x))]
        if isinstance(v, Pair):
            self.used.add('hash')
            return [(st, SP.pairhash(SP.h(v.e), v.m))]
        if isinstance(v, tuple) and not any(isinstance(t, Splat) for t in v):
            res = [(st, IntVal(len(v)))]
            for t in v:
                res = [(s2, z3.Function('tuple_hash', I, I, I)(a, b)) for s, a in res for s2, b in self.hash_(t, s, node)]
            return res
        raise Unsupported('hash')

    # --- statements -------------------------------------------------------------------------------
    def stmt(self, s, st, fr):
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(t, ast.Attribute) for t in ts):
                out = []
                for q, v in self.ev(s.value, st, fr):
                    q = q.copy()
                    for t in ts:
                        if isinstance(t, ast.Name):
                            q.frames[fr][t.id] = v
                            continue
                        if not isinstance(t, ast.Attribute):
                            raise Unsupported('assignment')
                        for q2, o in self.ev(t.value, q, fr):
                            if not is_z3(o, V):
                                raise Unsupported('assignment to ' + ast.unparse(t))
                            q.fields[o.get_id(), t.attr] = v
                    out.append((q, 'next', None))
                return out
        return super().stmt(s, st, fr)

    def loop(self, s, st, fr):
        if s.orelse:
            raise Unsupported('loop')
        live, out = [], []
        for q, c in self.ev(s.iter, st, fr):
            seq = self.spread(c, q) if not (isinstance(c, tuple) and not (c and c[0] == 'gen')) else list(c)
            now = [q]
            for v in seq:
                new = []
                for q2 in now:
                    if isinstance(v, Splat):
                        ex, nx = self.fold(s, v.c, q2, fr)
                        out += ex
                        new += nx
                        continue
                    q2 = q2.copy()
                    self.bind(s.target, v, q2, fr)
                    for q3, o, w in self.block(s.body, q2, fr):
                        if o in ('next', 'continue'):
                            new.append(q3)
                        elif o == 'break':
                            raise Unsupported('break')
                        else:
                            out.append((q3, o, w))
                now = new
            live += now
        return out + [(q, 'next', None) for q in live]

    def bind(self, t, v, q, fr):
        if isinstance(t, ast.Name):
            q.frames[fr][t.id] = v
        elif isinstance(t, ast.Tuple) and isinstance(v, Pair) and len(t.elts) == 2:
            self.bind(t.elts[0], v.e, q, fr)
            self.bind(t.elts[1], v.m, q, fr)
        elif isinstance(t, ast.Tuple) and isinstance(v, tuple) and len(v) == len(t.elts):
            for a, b in zip(t.elts, v):
                self.bind(a, b, q, fr)
        else:
            raise Unsupported('loop target')

    def element(self, c, q, name):
        e = self.fresh(name, V)
        q.pc.append(SP.vin(e, c.x))
        if isinstance(c, Items):
            return e, Pair(e, SP.mu(e, c.x))
        return e, e

    def fold(self, s, c, st, fr):
        """One integer variable changes: the result depends on the elements only if the order does not matter (obligation)."""
        q = st.copy()
        e, v = self.element(c, q, 'elem')
        self.bind(s.target, v, q, fr)
        names = {t.id for t in ast.walk(s.target) if isinstance(t, ast.Name)}
        ends = self.block(s.body, q, fr)
        if len(ends) != 1 or ends[0][1] not in ('next', 'continue') or len(ends[0][0].pc) != len(q.pc):
            return self.search_loop(s, c, e, q, ends, st)
        changed = [(f, n) for f, vs in st.frames.items() for n, v0 in vs.items() if n not in names and ends[0][0].frames[f].get(n) is not v0]
        if any(ends[0][0].heap[i] is not w for i, w in st.heap.items()) or ends[0][0].fields != st.fields:
            raise Unsupported('loop with side effects')
        if not changed:
            return [], [st]
        if len(changed) != 1:
            raise Unsupported('loop')
        f, n = changed[0]
        init = st.frames[f][n]
        init = IntVal(init) if isinstance(init, int) else init
        if not is_z3(init, I):
            raise Unsupported('loop variable')
        acc = self.fresh('acc', I)
        q = st.copy()
        q.frames[f][n] = acc
        self.bind(s.target, v, q, fr)
        q.pc.append(SP.vin(e, c.x))
        (q2, o, _), = self.block(s.body, q, fr)
        step = q2.frames[f][n]
        step = IntVal(step) if isinstance(step, int) else step
        if not is_z3(step, I):
            raise Unsupported('loop variable')
        a, e2, m, m2 = self.fresh('a', I), self.fresh('e', V), self.fresh('m', I), self.fresh('m', I)
        mult = SP.mu(e, c.x)
        at = lambda x_, e_, m_: z3.substitute(z3.substitute(step, (mult, m_)), (e, e_), (acc, x_))
        i1, i2, i3 = z3.Ints('i1 i2 i3')
        laws = [ForAll([i1, i2, i3], g_(g_(i1, i2), i3) == g_(g_(i1, i3), i2), patterns=[g_(g_(i1, i2), i3)])
                for g_ in (z3.Function('int_' + n_, I, I, I) for n_ in ('BitXor', 'BitOr', 'BitAnd', 'Mult'))]
        self.ob(st, 'the result of the loop does not depend on the order of the elements', 'value', Implies(And(*laws), And(
            at(at(a, e, m), e2, m2) == at(at(a, e2, m2), e, m))), s)
        ih = Implies(And(SP.veq(e, e2), SP.vk(e) >= 1, SP.vk(e2) >= 1), SP.h(e) == SP.h(e2))
        self.ob(st, 'the step of the loop is the same for equal elements', 'value',
                Implies(And(SP.veq(e, e2), SP.size(e) < SP.size(c.x), ih), at(a, e, m) == at(a, e2, m)), s)
        i = len(self.folds)
        F = z3.Function('fold_%s_%d' % (self.where, i), I, V, I)
        x, y, k = z3.Const('x', V), z3.Const('y', V), z3.Const('k', I)
        match = SP.eqmsets(x, y) if isinstance(c, Items) else SP.eqsets(x, y)
        self.folds.append(ForAll([x, y, k], Implies(match, F(k, x) == F(k, y)), patterns=[z3.MultiPattern(F(k, x), F(k, y))]))
        st = st.copy()
        st.frames[f][n] = F(init, c.x)
        for t in names:
            st.frames[fr].pop(t, None)
        return [], [st]

    def search_loop(self, s, c, e, q, ends, st):
        """Nothing is carried: a return at some element, or none for every element."""
        n0 = len(q.pc)
        exits, cond = [], []
        for q2, o, v in ends:
            if o in ('next', 'continue'):
                continue
            if o == 'break':
                raise Unsupported('break')
            exits.append((q2, o, v))
            cond.append(And(*q2.pc[n0:]) if q2.pc[n0:] else BoolVal(True))
        rest = st.copy()
        if cond:
            rest.pc.append(ForAll([e], Not(And(SP.vin(e, c.x), Or(*cond)))))
        return exits, [rest]


class Result(SV.Result):
    def __init__(self, key, src=None):
        super().__init__(key)
        self.ex = Exec(src) if src is not None else None

    def add(self, name, clause, where, hyps, goal):
        t = time.time()
        ok = prove(hyps, goal)
        o = dict(name=name, clause=clause, where=where, ok=ok, s=round(time.time() - t, 3))
        if not ok:
            self.r['status'] = 'failed'
            o['output'] = 'under\n%s\nthe solver does not prove\n  %s' % ('\n'.join('  ' + str(h).replace('\n', ' ')[:400] for h in hyps[-12:]), str(goal)[:1500])
        self.r['obs'].append(o)


class Solver(SV.Solver):
    seconds, queries = 0, 0

    @classmethod
    def check(cls, hyps, goal, rlimit, seed=0):
        s = z3.Solver()
        s.set('rlimit', rlimit)
        s.set('smt.random_seed', seed + int(os.environ.get('PYVC_SEED', '0')))
        s.set('smt.mbqi', False)
        s.set('smt.auto_config', False)
        s.add(*SP.TYPES, *SP.PLAIN, *hyps, Not(goal))
        t = time.time()
        r = s.check()
        cls.seconds += time.time() - t
        cls.queries += 1
        return r == z3.unsat


def prove(hyps, goal): return SV.prove(hyps, goal, solver=Solver)


def formula(L): return SP.fa(L['vs'], L['pats'], Implies(L['hyp'], L['goal']))


def lemmas(): return [SP.VEQ] + [formula(L) for L in SP.LEMMAS.values()]


# collections with the same elements have the same number of them
CARD = SP.fa([SP.x, SP.y], [(SP.card(SP.x), SP.card(SP.y))], Implies(SP.eqsets(SP.x, SP.y), SP.card(SP.x) == SP.card(SP.y)))
# equal objects have equal hashes: obligations of __hash__
EQHASH = SP.fa([SP.x, SP.y], [(SP.h(SP.x), SP.h(SP.y))], Implies(SP.veq(SP.x, SP.y), SP.h(SP.x) == SP.h(SP.y)))


def lemma(name):
    L = SP.LEMMAS[name]
    R = Result('lemma: ' + name)
    sk = [z3.Const(str(q) + '0', q.sort()) for q in L['vs']]
    f = lambda t: z3.substitute(t, *zip(L['vs'], sk))
    hyps = list(L['defs']) + [SP.fa(L['vs'], L['pats'], Implies(And(L['hyp'], L['measure'] < f(L['measure'])), L['goal']))]
    R.add(name, 'value', 'spec/values.py', hyps + [f(L['hyp'])], f(L['goal']))
    return R.finish()


class Verifier:
    def __init__(self, repo):
        self.src = Source(repo)
        self.private = {}
        for n, fs in PUBLIC.items():
            for f in fs:
                d = self.src.method(self.mod(n), CLS[n], f)
                self.private[n, f] = f
                a = SV.stored(d) if d is not None else None
                if a is None:
                    raise Unsupported('property %s of %s' % (f, CLS[n]))
                self.private[n, a] = f

    def mod(self, n): return 'algebraixlib.mathobjects.' + MODS[n]

    def result(self, key, n):
        R = Result(key, self.src)
        R.ex.private = self.private
        R.ex.where = CLS[n]
        return R

    def rel(self, n): return 'algebraixlib/mathobjects/%s.py' % MODS[n]

    def own(self, n, name):
        c = self.src.mod(self.mod(n)).classes.get(CLS[n])
        if c is None:
            raise Unsupported('no class ' + CLS[n])
        ds = [d for d in c.body if isinstance(d, ast.FunctionDef) and d.name == name]
        if not ds and any(isinstance(d, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in d.targets) for d in c.body):
            raise Unsupported('%s is assigned' % name)
        return ds[-1] if ds else None

    def relation(self, n, name):
        R = self.result('mathobjects.%s.%s.%s' % (MODS[n], CLS[n], name), n)
        d, mod = R.ex.lookup(n, name)
        if d is None or mod == BASE or isinstance(d, ast.expr):
            R.add('it is defined', 'value', self.rel(n), [], BoolVal(False))
            return R.finish()
        x, y = z3.Const('self0', V), z3.Const('other0', V)
        st = State()
        st.pc = [vk(x) == n]
        R.ex.bound = SP.size(x) + SP.size(y)
        R.ex.eq_first = name == '__ne__'
        hyps = lemmas() + [EQHASH, CARD]
        goal = lambda r: r == SP.veq(x, y) if name == '__eq__' else r == Not(SP.veq(x, y))
        paths = 0
        for s, v in R.ex.invoke(Fn(d, mod, None, x), [y], {}, self.start(st, R), d):
            paths += 1
            where = '%s:%d path %d' % (self.rel(n), d.lineno, paths)
            if v is NOT_IMPLEMENTED:
                # the other operand is asked; without an answer: identity
                R.add('no answer only for objects that are not equal', 'value', where, hyps + s.pc, And(Not(SP.veq(x, y)), x != y))
                continue
            if isinstance(v, bool):
                v = BoolVal(v)
            R.add('result', 'value', where, hyps + s.pc, goal(v) if is_z3(v, B) else BoolVal(False))
        if not paths:
            R.add('some path returns', 'vacuity', self.rel(n), [], BoolVal(False))
        R.obligations(hyps, self.rel(n))
        return R.finish()

    def getter(self, n, f):
        R = self.result('mathobjects.%s.%s.%s' % (MODS[n], CLS[n], f), n)
        R.ex.private = {q: v for q, v in self.private.items() if q[1].startswith('_')}
        d = self.own(n, f)
        x = z3.Const('self0', V)
        st = State()
        st.pc = [vk(x) == n]
        for s, v in R.ex.invoke(Fn(d, self.mod(n), None, x), [], {}, self.start(st, R), d):
            c = R.ex.component(x, n, f)
            ok = isinstance(v, Data) and v.x.eq(x) if isinstance(c, Data) else is_z3(v, c.sort()) and v == c
            R.add('the component is returned', 'value', '%s:%d' % (self.rel(n), d.lineno), s.pc, BoolVal(ok) if isinstance(ok, bool) else ok)
            R.add('nothing is written', 'frame', '%s:%d' % (self.rel(n), d.lineno), s.pc, BoolVal(not [k for k in s.fields]))
        R.obligations(lemmas(), self.rel(n))
        return R.finish()

    def start(self, st, R):
        R.ex.n += 1
        st.frames[R.ex.n] = {'<outer>': None, '<module>': BASE}
        return st

    def hash_paths(self, R, n, x):
        """[(path, result, _hash afterwards)] of __hash__, or of the constructor of atoms, which stores the hash"""
        ex = R.ex
        st = State()
        st.pc = [vk(x) == n]
        ex.bound = SP.size(x)
        d, mod = ex.lookup(n, '__hash__')
        out = []
        for s, v in ex.invoke(Fn(d, mod, None, x), [], {}, self.start(st, R), d):
            out.append((s, v, s.fields.get((x.get_id(), '_hash'))))
        return out

    def atom_init(self, R, x):
        """The constructor of atoms: [(path, value, hash)]"""
        ex = R.ex
        st = State()
        st.pc = [vk(x) == 1]
        d = self.own(1, '__init__')
        if d is None:
            raise Unsupported('no constructor of atoms')
        p = z3.Const('value0', P)
        ini = z3.Const('initialised', B)
        out = []
        args = [p] + [z3.Const('direct_load0', B)] * (len(d.args.args) - 2)
        st.pc.append(Not(ini))
        for s, v in ex.invoke(Fn(d, self.mod(1), None, x), args, {}, self.start(st, R), d):
            out.append((s, s.fields.get((x.get_id(), '_value')), s.fields.get((x.get_id(), '_hash')), p))
        st = State()
        st.pc = [vk(x) == 1, ini]
        same = ex.invoke(Fn(d, self.mod(1), None, x), args, {}, self.start(st, R), d)
        for s, v in same:
            R.add('an atom that is initialised again keeps its value and hash', 'value', self.rel(1), [],
                  BoolVal((x.get_id(), '_value') not in s.fields and (x.get_id(), '_hash') not in s.fields))
        return out

    def defs(self, R, n):
        """Equations of h for kind n, from the source."""
        x = z3.Const('self0', V)
        key = (x.get_id(), '_hash')
        out = []
        if n == 1:
            paths = self.atom_init(R, x)
            if not paths:
                raise Unsupported('constructor of atoms')
            for s, v, hv, p in paths:
                if not is_z3(hv, I) or not is_z3(v, P):
                    raise Unsupported('constructor of atoms')
                R.add('the atom holds the given value', 'value', self.rel(1), s.pc, v == p)
                sub = lambda t: z3.substitute(t, (p, SP.pv(x)))
                out.append(ForAll([x], Implies(And(*[sub(t) for t in s.pc if 'initialised' not in str(t)]), SP.h(x) == sub(hv)), patterns=[SP.h(x)]))
            for s, v, h1 in self.hash_paths(R, 1, x):
                R.add('the hash is that of the constructor', 'value', self.rel(1), s.pc, v == SP.h(x) if is_z3(v, I) else BoolVal(False))
            return out
        h0 = z3.Function('_hash', V, I)(x)
        for s, v, h1 in self.hash_paths(R, n, x):
            v = IntVal(v) if isinstance(v, int) else v
            if not is_z3(v, I):
                raise Unsupported('hash')
            h1 = IntVal(h1) if isinstance(h1, int) else h1
            pc = [t for t in s.pc if not self.mentions(t, h0)]
            fresh = not self.mentions(v, h0) and R.ex.feasible(s, h0 == 0)
            if fresh:
                out.append(ForAll([x], Implies(And(*pc), SP.h(x) == v), patterns=[SP.h(x)]))
                R.pending.append(('the hash is stored', s.pc, h1 == v if h1 is not None and is_z3(h1, I) and not h1.eq(h0) else (Or(h0 == 0, h0 == v))))
            else:
                R.pending.append(('the stored hash is returned', s.pc, v == SP.h(x)))
                R.pending.append(('the hash stays stored', s.pc, Or(h1 == 0, h1 == SP.h(x)) if h1 is not None else BoolVal(True)))
        return out

    def mentions(self, t, f):
        stack, seen = [t], set()
        while stack:
            q = stack.pop()
            if q.get_id() in seen:
                continue
            seen.add(q.get_id())
            if q.eq(f):
                return True
            stack += q.children()
        return False

    def hashing(self, n):
        R = self.result('mathobjects.%s.%s.__hash__' % (MODS[n], CLS[n]), n)
        R.pending = []
        if self.own(n, '__eq__') is not None and self.own(n, '__hash__') is None:
            R.add('a class that defines __eq__ defines __hash__', 'value', self.rel(n), [], BoolVal(False))
            return R.finish()
        defs = self.defs(R, n)
        for name, pc, g in R.pending:
            R.add(name, 'value', self.rel(n), defs + pc, g)
        x, y = SP.x, SP.y
        match = lambda f, m: ForAll([x, y], Implies(m(x, y), f(x) == f(y)), patterns=[z3.MultiPattern(f(x), f(y))])
        a, c = z3.Const('x0', V), z3.Const('y0', V)
        ih = ForAll([x, y], Implies(And(SP.veq(x, y), SP.size(x) + SP.size(y) < SP.size(a) + SP.size(c)), SP.h(x) == SP.h(y)), patterns=[SP.veq(x, y)])
        # the hash of a frozenset depends on the hashes of its elements only; those of its elements are equal by induction
        sets = [match(SP.hset, SP.eqsets), match(SP.hitems, SP.eqmsets), CARD]
        R.add('equal objects have equal hashes', 'value', self.rel(n), [SP.VEQ] + defs + sets + R.ex.folds + [ih, vk(a) == n, vk(c) == n, SP.veq(a, c)], SP.h(a) == SP.h(c))
        R.obligations(lemmas(), self.rel(n))
        return R.finish()

    def writers(self):
        """Only constructors write the components; only constructors and __hash__ write _hash; constructors do not keep a wrong hash."""
        R = Result('writers of the components of math objects')
        bad, n0 = [], 0
        fields = {a for (n, a) in self.private if a.startswith('_')} | {'_hash'}
        for dp, _, fs in os.walk(os.path.join(self.src.repo, 'algebraixlib')):
            for fn in sorted(fs):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(dp, fn)
                rel = os.path.relpath(path, self.src.repo)
                if rel == SV.SRC or rel.endswith('util/test.py'):
                    continue
                tree = ast.parse(open(path, encoding='utf-8').read())
                for owner, fname, node in self.stores(tree):
                    if node.attr not in fields:
                        continue
                    n0 += 1
                    known = rel in {self.rel(n) for n in MODS} and owner in CLS.values() and isinstance(node.value, ast.Name) and node.value.id == 'self'
                    if known and (fname == '__init__' or fname == '__hash__' and node.attr == '_hash'):
                        continue
                    bad.append('%s:%d' % (rel, node.lineno))
        if bad:
            raise Unsupported('further writers: ' + ', '.join(bad))
        R.add('components and hashes are written only by constructors (and __hash__)', 'frame', 'algebraixlib', [], BoolVal(True))
        for n in (2, 3, 4):
            d = self.own(n, '__init__')
            for a in ast.walk(d):
                if isinstance(a, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == '_hash' for t in a.targets):
                    if not isinstance(a.value, ast.Constant):
                        raise Unsupported('hash in the constructor of ' + CLS[n])
                    R.add('the constructor of %s stores no hash' % CLS[n], 'value', '%s:%d' % (self.rel(n), a.lineno), [], BoolVal(a.value.value == 0))
        return R.finish()

    def stores(self, tree):
        """(class, function, attribute) of the stores into attributes"""
        def walk(node, owner, fname):
            for c in ast.iter_child_nodes(node):
                o, f = owner, fname
                if isinstance(c, ast.ClassDef):
                    o = c.name
                elif isinstance(c, ast.FunctionDef):
                    f = c.name
                if isinstance(c, ast.Attribute) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    yield o, f, c
                yield from walk(c, o, f)
        return walk(tree, None, None)


def jobs():
    r = {}
    for n in MODS:
        for name in ('__eq__', '__ne__'):
            r['mathobjects.%s.%s.%s' % (MODS[n], CLS[n], name)] = lambda vf, n=n, name=name: vf.relation(n, name)
        for f in PUBLIC[n]:
            r['mathobjects.%s.%s.%s' % (MODS[n], CLS[n], f)] = lambda vf, n=n, f=f: vf.getter(n, f)
        r['mathobjects.%s.%s.__hash__' % (MODS[n], CLS[n])] = lambda vf, n=n: vf.hashing(n)
    r['writers of the components of math objects'] = lambda vf: vf.writers()
    for name in SP.LEMMAS:
        r['lemma: ' + name] = lambda vf, name=name: lemma(name)
    return r


def keys(): return list(jobs())


def one(job):
    repo, key = job
    return SV.attempt(key, lambda: jobs()[key](Verifier(repo)), Solver)


def run(repo): return SV.pooled(one, [(repo, key) for key in jobs()])


if __name__ == '__main__':
    SV.main(run)
