"""Verification of structures and ground sets (C16): structure.py, get_ground_set of the math objects and of the algebras.

Every path of every method is executed symbolically from the source in /repo; calls of is_subset, is_same,
get_powerset_level and of get_ground_set of elements go through their contracts (spec/structures.py), with a
termination measure; other calls are executed in place. The order, soundness and ground set properties are lemmas over
the contracts, proved by induction."""
import ast
import os
import time
import z3
from z3 import And, Or, Not, If, Implies, ForAll, Exists, BoolVal, IntVal
from spec import structures as SP
from spec.structures import S, V, I, B, k, vk

SRC = 'algebraixlib/structure.py'
MOS = {1: 'atom', 2: 'couplet', 3: 'set', 4: 'multiset'}
CLS = {1: 'Atom', 2: 'Couplet', 3: 'Set', 4: 'Multiset'}
CONTRACT = {'is_subset': lambda x, y: SP.sub(x, y), 'is_same': lambda x, y: SP.same(x, y),
            'get_powerset_level': lambda x, y: SP.lev(x, y)}
RLIMIT = 30000000
simp = z3.simplify


class Unsupported(Exception):
    pass


class Coll:
    """A collection: predicate of its elements."""
    def __init__(self, pred, sort=S, owner=None, the=None):
        self.pred, self.sort, self.owner, self.the = pred, sort, owner, the


class Len:
    def __init__(self, c): self.c = c


class Cell:
    """A mutable set, with the key of its content in the state."""
    def __init__(self, key): self.key = key


class Fn:
    def __init__(self, node, module, frame=None, self_=None, cls=None):
        self.node, self.module, self.frame, self.self_, self.cls = node, module, frame, self_, cls


class Cls:
    def __init__(self, module, name): self.module, self.name = module, name


class Mod:
    def __init__(self, name): self.name = name


class Name:
    """The full name of the class of x."""
    def __init__(self, x): self.x = x


class TypeOf:
    def __init__(self, x): self.x = x


class Bi:
    def __init__(self, name, self_=None): self.name, self.self_ = name, self_


class New:
    """The object under construction."""


class Iter:
    def __init__(self, c): self.c = c


class State:
    def __init__(self):
        self.pc, self.frames, self.heap, self.fields, self.ghost = [], {}, {}, {}, None

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.frames = {i: dict(f) for i, f in self.frames.items()}
        s.heap, s.fields, s.ghost = dict(self.heap), dict(self.fields), self.ghost
        return s


class Ob:
    def __init__(self, name, clause, pc, goal, node):
        self.name, self.clause, self.pc, self.goal, self.node = name, clause, list(pc), goal, node


def is_z3(v, sort=None): return z3.is_expr(v) and (sort is None or v.sort() == sort)


class Module:
    def __init__(self, repo, rel):
        self.rel = rel
        self.tree = ast.parse(open(os.path.join(repo, rel), encoding='utf-8').read())
        self.defs, self.classes, self.imports = {}, {}, {}
        for d in self.tree.body:
            if isinstance(d, ast.FunctionDef):
                self.defs[d.name] = d
            elif isinstance(d, ast.ClassDef):
                self.classes[d.name] = d
            elif isinstance(d, ast.Import):
                for a in d.names:
                    self.imports[a.asname or a.name] = a.name
            elif isinstance(d, ast.ImportFrom):
                base = d.module or ''
                if d.level:
                    pkg = rel[:-3].replace('/', '.').split('.')
                    base = '.'.join(pkg[:len(pkg) - d.level] + ([d.module] if d.module else []))
                for a in d.names:
                    self.imports[a.asname or a.name] = '%s.%s' % (base, a.name)


class Source:
    def __init__(self, repo):
        self.repo, self.mods = repo, {}

    def mod(self, name):
        if name not in self.mods:
            rel = name.replace('.', '/') + '.py'
            if not os.path.exists(os.path.join(self.repo, rel)):
                raise Unsupported('module ' + name)
            self.mods[name] = Module(self.repo, rel)
        return self.mods[name]

    def method(self, mod, cls, name):
        """The definition of a method or property, from the class or its base class in the same module."""
        m = self.mod(mod)
        while cls in m.classes:
            c = m.classes[cls]
            for d in c.body:
                if isinstance(d, ast.FunctionDef) and d.name == name:
                    return d
            cls = next((x.id for x in c.bases if isinstance(x, ast.Name)), None)
        return None


def stored(d):
    """The attribute of the object that a property returns (that it does is an obligation of its own), or None."""
    me = d.args.args[0].arg if d.args.args else None
    names = {x.attr for x in ast.walk(d) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me}
    return names.pop() if len(names) == 1 else None


def is_property(d): return any(isinstance(x, ast.Name) and x.id == 'property' for x in d.decorator_list)


class Exec:
    def __init__(self, src):
        self.src = src
        self.n = 0
        self.obs, self.used, self.inlined = [], set(), set()
        self.calls = []
        self.depth = 0
        self.where = ''
        self.private = {}           # (class, private attribute) -> public component
        self.measure = None
        self.solver_s, self.queries = 0, 0
        self.recursive = {}

    def fresh(self, name, sort):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), sort)

    def ob(self, st, name, clause, goal, node):
        if not z3.is_true(simp(goal)):
            self.obs.append(Ob(name, clause, st.pc, goal, node))

    def feasible(self, st, c):
        """False only if the condition contradicts the path (arithmetic over kinds only)."""
        s = z3.Solver()
        s.set('rlimit', 300000)
        s.set('smt.mbqi', False)
        s.set('smt.auto_config', False)
        s.add(*SP.TYPES, *SP.ITEMS)
        s.add(*st.pc)
        s.add(c)
        self.queries += 1
        t = time.time()
        r = s.check() != z3.unsat
        self.solver_s += time.time() - t
        return r

    def fork(self, st, c):
        """[(state, bool)] for a condition"""
        if isinstance(c, bool):
            return [(st, c)]
        c = simp(c)
        if z3.is_true(c) or z3.is_false(c):
            return [(st, z3.is_true(c))]
        out = []
        for val, cond in ((True, c), (False, simp(Not(c)))):
            if self.feasible(st, cond):
                s = st.copy()
                s.pc.append(cond)
                out.append((s, val))
        return out

    # --- expressions ------------------------------------------------------------------------------
    def evs(self, es, st, fr):
        res = [(st, [])]
        for e in es:
            res = [(s2, vs + [v]) for s, vs in res for s2, v in self.ev(e, s, fr)]
        return res

    def ev(self, e, st, fr):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(type(e).__name__)
        return m(e, st, fr)

    def ev_Constant(self, e, st, fr): return [(st, e.value)]

    def ev_JoinedStr(self, e, st, fr): return [(st, 'text')]

    def ev_Name(self, e, st, fr):
        f = fr
        while f is not None:
            d = st.frames[f]
            if e.id in d:
                return [(st, d[e.id])]
            f = d.get('<outer>')
        return [(st, self.global_(st.frames[fr]['<module>'], e.id))]

    def global_(self, mod, name):
        m = self.src.mod(mod)
        if name in m.defs:
            return Fn(m.defs[name], mod)
        if name in m.classes:
            return Cls(mod, name)
        if name in m.imports:
            return self.imported(m.imports[name])
        if name in ('len', 'any', 'all', 'isinstance', 'type', 'hash', 'frozenset', 'set', 'next', 'iter', 'list', 'tuple', 'bool', 'issubclass'):
            return Bi(name)
        raise Unsupported('name ' + name)

    def imported(self, full):
        if full.startswith('algebraixlib'):
            if os.path.exists(os.path.join(self.src.repo, full.replace('.', '/') + '.py')):
                return Mod(full)
            mod, _, name = full.rpartition('.')
            if os.path.exists(os.path.join(self.src.repo, mod.replace('.', '/') + '.py')):
                return self.global_(mod, name)
        return Mod(full)

    def ev_Attribute(self, e, st, fr):
        return [x for s, o in self.ev(e.value, st, fr) for x in self.attr(o, e.attr, s, e)]

    def attr(self, o, name, st, node):
        if isinstance(o, Mod):
            if o.name.startswith('algebraixlib'):
                return [(st, self.global_(o.name, name))]
            return [(st, Bi(o.name + '.' + name))]
        if isinstance(o, New):
            if name in st.fields:
                return [(st, st.fields[name])]
            raise Unsupported('attribute %s of a new object' % name)
        if isinstance(o, Cell):
            return [(st, Bi(name, o))]
        if isinstance(o, Bi) and o.self_ is None:
            return [(st, z3.Const(o.name + '.' + name, I) if name == 'width' else Bi(o.name + '.' + name))]
        if is_z3(o, S):
            return self.attr_struct(o, name, st, node)
        if is_z3(o, V):
            return self.attr_item(o, name, st, node)
        raise Unsupported('attribute %s of %r' % (name, o))

    def attr_struct(self, o, name, st, node):
        if name in CONTRACT:
            return [(st, Bi(name, o))]
        # dispatch on the class
        out, seen = [], []
        for cls, kk in SP.KIND.items():
            d = self.src.method('algebraixlib.structure', cls, name)
            if (cls, name) in self.private:
                key = ('private', self.private[cls, name])
            elif d is None:
                key = ('none',)
            else:
                key = ('def', d)
            for i, (kk2, ks) in enumerate(seen):
                if kk2 == key:
                    ks.append(kk)
                    break
            else:
                seen.append((key, [kk]))
        for key, ks in seen:
            c = Or(*[k(o) == kk for kk in ks])
            if len(seen) > 1:
                if not self.feasible(st, c):
                    continue
                s = st.copy()
                s.pc.append(c)
            else:
                s = st
            if key[0] == 'none':
                self.ob(s, 'no attribute %s' % name, 'undef', BoolVal(False), node)
                continue
            if key[0] == 'private':
                out.append((s, self.component(o, key[1])))
                continue
            d = key[1]
            f = Fn(d, 'algebraixlib.structure', None, o)
            if is_property(d):
                out += self.call(f, [], {}, s, node)
            else:
                out.append((s, f))
        return out

    def component(self, o, name):
        if name == 'data':
            return Coll(lambda q: SP.inn(q, o), S, o, SP.the(o))
        return SP.COMPONENT[name](o)

    def attr_item(self, o, name, st, node):
        n = name.lstrip('_')
        if n == 'data':
            return [(st, Coll(lambda q: SP.vin(q, o), V))]
        if n in ('left', 'right'):
            self.ob(st, 'it is a couplet', 'undef', vk(o) == 2, node)
            return [(st, (SP.vl if n == 'left' else SP.vr)(o))]
        if n == 'get_ground_set':
            return [(st, Bi(n, o))]
        raise Unsupported('attribute %s of a math object' % name)

    def ev_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        res = [(st, None, False)]
        for x in e.values:
            new = []
            for s, v, done in res:
                if done:
                    new.append((s, v, True))
                    continue
                for s2, v2 in self.ev(x, s, fr):
                    t = self.truth(v2, s2)
                    for s3, c in self.fork(s2, t):
                        new.append((s3, c if isinstance(v2, bool) or is_z3(v2, B) else v2, c != isand))
            res = new
        return [(s, v) for s, v, _ in res]

    def ev_UnaryOp(self, e, st, fr):
        if not isinstance(e.op, ast.Not):
            raise Unsupported('operator')
        out = []
        for s, v in self.ev(e.operand, st, fr):
            t = self.truth(v, s)
            out.append((s, (not t) if isinstance(t, bool) else Not(t)))
        return out

    def ev_IfExp(self, e, st, fr):
        out = []
        for s, v in self.ev(e.test, st, fr):
            for s2, c in self.fork(s, self.truth(v, s)):
                out += self.ev(e.body if c else e.orelse, s2, fr)
        return out

    def truth(self, v, st):
        if isinstance(v, (bool, int)) or v is None:
            return bool(v)
        if is_z3(v, B):
            return v
        if is_z3(v, I):
            return v != 0
        if isinstance(v, (Coll, Len, Cell)):
            c = v.c if isinstance(v, Len) else v
            q = self.fresh('q', self.coll(c, st).sort)
            return Exists([q], self.coll(c, st).pred(q))
        raise Unsupported('truth of %r' % (v,))

    def coll(self, c, st):
        if isinstance(c, Cell):
            return st.heap[c.key]
        if isinstance(c, Coll):
            return c
        if isinstance(c, (list, tuple)):
            return Coll(lambda q: Or(*[q == x for x in c]) if c else BoolVal(False))
        raise Unsupported('collection %r' % (c,))

    def ev_Compare(self, e, st, fr):
        if len(e.ops) > 1:
            raise Unsupported('chained comparison')
        out = []
        for s, (a, c) in self.evs([e.left, e.comparators[0]], st, fr):
            out += self.compare(e.ops[0], a, c, s, e)
        return out

    def compare(self, op, a, c, st, node):
        ne = isinstance(op, (ast.NotEq, ast.IsNot))
        neg = lambda t: (not t) if isinstance(t, bool) else Not(t)
        if isinstance(a, TypeOf) or isinstance(c, TypeOf):
            if isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
                x, q = (a, c) if isinstance(a, TypeOf) else (c, a)
                if isinstance(q, TypeOf):
                    t = k(x.x) == k(q.x)
                elif isinstance(q, Cls) and q.name in SP.KIND:
                    t = k(x.x) == SP.KIND[q.name]
                else:
                    raise Unsupported('type comparison')
                return [(st, neg(t) if ne else t)]
            if isinstance(op, ast.In) and isinstance(a, TypeOf) and isinstance(c, (tuple, list)) and \
                    all(isinstance(q, Cls) and q.name in SP.KIND for q in c):
                return [(st, Or(*[k(a.x) == SP.KIND[q.name] for q in c]))]
            raise Unsupported('type comparison')
        if is_z3(a, S) and is_z3(c, S):
            if isinstance(op, (ast.Is, ast.IsNot)):
                raise Unsupported('identity of structures')
            m = {ast.Eq: '__eq__', ast.NotEq: '__ne__', ast.LtE: '__le__', ast.Lt: '__lt__', ast.GtE: '__ge__', ast.Gt: '__gt__'}.get(type(op))
            if m == '__ge__':
                a, c, m = c, a, '__le__'
            out = []
            for s, f in self.attr_struct(a, m, st, node):
                out += self.call(f, [c], {}, s, node)
            return out
        if isinstance(a, Len) or isinstance(c, Len):
            return [(st, self.compare_len(op, a, c, st))]
        if isinstance(a, (Coll, Cell)) and isinstance(c, (Coll, Cell)):
            p, q = self.coll(a, st), self.coll(c, st)
            if isinstance(op, (ast.Eq, ast.NotEq)) and p.owner is not None and q.owner is not None and p.sort == q.sort == S:
                t = SP.seteq(p.owner, q.owner)
                return [(st, neg(t) if ne else t)]
            raise Unsupported('comparison of collections')
        if isinstance(op, (ast.In, ast.NotIn)) and is_z3(a, S) and isinstance(c, (Coll, Cell)):
            q = self.fresh('q', S)
            t = Exists([q], And(self.coll(c, st).pred(q), SP.same(q, a)))
            return [(st, neg(t) if isinstance(op, ast.NotIn) else t)]
        if isinstance(op, (ast.Is, ast.IsNot)) and (a is None or c is None):
            return [(st, (a is c) != ne)]
        num = lambda v: isinstance(v, (int, bool)) or is_z3(v, I) or is_z3(v, B)
        if num(a) and num(c):
            f = {ast.Eq: lambda: a == c, ast.NotEq: lambda: a != c, ast.Lt: lambda: a < c, ast.LtE: lambda: a <= c,
                 ast.Gt: lambda: a > c, ast.GtE: lambda: a >= c, ast.Is: lambda: a == c, ast.IsNot: lambda: a != c}.get(type(op))
            if f:
                return [(st, f())]
        raise Unsupported('comparison')

    def compare_len(self, op, a, c, st):
        swap = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        t = type(op)
        if not isinstance(a, Len):
            a, c, t = c, a, swap.get(t, t)
        if not isinstance(c, int):
            raise Unsupported('length')
        p = self.coll(a.c, st)
        q, q2 = self.fresh('q', p.sort), self.fresh('q', p.sort)
        some = Exists([q], p.pred(q))
        if p.the is not None:
            one = SP.one(p.owner)
            some = p.pred(p.the)
        else:
            one = Exists([q], And(p.pred(q), ForAll([q2], Implies(p.pred(q2), q2 == q))))
        table = {(ast.Eq, 0): Not(some), (ast.NotEq, 0): some, (ast.Gt, 0): some, (ast.GtE, 1): some, (ast.Lt, 1): Not(some),
                 (ast.LtE, 0): Not(some), (ast.Eq, 1): one, (ast.NotEq, 1): Not(one), (ast.Gt, 1): And(some, Not(one)),
                 (ast.GtE, 2): And(some, Not(one)), (ast.LtE, 1): Or(Not(some), one), (ast.Lt, 2): Or(Not(some), one)}
        if (t, c) not in table:
            raise Unsupported('length')
        return table[t, c]

    def ev_Tuple(self, e, st, fr): return [(s, tuple(vs)) for s, vs in self.evs(e.elts, st, fr)]
    ev_List = ev_Tuple

    def ev_BinOp(self, e, st, fr):
        out = []
        for s, (a, c) in self.evs([e.left, e.right], st, fr):
            out.append((s, self.binop(type(e.op), a, c)))
        return out

    def binop(self, op, a, c):
        num = lambda v: isinstance(v, int) or is_z3(v, I)
        if num(a) and num(c):
            if isinstance(a, int) and isinstance(c, int):
                f = {ast.Add: lambda: a + c, ast.Sub: lambda: a - c, ast.Mult: lambda: a * c, ast.LShift: lambda: a << c, ast.BitAnd: lambda: a & c}.get(op)
                if f:
                    return f()
            if op is ast.Add: return a + c
            if op is ast.Sub: return a - c
            f = z3.Function('int_' + op.__name__, I, I, I)
            return f(a if is_z3(a) else IntVal(a), c if is_z3(c) else IntVal(c))
        raise Unsupported('operator ' + op.__name__)

    def ev_GeneratorExp(self, e, st, fr):
        """[(state, generator)]: (predicate of the element, element, conditional states)"""
        if len(e.generators) != 1 or e.generators[0].is_async or not isinstance(e.generators[0].target, ast.Name):
            raise Unsupported('generator')
        gn = e.generators[0]
        out = []
        for s, c in self.ev(gn.iter, st, fr):
            c = self.coll(c, s)
            q = self.fresh('e', c.sort)
            s1 = s.copy()
            n0 = len(s1.pc)
            s1.pc.append(c.pred(q))
            f = self.frame(s1, fr, None)
            s1.frames[f][gn.target.id] = q
            alts = [(s1, True)]
            for cond in gn.ifs:
                alts = [x for s2, t in alts for s3, v in self.ev(cond, s2, f) for x in self.keep(s3, self.truth(v, s3))]
            vals = [(s3.pc[n0:], v) for s2, _ in alts for s3, v in self.ev(e.elt, s2, f)]
            for pcs, v in vals:
                for p in pcs:
                    if self.has_fresh(p, q):
                        raise Unsupported('generator')
            out.append((s, ('gen', q, vals)))
        return out
    ev_ListComp = ev_SetComp = ev_GeneratorExp

    def has_fresh(self, p, q):
        """Another variable of the iteration than q occurs."""
        n0 = int(q.decl().name().rsplit('!')[1])
        stack, seen = [p], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                stack.append(t.body())
            elif z3.is_app(t):
                nm = t.decl().name()
                if t.num_args() == 0 and '!' in nm and nm.rsplit('!', 1)[1].isdigit() and int(nm.rsplit('!', 1)[1]) > n0:
                    return True
                stack += t.children()
        return False

    def keep(self, st, t):
        return [(s, c) for s, c in self.fork(st, t) if c]

    def gen_coll(self, gen):
        _, q, vals = gen
        vs = {v.get_id() for _, v in vals if is_z3(v)}
        if not all(is_z3(v, S) or is_z3(v, V) for _, v in vals):
            raise Unsupported('elements of a generator')
        if all(v.eq(q) for _, v in vals):
            f = simp(Or(*[And(*pcs) for pcs, _ in vals])) if vals else BoolVal(False)
            return Coll(lambda x: z3.substitute(f, (q, x)), q.sort())
        sort = vals[0][1].sort()
        if any(v.sort() != sort for _, v in vals):
            raise Unsupported('elements of a generator')
        f = Or(*[And(*(pcs + [z3.Const('elem!', sort) == v])) for pcs, v in vals])
        c = Coll(lambda x: Exists([q], z3.substitute(f, (z3.Const('elem!', sort), x))), sort)
        c.image = (q, vals)
        return c

    def ev_Call(self, e, st, fr):
        out = []
        for s, f in self.ev(e.func, st, fr):
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'format':
                raise Unsupported('text')
            if any(isinstance(a, ast.Starred) for a in e.args) or any(kw.arg is None for kw in e.keywords):
                raise Unsupported('star argument')
            for s2, vs in self.evs(list(e.args) + [kw.value for kw in e.keywords], s, fr):
                n = len(e.args)
                out += self.call(f, vs[:n], dict(zip([kw.arg for kw in e.keywords], vs[n:])), s2, e)
        return out

    def frame(self, st, outer, module):
        self.n += 1
        i = self.n
        st.frames[i] = {'<outer>': outer, '<module>': module if module is not None else st.frames[outer]['<module>']}
        return i

    def measures(self, st, x, y=None):
        return SP.vsize(x) if is_z3(x, V) else SP.size(x) + SP.size(y)

    def call(self, f, args, kw, st, node):
        if isinstance(f, Bi):
            return self.builtin(f, args, kw, st, node)
        if isinstance(f, Cls):
            return self.construct(f, args, kw, st, node)
        if not isinstance(f, Fn):
            raise Unsupported('call of %r' % (f,))
        if f.self_ is None and f.module == 'algebraixlib.util.miscellaneous' and f.node.name == 'get_full_class_name' and len(args) == 1 and is_z3(args[0], S):
            return [(st, Name(args[0]))]
        if id(f.node) in self.recursive:
            return self.recursive[id(f.node)](args, kw, st, node)
        if f.frame is not None and self.recursion(f.node):
            return self.local_recursion(f, args, kw, st, node)
        return self.invoke(f, args, kw, st, node)

    def recursion(self, d):
        return any(isinstance(x, ast.Name) and x.id == d.name for x in ast.walk(d) if isinstance(getattr(x, 'ctx', None), ast.Load))

    def invoke(self, f, args, kw, st, node):
        if self.depth > 12:
            raise Unsupported('depth of calls')
        self.depth += 1
        st = st.copy()
        fr = self.frame(st, f.frame, f.module)
        a = f.node.args
        names = [x.arg for x in a.args] + [x.arg for x in a.kwonlyargs]
        d = st.frames[fr]
        vals = ([f.self_] if f.self_ is not None else []) + list(args)
        if len(vals) > len(a.args) and a.vararg:
            d[a.vararg.arg] = tuple(vals[len(a.args):])
            vals = vals[:len(a.args)]
        elif a.vararg:
            d[a.vararg.arg] = ()
        if len(vals) > len(a.args) or a.kwarg:
            raise Unsupported('parameters')
        d.update(zip([x.arg for x in a.args], vals))
        d.update(kw)
        for n, dv in list(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults)) + \
                [(x.arg, dv) for x, dv in zip(a.kwonlyargs, a.kw_defaults) if dv is not None]:
            if n not in d:
                d[n] = self.ev(dv, st, fr)[0][1]
        if not set(names) <= set(d):
            raise Unsupported('parameters')
        self.inlined.add(f.node.name)
        out = []
        for s, o, v in self.block(f.node.body, st, fr):
            if o == 'raise':
                self.ob(s, 'no exception: %s' % v, 'undef', BoolVal(False), node)
            elif o in ('return', 'next'):
                out.append((s, v if o == 'return' else None))
            else:
                raise Unsupported(o)
        self.depth -= 1
        return out

    def local_recursion(self, f, args, kw, st, node):
        """A recursive local function of two parameters (structure, level): its contract is level_from."""
        a = f.node.args
        if len(a.args) != 2 or a.vararg or a.kwarg or a.kwonlyargs:
            raise Unsupported('recursive local function')
        other = [v for v in st.frames[f.frame].values() if is_z3(v, S)]
        others = [v for n, v in st.frames[f.frame].items() if is_z3(v, S) and n != 'self']
        if len(others) != 1:
            raise Unsupported('recursive local function')
        o = others[0]
        s0 = z3.Const('rec_struct', S)
        n0 = z3.Const('rec_level', I)

        def rec(args, kw, st, node, outer=True):
            names = [x.arg for x in a.args]
            env = dict(zip(names, args))
            env.update(kw)
            for n, dv in zip(names[len(names) - len(a.defaults):], a.defaults):
                if n not in env:
                    env[n] = self.ev(dv, st, f.frame)[0][1]
            if set(env) != set(names) or not is_z3(env[names[0]], S):
                raise Unsupported('recursive local function')
            x, n = env[names[0]], env[names[1]]
            n = IntVal(n) if isinstance(n, int) else n
            if not is_z3(n, I):
                raise Unsupported('recursive local function')
            self.ob(st, 'precondition of %s: the level is not negative' % f.node.name, 'pre', n >= 0, node)
            if not outer:
                self.ob(st, '%s: recursion terminates' % f.node.name, 'value', SP.size(x) < SP.size(s0), node)
            return [(st, SP.level_from(x, o, n))]
        # verify the body for any arguments
        s = st.copy()
        s.pc = [c for c in s.pc] + [n0 >= 0]
        self.recursive[id(f.node)] = lambda args, kw, st, node: rec(args, kw, st, node, False)
        for s2, v in self.invoke(Fn(f.node, f.module, f.frame), [s0, n0], {}, s, node):
            v = IntVal(v) if isinstance(v, int) and not isinstance(v, bool) else v
            if not is_z3(v, I):
                raise Unsupported('recursive local function')
            self.ob(s2, '%s: result' % f.node.name, 'value', v == SP.level_from(s0, o, n0), f.node)
        del self.recursive[id(f.node)]
        return rec(args, kw, st, node)

    def isinst(self, x, c):
        if isinstance(c, tuple):
            ts = [self.isinst(x, q) for q in c]
            return any(ts) if all(isinstance(t, bool) for t in ts) else Or(*[t if not isinstance(t, bool) else BoolVal(t) for t in ts])
        if isinstance(c, Bi) and c.name.endswith('Iterable'):
            return isinstance(x, (Coll, Cell, tuple))
        if isinstance(c, Cls) and is_z3(x, S):
            if c.name == 'Structure':
                return True
            if c.name in SP.KIND:
                return k(x) == SP.KIND[c.name]
        if isinstance(c, Cls) and isinstance(x, (Coll, Cell, tuple)) and c.name in SP.KIND:
            return False
        raise Unsupported('isinstance')

    def builtin(self, f, args, kw, st, node):
        name = f.name
        if kw:
            raise Unsupported('keywords of ' + name)
        if isinstance(f.self_, Cell):
            return self.set_method(f.self_, name, args, st, node)
        if is_z3(f.self_, S):
            if len(args) != 1 or not is_z3(args[0], S):
                raise Unsupported('argument of ' + name)
            self.used.add(name)
            if self.measure is not None and name in self.measure:
                self.ob(st, 'recursion terminates: call of ' + name, 'value', self.measures(st, f.self_, args[0]) < self.measure[name], node)
            return [(st, CONTRACT[name](f.self_, args[0]))]
        if is_z3(f.self_, V):
            if args:
                raise Unsupported('argument of ' + name)
            self.used.add(name)
            if self.measure is not None:
                self.ob(st, 'recursion terminates: call of ' + name, 'value', SP.vsize(f.self_) < self.measure[name], node)
            return [(st, SP.g(f.self_))]
        if name == 'isinstance':
            return [(st, self.isinst(*args))]
        if name == 'type' and is_z3(args[0], S):
            return [(st, TypeOf(args[0]))]
        if name == 'bool':
            return [(st, self.truth(args[0], st))]
        if name == 'len':
            if isinstance(args[0], tuple) and not (args[0] and args[0][0] == 'gen'):
                return [(st, len(args[0]))]
            return [(st, Len(args[0] if not isinstance(args[0], tuple) else self.gen_coll(args[0])))]
        if name in ('any', 'all'):
            g_ = args[0]
            if not (isinstance(g_, tuple) and g_ and g_[0] == 'gen'):
                raise Unsupported(name)
            _, q, vals = g_
            t = []
            for pcs, v in vals:
                v = self.truth(v, st)
                v = BoolVal(v) if isinstance(v, bool) else v
                t.append(And(*(pcs + [v])) if name == 'any' else Implies(And(*pcs), v))
            if name == 'any':
                return [(st, Exists([q], Or(*t)) if t else False)]
            return [(st, ForAll([q], And(*t)) if t else True)]
        if name in ('frozenset', 'set', 'list', 'tuple'):
            if not args:
                c = Coll(lambda q: BoolVal(False))
            else:
                c = self.gen_coll(args[0]) if isinstance(args[0], tuple) and args[0] and args[0][0] == 'gen' else self.coll(args[0], st)
            if name in ('set', 'list'):
                self.n += 1
                st = st.copy()
                st.heap[self.n] = c
                return [(st, Cell(self.n))]
            return [(st, c)]
        if name == 'iter':
            return [(st, Iter(args[0]))]
        if name == 'next' and isinstance(args[0], Iter):
            c = self.coll(args[0].c, st)
            if c.the is not None:
                return [(st, c.the)]
            q = self.fresh('first', c.sort)
            st = st.copy()
            x = self.fresh('q', c.sort)
            self.ob(st, 'the collection is not empty', 'undef', Exists([x], c.pred(x)), node)
            st.pc.append(c.pred(q))
            return [(st, q)]
        if name == 'hash':
            x = args[0]
            if isinstance(x, Name):
                return [(st, z3.Function('hash_of_class_name', I, I)(k(x.x)))]
            if is_z3(x, S):
                self.used.add('__hash__')
                if self.measure is not None and '__hash__' in self.measure:
                    self.ob(st, 'recursion terminates: call of hash', 'value', SP.size(x) < self.measure['__hash__'], node)
                return [(st, SP.h(x))]
            if isinstance(x, Coll) and x.owner is not None and x.sort == S:
                self.used.add('__hash__')
                return [(st, SP.hs(x.owner))]
            raise Unsupported('hash')
        raise Unsupported('call of ' + name)

    def set_method(self, c, name, args, st, node):
        st = st.copy()
        old = st.heap[c.key]
        arg = args[0] if args else None
        if isinstance(arg, tuple) and arg and arg[0] == 'gen':
            arg = self.gen_coll(arg)
        if name == 'add' and is_z3(arg, S):
            # nothing is added if an equal element is there: obligation that there is none
            q = self.fresh('q', S)
            self.ob(st, 'no equal element is in the set', 'value', ForAll([q], Implies(old.pred(q), Not(SP.same(q, arg)))), node)
            st.heap[c.key] = Coll(lambda x: Or(old.pred(x), x == arg))
        elif name in ('remove', 'discard') and is_z3(arg, S):
            st.heap[c.key] = Coll(lambda x: And(old.pred(x), Not(SP.same(x, arg))))
        elif name in ('difference_update', '__isub__') and isinstance(arg, (Coll, Cell)):
            new = self.coll(arg, st)
            q = self.fresh('q', S)
            st.heap[c.key] = Coll(lambda x: And(old.pred(x), Not(Exists([q], And(new.pred(q), Or(q == x, SP.same(q, x)))))))
        else:
            raise Unsupported('set.' + name)
        return [(st, None)]

    def construct(self, c, args, kw, st, node):
        if c.module != 'algebraixlib.structure' or c.name not in SP.KIND:
            raise Unsupported('class ' + c.name)
        d = self.src.method(c.module, c.name, '__init__')
        names = [x.arg for x in d.args.args[1:]] if d is not None else []
        env = dict(zip(names, args))
        env.update(kw)
        if len(args) > len(names) or set(env) != set(names) or len(names) != len(SP.FIELDS.get(c.name, [])):
            raise Unsupported('arguments of ' + c.name)
        st = st.copy()
        u = self.fresh('new', S)
        self.used.add(c.name + '.__init__')
        st.pc.append(k(u) == SP.KIND[c.name])
        if c.name == 'Union':
            arg = env[names[0]]
            arg = self.gen_coll(arg) if isinstance(arg, tuple) and arg and arg[0] == 'gen' else self.coll(arg, st)
            if arg.sort != S:
                raise Unsupported('elements of a union')
            q = self.fresh('q', S)
            if getattr(arg, 'image', None):
                qi, vals = arg.image
                self.ob(st, 'precondition of Union: not empty', 'pre', Exists([qi], Or(*[And(*pcs) for pcs, _ in vals])), node)
            else:
                self.ob(st, 'precondition of Union: not empty', 'pre', Exists([q], arg.pred(q)), node)
            st.pc += union_post(self, lambda x: SP.inn(x, u), arg)
            st.pc.append(SP.inn(SP.the(u), u))
        else:
            for n, fld in zip(names, SP.FIELDS.get(c.name, [])):
                if not is_z3(env[n], S):
                    raise Unsupported('argument of ' + c.name)
                st.pc.append(SP.COMPONENT[fld](u) == env[n])
        return [(st, u)]

    # --- statements -------------------------------------------------------------------------------
    def block(self, stmts, st, fr):
        """[(state, outcome, value)]: outcome is next, return, raise, break, continue"""
        live, out = [st], []
        for s in stmts:
            new = []
            for q in live:
                for q2, o, v in self.stmt(s, q, fr):
                    if o == 'next':
                        new.append(q2)
                    else:
                        out.append((q2, o, v))
            live = new
            if len(live) > 64:
                raise Unsupported('too many paths')
        return out + [(s, 'next', None) for s in live]

    def stmt(self, s, st, fr):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return [(st, 'next', None)]
            return [(q, 'next', None) for q, _ in self.ev(s.value, st, fr)]
        if isinstance(s, ast.Pass):
            return [(st, 'next', None)]
        if isinstance(s, (ast.Break, ast.Continue)):
            return [(st, type(s).__name__.lower(), None)]
        if isinstance(s, ast.Return):
            return [(st, 'return', None)] if s.value is None else [(q, 'return', v) for q, v in self.ev(s.value, st, fr)]
        if isinstance(s, ast.If):
            out = []
            for q, v in self.ev(s.test, st, fr):
                for q2, c in self.fork(q, self.truth(v, q)):
                    out += self.block(s.body if c else s.orelse, q2, fr)
            return out
        if isinstance(s, ast.Assert):
            out = []
            for q, v in self.ev(s.test, st, fr):
                t = self.truth(v, q)
                t = BoolVal(t) if isinstance(t, bool) else t
                self.ob(q, 'assertion holds', 'assert', t, s)
                q = q.copy()
                q.pc.append(t)
                out.append((q, 'next', None))
            return out
        if isinstance(s, ast.Raise):
            return [(st, 'raise', ast.unparse(s)[:60])]
        if isinstance(s, ast.FunctionDef):
            st = st.copy()
            st.frames[fr][s.name] = Fn(s, st.frames[fr]['<module>'], fr)
            return [(st, 'next', None)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [(st, 'next', None)]
            out = []
            for q, v in self.ev(s.value, st, fr):
                q = q.copy()
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    if isinstance(v, tuple) and v and v[0] == 'gen':
                        raise Unsupported('generator variable')
                    if isinstance(t, ast.Name):
                        q.frames[fr][t.id] = v
                    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and isinstance(q.frames[fr].get(t.value.id), New):
                        q.fields[t.attr] = self.coll(v, q) if isinstance(v, Cell) else v
                    else:
                        raise Unsupported('assignment to ' + ast.unparse(t))
                out.append((q, 'next', None))
            return out
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            out = []
            for q, (a, c) in self.evs([ast.Name(s.target.id, ast.Load()), s.value], st, fr):
                q = q.copy()
                q.frames[fr][s.target.id] = self.binop(type(s.op), a, c)
                out.append((q, 'next', None))
            return out
        if isinstance(s, ast.For):
            return self.loop(s, st, fr)
        raise Unsupported(type(s).__name__)

    def loop(self, s, st, fr):
        if s.orelse or not isinstance(s.target, ast.Name):
            raise Unsupported('loop')
        out = []
        for q, c in self.ev(s.iter, st, fr):
            if isinstance(c, tuple) and not (c and c[0] == 'gen'):
                # known length
                live = [q]
                for v in c:
                    new = []
                    for q2 in live:
                        q2 = q2.copy()
                        q2.frames[fr][s.target.id] = v
                        for q3, o, x in self.block(s.body, q2, fr):
                            if o in ('next', 'continue'):
                                new.append(q3)
                            elif o == 'break':
                                raise Unsupported('break')
                            else:
                                out.append((q3, o, x))
                    live = new
                out += [(q2, 'next', None) for q2 in live]
                continue
            c = self.gen_coll(c) if isinstance(c, tuple) else self.coll(c, q)
            out += self.loop_coll(s, c, q, fr)
        return out

    def loop_coll(self, s, c, st, fr):
        e = self.fresh('elem', c.sort)
        changed = self.mutations(s, st, fr)
        if not changed:
            return self.search(s, c, e, st, fr)
        if len(changed) != 1 or st.ghost is None or c.sort != S:
            raise Unsupported('loop with side effects')
        key = changed[0]
        done = st.ghost
        w0 = st.heap[key]
        for n, g_ in invariant(self, w0.pred, done):
            self.ob(st, 'loop: invariant holds initially: ' + n, 'value', g_, s)
        self.n += 1
        P = z3.Function('W!%d' % self.n, S, B)
        D = z3.Function('D!%d' % self.n, S, B)
        q = st.copy()
        q.heap[key] = Coll(lambda x: P(x))
        q.ghost = Given(('all', D))
        q.pc += [g_ for _, g_ in invariant(self, q.heap[key].pred, q.ghost)]
        q.pc.append(c.pred(e))
        q.frames[fr][s.target.id] = e
        out = []
        for q2, o, v in self.block(s.body, q, fr):
            if o in ('next', 'continue'):
                for n, g_ in invariant(self, q2.heap[key].pred, Given(('all', D), ('flat', e))):
                    self.ob(q2, 'loop: invariant is kept: ' + n, 'value', g_, s)
            else:
                raise Unsupported('exit of a loop with side effects')
        self.n += 1
        P2 = z3.Function('W!%d' % self.n, S, B)
        q = st.copy()
        q.heap[key] = Coll(lambda x: P2(x))
        q.frames[fr].pop(s.target.id, None)
        now = done.plus(('all', c.pred) if c.owner is not None else ('flats', c.pred))      # elements of a union are no unions
        q.ghost = now
        q.pc += [g_ for _, g_ in invariant(self, q.heap[key].pred, now)]
        return out + [(q, 'next', None)]

    def mutations(self, s, st, fr):
        """Keys of the mutable sets that the body changes (by a trial run)."""
        n_ob, d = len(self.obs), self.depth
        e = self.fresh('trial', S)
        q = st.copy()
        q.frames[fr][s.target.id] = e
        before = dict(q.heap)
        keys = []
        try:
            for q2, o, v in self.block(s.body, q, fr):
                for i, c in before.items():
                    if q2.heap[i] is not c and i not in keys:
                        keys.append(i)
                for f, vs in st.frames.items():
                    for n, v0 in vs.items():
                        if n != s.target.id and q2.frames[f].get(n) is not v0 and not isinstance(v0, str):
                            raise Unsupported('loop-carried variable ' + n)
        finally:
            del self.obs[n_ob:]
            self.depth = d
        return keys

    def search(self, s, c, e, st, fr):
        """Nothing is carried: a return or break at some element, or none for every element."""
        q = st.copy()
        n0 = len(q.pc)
        q.pc.append(c.pred(e))
        q.frames[fr][s.target.id] = e
        exits, cond = [], []
        for q2, o, v in self.block(s.body, q, fr):
            if o in ('next', 'continue'):
                continue
            for p in q2.pc[n0 + 1:]:
                if self.has_fresh(p, e):
                    raise Unsupported('loop')
            exits.append((q2, 'next' if o == 'break' else o, v))
            cond.append(And(*q2.pc[n0 + 1:]))
        rest = st.copy()
        if cond:
            body = simp(And(c.pred(e), Or(*cond)))
            rest.pc.append(ForAll([e], Not(body)))
        return exits + [(rest, 'next', None)]


class Given:
    """The structures that a union represents, in pieces: ('all', P), ('flat', e) and ('flats', P), the elements of the
    structures of P."""
    def __init__(self, *pieces): self.pieces = pieces
    def plus(self, *p): return Given(*(self.pieces + p))

    def clauses(self, ex):
        """(variables, condition, element, pattern)"""
        out = []
        for w, x in self.pieces:
            a, q = ex.fresh('i', S), ex.fresh('j', S)
            if w == 'all':
                out.append(([a], x(a), a, x(a)))
            elif w == 'flat':
                out.append(([], k(x) != 5, x, None))
                out.append(([a], And(k(x) == 5, SP.inn(a, x)), a, SP.inn(a, x)))
            else:
                out.append(([q], And(x(q), k(q) != 5), q, x(q)))
                out.append(([q, a], And(x(q), k(q) == 5, SP.inn(a, q)), a, z3.MultiPattern(x(q), SP.inn(a, q))))
        return out

    def pred(self, ex, t):
        alts = []
        for vs, c, e, _ in self.clauses(ex):
            f = And(c, e == t)
            alts.append(Exists(vs, f) if vs else f)
        return Or(*alts) if alts else BoolVal(False)


def plain(t): return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def invariant(ex, W, D, goal=False):
    """Union.__init__: W is an antichain that represents the structures D."""
    a, c = ex.fresh('i', S), ex.fresh('j', S)
    pat = lambda t: dict(patterns=[t]) if plain(t) and not goal else dict(patterns=[k(a)])
    every = []
    for vs, cond, e, p in D.clauses(ex):
        g_ = Implies(cond, Exists([c], And(W(c), SP.sub(e, c)), patterns=[SP.sub(e, c)] if not plain(W(c)) else [W(c)]))
        every.append(ForAll(vs, g_, patterns=[p]) if vs else g_)
    return [
        ('no unions', ForAll([a], Implies(W(a), k(a) != 5), **pat(W(a)))),
        ('every element is one of the given structures', ForAll([a], Implies(W(a), D.pred(ex, a)), **pat(W(a)))),
        ('every given structure is a subset of an element', And(*every) if every else BoolVal(True)),
        ('no element is a subset of another', ForAll([a, c], Implies(And(W(a), W(c), SP.sub(a, c)), a == c), patterns=[SP.sub(a, c)])),
    ]


def union_post(ex, data, arg):
    """What the caller of Union(arg) learns about the data."""
    a, c = ex.fresh('i', S), ex.fresh('j', S)
    if getattr(arg, 'image', None):
        q, vals = arg.image
        some = lambda x: Exists([q], Or(*[And(*(pcs + [SP.fl(v, x)])) for pcs, v in vals]))
        return [ForAll([a], Implies(data(a), And(k(a) != 5, some(a))), patterns=[data(a)])] + \
               [ForAll([q], Implies(And(*(pcs + [k(v) != 5])), Exists([c], And(data(c), SP.sub(v, c)))), patterns=[pcs[0] if pcs and plain(pcs[0]) else SP.g(q) if q.sort() == V else k(v)])
                for pcs, v in vals] + \
               [ForAll([q, a], Implies(And(*(pcs + [k(v) == 5, SP.inn(a, v)])), Exists([c], And(data(c), SP.sub(a, c)))), patterns=[SP.inn(a, v)])
                for pcs, v in vals]
    some = lambda x: Exists([c], And(arg.pred(c), SP.fl(c, x)))
    return [ForAll([a], Implies(data(a), And(k(a) != 5, some(a))), patterns=[data(a)]),
            ForAll([a], Implies(some(a), Exists([c], And(data(c), SP.sub(a, c)))), patterns=[k(a)])]


# --- obligations ------------------------------------------------------------------------------------
class Solver:
    seconds, queries = 0, 0

    @classmethod
    def check(cls, hyps, goal, rlimit, seed=0):
        s = z3.Solver()
        s.set('rlimit', rlimit)
        s.set('smt.random_seed', seed + int(os.environ.get('PYVC_SEED', '0')))
        s.set('smt.mbqi', False)
        s.set('smt.auto_config', False)
        s.add(*SP.TYPES, *SP.ITEMS, *hyps, Not(goal))
        t = time.time()
        r = s.check()
        cls.seconds += time.time() - t
        cls.queries += 1
        return r == z3.unsat


def prove(hyps, goal, rlimit=RLIMIT, depth=0, solver=None):
    solver = solver or Solver
    goal = simp(goal)
    if z3.is_true(goal):
        return True
    if z3.is_and(goal):
        return all(prove(hyps, c, rlimit, depth, solver) for c in goal.children())
    if solver.check(hyps, goal, rlimit // 10):
        return True
    if depth < 5:
        if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_EQ and goal.arg(0).sort() == B:
            p, q = goal.children()
            return prove(hyps + [p], q, rlimit, depth + 1, solver) and prove(hyps + [q], p, rlimit, depth + 1, solver)
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [z3.FreshConst(goal.var_sort(i)) for i in range(goal.num_vars())]
            return prove(hyps, z3.substitute_vars(goal.body(), *reversed(vs)), rlimit, depth, solver)
        if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_ITE:
            c, p, q = goal.children()
            return prove(hyps + [c], p, rlimit, depth, solver) and prove(hyps + [Not(c)], q, rlimit, depth, solver)
        if z3.is_or(goal):
            big = [c for c in goal.children() if z3.is_and(c) or z3.is_quantifier(c) and c.is_forall() or z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE]
            if big:
                return prove(hyps + [simp(Not(c)) for c in goal.children() if not c.eq(big[0])], big[0], rlimit, depth + 1, solver)
        if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
            return prove(hyps + [goal.arg(0)], goal.arg(1), rlimit, depth, solver)
    return any(solver.check(hyps, goal, rlimit // 3, seed) for seed in (0, 1, 2))


def formula(L): return SP.fa(L['vs'], L['pats'], Implies(L['hyp'], L['goal']))


REFL, TRANS, SAME, SOUND = 'is_subset is reflexive', 'is_subset is transitive', 'equal structures are exactly mutual subsets', \
    'is_subset is sound: what belongs to a structure belongs to every structure of which it is a subset'


def base(*names):
    return [SP.SUB, SP.SAME, SP.LEV] + [formula(SP.LEMMAS[n]) for n in names or (REFL, TRANS, SAME)]


class Result:
    def __init__(self, key, src=None):
        self.r = dict(key=key, mode=True, status='verified', obs=[], used=[], inlined=[], note='', s=0, solver_s=0, queries=0)
        self.ex = Exec(src) if src is not None else None

    def add(self, name, clause, where, hyps, goal):
        t = time.time()
        ok = prove(hyps, goal)
        o = dict(name=name, clause=clause, where=where, ok=ok, s=round(time.time() - t, 3))
        if not ok:
            self.r['status'] = 'failed'
            o['output'] = 'under\n%s\nthe solver does not prove\n  %s' % ('\n'.join('  ' + str(h).replace('\n', ' ')[:400] for h in hyps[-12:]), str(goal)[:1500])
        self.r['obs'].append(o)

    def obligations(self, hyps, rel):
        for o in self.ex.obs:
            self.add(o.name, o.clause, '%s:%s' % (rel, getattr(o.node, 'lineno', '?')), hyps + o.pc, o.goal)
        self.ex.obs = []

    def finish(self):
        if self.ex:
            self.r.update(used=sorted(self.ex.used), inlined=sorted(self.ex.inlined))
            self.r['queries'] += self.ex.queries
            self.r['solver_s'] += self.ex.solver_s
        return self.r


def start(ex, module, *pc):
    st = State()
    st.pc = list(pc)
    ex.n += 1
    st.frames[ex.n] = {'<outer>': None, '<module>': module}
    return st


def lemma(name, L, known):
    R = Result('lemma: ' + name)
    sk = [z3.Const(str(q) + '0', q.sort()) for q in L['vs']]
    f = lambda t: z3.substitute(t, *zip(L['vs'], sk))
    hyps = list(L['defs']) + [formula(SP.LEMMAS[u]) for u in L['uses']] + known
    if L['measure'] is not None:
        hyps.append(SP.fa(L['vs'], L['pats'], Implies(And(L['hyp'], L['measure'] < f(L['measure'])), L['goal'])))
    R.add(name, 'value', 'spec/structures.py', hyps + [f(L['hyp'])], f(L['goal']))
    return R.finish()


M = 'algebraixlib.structure'


class Verifier:
    def __init__(self, repo):
        self.src = Source(repo)
        self.private = {}
        for c, fs in SP.FIELDS.items():
            for f in fs:
                d = self.src.method(M, c, f)
                if d is not None:
                    a = stored(d)
                    if a is None:
                        raise Unsupported('property %s of %s' % (f, c))
                    self.private[c, a] = f

    def result(self, key):
        R = Result(key, self.src)
        R.ex.private = self.private
        return R

    def method(self, cls, name):
        d = self.src.method(M, cls, name)
        if d is None:
            raise Unsupported('no method %s of %s' % (name, cls))
        return d

    def constructor(self, cls):
        R = self.result('structure.%s.__init__' % cls)
        d = self.method(cls, '__init__')
        ex = R.ex
        new = New()
        st = start(ex, M)
        names = [x.arg for x in d.args.args[1:]]
        if cls == 'Union':
            IN = z3.Function('IN', S, B)
            args = [Coll(lambda q: IN(q))]
            q = ex.fresh('q', S)
            st.pc += [IN(q), k(SP.the(q)) >= 0]
            st.ghost = Given()
        else:
            args = [z3.Const('arg_' + n, S) for n in names]
        n = 0
        for s, o, v in self.run(ex, d, [new] + args, st):
            n += 1
            if cls == 'Union':
                datas = [a for a, c in s.fields.items() if isinstance(c, Coll) and self.private.get((cls, a)) == 'data']
                if len(datas) != 1:
                    raise Unsupported('fields of Union')
                W = s.fields[datas[0]].pred
                for nm, g_ in invariant(ex, W, Given(('flats', IN)), True):
                    R.add('class invariant of Union: ' + nm, 'value', SRC, base() + s.pc, g_)
                x = ex.fresh('q', S)
                R.add('class invariant of Union: not empty', 'value', SRC, base() + s.pc, Exists([x], W(x)))
            else:
                for a, fld in [(a, f) for (c, a), f in self.private.items() if c == cls]:
                    i = SP.FIELDS[cls].index(fld)
                    R.add('%s is the argument %d' % (a, i + 1), 'value', SRC, base() + s.pc, BoolVal(is_z3(s.fields.get(a), S) and s.fields[a].eq(args[i])))
        if not n:
            raise Unsupported('no path returns')
        R.obligations(base(), SRC)
        return R.finish()

    def run(self, ex, d, args, st):
        st = st.copy()
        f = ex.frame(st, None, M)
        names = [x.arg for x in d.args.args]
        if len(names) != len(args):
            raise Unsupported('parameters')
        st.frames[f].update(zip(names, args))
        out = []
        for s, o, v in ex.block(d.body, st, f):
            if o == 'raise':
                ex.ob(s, 'no exception: %s' % v, 'undef', BoolVal(False), d)
            else:
                out.append((s, o, v))
        return out

    def getter(self, cls, fld):
        R = self.result('structure.%s.%s' % (cls, fld))
        d = self.method(cls, fld)
        if not is_property(d):
            raise Unsupported('%s is no property' % fld)
        x = z3.Const('self0', S)
        for s, o, v in self.run(R.ex, d, [x], start(R.ex, M, k(x) == SP.KIND[cls])):
            if fld == 'data':
                ok = BoolVal(isinstance(v, Coll) and v.owner is not None and v.owner.eq(x))
            else:
                ok = v == SP.COMPONENT[fld](x) if is_z3(v, S) else BoolVal(False)
            R.add('result', 'value', SRC, base() + s.pc, ok)
        R.obligations(base(), SRC)
        return R.finish()

    def relation(self, cls, name):
        R = self.result('structure.%s.%s' % (cls, name))
        d = self.method(cls, name)
        x, y = z3.Const('self0', S), z3.Const('other0', S)
        if name in CONTRACT:
            R.ex.measure = {name: SP.size(x) + SP.size(y)}
        want = {'is_subset': SP.sub_def(x, y), 'is_same': SP.same_def(x, y), 'get_powerset_level': SP.lev_def(x, y),
                '__eq__': SP.same(x, y), '__ne__': Not(SP.same(x, y)), '__le__': SP.sub(x, y)}[name]
        n = 0
        for s, o, v in self.run(R.ex, d, [x, y], start(R.ex, M, k(x) == SP.KIND[cls])):
            n += 1
            if want.sort() == I:
                v = IntVal(v) if isinstance(v, int) and not isinstance(v, bool) else v
                ok = v == want if is_z3(v, I) else BoolVal(False)
            else:
                v = BoolVal(v) if isinstance(v, bool) else v
                ok = v == want if is_z3(v, B) else BoolVal(False)
            R.add('result', 'value', '%s:%d path %d' % (SRC, d.lineno, n), base() + s.pc, ok)
        if not n:
            R.add('some path returns', 'vacuity', SRC, [], BoolVal(False))
        R.obligations(base(), SRC)
        return R.finish()

    def hashing(self):
        """Equal structures have equal hashes: h is what __hash__ of each class computes."""
        R = self.result('structure: __hash__')
        x, y = SP.x, SP.y
        defs = []
        for cls, kk in SP.KIND.items():
            d = self.method(cls, '__hash__')
            R.ex.measure = {'__hash__': SP.size(x)}
            for s, o, v in self.run(R.ex, d, [x], start(R.ex, M, k(x) == kk)):
                v = IntVal(v) if isinstance(v, int) else v
                if not is_z3(v, I):
                    raise Unsupported('hash')
                defs.append(ForAll([x], Implies(And(*s.pc), SP.h(x) == v), patterns=[SP.h(x)]))
        # the hash of a frozenset depends on the hashes of its elements only, whatever their order
        d, e = SP.d, SP.e
        fs = ForAll([x, y], Implies(And(k(x) == 5, k(y) == 5, SP.seteq(x, y),
                                        ForAll([d, e], Implies(And(SP.inn(d, x), SP.inn(e, y), SP.same(d, e)), SP.h(d) == SP.h(e)), patterns=[SP.same(d, e)])),
                                    SP.hs(x) == SP.hs(y)), patterns=[z3.MultiPattern(SP.hs(x), SP.hs(y))])
        a, c = z3.Const('x0', S), z3.Const('y0', S)
        ih = ForAll([x, y], Implies(And(SP.same(x, y), SP.size(x) + SP.size(y) < SP.size(a) + SP.size(c)), SP.h(x) == SP.h(y)), patterns=[SP.same(x, y)])
        hint = [SP.h(t) == SP.h(t) for t in (a, c)]
        for i in range(7):
            for j in range(7):
                f = z3.Function('hint', I, I)
                hints = [f(SP.h(SP.the(t))) == 0 for t, n in ((a, i), (c, j)) if n == 5]
                cases = [[]]
                for t, n in ((a, i), (c, j)):
                    if n == 5:
                        cases = [q + [c_] for q in cases for c_ in (SP.one(t), Not(SP.one(t)))]
                for n, q in enumerate(cases):
                    R.add('equal structures have equal hashes (kinds %d, %d%s)' % (i, j, ', case %d' % n if len(cases) > 1 else ''), 'value', SRC,
                          [SP.SAME] + base(SAME, TRANS)[3:] + defs + [fs, ih, k(a) == i, k(c) == j, SP.same(a, c)] + hints + q, SP.h(a) == SP.h(c))
        R.obligations(base(), SRC)
        return R.finish()

    def ground(self, kind):
        name = MOS[kind]
        mod = 'algebraixlib.mathobjects.' + name
        R = self.result('mathobjects.%s.%s.get_ground_set' % (name, CLS[kind]))
        d = self.src.method(mod, CLS[kind], 'get_ground_set')
        if d is None:
            raise Unsupported('no get_ground_set')
        v = z3.Const('self0', V)
        R.ex.measure = {'get_ground_set': SP.vsize(v)}
        st = start(R.ex, mod, vk(v) == kind)
        rel = self.src.mod(mod).rel
        f = R.ex.frame(st, None, mod)
        st.frames[f][d.args.args[0].arg] = v
        n = 0
        hyps = base() + [SP.GROUND]
        for s, o, q in R.ex.block(d.body, st, f):
            if o == 'raise':
                R.ex.ob(s, 'no exception: %s' % q, 'undef', BoolVal(False), d)
                continue
            n += 1
            R.add('result', 'value', '%s:%d path %d' % (rel, d.lineno, n), hyps + s.pc, SP.ground_def(v, q) if is_z3(q, S) else BoolVal(False))
        if not n:
            R.add('some path returns', 'vacuity', rel, [], BoolVal(False))
        R.obligations(hyps, rel)
        return R.finish()

    def algebra(self, name):
        mod = 'algebraixlib.algebras.' + name
        R = self.result('algebras.%s.get_ground_set' % name)
        d = self.src.mod(mod).defs.get('get_ground_set')
        if d is None:
            raise Unsupported('no get_ground_set')
        rel = self.src.mod(mod).rel
        v = z3.Const('v0', V)
        for s, q in R.ex.invoke(Fn(d, mod), [], {}, start(R.ex, mod), d):
            if not is_z3(q, S):
                raise Unsupported('ground set')
            f = z3.Function('hint', B, B)
            R.add('it is a union-free structure', 'value', rel, [SP.UF] + s.pc, SP.uf(q))
            unf = [SP.BEL] + s.pc
            R.add('the members of the algebra belong to it', 'value', rel, unf + [vk(v) <= 4, SP.noempty(v), SP.NOEMPTY, SP.MEMBER[name](v)], SP.bel(v, q))
            R.add('what belongs to it is a member of the algebra', 'value', rel, unf + [vk(v) <= 4, SP.noempty(v), SP.NOEMPTY, SP.bel(v, q)], SP.MEMBER[name](v))
            hyps = s.pc + [SP.UF, formula(SP.LEMMAS[SOUND]), formula(SP.LEMMAS[BELONGS]), formula(SP.LEMMAS[COMPLETE]), SP.noempty(v), vk(v) <= 4, SP.uf(q)]
            hyps.append(SP.bel(v, q) == SP.MEMBER[name](v))
            R.add('the ground set of an object is a subset of it exactly if the object is a member', 'value', rel, hyps,
                  SP.sub(SP.g(v), q) == SP.MEMBER[name](v))
            if name in ('relations', 'clans'):
                # the contracts that the proofs of the other properties rely on (spec/logic.py: ground_relations, ground_clans)
                n = SP.lev(SP.g(v), q)
                H = base() + [SP.GROUND, vk(v) <= 4] + s.pc
                for nm, g_ in SP.level_facts(name, v, n):
                    R.add('power set level: ' + nm, 'value', rel, H, g_)
        R.obligations(base(), rel)
        return R.finish()

    def writers(self):
        R = self.result('writers of the components of structures')
        bad = []
        attrs = {a for (c, a) in self.private}
        t = self.src.mod(M).tree
        for c in ast.walk(t):
            if isinstance(c, ast.FunctionDef) and c.name != '__init__':
                for x in ast.walk(c):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in attrs:
                        bad.append('%s:%d' % (SRC, x.lineno))
        if bad:
            raise Unsupported('further writers: ' + ', '.join(bad))
        R.add('only the constructors write the components', 'frame', SRC, [], BoolVal(True))
        return R.finish()


BELONGS = 'an object without empty parts belongs to its ground set'
COMPLETE = 'the ground set of what belongs to a union-free structure is a subset of it'
CLASSES = list(SP.KIND)


def jobs():
    """name of what is verified -> function of a Verifier"""
    r = {}
    for c in ('CartesianProduct', 'PowerSet', 'Union'):
        r['structure.%s.__init__' % c] = lambda vf, c=c: vf.constructor(c)
    for c, fs in SP.FIELDS.items():
        for f in fs:
            r['structure.%s.%s' % (c, f)] = lambda vf, c=c, f=f: vf.getter(c, f)
    for c in CLASSES:
        for n in ('is_subset', 'is_same', 'get_powerset_level', '__eq__', '__ne__', '__le__'):
            r['structure.%s.%s' % (c, n)] = lambda vf, c=c, n=n: vf.relation(c, n)
    r['structure: __hash__'] = lambda vf: vf.hashing()
    for i in MOS:
        r['mathobjects.%s.%s.get_ground_set' % (MOS[i], CLS[i])] = lambda vf, i=i: vf.ground(i)
    for a in SP.MEMBER:
        r['algebras.%s.get_ground_set' % a] = lambda vf, a=a: vf.algebra(a)
    r['writers of the components of structures'] = lambda vf: vf.writers()
    for n, L in SP.LEMMAS.items():
        r['lemma: ' + n] = lambda vf, n=n, L=L: lemma(n, L, [])
    return r


def keys(): return list(jobs())


POOL_SECONDS = 300


def attempt(key, f, solver):
    t0 = time.time()
    s0, q0 = solver.seconds, solver.queries
    try:
        r = f()
    except Unsupported as e:
        r = dict(key=key, mode=True, status='unsupported', obs=[], used=[], inlined=[], note=str(e), s=0, solver_s=0, queries=0)
    except Exception as e:
        r = dict(key=key, mode=True, status='crash', obs=[], used=[], inlined=[], note='%s: %s' % (type(e).__name__, e), s=0, solver_s=0, queries=0)
        if os.environ.get('PYVC_TRACE'):
            import traceback
            traceback.print_exc()
    r['s'] = round(time.time() - t0, 2)
    r['solver_s'] = round(r['solver_s'] + solver.seconds - s0, 3)
    r['queries'] += solver.queries - q0
    return r


def one(job):
    repo, key = job
    return attempt(key, lambda: jobs()[key](Verifier(repo)), Solver)


def pooled(f, tasks):
    import multiprocessing
    end = time.time() + POOL_SECONDS
    res = {}
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1) as pool:      # new process: the same run every time
        for task, r in [(task, pool.apply_async(f, (task,))) for task in tasks]:
            try:
                r = r.get(max(0, end - time.time()))
            except multiprocessing.TimeoutError:
                r = dict(key=task[1], mode=True, status='unsupported', obs=[], used=[], inlined=[], note='no answer in %d s' % POOL_SECONDS,
                         s=POOL_SECONDS, solver_s=0, queries=0)
            res[r['key'], True] = r
    return res


def run(repo): return pooled(one, [(repo, key) for key in jobs()])


def main(run=run):
    from pyvc.run import fixed_hash
    fixed_hash()
    t0 = time.time()
    res = run(os.environ.get('VERIF_REPO', '/repo'))
    for (kk, m), r in res.items():
        bad = [o for o in r['obs'] if not o['ok']]
        if bad or r['status'] != 'verified' or os.environ.get('PYVC_ALL'):
            print(r['status'], kk, r['note'], '%d obligations, %.1f s' % (len(r['obs']), r['s']))
            for o in bad:
                print('   ', o['name'], o['where'], o.get('output') if os.environ.get('PYVC_OUT') else '')
    print(len(res), sum(len(r['obs']) for r in res.values()), '%.1f s' % (time.time() - t0))


if __name__ == '__main__':
    main()
