"""Verification of ordered slicing (C14): multiclan_to_listgen, order_slice_to_listgen, order_slice and their helpers.

Every path of every function is executed symbolically from the source in /repo, for every shape of the arguments (atoms,
plain numbers, infinity, undefined, anything else); loops by invariants that are found among candidates and checked by the
solver; calls of the helpers go through their contracts.

The items of a multiclan (relation, multiplicity) are a sequence of any length n. P(i) is the sum of the first i
multiplicities: item i is at the positions P(i) up to P(i+1) of the sequence in which each relation is repeated. The
specified list Filt(start, end, n) has the items with a position from start up to end, each with the number of these
positions."""
import ast
import z3
from z3 import And, Or, Not, If, Implies, BoolVal, IntVal
from pyvc import structvc as B
from pyvc.structvc import Unsupported, Fn, Cls, Mod, Bi, is_z3, simp, Source, State, is_property

MOD = 'algebraixlib.algebras.multiclans'
SRC = 'algebraixlib/algebras/multiclans.py'
I, BOOL = z3.IntSort(), z3.BoolSort()
R = z3.DeclareSort('Relation')
L = z3.Datatype('ItemList')
L.declare('nil')
L.declare('snoc', ('front', L), ('rel', R), ('count', I))
L = L.create()
LT = z3.Function('less_than_f', R, R, BOOL)
INF = float('inf')
isinf = lambda v: isinstance(v, float) and v == INF
n = z3.Int('n')
mn = lambda a, c: a if isinf(c) else If(a <= c, a, c)
mx = lambda a, c: If(a >= c, a, c)


class Atom:
    def __init__(self, value): self.value = value


class Other:
    """Anything that is no atom, integer, infinity, multiclan and not undefined; math: a math object."""
    def __init__(self, math=False): self.math = math


class MClan:
    pass


class Undef:
    pass


UNDEF, MCLAN, LESS = Undef(), MClan(), object()


class Data:
    """The dictionary of the multiclan, or its items."""
    def __init__(self, items=False): self.items = items


class Dict:
    """A dictionary with the items of a list"""
    def __init__(self, term): self.term = term


class MSet(Dict):
    pass


class Ref:
    """A list object; its content is in the heap of the state."""
    def __init__(self, key): self.key = key


class Inst:
    def __init__(self, cls, key): self.cls, self.key = cls, key


class ClsV:
    def __init__(self, node, module, frame): self.node, self.module, self.frame = node, module, frame


class CmpKey:
    def __init__(self, f, x=None): self.f, self.x = f, x


class Seq:
    """A sequence of n items."""
    def __init__(self, name):
        self.name = name
        f = lambda k, *s: z3.Function('%s_%s' % (k, name), *s)
        self.E, self.M, self.P, self.Pre = f('rel', I, R), f('count', I, I), f('before', I, I), f('all', I, L)
        self.fin, self.inf = f('window', I, I, I, L), f('window_inf', I, I, L)

    def window(self, s, e, i): return self.inf(s, i) if isinf(e) else self.fin(s, e, i)
    def sel(self, s, e, i): return mn(self.P(i + 1), e) - mx(self.P(i), s)


GIVEN, SORTED = Seq('given'), Seq('sorted')
OFF, LIM = z3.Int('offset'), z3.Int('limit')


class View:
    """An iterable over a sequence: items, index (range), enumerate."""
    def __init__(self, seq, kind): self.seq, self.kind = seq, kind


def definition(q, j):
    """The defining equations of the functions of a sequence, at j"""
    ok = And(0 <= j, j < n)
    return [Implies(ok, And(q.M(j) >= 1, q.P(j + 1) == q.P(j) + q.M(j), q.Pre(j + 1) == L.snoc(q.Pre(j), q.E(j), q.M(j))))]


def start(q): return [n >= 0, q.P(0) == 0, q.Pre(0) == L.nil]


def window_definition(q, s, e, j):
    w = q.window(s, e, j)
    c = q.sel(s, e, j)
    return [q.window(s, e, IntVal(0)) == L.nil,
            Implies(And(0 <= j, j < n), q.window(s, e, j + 1) == If(c > 0, L.snoc(w, q.E(j), c), w))]


def facts(q, j): return definition(q, j) + [Implies(And(0 <= j, j <= n), And(q.P(j) >= j, q.P(j) <= q.P(n)))]


def window_facts(q, s, e, j):
    l = window_definition(q, s, e, j)
    ok = And(0 <= j, j <= n, s >= 0)
    l.append(Implies(And(ok, s == 0, *([e >= q.P(n)] if not isinf(e) else [])), q.window(s, e, j) == q.Pre(j)))
    l.append(Implies(And(ok, q.P(j) <= s), q.window(s, e, j) == L.nil))
    if not isinf(e):
        l.append(Implies(And(ok, q.P(j) >= e), q.window(s, e, j) == q.window(s, e, n)))
        l.append(Implies(And(ok, e <= s), q.window(s, e, j) == L.nil))
    return l


def same(a, c): return a is c or is_z3(a) and is_z3(c) and a.eq(c) or (not is_z3(a) and not is_z3(c) and isinstance(a, (int, float)) and isinstance(c, (int, float)) and a == c)


def num(v): return isinstance(v, (int, float)) or is_z3(v, I)


class Exec(B.Exec):
    def __init__(self, src, ends):
        super().__init__(src)
        self.indices = [IntVal(0), n]
        self.windows = []           # (sequence, start, end)
        self.ends = ends            # the window of the specification: candidates of invariants speak about it
        self.verifying = None

    def hyps(self):
        l = []
        for q in (GIVEN, SORTED):
            l += start(q)
            for j in self.indices:
                l += facts(q, j)
            for q2, s, e in self.windows:
                if q2 is q:
                    for j in self.indices:
                        l += window_facts(q, s, e, j)
        return l

    def window(self, q, s, e, i):
        if not any(q is a and same(s, b) and same(e, c) for a, b, c in self.windows):
            self.windows.append((q, s, e))
        return q.window(s, e, i)

    def feasible(self, st, c):
        s = z3.Solver()
        s.set('rlimit', 300000)
        s.add(*self.hyps())
        s.add(*st.pc)
        s.add(c)
        self.queries += 1
        return s.check() != z3.unsat

    def entails(self, pc, g):
        if z3.is_true(simp(g)):
            return True
        return Solver.check(self.hyps() + list(pc), g, 3000000)

    # --- names, attributes ------------------------------------------------------------------------
    def global_(self, mod, name):
        m = None if mod == 'algebraixlib.mathobjects' else self.src.mod(mod)
        if m is None:
            return Cls(mod, name)
        if name in m.classes and mod != MOD:
            return Cls(mod, name)
        if name in m.classes:
            return ClsV(m.classes[name], mod, None)
        for d in m.tree.body:
            if isinstance(d, ast.Assign) and len(d.targets) == 1 and isinstance(d.targets[0], ast.Name) and d.targets[0].id == name:
                st = B.start(self, mod)
                return self.ev(d.value, st, self.n)[0][1]
        if name in ('float', 'int', 'enumerate', 'range', 'min', 'max', 'sorted', 'dict', 'abs', 'sum', 'reversed', 'zip') and name not in m.defs and name not in m.imports:
            return Bi(name)
        return super().global_(mod, name)

    def imported(self, full):
        if full == 'algebraixlib.mathobjects':
            return Mod(full)
        if full.startswith('algebraixlib.mathobjects.') and full.count('.') == 2 and full.rpartition('.')[2][0].isupper():
            return Cls('algebraixlib.mathobjects', full.rpartition('.')[2])
        return super().imported(full)

    def attr(self, o, name, st, node):
        if isinstance(o, (Atom, MClan, Other)):
            if name in ('is_atom', 'is_couplet', 'is_set', 'is_multiset'):
                if isinstance(o, Other):
                    raise Unsupported('attribute %s of any value' % name)
                return [(st, name == {Atom: 'is_atom', MClan: 'is_multiset'}[type(o)])]
            if isinstance(o, Atom) and name == 'value':
                return [(st, o.value)]
            if isinstance(o, MClan):
                if name == 'data':
                    return [(st, Data())]
                if name == 'cardinality':
                    return [(st, GIVEN.P(n))]
                if name == 'is_empty':
                    return [(st, n == 0)]
        if o is UNDEF and name in ('is_atom', 'is_couplet', 'is_set', 'is_multiset'):
            return [(st, False)]
        if isinstance(o, (Data, Ref, MSet, CmpKey)):
            return [(st, Bi(name, o))]
        if isinstance(o, Inst):
            if name in st.heap[o.key]:
                return [(st, st.heap[o.key][name])]
            d = self.class_method(o.cls, name)
            if d is None:
                raise Unsupported('attribute ' + name)
            f = Fn(d, o.cls.module, o.cls.frame, o)
            return self.call(f, [], {}, st, node) if is_property(d) else [(st, f)]
        if isinstance(o, Mod) and o.name == 'math' and name == 'inf':
            return [(st, INF)]
        return super().attr(o, name, st, node)

    def class_method(self, c, name):
        return next((d for d in c.node.body if isinstance(d, ast.FunctionDef) and d.name == name), None)

    def ev_Lambda(self, e, st, fr):
        d = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(ast.Return(e.body), e)], decorator_list=[], lineno=e.lineno, col_offset=0)
        return [(st, Fn(d, st.frames[fr]['<module>'], fr))]

    def ev_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.USub):
            return [(s, -v) for s, v in self.ev(e.operand, st, fr)]
        return super().ev_UnaryOp(e, st, fr)

    def ev_Subscript(self, e, st, fr):
        out = []
        for s, (o, i) in self.evs([e.value, e.slice], st, fr):
            if isinstance(o, tuple) and isinstance(i, int) and -len(o) <= i < len(o):
                out.append((s, o[i]))
            elif isinstance(o, Ref) and isinstance(s.heap[o.key], Seq) and any(is_z3(i) and i.eq(j) for j in self.indices):
                q = s.heap[o.key]
                self.ob(s, 'index in the list', 'undef', And(0 <= i, i < n), e)
                out.append((s, (q.E(i), q.M(i))))
            else:
                raise Unsupported('subscript')
        return out

    def ev_List(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('star')
        out = []
        for s, vs in self.evs(e.elts, st, fr):
            t = L.nil
            for v in vs:
                t = self.snoc(t, v)
            out.append(self.new_list(s, t))
        return out

    def new_list(self, st, content):
        st = st.copy()
        self.n += 1
        st.heap[self.n] = content
        return st, Ref(self.n)

    def snoc(self, t, v):
        if not (isinstance(v, tuple) and len(v) == 2 and is_z3(v[0], R) and (is_z3(v[1], I) or isinstance(v[1], int))):
            raise Unsupported('item of a list')
        return L.snoc(t, v[0], v[1] if is_z3(v[1]) else IntVal(v[1]))

    def term(self, v, st):
        """The list as a term"""
        c = st.heap[v.key] if isinstance(v, Ref) else v
        if isinstance(c, Seq):
            return c.Pre(n)
        if is_z3(c, L):
            return c
        raise Unsupported('list')

    def truth(self, v, st):
        if isinstance(v, Ref):
            return n > 0 if isinstance(st.heap[v.key], Seq) else self.term(v, st) != L.nil
        if isinstance(v, Data):
            return n > 0
        if isinstance(v, float):
            return bool(v)
        return super().truth(v, st)

    # --- operators --------------------------------------------------------------------------------
    def ev_Compare(self, e, st, fr):
        out = []
        for s, vs in self.evs([e.left] + e.comparators, st, fr):
            cur = [(s, [])]
            for op, a, c in zip(e.ops, vs, vs[1:]):
                cur = [(s3, ts + [t]) for s2, ts in cur for s3, t in self.compare(op, a, c, s2, e)]
            for s2, ts in cur:
                out.append((s2, ts[0] if len(ts) == 1 else And(*[BoolVal(t) if isinstance(t, bool) else t for t in ts])))
        return out

    def compare(self, op, a, c, st, node):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            if any(x is UNDEF or x is None or isinstance(x, bool) for x in (a, c)):
                if is_z3(a, BOOL) or is_z3(c, BOOL):
                    r = self.truth(a, st) == self.truth(c, st)
                    return [(st, Not(r) if t is ast.IsNot else r)]
                return [(st, (a is c) != (t is ast.IsNot))]
            raise Unsupported('identity')
        if t in (ast.Eq, ast.NotEq):
            if a is UNDEF or c is UNDEF:
                self.ob(st, 'undefined values are not compared', 'undef', BoolVal(False), node)
                return []
            if isinstance(a, (Other, Atom, MClan)) and num(c) or isinstance(c, (Other, Atom, MClan)) and num(a):
                return [(st, t is ast.NotEq)]               # an unknown value: no integer, not infinite
            if is_z3(a, BOOL) or is_z3(c, BOOL):
                r = self.truth(a, st) == self.truth(c, st)
                return [(st, Not(r) if t is ast.NotEq else r)]
        if num(a) and num(c) and (isinstance(a, float) or isinstance(c, float)):
            if not all(not isinstance(x, float) or x in (INF, -INF) for x in (a, c)):
                raise Unsupported('float')
            x, y = (v if isinstance(v, float) else 0 for v in (a, c))
            return [(st, {ast.Eq: x == y, ast.NotEq: x != y, ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[t])]
        if isinstance(a, Inst) and isinstance(c, Inst) and t in (ast.Lt, ast.Gt):
            if t is ast.Gt:
                a, c = c, a
            return [x for s, f in self.attr(a, '__lt__', st, node) for x in self.call(f, [c], {}, s, node)]
        if isinstance(a, CmpKey) and isinstance(c, CmpKey) and t is ast.Lt:
            return [x for s, v in self.call(a.f, [a.x, c.x], {}, st, node) for x in self.compare(ast.Lt(), v, 0, s, node)]
        if isinstance(a, (Ref, Data)) or isinstance(c, (Ref, Data)) or isinstance(a, tuple) or isinstance(c, tuple):
            raise Unsupported('comparison')
        return super().compare(op, a, c, st, node)

    def binop(self, op, a, c):
        if num(a) and num(c) and (isinstance(a, float) or isinstance(c, float)):
            if isinf(a) and not (isinstance(c, float) and (op is ast.Sub or c != INF)) and op in (ast.Add, ast.Sub):
                return INF
            if isinf(c) and not isinstance(a, float) and op in (ast.Add, ast.Sub):
                return INF if op is ast.Add else -INF
            raise Unsupported('float')
        return super().binop(op, a, c)

    def minmax(self, name, vs, st):
        r = vs[0]
        for v in vs[1:]:
            if not (num(r) and num(v)):
                raise Unsupported(name)
            if isinstance(r, float) or isinstance(v, float):
                f, o = (r, v) if isinstance(r, float) else (v, r)
                if isinstance(o, float) or f not in (INF, -INF):
                    raise Unsupported('float')
                r = o if (isinf(f)) == (name == 'min') else f
            elif isinstance(r, int) and isinstance(v, int):
                r = min(r, v) if name == 'min' else max(r, v)
            else:
                r = If(r <= v, r, v) if name == 'min' else If(r >= v, r, v)
        return r

    def isinst(self, x, c):
        if isinstance(c, tuple):
            return any(self.isinst(x, q) for q in c)
        if isinstance(c, ClsV):
            return isinstance(x, Inst) and x.cls.node is c.node
        if isinstance(c, Bi) and c.name in ('int', 'float'):
            if c.name == 'float' and isinstance(x, Other):
                raise Unsupported('isinstance')
            return isinstance(x, int) or is_z3(x, I) or is_z3(x, BOOL) if c.name == 'int' else isinstance(x, float)
        if isinstance(c, Cls) and c.name == 'Atom':
            return isinstance(x, Atom)
        if isinstance(c, Cls) and c.name == 'Multiset' and not isinstance(x, Other):
            return isinstance(x, (MClan, MSet))
        if isinstance(c, Cls) and c.name == 'Undef':
            return x is UNDEF
        raise Unsupported('isinstance')

    # --- calls ------------------------------------------------------------------------------------
    def call(self, f, args, kw, st, node):
        if f is LESS:
            if kw or len(args) != 2 or not all(is_z3(a, R) for a in args):
                raise Unsupported('call of the order')
            return [(st, Atom(LT(*args)))]
        if isinstance(f, ClsV):
            if f.node.bases and not (len(f.node.bases) == 1 and isinstance(f.node.bases[0], ast.Name) and f.node.bases[0].id == 'object') or f.node.decorator_list:
                raise Unsupported('class')
            st, r = self.new_list(st, {})
            o = Inst(f, r.key)
            d = self.class_method(f, '__init__')
            if d is None:
                return [(st, o)]
            return [(s, o) for s, _ in self.invoke(Fn(d, f.module, f.frame, o), args, kw, st, node)]
        if isinstance(f, CmpKey) and f.x is None and len(args) == 1:
            return [(st, CmpKey(f.f, args[0]))]
        if isinstance(f, Cls):
            return self.construct(f, args, kw, st, node)
        if isinstance(f, Fn) and f.self_ is None and f.frame is None:
            name = f.node.name
            if f.module == 'algebraixlib.undef' and name.startswith('make_or_raise_undef'):
                self.used.add('undef.' + name)
                return [(st, UNDEF)]
            if f.module == MOD and name == 'is_member' and len(args) == 1:
                self.used.add('multiclans.is_member')
                if isinstance(args[0], MClan) or args[0] is UNDEF or isinstance(args[0], Other) and args[0].math:
                    return [(st, isinstance(args[0], MClan))]
                raise Unsupported('is_member')
            if f.module == MOD and name in CONTRACTS and name != self.verifying and [a.arg for a in f.node.args.args] == PARAMS[name]:
                env = dict(zip(PARAMS[name], args))
                env.update(kw)
                if '_checked' in PARAMS[name]:
                    env.setdefault('_checked', True)
                if set(env) == set(PARAMS[name]) and isinstance(env.get('_checked', True), bool):
                    self.used.add('multiclans.' + name)
                    return CONTRACTS[name](self, env, st, node)
        return super().call(f, args, kw, st, node)

    def construct(self, c, args, kw, st, node):
        if c.name == 'Undef':
            return [(st, UNDEF)]
        if c.name == 'Atom' and len(args) == 1 and not kw:
            if num(args[0]) or isinstance(args[0], Other) and not args[0].math:
                return [(st, Atom(args[0]))]
            raise Unsupported('Atom')
        if c.name == 'Multiset' and set(kw) <= {'direct_load'}:
            if not args:
                return [(st, MSet(L.nil))]
            a = args[0]
            if isinstance(a, Data) and not a.items:
                return [(st, MSet(GIVEN.Pre(n)))]
            if isinstance(a, Dict) and len(args) == 1:
                return [(st, MSet(a.term))]
        raise Unsupported('construction of ' + c.name)

    def builtin(self, f, args, kw, st, node):
        name, o = f.name, f.self_
        if isinstance(o, Data) and name == 'items' and not o.items and not args:
            return [(st, Data(True))]
        if isinstance(o, MSet) and name.startswith('cache_'):
            return [(st, o)]
        if isinstance(o, Ref):
            return self.list_method(o, name, args, kw, st, node)
        if o is not None:
            raise Unsupported('method ' + name)
        if name == 'sorted' and args and set(kw) <= {'key', 'reverse'}:
            out = []
            for s, r in self.builtin(Bi('list'), args, {}, st, node):
                out += [(s2, r) for s2, _ in self.list_method(r, 'sort', [], kw, s, node)]
            return out
        if kw:
            raise Unsupported('keywords of ' + name)
        if name in ('list', 'tuple') and len(args) == 1:
            return [self.new_list(st, self.content(args[0], st))]
        if name == 'list' and not args:
            return [self.new_list(st, L.nil)]
        if name == 'float' and len(args) == 1:
            if str(args[0]).lower() in ('inf', 'infinity', '+inf'):
                return [(st, INF)]
            raise Unsupported('float')
        if name == 'functools.cmp_to_key':
            return [(st, CmpKey(args[0]))]
        if name in ('min', 'max') and len(args) > 1:
            return [(st, self.minmax(name, args, st))]
        if name == 'abs' and is_z3(args[0], I):
            return [(st, If(args[0] >= 0, args[0], -args[0]))]
        if name == 'len':
            if isinstance(args[0], Data) or isinstance(args[0], Ref) and isinstance(st.heap[args[0].key], Seq):
                return [(st, n)]
            raise Unsupported('len')
        if name == 'enumerate' and len(args) == 1:
            return [(st, View(self.content(args[0], st), 'enumerate'))]
        if name == 'range' and len(args) == 1 and is_z3(args[0]) and args[0].eq(n):
            return [(st, View(None, 'index'))]
        if name == 'iter' and len(args) == 1:
            return [(st, View(self.content(args[0], st), 'items'))]
        if name == 'dict' and len(args) == 1:
            if isinstance(args[0], Data):
                return [(st, Dict(GIVEN.Pre(n)))]
            c = self.content(args[0], st)
            return [(st, Dict(c.Pre(n) if isinstance(c, Seq) else c))]
        if name in ('bool', 'isinstance'):
            return super().builtin(f, args, kw, st, node)
        raise Unsupported('call of ' + name)

    def content(self, v, st):
        if isinstance(v, Data) and v.items:
            return GIVEN
        if isinstance(v, Ref) and not isinstance(st.heap[v.key], dict):
            return st.heap[v.key]
        if isinstance(v, View) and v.kind == 'items':
            return v.seq
        raise Unsupported('iterable')

    def list_method(self, o, name, args, kw, st, node):
        st = st.copy()
        c = st.heap[o.key]
        if name == 'append' and len(args) == 1 and not kw:
            st.heap[o.key] = self.snoc(self.term(o, st), args[0])
            return [(st, None)]
        if name == 'copy' and not args and not kw:
            return [self.new_list(st, c)]
        if name == 'sort' and not args and set(kw) <= {'key', 'reverse'} and kw.get('key') is not None:
            if c is not GIVEN:
                raise Unsupported('sort')
            rev = kw.get('reverse', False)
            if not isinstance(rev, bool):
                raise Unsupported('reverse')
            self.ob(st, 'sorted in ascending order', 'value', BoolVal(not rev), node)
            a, b, x, y = self.fresh('rel', R), self.fresh('rel', R), self.fresh('count', I), self.fresh('count', I)
            s0 = st.copy()
            s0.pc += [x >= 1, y >= 1]
            some = False
            for s1, ka in self.call(kw['key'], [(a, x)], {}, s0, node):
                for s2, kb in self.call(kw['key'], [(b, y)], {}, s1, node):
                    for s3, t in self.compare(ast.Lt(), ka, kb, s2, node):
                        t = self.truth(t, s3)
                        some = True
                        self.ob(s3, 'the sort compares the relations by less_than_f', 'value', (BoolVal(t) if isinstance(t, bool) else t) == LT(a, b), node)
            if not some:
                self.ob(st, 'the sort compares the relations by less_than_f', 'value', BoolVal(False), node)
            st.heap[o.key] = SORTED
            return [(st, None)]
        raise Unsupported('list.' + name)

    def ev_DictComp(self, e, st, fr):
        """{rel: mult for rel, mult in list}"""
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported('dictionary')
        g = e.generators[0]
        out = []
        for s, c in self.ev(g.iter, st, fr):
            c = self.content(c, s)
            a, x = self.fresh('rel', R), self.fresh('count', I)
            s1 = s.copy()
            f = self.frame(s1, fr, None)
            self.assign(g.target, (a, x), s1, f)
            for s2, (kk, v) in self.evs([e.key, e.value], s1, f):
                if not (is_z3(kk, R) and kk.eq(a) and is_z3(v, I)):
                    raise Unsupported('dictionary')
                self.ob(s2, 'the multiplicities are those of the list', 'value', v == x, e)
            out.append((s, Dict(c.Pre(n) if isinstance(c, Seq) else c)))
        return out

    # --- statements -------------------------------------------------------------------------------
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.frames[fr][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, tuple) and len(v) == len(t.elts):
            for a, c in zip(t.elts, v):
                self.assign(a, c, st, fr)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and isinstance(st.frames[fr].get(t.value.id), Inst):
            o = st.frames[fr][t.value.id]
            st.heap[o.key] = dict(st.heap[o.key], **{t.attr: v})
        else:
            raise Unsupported('assignment to ' + ast.unparse(t))

    def stmt(self, s, st, fr):
        if isinstance(s, ast.ClassDef):
            st = st.copy()
            st.frames[fr][s.name] = ClsV(s, st.frames[fr]['<module>'], fr)
            return [(st, 'next', None)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            out = []
            for q, v in self.ev(s.value, st, fr):
                q = q.copy()
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    self.assign(t, v, q, fr)
                out.append((q, 'next', None))
            return out
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(st.frames[fr].get(s.target.id), Ref):
            o = st.frames[fr][s.target.id]
            if not (isinstance(s.op, ast.Add) and isinstance(s.value, (ast.List, ast.Tuple))):
                raise Unsupported('list operator')
            out = []
            for q, vs in self.evs(s.value.elts, st, fr):
                for v in vs:
                    q = self.list_method(o, 'append', [v], {}, q, s)[0][0]
                out.append((q, 'next', None))
            return out
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            raise Unsupported('generator')
        return super().stmt(s, st, fr)

    def loop(self, s, st, fr):
        if s.orelse:
            raise Unsupported('loop')
        out = []
        for q, c in self.ev(s.iter, st, fr):
            if isinstance(c, View):
                v = c
            else:
                v = View(self.content(c, q), 'items')
            if v.kind != 'index' and not isinstance(v.seq, Seq):
                raise Unsupported('loop over a computed list')
            out += self.loop_seq(s, v, q, fr)
        return out

    def carried(self, st, q, s, fr, bound):
        """What the loop changes: ('f', frame, name) or ('h', key)"""
        l = []
        for f, vs in st.frames.items():
            for nm, v0 in vs.items():
                if nm not in bound and q.frames[f].get(nm) is not v0 and not same(q.frames[f].get(nm), v0):
                    l.append(('f', f, nm))
        for kk, v0 in st.heap.items():
            if q.heap[kk] is not v0 and not same(q.heap[kk], v0):
                l.append(('h', kk))
        return l

    def get(self, st, v): return st.frames[v[1]][v[2]] if v[0] == 'f' else st.heap[v[1]]

    def put(self, st, v, x):
        if v[0] == 'f':
            st.frames[v[1]][v[2]] = x
        else:
            st.heap[v[1]] = x

    def enter(self, s, view, st, fr, i):
        q = st.copy()
        q.pc += [0 <= i, i < n]
        e = None if view.seq is None else (view.seq.E(i), view.seq.M(i))
        self.assign(s.target, e if view.kind == 'items' else i if view.kind == 'index' else (i, e), q, fr)
        return q

    def loop_seq(self, s, view, st, fr):
        bound = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
        i = self.fresh('i', I)
        self.indices += [i, i + 1]
        before, n_ob, depth = st, len(self.obs), self.depth
        changed = []
        while True:                                     # what is carried: until nothing more is
            q = self.enter(s, view, before, fr, i)
            for v in changed:
                self.put(q, v, self.fresh('c', self.sort(v, st)))
            new = []
            for q2, o, x in self.block(s.body, q, fr):
                new += [v for v in self.carried(q, q2, s, fr, bound) if v not in changed and v not in new]
            del self.obs[n_ob:]
            self.depth = depth
            new = [v for v in new if self.sort(v, st) is not None]
            if not new:
                break
            changed += new
        seq = view.seq if view.seq is not None else self.only_seq(st)
        # candidates of invariants: variable = function of the index
        cands = []
        for v in changed:
            v0 = self.get(st, v)
            if is_z3(v0, L) or isinstance(v0, Seq):
                cs = self.list_candidates(seq)
            else:
                cs = self.int_candidates(seq)
            v0 = v0.Pre(n) if isinstance(v0, Seq) else v0
            for c in cs:
                if self.entails(st.pc, v0 == c(IntVal(0))):
                    cands.append((v, c))
        while True:
            q = self.enter(s, view, st, fr, i)
            for v in changed:
                self.put(q, v, self.fresh('c', self.sort(v, st)))
            q.pc += [self.get(q, v) == c(i) for v, c in cands]
            del self.obs[n_ob:]
            exits = self.block(s.body, q, fr)
            self.depth = depth
            bad = []
            for v, c in cands:
                for q2, o, x in exits:
                    if o in ('next', 'continue'):
                        w = self.get(q2, v)
                        if not (is_z3(w) or isinstance(w, int)) or not self.entails(q2.pc, w == c(i + 1)):
                            bad.append((v, c))
                            break
            if not bad:
                break
            cands = [x for x in cands if x not in bad]
        for v in changed:
            if not any(w == v for w, _ in cands):
                if self.sort(v, st) == I:
                    raise Unsupported('no invariant found for %s' % (v[2] if v[0] == 'f' else 'a field'))
                # a list without an invariant: is it the specified one (obligation that fails)
                w, c = v, self.list_candidates(seq)[0]
                ints = {u for u, _ in cands if self.sort(u, st) == I}
                self.ob(st, 'loop: the list has the items selected so far, initially', 'value', self.get(st, v) == c(IntVal(0)), s)
                for q2, o, x in exits:
                    if o in ('next', 'continue'):
                        g = q2.copy()
                        g.pc.append(self.get(q, v) == c(i))
                        self.ob(g, 'loop: the list has the items selected so far', 'value', self.get(q2, v) == c(i + 1), s)
        out = [(q2, 'next' if o == 'break' else o, x) for q2, o, x in exits if o not in ('next', 'continue')]
        end = st.copy()
        for nm in bound:
            end.frames[fr].pop(nm, None)
        for v in changed:
            x = self.fresh('c', self.sort(v, st))
            self.put(end, v, x)
            end.pc += [x == c(n) for w, c in cands if w == v]
        return out + [(end, 'next', None)]

    def only_seq(self, st):
        seqs = {id(c): c for c in st.heap.values() if isinstance(c, Seq)}
        if len(seqs) != 1:
            raise Unsupported('loop over indices')
        return list(seqs.values())[0]

    def sort(self, v, st):
        try:
            x = self.get(st, v)
        except KeyError:
            return None                     # local to the body
        if is_z3(x, L) or isinstance(x, Seq):
            return L
        if num(x):
            return I
        raise Unsupported('loop-carried value')

    def list_candidates(self, q):
        s, e = self.ends
        return [lambda i: self.window(q, s, e, i), lambda i: q.Pre(i)]

    def int_candidates(self, q):
        s, e = self.ends
        P = q.P
        z = lambda x: mx(x, IntVal(0))
        l = [lambda i: P(i), lambda i: i, lambda i: s - P(i), lambda i: P(i) - s, lambda i: z(s - P(i)), lambda i: z(P(i) - s), lambda i: mx(P(i), s), lambda i: mn(P(i), s)]
        if not isinf(e):
            got = lambda i: mn(mx(P(i), s), e) - s
            l += [got, lambda i: e - s - got(i), lambda i: e - P(i), lambda i: P(i) - e, lambda i: z(e - P(i)), lambda i: mn(P(i), e), lambda i: mn(mx(P(i), s), e)]
        return l


# --- contracts --------------------------------------------------------------------------------------
PARAMS = {
    '_to_listgen_check_args': ['mclan', 'offset', 'limit', '_checked'],
    '_to_listgen_slice': ['counter_list', 'offset', 'limit'],
    'multiclan_to_listgen': ['mclan', 'offset', 'limit', '_checked'],
    'order_slice_to_listgen': ['mclan', 'less_than_f', 'offset', 'limit', '_checked'],
    'order_slice': ['mclan', 'less_than_f', 'offset', 'limit', '_checked'],
}
isint = lambda v: isinstance(v, int) or is_z3(v, I)
number = lambda v, inf: isint(v) or inf and isinstance(v, float) and v == INF


def valid(v, inf, checked):
    """The number that an offset or limit is; None if it is none."""
    if isinstance(v, Atom) and number(v.value, inf):
        return v.value
    return v if checked and number(v, inf) else None


def in_domain(env):
    """The arguments that the contracts are about: if unchecked, the arguments are valid or undefined."""
    return env['_checked'] or all(v is UNDEF for v in (env['mclan'], env['offset'], env['limit'])) or \
        all(v is UNDEF or ok for v, ok in ((env['mclan'], isinstance(env['mclan'], MClan)), (env['offset'], valid(env['offset'], False, False) is not None),
                                           (env['limit'], valid(env['limit'], True, False) is not None)))


def window(env):
    """(offset, limit), or None if the arguments are not valid"""
    o, l = valid(env['offset'], False, env.get('_checked', True)), valid(env['limit'], True, env.get('_checked', True))
    return (o, l) if o is not None and l is not None and isinstance(env.get('mclan', MCLAN), MClan) else None


def nonnegative(w): return And(w[0] >= 0, w[1] >= 0 if not isinf(w[1]) else BoolVal(True))


def pre(ex, w, st, node, name):
    ex.ob(st, 'precondition of %s: offset and limit are not negative' % name, 'pre', nonnegative(w), node)


def c_check(ex, env, st, node):
    if not in_domain(env):
        raise Unsupported('arguments of _to_listgen_check_args')
    w = window(env)
    return [(st, UNDEF if w is None else (Atom(w[0]), Atom(w[1])))]


def c_slice(ex, env, st, node):
    w = window(dict(env, _checked=False))
    q = ex.content(env['counter_list'], st)
    if w is None or not isinstance(q, Seq):
        raise Unsupported('arguments of _to_listgen_slice')
    pre(ex, w, st, node, '_to_listgen_slice')
    return [ex.new_list(st, ex.window(q, w[0], ex.binop(ast.Add, w[1], w[0]), n))]


def c_listgen(q):
    def f(ex, env, st, node):
        if not in_domain(env) or 'less_than_f' in env and env['less_than_f'] is not LESS:
            raise Unsupported('arguments of the list form')
        w = window(env)
        if w is None:
            return [(st, UNDEF)]
        pre(ex, w, st, node, 'the list form')
        return [ex.new_list(st, ex.window(q, w[0], ex.binop(ast.Add, w[1], w[0]), n))]
    return f


def c_mset(ex, env, st, node):
    return [(s, v if v is UNDEF else MSet(ex.term(v, s))) for s, v in c_listgen(SORTED)(ex, env, st, node)]


CONTRACTS = {'_to_listgen_check_args': c_check, '_to_listgen_slice': c_slice, 'multiclan_to_listgen': c_listgen(GIVEN),
             'order_slice_to_listgen': c_listgen(SORTED), 'order_slice': c_mset}


class Solver(B.Solver):
    seconds, queries = 0, 0

    @classmethod
    def check(cls, hyps, goal, rlimit, seed=0):
        import os, time
        s = z3.Solver()
        s.set('rlimit', rlimit)
        s.set('smt.random_seed', seed + int(os.environ.get('PYVC_SEED', '0')))
        s.add(*hyps, Not(goal))
        t = time.time()
        r = s.check()
        cls.seconds += time.time() - t
        cls.queries += 1
        return r == z3.unsat


class Result(B.Result):
    def __init__(self, key):
        super().__init__(key)
        self.used, self.inlined = set(), set()

    def add(self, name, clause, where, hyps, goal):
        import time
        t = time.time()
        ok = B.prove(hyps, goal, solver=Solver)
        o = dict(name=name, clause=clause, where=where, ok=ok, s=round(time.time() - t, 3))
        if not ok:
            self.r['status'] = 'failed'
            o['output'] = 'under\n%s\nthe solver does not prove\n  %s' % ('\n'.join('  ' + str(h).replace('\n', ' ')[:400] for h in hyps[-12:]), str(goal)[:1500])
        self.r['obs'].append(o)

    def finish(self):
        self.r.update(used=sorted(self.used), inlined=sorted(self.inlined))
        return self.r


def shapes(name):
    """(description, arguments, end of the window) of every shape of the arguments"""
    def atoms(v): return Atom(v)
    offs = [('an atom', Atom(OFF)), ('a number', OFF), ('an atom of another value', Atom(Other())), ('another value', Other()), ('undefined', UNDEF)]
    lims = [('an atom', Atom(LIM)), ('an infinite atom', Atom(INF)), ('a number', LIM), ('infinite', INF), ('an atom of another value', Atom(Other())),
            ('another value', Other()), ('undefined', UNDEF)]
    ms = [('a multiclan', MCLAN), ('no multiclan', Other(True)), ('undefined', UNDEF)]
    if name == '_to_listgen_slice':
        for a, o in offs[:1]:
            for c, l in lims[:2]:
                yield 'offset is %s, limit is %s' % (a, c), {'offset': o, 'limit': l}
        return
    for checked in (True, False):
        for m, mv in ms:
            for a, o in offs:
                for c, l in lims:
                    env = {'mclan': mv, 'offset': o, 'limit': l, '_checked': checked}
                    if in_domain(env):
                        if 'less_than_f' in PARAMS[name]:
                            env['less_than_f'] = LESS
                        yield '%s, the first argument is %s, offset is %s, limit is %s' % ('checked' if checked else 'unchecked', m, a, c), env


class Verifier:
    def __init__(self, repo):
        self.src = Source(repo)

    def function(self, name):
        Rs = Result('algebras.multiclans.' + name)
        d = self.src.mod(MOD).defs.get(name)
        if d is None or [a.arg for a in d.args.args] != PARAMS[name]:
            if name.startswith('_'):            # a helper with another contract: executed in place by its callers
                Rs.r['status'] = 'absent'
                return Rs.finish()
            raise Unsupported('no function %s with the parameters %s' % (name, ', '.join(PARAMS[name])))
        for what, env in shapes(name):
            w = window(dict(env, _checked=env.get('_checked', False)))
            end = (INF if isinf(w[1]) else w[0] + w[1]) if w else None
            ex = Exec(self.src, (w[0], end) if w else (IntVal(0), IntVal(0)))
            ex.verifying = name
            st = B.start(ex, MOD)
            if w:
                st.pc.append(nonnegative(w))
            f = ex.frame(st, None, MOD)
            st.frames[f].update(env)
            if name == '_to_listgen_slice':
                st, r = ex.new_list(st, GIVEN)
                st.frames[f]['counter_list'] = r
            paths = 0
            for s, o, v in ex.block(d.body, st, f):
                paths += 1
                where = '%s:%d path %d' % (SRC, d.lineno, paths)
                if o == 'raise':
                    ex.ob(s, 'no exception: %s' % v, 'undef', BoolVal(False), d)
                elif not w:
                    Rs.add('undefined (%s)' % what, 'undef', where, ex.hyps() + s.pc, BoolVal(v is UNDEF))
                else:
                    g = self.goal(name, ex, v, s, w, end)
                    Rs.add('result (%s)' % what, 'value', where, ex.hyps() + s.pc, g)
            if not paths:
                Rs.add('some path returns (%s)' % what, 'vacuity', SRC, [], BoolVal(bool(ex.obs)))
            for o in ex.obs:
                Rs.add('%s (%s)' % (o.name, what), o.clause, '%s:%s' % (SRC, getattr(o.node, 'lineno', '?')), ex.hyps() + o.pc, o.goal)
            Rs.used |= ex.used
            Rs.inlined |= ex.inlined
        return Rs.finish()

    def goal(self, name, ex, v, st, w, end):
        if v is UNDEF:
            return BoolVal(False)
        if name == '_to_listgen_check_args':
            if not (isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, Atom) and num(x.value) for x in v)):
                return BoolVal(False)
            return And(*[x.value == y if not isinstance(x.value, float) and not isinstance(y, float) else BoolVal(same(x.value, y)) for x, y in zip((v[0], v[1]), w)])
        q = SORTED if name.startswith('order') else GIVEN
        want = ex.window(q, w[0], end, n)
        if name == 'order_slice':
            return v.term == want if isinstance(v, MSet) else BoolVal(False)
        if not isinstance(v, Ref):
            raise Unsupported('the result is no list')
        return ex.term(v, st) == want


def lemma(key, base, step):
    """Induction: base is a list of (hypotheses, goal), step likewise."""
    Rs = Result('lemma: ' + key)
    for i, (h, g) in enumerate(base):
        Rs.add('%s, base %d' % (key, i) if len(base) > 1 else key + ', base', 'value', 'pyvc/slicevc.py', h, g)
    for i, (h, g) in enumerate(step):
        Rs.add('%s, step %d' % (key, i) if len(step) > 1 else key + ', step', 'value', 'pyvc/slicevc.py', h, g)
    return Rs.finish()


def lemmas():
    q = GIVEN
    j, k, s, e = z3.Ints('j k s e')
    D = start(q) + definition(q, j)
    at = [0 <= j, j < n]
    r = {}
    r['at least one position for each item'] = lambda: lemma('at least one position for each item', [(D, q.P(0) >= 0)], [(D + at + [q.P(j) >= j], q.P(j + 1) >= j + 1)])
    r['positions grow'] = lambda: lemma('positions grow', [(D, q.P(k) <= q.P(k))], [(D + at + [k <= j, q.P(k) <= q.P(j)], q.P(k) <= q.P(j + 1))])
    for end, nm in ((e, ''), (INF, ' (no limit)')):
        W = lambda i, end=end: q.window(s, end, i)
        H = D + window_definition(q, s, end, j)
        up = [q.P(j + 1) <= q.P(n)]
        full = [s == 0] + ([end >= q.P(n)] if end is e else [])
        key = 'a window over all positions has all items' + nm
        r[key] = lambda H=H, W=W, full=full, up=up, key=key: lemma(key, [(H, W(IntVal(0)) == q.Pre(0))], [(H + at + up + full + [q.P(j) >= 0, W(j) == q.Pre(j)], W(j + 1) == q.Pre(j + 1))])
        key = 'nothing before the window' + nm
        r[key] = lambda H=H, W=W, key=key: lemma(key, [(H, Implies(q.P(0) <= s, W(IntVal(0)) == L.nil))],
                                                 [(H + at + [Implies(q.P(j) <= s, W(j) == L.nil), q.P(j + 1) <= s], W(j + 1) == L.nil)])
    W = lambda i: q.window(s, e, i)
    H = D + window_definition(q, s, e, j)
    r['nothing after the window'] = lambda: lemma('nothing after the window', [(H + [q.P(k) >= e], And(q.P(k) >= e, W(k) == W(k)))],
                                                  [(H + at + [k <= j, q.P(j) >= e, W(j) == W(k)], And(q.P(j + 1) >= e, W(j + 1) == W(k)))])
    r['an empty window is empty'] = lambda: lemma('an empty window is empty', [(H, W(IntVal(0)) == L.nil)], [(H + at + [e <= s, W(j) == L.nil], W(j + 1) == L.nil)])
    m = z3.Int('m')
    pos = lambda x: mx(x, IntVal(0))
    r['windows that tile the positions add up'] = lambda: lemma('windows that tile the positions add up', [
        (D + at + [0 <= s, s <= m, m <= e], pos(q.sel(s, m, j)) + pos(q.sel(m, e, j)) == pos(q.sel(s, e, j))),
        (D + at + [0 <= s, s <= m], pos(q.sel(s, m, j)) + pos(q.sel(m, INF, j)) == pos(q.sel(s, INF, j))),
        (D + at + [q.P(j) >= 0], pos(q.sel(IntVal(0), INF, j)) == q.M(j))], [])
    T = z3.Function('selected', I, I)
    clip = lambda x: mn(mx(x, s), e) - s
    r['a window has as many positions as it is long'] = lambda: lemma('a window has as many positions as it is long', [
        (D + [T(0) == 0, 0 <= s, s <= e], T(0) == clip(q.P(0)))],
        [(D + at + [T(j + 1) == T(j) + pos(q.sel(s, e, j)), 0 <= s, s <= e, T(j) == clip(q.P(j))], T(j + 1) == clip(q.P(j + 1)))])
    return r


def jobs():
    r = {'algebras.multiclans.' + f: (lambda vf, f=f: vf.function(f)) for f in PARAMS}
    for k, f in lemmas().items():
        r['lemma: ' + k] = lambda vf, f=f: f()
    return r


def keys(): return list(jobs())


def one(job):
    repo, key = job
    return B.attempt(key, lambda: jobs()[key](Verifier(repo)), Solver)


def run(repo):
    return {k: r for k, r in B.pooled(one, [(repo, key) for key in jobs()]).items() if r['status'] != 'absent'}


if __name__ == '__main__':
    B.main(run)
