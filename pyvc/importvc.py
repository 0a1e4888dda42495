"""Verification of the import of JSON and XML documents (C19): import_json, import_xml, get_left_cached.

Structural induction over the document: the recursive generators are executed symbolically from the source in /repo for any
node; their calls for parts of the node go through their contracts (what a node yields, spec below), with the obligation
that the part is smaller. A collection of any size is a list of alternatives {value | variables, conditions}; a loop is
executed for any element of each alternative; the obligation is that what is yielded are exactly the specified values."""
import ast
import os
import time
import z3
from z3 import And, Or, Not, If, Implies, ForAll, Exists, BoolVal, IntVal
from pyvc import structvc as B
from pyvc.structvc import Unsupported, Fn, Cls, Mod, Bi, Source, is_z3, is_property, simp

N, T, P, V = (z3.DeclareSort(n) for n in ('Node', 'Text', 'Plain', 'MathObject'))
I, BOOL = z3.IntSort(), z3.BoolSort()
F = z3.Function
atom, couplet = F('atom', P, V), F('couplet', V, V, V)
left, right, member = F('left', V, V), F('right', V, V), F('member', V, V, BOOL)
text = F('text', T, P)                          # the string as a plain value
size = F('size', N, I)
a, b = z3.Consts('a b', V)
p, p2 = z3.Consts('p p2', P)
x, y = z3.Consts('x y', V)
n, m = z3.Consts('n m', N)
t, t2 = z3.Consts('t t2', T)
unatom = F('value_of', V, P)
VALUES = [ForAll([a, b], And(left(couplet(a, b)) == a, right(couplet(a, b)) == b), patterns=[couplet(a, b)]),
          ForAll([p], unatom(atom(p)) == p, patterns=[atom(p)]),
          ForAll([n], size(n) >= 0, patterns=[size(n)])]

# --- JSON documents: kind 1 object, 2 array, 3 scalar -------------------------------------------------
jk, sk = F('json_kind', N, I), F('scalar_type', N, I)
has, get = F('has_key', N, T, BOOL), F('at_key', N, T, N)
elem = F('array_item', N, N, BOOL)
plain = F('scalar', N, P)
jout, jset = F('yields', N, V, BOOL), F('json_set', N, V)
k, e = z3.Const('k', T), z3.Const('e', N)


def jout_def(j, v):
    y_ = get(j, k)
    return If(jk(j) == 2, Exists([e], And(elem(j, e), v == jset(e))),
              Exists([k], And(has(j, k), Or(And(jk(y_) == 1, v == couplet(atom(text(k)), jset(y_))),
                                            And(jk(y_) == 3, v == couplet(atom(text(k)), atom(plain(y_)))),
                                            And(jk(y_) == 2, Exists([e], And(elem(y_, e), v == couplet(atom(text(k)), jset(e)))))))))


JSON = [
    ForAll([n], And(jk(n) >= 1, jk(n) <= 3, sk(n) >= 1, sk(n) <= 4), patterns=[jk(n)]),
    ForAll([n, e], Implies(elem(n, e), And(size(e) < size(n), Or(jk(e) == 1, jk(e) == 2))), patterns=[elem(n, e)]),
    ForAll([n, k], Implies(has(n, k), size(get(n, k)) < size(n)), patterns=[has(n, k)]),
    ForAll([n, x], member(x, jset(n)) == jout(n, x), patterns=[jout(n, x)]),
    ForAll([n, x], member(x, jset(n)) == jout(n, x), patterns=[member(x, jset(n))]),
]

# --- XML documents: kind 1 element, 3 text (9: the document) ------------------------------------------
xk = F('node_type', N, I)
child, hasa, aval = F('child', N, N, BOOL), F('has_attribute', N, T, BOOL), F('attribute', N, T, T)
tag, data, strip, blank = F('tag', N, T), F('data', N, T), F('strip', T, T), F('is_empty_text', T, BOOL)
isint, isfloat, toint, tofloat = F('is_int', T, BOOL), F('is_float', T, BOOL), F('int_of', T, P), F('float_of', T, P)
convert = z3.Bool('convert_numerics')
dollar = z3.Const("'$'", T)
empty = z3.Const("''", T)
yields, val = F('is_imported', N, BOOL), F('imported', N, V)
part, parts, one, the = F('part', N, V, BOOL), F('parts', N, V), F('one_part', N, BOOL), F('the_part', N, V)
conv = lambda s: If(convert, If(isint(s), toint(s), If(isfloat(s), tofloat(s), text(s))), text(s))
c, nm = z3.Const('c', N), z3.Const('name', T)


def part_def(n, v):
    return Or(Exists([c], And(child(n, c), yields(c), v == val(c))), Exists([nm], And(hasa(n, nm), v == couplet(atom(text(nm)), atom(conv(aval(n, nm)))))))


def children_out(n, v): return Exists([c], And(child(n, c), yields(c), v == val(c)))


kids = F('children_yield', N, V, BOOL)
XML = [
    blank(empty), ForAll([t], Implies(blank(t), t == empty), patterns=[blank(t)]),
    ForAll([n, x], kids(n, x) == children_out(n, x), patterns=[kids(n, x)]),
    ForAll([n, c], Implies(And(child(n, c), yields(c)), kids(n, val(c))), patterns=[child(n, c)]),
    ForAll([n, x], part(n, x) == part_def(n, x), patterns=[part(n, x)]),
    ForAll([n, x], Implies(kids(n, x), part(n, x)), patterns=[kids(n, x)]),
    ForAll([n, nm], Implies(hasa(n, nm), part(n, couplet(atom(text(nm)), atom(conv(aval(n, nm)))))), patterns=[hasa(n, nm)]),
    ForAll([n, c], Implies(child(n, c), And(size(c) < size(n), Or(xk(c) == 1, xk(c) == 3))), patterns=[child(n, c)]),
    ForAll([n], yields(n) == If(xk(n) == 3, Not(blank(strip(data(n)))), True), patterns=[yields(n)]),
    ForAll([n], val(n) == If(xk(n) == 3, couplet(atom(text(dollar)), atom(conv(strip(data(n))))),
                             couplet(atom(text(tag(n))), If(And(one(n), left(the(n)) == atom(text(dollar))), right(the(n)), parts(n)))), patterns=[val(n)]),
    ForAll([n, x], member(x, parts(n)) == part(n, x), patterns=[member(x, parts(n))]),
    ForAll([n, x], Implies(part(n, x), And(part(n, the(n)), Implies(one(n), x == the(n)))), patterns=[part(n, x)]),
    ForAll([n], Implies(one(n), part(n, the(n))), patterns=[one(n)]),
    ForAll([n], Implies(Not(one(n)), Or(ForAll([x], Not(part(n, x)), patterns=[part(n, x)]), Exists([x], And(part(n, x), x != the(n))))), patterns=[one(n)]),
]


class Alt:
    """{value | vars: conds}; value is a z3 term or a tuple"""
    def __init__(self, vars, conds, value): self.vars, self.conds, self.value = vars, conds, value


class Coll:
    """A collection; spec: the specified collection that it is (kind, node)"""
    def __init__(self, alts, spec=None, multi=False): self.alts, self.spec, self.multi = alts, spec, multi


class Ref:
    def __init__(self, key): self.key = key


class File:
    pass


class Doc:
    """A dictionary or list of the library, or a node, is a z3 term; this is a view of it."""
    def __init__(self, node, what): self.node, self.what = node, what


class Cache:
    pass


class FileArg:
    """A file object or a path"""


FILE, CACHE, ARG = File(), Cache(), FileArg()


def spec_coll(kind, node):
    v = z3.FreshConst(V, 'v')
    f = {'jout': jout, 'part': part, 'kids': kids}[kind]
    return Coll([Alt([v], [f(node, v)], v)], (kind, node))


class Exec(B.Exec):
    def __init__(self, src, theory, module, lang):
        super().__init__(src)
        self.theory, self.module, self.lang = theory, module, lang
        self.bound = []
        self.raises = []
        self.axioms = []
        self.recursive_fn = None
        self.measure_of = None

    def hyps(self): return VALUES + self.theory + self.axioms

    def solver(self, pc):
        s = z3.Solver()
        s.set('rlimit', 2000000)
        s.set('smt.mbqi', False)
        s.set('smt.auto_config', False)
        s.add(*self.hyps())
        s.add(*pc)
        return s

    def feasible(self, st, c):
        s = self.solver(st.pc)
        s.set('rlimit', 300000)
        s.add(c)
        self.queries += 1
        t0 = time.time()
        r = s.check() != z3.unsat
        self.solver_s += time.time() - t0
        return r

    def entails(self, pc, g):
        self.queries += 1
        return B.prove(self.hyps() + list(pc), g, 2000000, solver=Solver)

    # --- names ------------------------------------------------------------------------------------
    def global_(self, mod, name):
        if mod == 'algebraixlib.mathobjects':
            return Cls(mod, name)
        m = self.src.mod(mod)
        if name in m.defs:
            return Fn(m.defs[name], mod)
        for d in m.tree.body:
            if isinstance(d, ast.Assign) and len(d.targets) == 1 and isinstance(d.targets[0], ast.Name) and d.targets[0].id == name:
                st = B.start(self, mod)
                return self.ev(d.value, st, self.n)[0][1]
        if name in m.imports:
            return self.imported(m.imports[name])
        if name in ('list', 'set', 'frozenset', 'tuple', 'dict', 'str', 'int', 'float', 'bool', 'len', 'isinstance', 'iter', 'next', 'hasattr', 'getattr', 'open', 'any', 'all', 'type', 'ValueError', 'TypeError', 'sorted'):
            return Bi(name)
        raise Unsupported('name ' + name)

    def imported(self, full):
        if full == 'algebraixlib.mathobjects':
            return Mod(full)
        if full.startswith('algebraixlib.mathobjects.'):
            return Cls('algebraixlib.mathobjects', full.rpartition('.')[2])
        return super().imported(full)

    def ev_Constant(self, e_, st, fr):
        if isinstance(e_.value, str):
            return [(st, self.string(e_.value))]
        return [(st, e_.value)]

    def string(self, s): return dollar if s == '$' else empty if s == '' else z3.Const(repr(s), T)

    def attr(self, o, name, st, node):
        if is_z3(o, N) and self.lang == 'xml':
            if name == 'nodeType':
                return [(st, xk(o))]
            if name.endswith('_NODE'):
                import xml.dom
                if hasattr(xml.dom.Node, name):
                    return [(st, int(getattr(xml.dom.Node, name)))]
            if name == 'childNodes':
                v = z3.FreshConst(N, 'child')
                return [(st, Coll([Alt([v], [child(o, v)], v)], ('nodes', o)))]
            if name == 'attributes':
                return [(st, Doc(o, 'attributes'))]
            if name in ('tagName', 'nodeName'):
                self.ob(st, 'an element has a tag name', 'undef', xk(o) == 1, node)
                return [(st, tag(o))]
            if name in ('data', 'nodeValue'):
                self.ob(st, 'a text node has data', 'undef', xk(o) == 3, node)
                return [(st, data(o))]
            return [(st, Bi(name, o))]
        if is_z3(o, N) or is_z3(o, T) or isinstance(o, (Doc, Coll, Ref)):
            return [(st, Bi(name, o))]
        if is_z3(o, V):
            if name in ('left', 'right'):
                return [(st, (left if name == 'left' else right)(o))]
            return [(st, Bi(name, o))]
        if isinstance(o, Fn) and name == 'left_cache' or o is CACHE:
            return [(st, CACHE if o is not CACHE else Bi(name, o))]
        return super().attr(o, name, st, node)

    # --- collections ------------------------------------------------------------------------------
    def new(self, st, c):
        st = st.copy()
        self.n += 1
        st.heap[self.n] = c
        return st, Ref(self.n)

    def coll(self, v, st):
        if isinstance(v, Ref):
            return st.heap[v.key]
        if isinstance(v, Coll):
            return v
        if isinstance(v, tuple):
            return Coll([Alt([], [], q) for q in v])
        if is_z3(v, N) and self.lang == 'json':
            # iteration over an array or over the keys of an object
            k1 = self.known(st, v)
            if k1 == 2:
                q = z3.FreshConst(N, 'item')
                return Coll([Alt([q], [elem(v, q)], q)])
            if k1 == 1:
                q = z3.FreshConst(T, 'key')
                return Coll([Alt([q], [has(v, q)], q)])
        if isinstance(v, Doc) and v.what in ('attributes', 'keys', 'items', 'values'):
            q = z3.FreshConst(T, 'key')
            h, g_ = (has, get) if self.lang == 'json' else (hasa, aval)
            value = {'keys': q, 'attributes': q, 'values': g_(v.node, q), 'items': (q, g_(v.node, q))}[v.what]
            return Coll([Alt([q], [h(v.node, q)], value)])
        raise Unsupported('collection')

    def known(self, st, v):
        for k1 in (1, 2, 3):
            if self.entails(st.pc, jk(v) == k1):
                return k1

    def pred(self, coll, v):
        """v is in the collection"""
        fs = []
        for al in coll.alts:
            if isinstance(al.value, tuple) or al.value.sort() != v.sort():
                raise Unsupported('element of a collection')
            f = And(*(al.conds + [v == al.value]))
            fs.append(Exists(al.vars, f) if al.vars else f)
        return Or(*fs) if fs else BoolVal(False)

    def canon(self, coll, st):
        """The specified collection that it is, if any"""
        if coll.spec is not None or any(not is_z3(al.value, V) for al in coll.alts):
            return coll
        v = z3.FreshConst(V, 'v')
        for nd in self.nodes(st):
            for kind in ('jout',) if self.lang == 'json' else ('part', 'kids'):
                sp = spec_coll(kind, nd)
                if self.entails(st.pc, ForAll([v], self.pred(coll, v) == self.pred(sp, v))):
                    return sp
        return coll

    def nodes(self, st):
        out = []
        for f in reversed(list(st.frames)):
            for q in st.frames[f].values():
                if is_z3(q, N) and not any(q.eq(r) for r in out):
                    out.append(q)
        return out

    def set_of(self, coll, st):
        coll = self.canon(coll, st)
        if coll.spec is not None and coll.spec[0] in ('jout', 'part'):
            return (jset if coll.spec[0] == 'jout' else parts)(coll.spec[1])
        if any(not is_z3(al.value, V) for al in coll.alts):
            raise Unsupported('elements of a set')
        self.n += 1
        u = F('set!%d' % self.n, *([q.sort() for q in self.bound] + [V]))(*self.bound) if self.bound else z3.Const('set!%d' % self.n, V)
        v = z3.FreshConst(V, 'v')
        self.axioms.append(ForAll(self.bound + [v], member(v, u) == self.pred(coll, v), patterns=[member(v, u)]))
        return u

    def truth(self, v, st):
        if isinstance(v, (Coll, Ref)):
            return self.nonempty(self.canon(self.coll(v, st), st))
        if isinstance(v, B.Len):
            return self.nonempty(v.c)
        if is_z3(v, T):
            return Not(blank(v))
        if is_z3(v, N) and self.lang == 'json':
            k_, e_ = z3.FreshConst(T, 'key'), z3.FreshConst(N, 'item')
            return If(jk(v) == 1, Exists([k_], has(v, k_)), If(jk(v) == 2, Exists([e_], elem(v, e_)), F('is_true', P, BOOL)(plain(v))))
        if isinstance(v, (bool, int)) or v is None:
            return bool(v)
        if is_z3(v, BOOL):
            return v
        if is_z3(v, I):
            return v != 0
        raise Unsupported('truth')

    def nonempty(self, coll):
        fs = [Exists(al.vars, And(*al.conds)) if al.vars else And(*al.conds) if al.conds else BoolVal(True) for al in coll.alts]
        return Or(*fs) if fs else BoolVal(False)

    def one(self, coll):
        if coll.spec is not None and coll.spec[0] == 'part':
            return one(coll.spec[1])
        v, w = z3.FreshConst(V, 'v'), z3.FreshConst(V, 'w')
        if coll.multi:
            raise Unsupported('length of a list')
        return Exists([v], And(self.pred(coll, v), ForAll([w], Implies(self.pred(coll, w), v == w))))

    def compare(self, op, l, r, st, node):
        ty = type(op)
        swap = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if isinstance(r, (B.Len, TextLen)) and isinstance(l, int):
            l, r, ty = r, l, swap.get(ty, ty)
        if isinstance(l, TextLen) and isinstance(r, int):
            f = Not(blank(l.t))
            tab = {(ast.Gt, 0): f, (ast.NotEq, 0): f, (ast.GtE, 1): f, (ast.Eq, 0): Not(f), (ast.Lt, 1): Not(f), (ast.LtE, 0): Not(f)}
            if (ty, r) in tab:
                return [(st, tab[ty, r])]
            n_ = F('length', T, I)(l.t)
            st.pc += [n_ >= 0, (n_ == 0) == blank(l.t)]
            return [(st, {ast.Gt: n_ > r, ast.GtE: n_ >= r, ast.Lt: n_ < r, ast.LtE: n_ <= r, ast.Eq: n_ == r, ast.NotEq: n_ != r}[ty])]
        if isinstance(l, B.Len) and isinstance(r, int):
            q = l.c
            f = self.nonempty(q)
            tab = {(ast.Gt, 0): lambda: f, (ast.NotEq, 0): lambda: f, (ast.GtE, 1): lambda: f, (ast.Eq, 0): lambda: Not(f), (ast.Lt, 1): lambda: Not(f),
                   (ast.LtE, 0): lambda: Not(f), (ast.Eq, 1): lambda: self.one(q), (ast.NotEq, 1): lambda: Not(self.one(q)),
                   (ast.Gt, 1): lambda: And(f, Not(self.one(q))), (ast.GtE, 2): lambda: And(f, Not(self.one(q))), (ast.LtE, 1): lambda: Or(Not(f), self.one(q)), (ast.Lt, 2): lambda: Or(Not(f), self.one(q))}
            if (ty, r) in tab:
                return [(st, tab[ty, r]())]
        neg = ty in (ast.NotEq, ast.IsNot, ast.NotIn)
        wrap = lambda f: [(st, (not f if isinstance(f, bool) else Not(f)) if neg else f)]
        if ty in (ast.In, ast.NotIn):
            if r is CACHE and is_z3(l, T):
                return wrap(st.heap['cache'])
            if isinstance(r, Doc) and is_z3(l, T):
                return wrap((has if self.lang == 'json' else hasa)(r.node, l))
            if isinstance(r, (Coll, Ref)) and is_z3(l, V):
                return wrap(self.pred(self.coll(r, st), l))
            if isinstance(r, tuple) and all(isinstance(q, int) for q in r) and is_z3(l, I):
                return wrap(Or(*[l == q for q in r]))
        if ty in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot):
            num = lambda q: isinstance(q, int) or is_z3(q, I)
            if is_z3(l) and is_z3(r) and l.sort() == r.sort() and l.sort() in (V, T, P) and ty in (ast.Eq, ast.NotEq) or num(l) and num(r):
                return wrap(l == r)
            if (l is None) != (r is None) and ty in (ast.Is, ast.IsNot):
                return wrap(False)
            if l is None and r is None:
                return wrap(True)
        raise Unsupported('comparison')

    def ev_List(self, e_, st, fr):
        out = []
        for s, vs in self.evs(e_.elts, st, fr):
            out.append(self.new(s, Coll([Alt([], [], q) for q in vs], None, True)))
        return out

    def ev_Set(self, e_, st, fr):
        return [self.new(s, Coll([Alt([], [], q) for q in vs])) for s, vs in self.evs(e_.elts, st, fr)]

    def ev_Dict(self, e_, st, fr):
        if e_.keys:
            raise Unsupported('dictionary')
        return [(st, 'empty dict')]

    def ev_BinOp(self, e_, st, fr):
        out = []
        for s, (l, r) in self.evs([e_.left, e_.right], st, fr):
            if isinstance(e_.op, (ast.BitOr, ast.Add)) and isinstance(l, (Ref, Coll)) and isinstance(r, (Ref, Coll)):
                out.append(self.new(s, Coll(self.coll(l, s).alts + self.coll(r, s).alts)))
            else:
                raise Unsupported('operator')
        return out

    def ev_Subscript(self, e_, st, fr):
        out = []
        for s, (o, i) in self.evs([e_.value, e_.slice], st, fr):
            if isinstance(o, tuple) and isinstance(i, int) and i < len(o):
                out.append((s, o[i]))
            elif is_z3(o, N) and is_z3(i, T) and self.lang == 'json':
                self.ob(s, 'the key is in the object', 'undef', has(o, i), e_)
                out.append((s, get(o, i)))
            elif o is CACHE and is_z3(i, T):
                for s2, there in self.fork(s, s.heap['cache']):
                    if there:
                        out.append((s2, atom(text(i))))
                    else:
                        self.raise_(s2, 'KeyError', e_)
            else:
                raise Unsupported('subscript')
        return out

    # --- generators and loops ---------------------------------------------------------------------
    def each(self, coll, st, run):
        """run(value, state) -> [(state, outcome, value)] for each alternative, under its conditions.
        [(alternative, paths, number of conditions before)]"""
        out = []
        for al in coll.alts:
            vs = [z3.FreshConst(q.sort(), q.decl().name().split('!')[0]) for q in al.vars]
            sub = lambda f: z3.substitute(f, *zip(al.vars, vs)) if vs else f
            val_ = tuple(sub(q) for q in al.value) if isinstance(al.value, tuple) else sub(al.value) if is_z3(al.value) else al.value
            s = st.copy()
            n0 = len(s.pc)
            conds = [sub(q) for q in al.conds]
            s.pc += conds
            old = self.bound
            self.bound = old + vs
            paths = run(val_, s)
            self.bound = old
            out.append((vs, conds, paths, n0 + len(conds)))
        return out

    def comprehension(self, e_, st, fr, elt):
        if any(g.is_async for g in e_.generators):
            raise Unsupported('comprehension')

        def go(i, s, f):
            """[Alt] of the generators from i on"""
            if i == len(e_.generators):
                return [(s, [], [], v) for s, v in self.ev(elt, s, f)]
            g = e_.generators[i]
            res = []
            for s1, q in self.ev(g.iter, s, f):
                n1 = len(s1.pc)
                def body(v, s2):
                    self.assign(g.target, v, s2, f)
                    alts = [s2]
                    for cond in g.ifs:
                        alts = [s4 for s3 in alts for s3b, w in self.ev(cond, s3, f) for s4, ok in self.fork(s3b, self.truth(w, s3b)) if ok]
                    return [r for s3 in alts for r in go(i + 1, s3, f)]
                for vs, conds, paths, n2 in self.each(self.coll(q, s1), s1, body):
                    for s3, vs2, cs2, v in paths:
                        res.append((s1, vs + vs2, conds + (s3.pc[n2:] if i == len(e_.generators) - 1 else []) + cs2 if False else conds + self.extra(s3, n2, cs2), v))
            return res
        f = self.frame(st, fr, None)
        st2 = st
        rs = go(0, st2, f)
        return [(st, Coll([Alt(vs, cs, v) for _, vs, cs, v in rs]))]

    def extra(self, s, n2, cs): return list(s.pc[n2:]) + [q for q in cs if not any(q.eq(r) for r in s.pc[n2:])]

    def ev_GeneratorExp(self, e_, st, fr): return self.comprehension(e_, st, fr, e_.elt)

    def ev_ListComp(self, e_, st, fr):
        return [self.new(s, Coll(q.alts, None, True)) for s, q in self.comprehension(e_, st, fr, e_.elt)]

    def ev_SetComp(self, e_, st, fr): return [self.new(s, q) for s, q in self.comprehension(e_, st, fr, e_.elt)]

    def assign(self, tg, v, st, fr):
        if isinstance(tg, ast.Name):
            st.frames[fr][tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)) and isinstance(v, tuple) and len(v) == len(tg.elts):
            for q, w in zip(tg.elts, v):
                self.assign(q, w, st, fr)
        elif isinstance(tg, ast.Attribute) and tg.attr == 'left_cache':
            if v != 'empty dict':
                raise Unsupported('cache')
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, st, fr)[0][1]
            i = self.ev(tg.slice, st, fr)[0][1]
            if o is not CACHE or not is_z3(i, T):
                raise Unsupported('assignment')
            self.ob(st, 'the cache has the atom of its key', 'value', (v == atom(text(i))) if is_z3(v, V) else BoolVal(False), tg)
            st.heap['cache'] = BoolVal(True)
        else:
            raise Unsupported('assignment to ' + ast.unparse(tg))

    def yielded(self, st, al): st.ghost = (st.ghost or []) + [al]

    def stmt(self, s, st, fr):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
            out = []
            for q, v in self.ev(s.value.value, st, fr):
                q = q.copy()
                self.yielded(q, Alt([], [], v))
                out.append((q, 'next', None))
            return out
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
            out = []
            for q, v in self.ev(s.value.value, st, fr):
                q = q.copy()
                for al in self.coll(v, q).alts:
                    self.yielded(q, al)
                out.append((q, 'next', None))
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            out = []
            for q, v in self.ev(s.value, st, fr):
                q = q.copy()
                for tg in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    self.assign(tg, v, q, fr)
                out.append((q, 'next', None))
            return out
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.BitOr, ast.Add)):
            out = []
            for q, (o, v) in self.evs([ast.Name(s.target.id, ast.Load()), s.value], st, fr):
                out += [(q2, 'next', None) for q2, _ in self.builtin(Bi('update', o), [v], {}, q, s)]
            return out
        if isinstance(s, ast.Try):
            if s.finalbody or s.orelse:
                raise Unsupported('try')
            self.raises.append([])
            depth = len(self.bound)
            out = self.block(s.body, st, fr)
            for q, exc in self.raises.pop():
                for h in s.handlers:
                    names = [w.id for w in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if isinstance(w, ast.Name)] if h.type is not None else ['Exception']
                    if exc in names or 'Exception' in names:
                        q.frames.setdefault(fr, st.frames[fr])
                        out += self.block(h.body, q, fr)
                        break
                else:
                    self.raise_(q, exc, s)
            return out
        if isinstance(s, ast.With):
            q = st
            for it in s.items:
                rs = self.ev(it.context_expr, q, fr)
                if len(rs) != 1 or rs[0][1] is not FILE:
                    raise Unsupported('with')
                q = rs[0][0].copy()
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, FILE, q, fr)
            return self.block(s.body, q, fr)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            q = st.copy()
            for al in s.names:
                if isinstance(s, ast.Import):
                    q.frames[fr][al.asname or al.name.split('.')[0]] = Mod(al.name if al.asname else al.name.split('.')[0])
                else:
                    q.frames[fr][al.asname or al.name] = self.imported('%s.%s' % (s.module, al.name))
            return [(q, 'next', None)]
        return super().stmt(s, st, fr)

    def raise_(self, st, exc, node):
        if self.raises:
            self.raises[-1].append((st, exc))
        else:
            self.ob(st, 'no exception: ' + exc, 'undef', BoolVal(False), node)

    def loop(self, s, st, fr):
        if s.orelse:
            raise Unsupported('loop')
        out = []
        for q, v in self.ev(s.iter, st, fr):
            coll = self.coll(v, q)
            base = q.copy()
            base.ghost = []
            marks = {kk: Coll([], None, cc.multi) if isinstance(cc, Coll) else cc for kk, cc in q.heap.items()}

            def body(v, s1):
                self.assign(s.target, v, s1, fr)
                return self.block(s.body, s1, fr)
            end = q.copy()
            end.ghost = list(q.ghost or [])
            exits = []
            for vs, conds, paths, n2 in self.each(coll, base, body):
                for s2, o, w in paths:
                    extra = conds + s2.pc[n2:]
                    if o in ('next', 'continue'):
                        for al in s2.ghost or []:
                            end.ghost.append(Alt(vs + al.vars, extra + al.conds, al.value))
                        for kk, c0 in q.heap.items():
                            c2 = s2.heap[kk]
                            if c2 is c0:
                                continue
                            if not (isinstance(c0, Coll) and c2.alts[:len(c0.alts)] == c0.alts):
                                raise Unsupported('loop with side effects')
                            cur = end.heap[kk]
                            end.heap[kk] = Coll(cur.alts + [Alt(vs + al.vars, extra + al.conds, al.value) for al in c2.alts[len(c0.alts):]], None, cur.multi)
                    elif o == 'return' and not s2.ghost:
                        exits.append((vs, extra, w))
                    else:
                        raise Unsupported('exit of a loop')
                    stored = {z.id for z in ast.walk(s) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store)}
                    for f, vars_ in q.frames.items():
                        for nm_, v0 in vars_.items():
                            if s2.frames[f].get(nm_) is not v0 and not (f == fr and nm_ in stored and nm_ not in q.frames[fr]):
                                if not (f == fr and any(isinstance(z, ast.Name) and z.id == nm_ for z in ast.walk(s.target))):
                                    raise Unsupported('loop-carried variable ' + nm_)
            if exits:
                if end.ghost or any(end.heap[kk] is not q.heap[kk] for kk in q.heap):
                    raise Unsupported('exit of a loop with side effects')
                # a search: returns the same constant for some element, or goes on
                w0 = exits[0][2]
                if not all(w is w0 or isinstance(w, bool) and w == w0 for _, _, w in exits) or is_z3(w0):
                    raise Unsupported('exit of a loop')
                some = Or(*[Exists(vs, And(*ex)) if vs else And(*ex) for vs, ex, _ in exits])
                for s3, ok in self.fork(q, some):
                    if ok:
                        out.append((s3, 'return', w0))
                    else:
                        out.append((s3, 'next', None))
            else:
                for z in ast.walk(s.target):
                    if isinstance(z, ast.Name):
                        end.frames[fr].pop(z.id, None)
                out.append((end, 'next', None))
        return out

    # --- calls ------------------------------------------------------------------------------------
    def is_generator(self, d):
        stack = list(d.body)
        while stack:
            q = stack.pop()
            if isinstance(q, (ast.Yield, ast.YieldFrom)):
                return True
            if not isinstance(q, (ast.FunctionDef, ast.Lambda)):
                stack += list(ast.iter_child_nodes(q))
        return False

    def ev_Call(self, e_, st, fr):
        if any(isinstance(q, ast.Starred) for q in e_.args):
            # Set(*collection): the elements
            if len(e_.args) != 1 or any(kw.arg != 'direct_load' for kw in e_.keywords):
                raise Unsupported('star argument')
            out = []
            for s, (f, v) in self.evs([e_.func, e_.args[0].value], st, fr):
                if not (isinstance(f, Cls) and f.name == 'Set'):
                    raise Unsupported('star argument')
                out.append((s, self.set_of(self.coll(v, s), s)))
            return out
        return super().ev_Call(e_, st, fr)

    def ev_Yield(self, e_, st, fr): raise Unsupported('yield')

    def call(self, f, args, kw, st, node):
        if isinstance(f, Fn):
            if f.node is self.recursive_fn:
                return self.contract(args, kw, st, node)
            if f.node.name == 'get_left_cached' and f.module.endswith('_util') and len(args) == 1 and is_z3(args[0], T) and self.lang != 'util':
                self.used.add('import_export._util.get_left_cached')
                return [(st, atom(text(args[0])))]
            if f.node.name == 'get_single_iter_elem' and len(args) == 1:
                q = self.canon(self.coll(args[0], st), st)
                self.ob(st, 'precondition of get_single_iter_elem: one element', 'pre', self.one(q), node)
                return [(st, self.first(q, st, node))]
            if self.is_generator(f.node):
                if self.local_rec(f.node):
                    return self.generator(f, args, kw, st, node)
                return self.run_generator(f, args, kw, st, node)
        if isinstance(f, Mod):
            return self.builtin(Bi(f.name), args, kw, st, node)
        if isinstance(f, Cls):
            return self.construct(f, args, kw, st, node)
        return super().call(f, args, kw, st, node)

    def recursion(self, d): return False

    def local_rec(self, d):
        return any(isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id == d.name for q in ast.walk(d))

    def run_generator(self, f, args, kw, st, node):
        """[(state, Coll)]"""
        old = st.ghost
        s0 = st.copy()
        s0.ghost = []
        n0 = len(s0.pc)
        alts = []
        for s, v in self.invoke(f, args, kw, s0, node):
            if any(s.heap.get(kk) is not c0 for kk, c0 in st.heap.items()):
                raise Unsupported('generator with side effects')
            alts += [Alt(al.vars, list(s.pc[n0:]) + al.conds, al.value) for al in s.ghost]
        return [(st, Coll(alts))]

    def generator(self, f, args, kw, st, node):
        """A recursive generator: verified for any argument, then used by its contract."""
        if self.recursive_fn is not None:
            raise Unsupported('two recursive generators')
        verify = self.verify_json if self.lang == 'json' else self.verify_xml
        verify(f, st)
        self.recursive_fn = f.node
        r = self.contract(args, kw, st, node)
        self.recursive_fn = None
        return r

    def verify_json(self, f, st):
        j = z3.Const('nodes', N)
        s = st.copy()
        s.pc += [Or(jk(j) == 1, jk(j) == 2)]
        self.recursive_fn, self.measure_of = f.node, size(j)
        saved, self.bound = self.bound, []
        s.ghost = []
        v = z3.FreshConst(V, 'v')
        for s2, r in self.invoke(Fn(f.node, f.module, f.frame), [j], {}, s, f.node):
            got = self.pred(Coll(s2.ghost), v)
            self.ob(s2, '%s: nothing is dropped' % f.node.name, 'value', Implies(jout_def(j, v), got), f.node)
            self.ob(s2, '%s: nothing is invented or attached elsewhere' % f.node.name, 'value', Implies(got, jout_def(j, v)), f.node)
        self.bound, self.measure_of, self.recursive_fn = saved, None, None

    def verify_xml(self, f, st):
        """The parameter is a list of nodes: those that satisfy a predicate."""
        IN = F('in_nodes', N, BOOL)
        q = z3.FreshConst(N, 'node')
        s = st.copy()
        mx = z3.Int('size_of_nodes')
        self.axioms.append(ForAll([n], Implies(IN(n), And(size(n) < mx, Or(xk(n) == 1, xk(n) == 3))), patterns=[IN(n)]))
        self.recursive_fn, self.measure_of = f.node, mx
        saved, self.bound = self.bound, []
        s.ghost = []
        v = z3.FreshConst(V, 'v')
        spec = Exists([c], And(IN(c), yields(c), v == val(c)))
        for s2, r in self.invoke(Fn(f.node, f.module, f.frame), [Coll([Alt([q], [IN(q)], q)])], {}, s, f.node):
            got = self.pred(Coll(s2.ghost), v)
            self.ob(s2, '%s: nothing is dropped' % f.node.name, 'value', Implies(spec, got), f.node)
            self.ob(s2, '%s: nothing is invented or attached elsewhere' % f.node.name, 'value', Implies(got, spec), f.node)
        self.bound, self.measure_of, self.recursive_fn = saved, None, None

    def contract(self, args, kw, st, node):
        if len(args) != 1 or kw:
            raise Unsupported('arguments of the recursive generator')
        o = args[0]
        self.used.add('recursive generator')
        if self.lang == 'json':
            if not is_z3(o, N):
                raise Unsupported('argument of the recursive generator')
            self.ob(st, 'precondition of the recursive call: an object or array', 'pre', Or(jk(o) == 1, jk(o) == 2), node)
            if self.measure_of is not None:
                self.ob(st, 'recursion terminates', 'value', size(o) < self.measure_of, node)
            return [(st, spec_coll('jout', o))]
        if not (isinstance(o, Coll) and o.spec is not None and o.spec[0] == 'nodes'):
            raise Unsupported('argument of the recursive generator')
        nd = o.spec[1]
        if self.measure_of is not None:
            self.ob(st, 'recursion terminates', 'value', size(nd) < self.measure_of, node)
        return [(st, spec_coll('kids', nd))]

    def first(self, q, st, node):
        if q.spec is not None and q.spec[0] == 'part':
            return the(q.spec[1])
        self.n += 1
        u = F('first!%d' % self.n, *([w.sort() for w in self.bound] + [V]))(*self.bound) if self.bound else z3.Const('first!%d' % self.n, V)
        g_ = Implies(And(*(st.pc + [self.nonempty(q)])), self.pred(q, u))
        self.axioms.append(ForAll(self.bound, g_, patterns=[u]) if self.bound else g_)
        return u

    def construct(self, cl, args, kw, st, node):
        kw = {q: w for q, w in kw.items() if q != 'direct_load'}
        if cl.module != 'algebraixlib.mathobjects':
            raise Unsupported('construction of ' + cl.name)
        names = {'Atom': ['value'], 'Couplet': ['left', 'right'], 'Set': ['elements']}.get(cl.name)
        if names is None:
            raise Unsupported('construction of ' + cl.name)
        env = dict(zip(names, args))
        env.update(kw)
        if set(env) - set(names) or not env and cl.name != 'Set':
            raise Unsupported('arguments of ' + cl.name)
        if cl.name == 'Atom':
            w = env['value']
            if is_z3(w, T):
                return [(st, atom(text(w)))]
            if is_z3(w, P):
                return [(st, atom(w))]
            if is_z3(w, N) and self.lang == 'json':
                self.ob(st, 'the value of an atom is a scalar', 'pre', jk(w) == 3, node)
                return [(st, atom(plain(w)))]
            raise Unsupported('value of an atom')
        if cl.name == 'Couplet':
            if set(env) != set(names) or not all(is_z3(w, V) for w in env.values()):
                raise Unsupported('arguments of Couplet')
            return [(st, couplet(env['left'], env['right']))]
        if not env:
            return [(st, self.set_of(Coll([]), st))]
        w = env['elements']
        if is_z3(w, V):
            return [(st, self.set_of(Coll([Alt([], [], w)]), st))]
        return [(st, self.set_of(self.coll(w, st), st))]

    def isinst(self, v, cl):
        if isinstance(cl, tuple):
            fs = [self.isinst(v, q) for q in cl]
            return Or(*[BoolVal(q) if isinstance(q, bool) else q for q in fs])
        if is_z3(v, N) and self.lang == 'json' and isinstance(cl, Bi):
            if cl.name in ('dict', 'list'):
                return jk(v) == {'dict': 1, 'list': 2}[cl.name]
            if cl.name in ('str', 'float', 'bool'):
                return And(jk(v) == 3, sk(v) == {'str': 1, 'float': 3, 'bool': 4}[cl.name])
            if cl.name == 'int':
                return And(jk(v) == 3, Or(sk(v) == 2, sk(v) == 4))
            return False
        if is_z3(v, T) and isinstance(cl, Bi):
            return cl.name == 'str'
        raise Unsupported('isinstance')

    def builtin(self, f, args, kw, st, node):
        name, o = f.name, f.self_
        if name == 'open' and o is None:
            return [(st, FILE)]
        if name == 'json.load' and self.lang == 'json' and args and args[0] in (FILE, ARG) and not kw:
            return [(st, self.document())]
        if name in ('xml.dom.minidom.parse',) and self.lang == 'xml' and args and args[0] in (FILE, ARG):
            return [(st, self.document())]
        if kw:
            raise Unsupported('keywords of ' + name)
        if isinstance(o, Ref) or isinstance(o, Coll):
            q = self.coll(o, st)
            if name in ('union', 'update', 'extend', 'append', 'add', '__or__'):
                st = st.copy()
                alts = list(q.alts)
                for w in args:
                    alts += [Alt([], [], w)] if name in ('append', 'add') else self.coll(w, st).alts
                if name in ('union', '__or__'):
                    return [self.new(st, Coll(alts, None, q.multi))]
                if not isinstance(o, Ref):
                    raise Unsupported('method ' + name)
                st.heap[o.key] = Coll(alts, None, q.multi)
                return [(st, None)]
            if name == 'copy' and not args:
                return [self.new(st, q)]
            raise Unsupported('method ' + name)
        if is_z3(o, N) and self.lang == 'json':
            if name in ('items', 'keys', 'values') and not args:
                self.ob(st, 'it is an object', 'undef', jk(o) == 1, node)
                return [(st, Doc(o, name))]
            raise Unsupported('method ' + name)
        if is_z3(o, N):
            if name == 'getAttribute' and len(args) == 1 and is_z3(args[0], T):
                return [(st, aval(o, args[0]))]
            if name == 'hasChildNodes' and not args:
                v = z3.FreshConst(N, 'child')
                return [(st, Exists([v], child(o, v)))]
            raise Unsupported('method ' + name)
        if o is CACHE:
            if name == 'get' and args and is_z3(args[0], T):
                out = []
                for s, there in self.fork(st, st.heap['cache']):
                    out.append((s, atom(text(args[0])) if there else (args + [None])[1]))
                return out
            if name == 'setdefault' and len(args) == 2 and is_z3(args[0], T) and is_z3(args[1], V):
                st = st.copy()
                self.ob(st, 'the cache has the atom of its key', 'value', args[1] == atom(text(args[0])), node)
                st.heap['cache'] = BoolVal(True)
                return [(st, atom(text(args[0])))]
            raise Unsupported('method ' + name)
        if isinstance(o, Doc):
            if name in ('items', 'keys', 'values') and not args:
                return [(st, Doc(o.node, name))]
            raise Unsupported('method ' + name)
        if is_z3(o, T):
            if name == 'strip' and not args:
                return [(st, strip(o))]
            if name in ('lower', 'upper', 'lstrip', 'rstrip', 'casefold', 'title', 'capitalize', 'swapcase') and not args:
                return [(st, F(name, T, T)(o))]
            raise Unsupported('method ' + name)
        if o is not None:
            raise Unsupported('method ' + name)
        if name in ('set', 'frozenset', 'list', 'tuple', 'iter', 'sorted'):
            if not args:
                return [self.new(st, Coll([], None, name == 'list'))]
            q = self.coll(args[0], st)
            multi = name in ('list', 'tuple', 'sorted')
            q = q if name == 'iter' or q.multi == multi else Coll(q.alts, q.spec if not multi else q.spec, multi)
            return [self.new(st, q)] if name in ('set', 'list') else [(st, q)]
        if name == 'dict' and not args:
            return [(st, 'empty dict')]
        if name == 'next' and len(args) == 1:
            q = self.canon(self.coll(args[0], st), st)
            self.ob(st, 'the collection is not empty', 'undef', self.nonempty(q), node)
            return [(st, self.first(q, st, node))]
        if name == 'len':
            if is_z3(args[0], T):
                return [(st, TextLen(args[0]))]
            return [(st, B.Len(self.canon(self.coll(args[0], st), st)))]
        if name == 'isinstance':
            return [(st, self.isinst(*args))]
        if name == 'hasattr':
            if args[0] is ARG:
                return [(st, z3.Const('it is a file', BOOL))]
            raise Unsupported('hasattr')
        if name == 'getattr' and isinstance(args[0], Fn) and len(args) > 1 and z3.is_expr(args[1]) and str(args[1]) == "'left_cache'":
            return [(st, CACHE)]
        if name in ('int', 'float') and len(args) == 1 and is_z3(args[0], T):
            ok, fn_ = (isint, toint) if name == 'int' else (isfloat, tofloat)
            out = []
            for s, good in self.fork(st, ok(args[0])):
                if good:
                    out.append((s, fn_(args[0])))
                else:
                    self.raise_(s, 'ValueError', node)
            return out
        if name in ('any', 'all') and len(args) == 1 and isinstance(args[0], Coll):
            fs = []
            for al in args[0].alts:
                w = self.truth(al.value, st)
                w = BoolVal(w) if isinstance(w, bool) else w
                g_ = And(*(al.conds + [w])) if name == 'any' else Implies(And(*al.conds), w)
                fs.append((Exists if name == 'any' else ForAll)(al.vars, g_) if al.vars else g_)
            return [(st, Or(*fs) if name == 'any' else And(*fs))]
        if name == 'bool':
            return [(st, self.truth(args[0], st))]
        raise Unsupported('call of ' + name)

    def document(self):
        return z3.Const('document', N)


class TextLen:
    def __init__(self, t_): self.t = t_


class Solver(B.Solver):
    seconds, queries = 0, 0

    @classmethod
    def check(cls, hyps, goal, rlimit, seed=0):
        s = z3.Solver()
        s.set('rlimit', rlimit)
        s.set('smt.random_seed', seed + int(os.environ.get('PYVC_SEED', '0')))
        s.set('smt.mbqi', False)
        s.set('smt.auto_config', False)
        s.add(*hyps, Not(goal))
        t0 = time.time()
        r = s.check()
        cls.seconds += time.time() - t0
        cls.queries += 1
        return r == z3.unsat


class Result(B.Result):
    def __init__(self, key):
        super().__init__(key)
        self.used, self.inlined = set(), set()

    def add(self, name, clause, where, hyps, goal):
        t0 = time.time()
        ok = B.prove(hyps, goal, 10000000, solver=Solver)
        o = dict(name=name, clause=clause, where=where, ok=ok, s=round(time.time() - t0, 3))
        if not ok:
            self.r['status'] = 'failed'
            o['output'] = 'under\n%s\nthe solver does not prove\n  %s' % ('\n'.join('  ' + str(h).replace('\n', ' ')[:400] for h in hyps[-12:]), str(goal)[:1500])
        self.r['obs'].append(o)

    def obligations(self, ex, src):
        for o in ex.obs:
            self.add(o.name, o.clause, '%s:%s' % (src, getattr(o.node, 'lineno', '?')), ex.hyps() + o.pc, o.goal)
        self.used |= ex.used
        self.inlined |= ex.inlined
        self.r['queries'] += ex.queries
        self.r['solver_s'] += ex.solver_s

    def finish(self):
        self.r.update(used=sorted(self.used), inlined=sorted(self.inlined))
        return self.r


class Verifier:
    def __init__(self, repo):
        self.src = Source(repo)

    def importer(self, lang):
        mod = 'algebraixlib.import_export.' + lang
        key = 'import_export.%s.import_%s' % (lang, lang)
        rel = self.src.mod(mod).rel
        d = self.src.mod(mod).defs.get('import_' + lang)
        if d is None:
            raise Unsupported('no function import_' + lang)
        R = Result(key)
        ex = Exec(self.src, JSON if lang == 'json' else XML, mod, lang)
        doc = ex.document()
        st = B.start(ex, mod)
        args = [ARG]
        if lang == 'json':
            st.pc.append(Or(jk(doc) == 1, jk(doc) == 2))
            spec = lambda v: jout(doc, v)
        else:
            st.pc += [xk(doc) == 9]
            spec = lambda v: kids(doc, v)
            if [q.arg for q in d.args.args][1:] != ['convert_numerics']:
                raise Unsupported('parameters')
            args.append(convert)
        paths = 0
        v = z3.FreshConst(V, 'v')
        for s, r in ex.invoke(Fn(d, mod), args, {}, st, d):
            paths += 1
            ok = member(v, r) == spec(v) if is_z3(r, V) else BoolVal(False)
            R.add('the set of what the document yields', 'value', '%s:%d path %d' % (rel, d.lineno, paths), ex.hyps() + s.pc, ok)
        if not paths:
            R.add('some path returns', 'vacuity', rel, [], BoolVal(bool(ex.obs)))
        R.obligations(ex, rel)
        return R.finish()

    def cached(self):
        mod = 'algebraixlib.import_export._util'
        rel = self.src.mod(mod).rel
        d = self.src.mod(mod).defs.get('get_left_cached')
        if d is None:
            raise Unsupported('no function get_left_cached')
        R = Result('import_export._util.get_left_cached')
        ex = Exec(self.src, XML, mod, 'util')
        st = B.start(ex, mod)
        st.heap['cache'] = z3.Const('in_cache', BOOL)
        tg = z3.Const('tag0', T)
        n_ = 0
        for s, r in ex.invoke(Fn(d, mod), [tg], {}, st, d):
            n_ += 1
            R.add('the atom of the tag', 'value', '%s:%d path %d' % (rel, d.lineno, n_), ex.hyps() + s.pc, r == atom(text(tg)) if is_z3(r, V) else BoolVal(False))
        R.obligations(ex, rel)
        return R.finish()


def jobs():
    return {'import_export.json.import_json': lambda vf: vf.importer('json'), 'import_export.xml.import_xml': lambda vf: vf.importer('xml'),
            'import_export._util.get_left_cached': lambda vf: vf.cached()}


def keys(): return list(jobs())


def one_job(job):
    repo, key = job
    return B.attempt(key, lambda: jobs()[key](Verifier(repo)), Solver)


def run(repo): return B.pooled(one_job, [(repo, key) for key in jobs()])


if __name__ == '__main__':
    B.main(run)
