"""Verification of the import and export of CSV tables (C18): import_csv, export_csv and their helpers.

A table is a sequence of rows of any length; the loop over the rows is verified with invariants that are selected among
candidates (Houdini) and then checked inductively. A dictionary is described by its keys and the value of each key; loops and
comprehensions over collections are executed for any element (importvc). csv.DictReader and csv.DictWriter are contracts."""
import ast
import os
import z3
from z3 import And, Or, Not, If, Implies, ForAll, Exists, BoolVal, IntVal
from pyvc import structvc as B
from pyvc import importvc as IV
from pyvc.importvc import (Alt, Coll, Ref, Cache, FileArg, TextLen, N, T, P, V, I, BOOL, F, atom, couplet, left, right, member, text, unatom, blank,
                           empty, FILE, CACHE, ARG, isint)
from pyvc.structvc import Unsupported, Fn, Cls, Mod, Bi, is_z3, simp

C = z3.DeclareSort('Functor')
NONE = z3.Const('None', T)
row = F('row', I, N)
hascell, cell = F('has_cell', N, T, BOOL), F('cell', N, T, T)
hastype, functor, apply_ = F('has_type', T, BOOL), F('type_of_column', T, C), F('convert', C, P, P)
number = F('number', I, P)
untext = F('text_of', P, T)
rows = z3.Int('number_of_rows')
skip_rows = z3.Int('skip_rows')
INDEX = z3.Const('index_column', T)
D = F('in_row', I, T, BOOL)                     # the column has a value in the row
W = F('value_in_row', I, T, P)
same, allsame, differs = F('same_columns', I, BOOL), F('all_same_columns', I, BOOL), F('other_column', I, T)
i, j = z3.Ints('i j')
k, kk = z3.Consts('k kk', T)
pk = z3.Const('p', P)
v, x, y = z3.Consts('v x y', V)
r = z3.Const('r', V)
t = z3.Const('t', T)

# export
M = z3.Const('clan_or_multiclan', V)
CLAN, MCLAN, CABS, MABS, CREG, MREG = (z3.Bool(n) for n in ('is_clan', 'is_multiclan', 'is_absolute_clan', 'is_absolute_multiclan', 'clan_is_regular', 'multiclan_is_regular'))
EMPTYSET = z3.Const('empty_set', V)
lefts, allefts = F('lefts', V, V), z3.Const('lefts_of_all', V)
defined, rightof = F('has_right', V, P, BOOL), F('right_for', V, P, V)
inlefts = F('is_listed', P, BOOL)
REG = Or(And(CLAN, CREG), And(MCLAN, MREG))


def nonblank(r_, k_): return And(hascell(r_, k_), cell(r_, k_) != NONE, cell(r_, k_) != empty)


def theory(index, types):
    """The specified rows of the configuration."""
    c = text(cell(row(i), k))
    w = If(hastype(k), apply_(functor(k), c), c) if types else c
    d = nonblank(row(i), k)
    return [
        ForAll([i, k], D(i, k) == (Or(d, k == INDEX) if index else d), patterns=[D(i, k)]),
        ForAll([i, k], D(i, k) == (Or(d, k == INDEX) if index else d), patterns=[hascell(row(i), k)]),
        ForAll([i, k], W(i, k) == (If(k == INDEX, number(i), w) if index else w), patterns=[W(i, k)]),
        ForAll([i, k], Implies(same(i), D(i, k) == D(0, k)), patterns=[z3.MultiPattern(same(i), D(i, k))]),
        ForAll([i, k], Implies(same(i), D(i, k) == D(0, k)), patterns=[z3.MultiPattern(same(i), D(0, k))]),
        ForAll([i], Implies(Not(same(i)), D(i, differs(i)) != D(0, differs(i))), patterns=[same(i)]),
        allsame(0),      # allsame(i + 1) == allsame(i) and same(i): row_loop
        rows >= 0, same(0),
        ForAll([t], untext(text(t)) == t, patterns=[text(t)]),
        blank(empty), ForAll([t], Implies(blank(t), t == empty), patterns=[blank(t)]), Not(blank(NONE)), NONE != empty, INDEX != NONE,
    ]


EXPORT = [
    Implies(CABS, CLAN), Implies(MABS, MCLAN),
    ForAll([r], Implies(And(REG, member(r, M)), lefts(r) == allefts), patterns=[lefts(r)]),
    ForAll([v], Not(member(v, EMPTYSET)), patterns=[member(v, EMPTYSET)]),
    ForAll([v], Not(member(v, lefts(EMPTYSET))), patterns=[member(v, lefts(EMPTYSET))]),
]


def rowspec(n, v_):
    return Exists([k], And(D(n, k), v_ == couplet(atom(text(k)), atom(W(n, k)))))


def subst(o, pairs):
    if not pairs:
        return o
    if is_z3(o):
        return z3.substitute(o, *pairs)
    if isinstance(o, tuple):
        return tuple(subst(q, pairs) for q in o)
    if hasattr(o, 'sub'):
        return o.sub(pairs)
    return o


class Map:
    """A dictionary: key variable, condition that the key is there, its value"""
    def __init__(self, key, dom, val): self.key, self.dom, self.val = key, dom, val

    def has(self, q): return z3.substitute(self.dom, (self.key, q))
    def at(self, q): return None if self.val is None else z3.substitute(self.val, (self.key, q))
    def sub(self, pairs): return Map(self.key, subst(self.dom, pairs), subst(self.val, pairs))


class Right:
    """What get_right(rel, left) returns"""
    def __init__(self, rel, left_): self.rel, self.left = rel, left_
    def sub(self, pairs): return Right(subst(self.rel, pairs), subst(self.left, pairs))


class Opt:
    """None or a set"""
    def __init__(self, none, coll): self.none, self.coll = none, coll


class Lazy:
    def __init__(self, f, args, kw): self.f, self.args, self.kw = f, args, kw


class Reader:
    pass


class Enum:
    def __init__(self, start): self.start = start


class Range:
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi


class Rows:
    """The relations of all rows, in order"""


class Table:
    def __init__(self, kind): self.kind = kind


class Status:
    """From a Boolean: IS or IS_NOT"""


class Opaque:
    def __init__(self, name): self.name = name


class Writer:
    pass


READER, ROWS, WRITER, UNDEF = Reader(), Rows(), Writer(), Opaque('Undef()')
COLUMNS, SORTKEY = Opaque('columns'), Opaque('sort_key')
Z = lambda f: BoolVal(f) if isinstance(f, bool) else f


class _Frozen:
    """An expression whose value is handed over"""
    def __init__(self, expr): self.expr = expr


class Exec(IV.Exec):
    def __init__(self, src, th, module, lang):
        super().__init__(src, th, module, lang)
        self.access = []        # (reference of a dictionary, key) that were read or written
        self.config = {}

    # --- names ------------------------------------------------------------------------------------
    def global_(self, mod, name):
        if mod == 'algebraixlib.mathobjects':
            return Cls(mod, name)
        m = self.src.mod(mod)
        if name in m.classes:
            return Cls(mod, name)
        if name in ('range', 'enumerate', 'map', 'filter'):
            if not (name in m.defs or name in m.imports):
                return Bi(name)
        return super().global_(mod, name)

    def string(self, s): return empty if s == '' else z3.Const(repr(s), T)

    def attr(self, o, name, st, node):
        if isinstance(o, Fn) and name != 'left_cache':
            if ('attr', name) not in st.heap:
                raise Unsupported('attribute ' + name)
            return [(st, st.heap['attr', name])]
        if isinstance(o, Cls) and o.module != 'algebraixlib.mathobjects':
            c = self.src.mod(o.module).classes[o.name]
            for d in c.body:
                if isinstance(d, ast.Assign) and any(isinstance(q, ast.Name) and q.id == name for q in d.targets):
                    return self.ev(d.value, st, self.start_frame(st, o.module))
                if isinstance(d, ast.FunctionDef) and d.name == name and any(isinstance(q, ast.Name) and q.id == 'staticmethod' for q in d.decorator_list):
                    return [(st, Fn(d, o.module))]
            raise Unsupported('attribute ' + name)
        if isinstance(o, Right):
            if name == 'value':
                self.ob(st, 'the right is defined', 'undef', defined(o.rel, o.left), node)
                return [(st, unatom(rightof(o.rel, o.left)))]
            raise Unsupported('attribute ' + name)
        if is_z3(o, V) and name == 'value':
            return [(st, unatom(o))]
        if isinstance(o, (Table, Writer, Opaque)):
            return [(st, Bi(name, o))]
        return super().attr(o, name, st, node)

    def start_frame(self, st, module): return self.frame(st, None, module)

    def truth(self, v_, st):
        if isinstance(v_, Opt):
            return And(Not(v_.none), self.nonempty(v_.coll))
        if is_z3(v_, T):
            return Not(Or(v_ == NONE, v_ == empty))
        if is_z3(v_, P):
            return F('is_true', P, BOOL)(v_)
        if isinstance(v_, Ref) and isinstance(st.heap[v_.key], Map):
            m = st.heap[v_.key]
            q = z3.FreshConst(m.key.sort(), 'key')
            return Exists([q], m.has(q))
        if isinstance(v_, Opaque) and v_ is SORTKEY:
            return True
        return super().truth(v_, st)

    # --- collections and dictionaries ---------------------------------------------------------------
    def coll(self, c, st):
        if isinstance(c, Ref) and isinstance(st.heap[c.key], Map):
            self.access.append((c.key, None))
            m = st.heap[c.key]
            q = z3.FreshConst(m.key.sort(), 'key')
            return Coll([Alt([q], [m.has(q)], q)])
        if isinstance(c, Opt):
            return c.coll
        if is_z3(c, V):
            q = z3.FreshConst(V, 'elem')
            f = Coll([Alt([q], [member(q, c)], q)])
            f.order = ('elements of', str(c))
            return f
        if is_z3(c, N):
            q = z3.FreshConst(T, 'key')
            return Coll([Alt([q], [hascell(c, q)], q)])
        if isinstance(c, IV.Doc) and c.what in ('keys', 'items', 'values'):
            q = z3.FreshConst(T, 'key')
            if c.node is None:
                h, g_ = hastype(q), functor(q)
            else:
                h, g_ = hascell(c.node, q), cell(c.node, q)
            return Coll([Alt([q], [h], {'keys': q, 'values': g_, 'items': (q, g_)}[c.what])])
        return super().coll(c, st)

    def store(self, st, ref, key, val, node):
        m = st.heap[ref.key]
        if getattr(m, 'frozen', False):
            raise Unsupported('change of a dictionary that is in use')
        self.access.append((ref.key, key))
        if is_z3(val, T):
            val = text(val)
        if isinstance(val, (int, bool)) or is_z3(val, I):
            val = number(val if is_z3(val) else IntVal(val))
        if not is_z3(val, P):
            raise Unsupported('value in a dictionary')
        if m.val is None:
            m = Map(z3.FreshConst(key.sort(), 'key'), BoolVal(False), z3.Const('nothing', P))
        if key.sort() != m.key.sort():
            raise Unsupported('key of a dictionary')
        st.heap[ref.key] = Map(m.key, Or(m.dom, m.key == key), If(m.key == key, val, m.val))

    def to_map(self, coll):
        if not coll.alts:
            return Map(z3.FreshConst(T, 'key'), BoolVal(False), None)
        sort = None
        for al in coll.alts:
            if not (isinstance(al.value, tuple) and len(al.value) == 2 and is_z3(al.value[0])):
                raise Unsupported('items of a dictionary')
            sort = al.value[0].sort()
        key = z3.FreshConst(sort, 'key')
        dom, val = BoolVal(False), z3.Const('nothing', P)
        for al in coll.alts:
            q, w = al.value
            if is_z3(w, T):
                w = text(w)
            if is_z3(w, I):
                w = number(w)
            if not is_z3(w, P) or q.sort() != sort:
                raise Unsupported('value in a dictionary')
            if len(al.vars) == 1 and q.eq(al.vars[0]):
                c = z3.substitute(And(*al.conds), (q, key)) if al.conds else BoolVal(True)
                w = z3.substitute(w, (q, key))
            elif not al.vars:
                c = And(*(al.conds + [key == q]))
            else:
                raise Unsupported('items of a dictionary')
            dom, val = Or(dom, c), If(c, w, val)
        return Map(key, dom, val)

    def ev_Dict(self, e, st, fr):
        if any(q is None for q in e.keys):
            raise Unsupported('dictionary')
        out = []
        for s, vs in self.evs(list(e.keys) + list(e.values), st, fr):
            n = len(e.keys)
            s, ref = self.new(s, Map(z3.FreshConst(T, 'key'), BoolVal(False), None))
            for a, b in zip(vs[:n], vs[n:]):
                self.store(s, ref, a, b, e)
            out.append((s, ref))
        return out

    def ev_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.USub):
            return [(s, -v_) for s, v_ in self.ev(e.operand, st, fr) if isinstance(v_, int) or is_z3(v_, I)]
        return super().ev_UnaryOp(e, st, fr)

    def ev_DictComp(self, e, st, fr):
        elt = ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e)
        return [self.new(s, self.to_map(c)) for s, c in self.comprehension(e, st, fr, elt)]

    def comprehension(self, e, st, fr, elt):
        out = super().comprehension(e, st, fr, _Frozen(elt))
        if len(e.generators) == 1 and not e.generators[0].ifs:
            s0 = st.copy()
            base = self.ev(e.generators[0].iter, s0, fr)
            if len(base) == 1 and not isinstance(base[0][1], (Reader, Lazy)):
                o = getattr(self.coll(base[0][1], base[0][0]), 'order', None)
                for _, c in out:
                    c.order = o
        return out

    def ev__Frozen(self, e, st, fr): return [(s, self.freeze(w, s)) for s, w in self.ev(e.expr, st, fr)]

    def ev_ListComp(self, e, st, fr):
        out = []
        for s, q in self.comprehension(e, st, fr, e.elt):
            c = Coll(q.alts, None, True)
            c.order = getattr(q, 'order', None)
            out.append(self.new(s, c))
        return out

    def each(self, coll, st, run):
        out = []
        for al in coll.alts:
            vs = [z3.FreshConst(q.sort(), q.decl().name().split('!')[0]) for q in al.vars]
            pairs = list(zip(al.vars, vs))
            s = st.copy()
            n0 = len(s.pc)
            conds = [subst(q, pairs) for q in al.conds]
            s.pc += conds
            old = self.bound
            self.bound = old + vs
            paths = run(subst(al.value, pairs), s)
            self.bound = old
            out.append((vs, conds, paths, n0 + len(conds)))
        return out

    def ev_Subscript(self, e, st, fr):
        out = []
        for s, (o, q) in self.evs([e.value, e.slice], st, fr):
            if isinstance(o, Ref) and isinstance(s.heap[o.key], Map) and is_z3(q):
                m = s.heap[o.key]
                self.access.append((o.key, q))
                self.ob(s, 'the key is in the dictionary', 'undef', m.has(q), e)
                out.append((s, m.at(q)))
            elif is_z3(o, N) and is_z3(q, T):
                self.ob(s, 'the key is in the row', 'undef', hascell(o, q), e)
                out.append((s, cell(o, q)))
            elif isinstance(o, IV.Doc) and o.node is None and is_z3(q, T):
                self.ob(s, 'the key is in types', 'undef', hastype(q), e)
                out.append((s, functor(q)))
            elif isinstance(o, tuple) and isinstance(q, int) and q < len(o):
                out.append((s, o[q]))
            else:
                raise Unsupported('subscript')
        return out

    def compare(self, op, l, r_, st, node):
        ty = type(op)
        neg = ty in (ast.NotEq, ast.IsNot, ast.NotIn)
        wrap = lambda f: [(st, (not f if isinstance(f, bool) else Not(f)) if neg else f)]
        if ty in (ast.In, ast.NotIn):
            if isinstance(r_, Ref) and isinstance(st.heap[r_.key], Map) and is_z3(l):
                m = st.heap[r_.key]
                self.access.append((r_.key, l))
                return wrap(m.has(l) if m.key.sort() == l.sort() else False)
            if is_z3(r_, N) and is_z3(l, T):
                return wrap(hascell(r_, l))
            if isinstance(r_, IV.Doc) and r_.node is None and is_z3(l, T):
                return wrap(hastype(l))
            if isinstance(r_, tuple) and is_z3(l, T):
                return wrap(Or(*[l == (NONE if q is None else q) for q in r_]))
            if is_z3(l, T) and isinstance(r_, (Coll, Ref, Opt)):
                return wrap(self.pred(self.coll(r_, st), l))
        elif ty in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot):
            for a, b in ((l, r_), (r_, l)):
                if b is None:
                    if is_z3(a, T):
                        return wrap(a == NONE)
                    if isinstance(a, Opt):
                        return wrap(a.none)
                    if isinstance(a, (Ref, Coll, Opaque, Rows, Table, IV.Doc)) or is_z3(a):
                        return wrap(False)
                if b is UNDEF and isinstance(a, Right):
                    return wrap(Not(defined(a.rel, a.left)))
            if ty in (ast.Eq, ast.NotEq):
                for a, b in ((l, r_), (r_, l)):
                    if is_z3(a, P) and is_z3(b, T):
                        return wrap(a == text(b))
                if isinstance(l, B.Len) and isinstance(r_, B.Len):
                    # the same number if they are the same (an over-approximation)
                    w = z3.FreshConst(T, 'key')
                    f = z3.FreshConst(BOOL, 'same_length')
                    st.pc.append(Implies(ForAll([w], self.pred(l.c, w) == self.pred(r_.c, w)), f))
                    return wrap(f)
            if ty in (ast.Eq, ast.NotEq) and isinstance(l, (Coll, Ref, Opt)) and isinstance(r_, (Coll, Ref, Opt)):
                p, q = self.coll(l, st), self.coll(r_, st)
                w = z3.FreshConst(T, 'key')
                f = ForAll([w], self.pred(p, w) == self.pred(q, w))
                nn = [o.none for o in (l, r_) if isinstance(o, Opt)]
                if len(nn) == 2:
                    raise Unsupported('comparison')
                return wrap(And(*([Not(z) for z in nn] + [f])))
            if is_z3(l, BOOL) and isinstance(r_, bool) or is_z3(r_, BOOL) and isinstance(l, bool) or is_z3(l, BOOL) and is_z3(r_, BOOL):
                return wrap(l == r_)
        num = lambda q: isinstance(q, int) or is_z3(q, I)
        if ty in (ast.LtE, ast.GtE) and isinstance(l, (Coll, Ref, Opt)) and isinstance(r_, (Coll, Ref, Opt)):
            p, q = (l, r_) if ty is ast.LtE else (r_, l)
            w = z3.FreshConst(T, 'key')
            return [(st, ForAll([w], Implies(self.pred(self.coll(p, st), w), self.pred(self.coll(q, st), w))))]
        if num(l) and num(r_):
            f = {ast.Lt: lambda: l < r_, ast.LtE: lambda: l <= r_, ast.Gt: lambda: l > r_, ast.GtE: lambda: l >= r_}.get(ty)
            if f:
                return [(st, f())]
        return super().compare(op, l, r_, st, node)

    def ev_BinOp(self, e, st, fr):
        out = []
        for s, (l, q) in self.evs([e.left, e.right], st, fr):
            boolish = lambda z: isinstance(z, bool) or is_z3(z, BOOL)
            num = lambda z: isinstance(z, int) or is_z3(z, I)
            if num(l) and is_z3(q, BOOL) and isinstance(e.op, (ast.Add, ast.Sub)):
                q = If(q, IntVal(1), IntVal(0))
            if boolish(l) and boolish(q) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
                if isinstance(l, bool) and isinstance(q, bool):
                    out.append((s, l & q if isinstance(e.op, ast.BitAnd) else l | q))
                else:
                    out.append((s, (And if isinstance(e.op, ast.BitAnd) else Or)(l, q)))
            elif num(l) and num(q):
                out.append((s, self.binop(type(e.op), l, q)))
            else:
                out += super().ev_BinOp(e, st, fr)
        return out

    # --- statements -------------------------------------------------------------------------------
    def home(self, name, st, fr):
        """The frame that an assignment to the name writes to"""
        if name in st.frames[fr].get('<nonlocal>', ()):
            f = st.frames[fr]['<outer>']
            while f is not None:
                if name in st.frames[f]:
                    return f
                f = st.frames[f].get('<outer>')
        return fr

    def assign(self, tg, v_, st, fr):
        if isinstance(tg, ast.Name):
            st.frames[self.home(tg.id, st, fr)][tg.id] = v_
            return
        if isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, st, fr)[0][1]
            if tg.attr == 'left_cache':
                if not (isinstance(v_, Ref) and isinstance(st.heap[v_.key], Map) and st.heap[v_.key].val is None):
                    raise Unsupported('cache')
                return
            if isinstance(o, Fn):
                st.heap['attr', tg.attr] = v_
                return
            raise Unsupported('assignment to ' + ast.unparse(tg))
        if isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, st, fr)[0][1]
            q = self.ev(tg.slice, st, fr)[0][1]
            if isinstance(o, Ref) and isinstance(st.heap[o.key], Map) and is_z3(q):
                self.store(st, o, q, v_, tg)
                return
            raise Unsupported('assignment to ' + ast.unparse(tg))
        super().assign(tg, v_, st, fr)

    def stmt(self, s, st, fr):
        if isinstance(s, ast.Nonlocal):
            st = st.copy()
            st.frames[fr]['<nonlocal>'] = tuple(st.frames[fr].get('<nonlocal>', ())) + tuple(s.names)
            return [(st, 'next', None)]
        if isinstance(s, ast.AugAssign) and not isinstance(s.op, ast.BitOr):
            out = []
            load = ast.copy_location(ast.parse(ast.unparse(s.target), mode='eval').body, s)
            for q, (a, b) in self.evs([load, s.value], st, fr):
                boolish = lambda z: isinstance(z, bool) or is_z3(z, BOOL)
                q = q.copy()
                if boolish(a) and boolish(b) and isinstance(s.op, ast.BitAnd):
                    self.assign(s.target, simp(And(a, b)), q, fr)
                elif isinstance(a, Ref):
                    return super().stmt(s, st, fr)
                else:
                    if is_z3(b, BOOL):
                        b = If(b, IntVal(1), IntVal(0))
                    self.assign(s.target, self.binop(type(s.op), a, b), q, fr)
                out.append((q, 'next', None))
            return out
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
            out = []
            for q, w in self.ev(s.value.value, st, fr):
                q = q.copy()
                self.yielded(q, Alt([], [], self.freeze(w, q)))
                out.append((q, 'next', None))
            return out
        return super().stmt(s, st, fr)

    def freeze(self, w, st):
        """The value of a dictionary that is handed over; it must not be changed afterwards."""
        if isinstance(w, Ref) and isinstance(st.heap[w.key], Map):
            m = st.heap[w.key]
            m2 = Map(m.key, m.dom, m.val)
            m2.frozen = True
            m2.ref = w.key
            st.heap[w.key] = m2
            return m2
        return w

    def loop(self, s, st, fr):
        if s.orelse:
            raise Unsupported('loop')
        out = []
        for q, c in self.ev(s.iter, st, fr):
            if isinstance(c, (Reader, Enum)):
                out += self.row_loop(s, q, fr, c)
            elif isinstance(c, Range):
                out += self.range_loop(s, q, fr, c)
            elif isinstance(c, (Lazy, Rows)):
                raise Unsupported('loop')
            else:
                out += self.coll_loop(s, q, fr, self.coll(c, q))
        return out

    def range_loop(self, s, st, fr, c):
        """Skips lines of the file."""
        a = z3.FreshConst(I, 'skipped')
        q = st.copy()
        q.heap['skipped'] = a
        self.assign(s.target, z3.FreshConst(I, 'n'), q, fr)
        d = None
        for s2, o, w in self.block(s.body, q, fr):
            step = simp(s2.heap['skipped'] - a)
            if o not in ('next', 'continue') or not z3.is_int_value(step) or d is not None and not step.eq(d) or s2.ghost is not q.ghost or \
                    any(s2.heap.get(kk_) is not h for kk_, h in q.heap.items() if kk_ != 'skipped') or \
                    any(s2.frames[f].get(n) is not z for f, vs in q.frames.items() for n, z in vs.items()):
                raise Unsupported('loop over a range')
            d = step
        end = st.copy()
        n = c.hi - c.lo
        end.heap['skipped'] = simp(st.heap['skipped'] + d * If(n > 0, n, 0))
        self.assign(s.target, z3.FreshConst(I, 'n'), end, fr)
        return [(end, 'next', None)]

    def named(self, coll):
        """The same collection of plain values, described by a predicate of its own"""
        if not coll.alts or all(len(al.vars) == 1 and is_z3(al.value) and al.value.eq(al.vars[0]) for al in coll.alts) or \
                not all(is_z3(al.value, P) for al in coll.alts):
            return coll
        self.n += 1
        f = F('listed!%d' % self.n, *([q.sort() for q in self.bound] + [P, BOOL]))
        q = z3.FreshConst(P, 'p')
        ax = f(*(self.bound + [q])) == self.pred(coll, q)
        self.axioms.append(ForAll(self.bound + [q], ax, patterns=[f(*(self.bound + [q]))]))
        c = Coll([Alt([q], [f(*(self.bound + [q]))], q)], None, coll.multi)
        c.order = getattr(coll, 'order', None)
        return c

    def coll_loop(self, s, q, fr, coll):
        out = []
        coll = self.named(coll)
        base = q.copy()
        base.ghost = []
        self.access = []

        def body(w, s1):
            self.assign(s.target, w, s1, fr)
            return self.block(s.body, s1, fr)
        end = q.copy()
        end.ghost = list(q.ghost or [])
        exits, maps, once, grown = [], {}, not end.ghost, {}
        targets = {z.id for z in ast.walk(s.target) if isinstance(z, ast.Name)}
        stored = {z.id for z in ast.walk(s) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store)}
        runs = self.each(coll, base, body)
        for vs, conds, paths, n2 in runs:
            for s2, o, w in paths:
                extra = conds + s2.pc[n2:]
                if o == 'return' and not s2.ghost and s2.heap == base.heap:
                    exits.append((vs, extra, w))
                    continue
                if o not in ('next', 'continue'):
                    raise Unsupported('exit of a loop')
                once = once and len(s2.ghost or []) == 1 and not s2.ghost[0].vars
                for al in s2.ghost or []:
                    if isinstance(al.value, Map) and getattr(al.value, 'ref', None) in q.heap:
                        raise Unsupported('one dictionary for all elements')
                    end.ghost.append(Alt(vs + al.vars, extra + al.conds, al.value))
                for key, c0 in q.heap.items():
                    c2 = s2.heap[key]
                    if c2 is c0:
                        grown.setdefault(key, []).append(0)
                        continue
                    if isinstance(c0, Map) and isinstance(c2, Map):
                        maps.setdefault(key, []).append((vs, conds, extra, c2))
                        continue
                    if not (isinstance(c0, Coll) and c2.alts[:len(c0.alts)] == c0.alts):
                        raise Unsupported('loop with side effects')
                    cur = end.heap[key]
                    new = c2.alts[len(c0.alts):]
                    grown.setdefault(key, []).append(len(new) if all(not al.vars for al in new) else 9)
                    for al in new:
                        if isinstance(al.value, Map) and getattr(al.value, 'ref', None) in q.heap:
                            raise Unsupported('one dictionary for all elements')
                    end.heap[key] = Coll(cur.alts + [Alt(vs + al.vars, extra + al.conds, al.value) for al in new], None, cur.multi)
                for f, vars_ in q.frames.items():
                    for nm, v0 in vars_.items():
                        if s2.frames[f].get(nm) is not v0 and not (f == fr and nm in targets):
                            raise Unsupported('loop-carried variable ' + nm)
        order = getattr(coll, 'order', None)
        end.order = order if once and not exits else None
        for key, c0 in q.heap.items():
            if end.heap[key] is not c0 and isinstance(c0, Coll):
                end.heap[key].order = order if not c0.alts and all(n == 1 for n in grown[key]) else None
        for key, ps in maps.items():
            end.heap[key] = self.map_loop(key, q.heap[key], coll, runs, ps)
        if exits:
            if end.ghost or end.heap != q.heap:
                raise Unsupported('exit of a loop with side effects')
            w0 = exits[0][2]
            if is_z3(w0) or not all(w is w0 or isinstance(w, bool) and w == w0 for _, _, w in exits):
                raise Unsupported('exit of a loop')
            some = Or(*[Exists(vs, And(*ex)) if vs else And(*ex) for vs, ex, _ in exits])
            return [(s3, 'return', w0) if ok else (s3, 'next', None) for s3, ok in self.fork(q, some)]
        for n in targets:
            end.frames[fr].pop(n, None)
        return [(end, 'next', None)]

    def map_loop(self, key, m0, coll, runs, ps):
        """A dictionary that a loop changes for the key of the element only."""
        if len(runs) != 1 or len(runs[0][0]) != 1:
            raise Unsupported('loop that changes a dictionary')
        var = runs[0][0][0]
        reads = [q for a, q in self.access if a == key]
        if any(q is None or not q.eq(var) for q in reads):
            raise Unsupported('loop that changes a dictionary at other keys')
        if m0.val is None:
            m0 = Map(z3.FreshConst(var.sort(), 'key'), BoolVal(False), z3.Const('nothing', P))
        elif getattr(coll, 'order', None) is not None or coll.multi:
            raise Unsupported('loop that changes a dictionary for a list')      # an element may come twice
        if m0.key.sort() != var.sort():
            raise Unsupported('key of a dictionary')
        kv = z3.FreshConst(var.sort(), 'key')
        dom, val = m0.has(kv), m0.at(kv)
        for vs, conds, extra, m in ps:
            c = z3.substitute(And(*extra), (var, kv)) if extra else BoolVal(True)
            dom = If(c, z3.substitute(m.has(var), (var, kv)), dom)
            val = If(c, z3.substitute(simp(m.at(var)), (var, kv)), val)
        return Map(kv, dom, val)

    # --- the loop over the rows of the table --------------------------------------------------------
    def locations(self, s, st, fr):
        """What the loop may carry from one row to the next: frame variables and attributes that exist before it."""
        out = []
        stack = list(s.body) + [s.target]
        while stack:
            q = stack.pop()
            if isinstance(q, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
                continue
            if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store):
                f = self.home(q.id, st, fr)
                if q.id in st.frames[f]:
                    out.append((f, q.id))
            if isinstance(q, ast.Attribute) and isinstance(q.ctx, ast.Store) and ('attr', q.attr) in st.heap:
                out.append(('attr', q.attr))
            stack += list(ast.iter_child_nodes(q))
        return list(dict.fromkeys(out))

    @staticmethod
    def read(st, loc): return st.heap[loc] if loc[0] == 'attr' else st.frames[loc[0]][loc[1]]

    @staticmethod
    def write(st, loc, w):
        if loc[0] == 'attr':
            st.heap[loc] = w
        else:
            st.frames[loc[0]][loc[1]] = w

    def candidates(self, v0, w, n, st):
        """{name: formula} for the value of a location before row n"""
        if isinstance(v0, bool):
            w = Z(w)
            return {'all rows have the same columns': w == allsame(n), 'true': w, 'false': Not(w), 'first row': w == (n == 0), 'not first row': w == (n > 0),
                    'not all rows have the same columns': w == Not(allsame(n))}
        if isinstance(v0, int) or is_z3(v0, I):
            return {'counts': Z(w == v0 + n), 'constant': Z(w == v0)}
        none = BoolVal(True) if w is None else w.none if isinstance(w, Opt) else BoolVal(False)
        out = {'none before the first row': none == (n == 0), 'none': none, 'not none': Not(none)}
        if w is not None:
            q = z3.FreshConst(T, 'key')
            out['columns of the first row'] = Implies(Not(none), ForAll([q], self.pred(self.coll(w, st), q) == D(0, q)))
        else:
            out['columns of the first row'] = BoolVal(True)
        return out

    def row_loop(self, s, st, fr, c):
        if st.heap.get('read'):
            raise Unsupported('second loop over the reader')
        if self.bound or st.ghost is None:
            raise Unsupported('loop over the rows')
        locs = self.locations(s, st, fr)
        init = {loc: self.read(st, loc) for loc in locs}
        for loc, v0 in init.items():
            if not (isinstance(v0, (bool, int)) or v0 is None or is_z3(v0, I)):
                raise Unsupported('loop-carried ' + str(loc[1]))
        alive = {loc: list(self.candidates(v0, v0, IntVal(0), st)) for loc, v0 in init.items()}
        n = z3.Int('row_number')

        def havoc(q, at, m):
            for loc, v0 in init.items():
                if isinstance(v0, bool):
                    w = z3.FreshConst(BOOL, loc[1])
                elif v0 is None:
                    self.n += 1
                    p = F('%s!%d' % (loc[1], self.n), T, BOOL)
                    kv = z3.FreshConst(T, 'key')
                    w = Opt(z3.FreshConst(BOOL, loc[1] + '_none'), Coll([Alt([kv], [p(kv)], kv)]))
                else:
                    w = z3.FreshConst(I, loc[1])
                self.write(q, loc, w)
                cs = self.candidates(v0, w, m, q)
                q.pc += [cs[a] for a in alive[loc]]
        for loc, v0 in init.items():
            cs = self.candidates(v0, v0, IntVal(0), st)
            alive[loc] = [a for a in alive[loc] if self.entails(st.pc, cs[a])]
        saved = self.obs
        while True:
            self.obs = list(saved)
            q = st.copy()
            q.pc += [n >= 0, n < rows, allsame(n + 1) == And(allsame(n), same(n))]
            q.ghost = []
            havoc(q, None, n)
            kn0 = {key: h for key, h in q.heap.items()}
            value = row(n) if isinstance(c, Reader) else (c.start + n, row(n))
            self.assign(s.target, value, q, fr)
            paths = self.block(s.body, q, fr)
            dropped = False
            for s2, o, w in paths:
                if o not in ('next', 'continue'):
                    raise Unsupported('exit of the loop over the rows')
                for loc, v0 in init.items():
                    cs = self.candidates(v0, self.read(s2, loc), n + 1, s2)
                    for a in list(alive[loc]):
                        if not self.entails(s2.pc, cs[a]):
                            alive[loc].remove(a)
                            dropped = True
            if not dropped:
                break
        lists = set()
        for s2, o, w in paths:
            got = list(s2.ghost)
            for key, h in kn0.items():
                if s2.heap[key] is not h and key not in init:
                    if not (isinstance(h, Coll) and not h.alts and isinstance(s2.heap[key], Coll)):
                        raise Unsupported('loop with side effects')
                    lists.add(key)
            for f, vars_ in q.frames.items():
                for nm, v1 in vars_.items():
                    if s2.frames[f].get(nm) is not v1 and (f, nm) not in init and nm not in ('<nonlocal>',) and not any(
                            isinstance(z, ast.Name) and z.id == nm for z in ast.walk(s.target)):
                        raise Unsupported('loop-carried variable ' + nm)
        if len(lists) > 1:
            raise Unsupported('loop with side effects')
        for s2, o, w in paths:
            got = list(s2.ghost) if not lists else s2.heap[next(iter(lists))].alts + s2.ghost
            self.ob(s2, 'a row gives one relation', 'value', BoolVal(len(got) == 1 and not got[0].vars and is_z3(got[0].value, V)), s)
            if len(got) == 1 and is_z3(got[0].value, V):
                z = z3.FreshConst(V, 'v')
                self.ob(s2, 'the relation has every value of the row', 'value', ForAll([z], Implies(rowspec(n, z), member(z, got[0].value))), s)
                self.ob(s2, 'the relation has nothing but the values of the row', 'value', ForAll([z], Implies(member(z, got[0].value), rowspec(n, z))), s)
        end = st.copy()
        havoc(end, None, rows)
        end.heap['read'] = True
        if lists:
            end.heap[next(iter(lists))] = ROWS
        else:
            if st.ghost:
                raise Unsupported('yield before the loop over the rows')
            end.ghost = [ROWS]
        return [(end, 'next', None)]

    # --- calls ------------------------------------------------------------------------------------
    def effects(self, d):
        for q in ast.walk(d):
            if isinstance(q, (ast.Nonlocal, ast.Global)) or isinstance(q, ast.Attribute) and isinstance(q.ctx, ast.Store):
                return True
            if isinstance(q, ast.Attribute) and q.attr in ('DictReader', 'reader') or isinstance(q, ast.Name) and q.id in ('DictReader', 'next'):
                return True
        return False

    def consume(self, g, st, node):
        """[(state, Rows or collection)] of a generator that is run now"""
        if not isinstance(g, Lazy):
            return [(st, g)]
        old = st.ghost
        s0 = st.copy()
        s0.ghost = []
        out = []
        for s, _ in self.invoke(g.f, g.args, g.kw, s0, node):
            got, s.ghost = s.ghost, old
            if any(isinstance(q, Rows) for q in got):
                if len(got) != 1:
                    raise Unsupported('generator')
                out.append((s, ROWS))
            else:
                out.append((s, Coll(got)))
        return out

    def call(self, f, args, kw, st, node):
        if is_z3(f, C):
            if len(args) != 1 or kw or not (is_z3(args[0], P) or is_z3(args[0], T)):
                raise Unsupported('call of a type')
            return [(st, apply_(f, text(args[0]) if is_z3(args[0], T) else args[0]))]
        if isinstance(f, Fn):
            nm, md = f.node.name, f.module
            if self.is_generator(f.node):
                if self.effects(f.node):
                    return [(st, Lazy(f, args, kw))]
                return self.pure_generator(f, args, kw, st, node)
            if nm == 'get_left_cached' and md.endswith('_util'):
                if len(args) != 1 or not is_z3(args[0], T):
                    raise Unsupported('argument of get_left_cached')
                self.used.add('import_export._util.get_left_cached')
                return [(st, atom(text(args[0])))]
            if md in ('algebraixlib.algebras.clans', 'algebraixlib.algebras.multiclans') and len(args) == 1 and is_z3(args[0]) and args[0].eq(M):
                tab = {'is_member': (CLAN, MCLAN), 'is_absolute_member': (CABS, MABS), 'is_regular': (CREG, MREG)}
                if nm in tab and not set(kw) - {'_checked'}:
                    self.used.add('%s.%s' % (md.replace('algebraixlib.', ''), nm))
                    return [(st, tab[nm][md.endswith('multiclans')])]
            if md == 'algebraixlib.algebras.relations' and nm == 'get_right' and len(args) == 2 and is_z3(args[0], V) and is_z3(args[1], P) and not kw:
                self.used.add('algebras.relations.get_right')
                return [(st, Right(*args))]
            if md == 'algebraixlib.algebras.relations' and nm == 'get_lefts' and len(args) == 1 and is_z3(args[0], V):
                return [(st, lefts(args[0]))]
            if md.startswith('algebraixlib.algebras') or md.startswith('algebraixlib.mathobjects'):
                raise Unsupported('call of ' + nm)
        if isinstance(f, Cls) and f.name == 'Undef':
            return [(st, UNDEF)]
        return super().call(f, args, kw, st, node)

    def pure_generator(self, f, args, kw, st, node):
        s0 = st.copy()
        s0.ghost = []
        s0.order = None
        n0 = len(s0.pc)
        alts, orders = [], []
        for s, _ in self.invoke(f, args, kw, s0, node):
            if any(s.heap.get(key) is not c0 and not getattr(s.heap.get(key), 'frozen', False) for key, c0 in st.heap.items()):
                raise Unsupported('generator with side effects')
            alts += [Alt(al.vars, list(s.pc[n0:]) + al.conds, al.value) for al in s.ghost]
            orders.append(getattr(s, 'order', None))
        c = Coll(alts)
        c.order = orders[0] if len(orders) == 1 else None
        return [(st, c)]

    def construct(self, cl, args, kw, st, node):
        if cl.module == 'algebraixlib.mathobjects' and cl.name in ('Set', 'Multiset'):
            arg = args[0] if args else kw.get('elements')
            if isinstance(arg, Lazy) or isinstance(arg, Rows) or isinstance(arg, Ref) and isinstance(st.heap[arg.key], Rows):
                out = []
                for s, c in self.consume(arg, st, node):
                    if isinstance(c, Rows) or isinstance(c, Ref):
                        out.append((s, Table(cl.name)))
                    elif cl.name == 'Set':
                        out.append((s, self.set_of(c, s)))
                    else:
                        raise Unsupported('multiset')
                return out
            if cl.name == 'Set' and not args and not kw:
                return [(st, EMPTYSET if self.lang == 'export' else self.set_of(Coll([]), st))]
        if cl.module == 'algebraixlib.mathobjects' and cl.name == 'Atom':
            w = args[0] if args else kw.get('value')
            if is_z3(w, I) or isinstance(w, int):
                return [(st, atom(number(w if is_z3(w) else IntVal(w))))]
        return super().construct(cl, args, kw, st, node)

    def flag(self, o, name, status, st, node):
        """Recording a property of the relation of a row or of the table: it must be the truth."""
        prop = name[len('cache_'):]
        is_, isnot = z3.IntVal(1), z3.IntVal(2)
        status = IntVal(status) if isinstance(status, int) else status
        if not is_z3(status, I):
            raise Unsupported('status')
        a, b = z3.FreshConst(V, 'a'), z3.FreshConst(V, 'b')
        no = BoolVal(False)
        if isinstance(o, Table):
            yes = {'clan': o.kind == 'Set', 'multiclan': o.kind == 'Multiset', 'absolute': True, 'functional': True,
                   'regular': simp(allsame(rows))}.get(prop)
            if yes is None:
                raise Unsupported('recording ' + prop)
            yes = Z(yes)
            no = Not(yes)
        elif is_z3(o, V):
            yes = {'relation': ForAll([a], Implies(member(a, o), Exists([x, y], a == couplet(x, y)))),
                   'functional': ForAll([a, b], Implies(And(member(a, o), member(b, o), left(a) == left(b)), a == b)),
                   'absolute': ForAll([a], Implies(member(a, o), Exists([pk, z3.Const('p2', P)], a == couplet(atom(pk), atom(z3.Const('p2', P))))))}.get(prop)
            if yes is None:
                raise Unsupported('recording ' + prop)
        else:
            raise Unsupported('recording ' + prop)
        self.ob(st, 'write of %s is the truth' % prop, 'value', And(Implies(status == is_, yes), Implies(status == isnot, no), status != 3), node)
        return [(st, o)]

    def builtin(self, f, args, kw, st, node):
        name, o = f.name, f.self_
        if (isinstance(o, Table) or is_z3(o, V)) and name.startswith('cache_') and len(args) == 1 and not kw:
            return self.flag(o, name, args[0], st, node)
        if is_z3(o, V) and name == 'get_left_set' and not args:
            return [(st, lefts(o))]
        if isinstance(o, Writer):
            return self.writer(name, args, kw, st, node)
        if is_z3(o, N) and name in ('items', 'keys', 'values') and not args:
            return [(st, IV.Doc(o, name))]
        if is_z3(o, N) and name == 'get' and len(args) == 1 and is_z3(args[0], T):
            return [(st, If(hascell(o, args[0]), cell(o, args[0]), NONE))]
        if isinstance(o, Ref) and isinstance(st.heap[o.key], Map):
            m = st.heap[o.key]
            if name in ('items', 'keys', 'values') and not args:
                self.access.append((o.key, None))
                q = z3.FreshConst(m.key.sort(), 'key')
                w = m.at(q)
                return [(st, Coll([] if w is None else [Alt([q], [m.has(q)], {'keys': q, 'values': w, 'items': (q, w)}[name])]))]
            raise Unsupported('method ' + name)
        if isinstance(o, IV.Doc) and o.node is None:
            if name in ('items', 'keys', 'values') and not args:
                return [(st, IV.Doc(None, name))]
            raise Unsupported('method ' + name)
        if name in ('range',) and o is None and not kw:
            a = [0] + list(args) if len(args) == 1 else list(args)
            if len(a) != 2:
                raise Unsupported('range')
            return [(st, Range(a[0], a[1]))]
        if name == 'enumerate' and o is None and isinstance(args[0], Reader):
            start = args[1] if len(args) > 1 else kw.get('start', 0)
            return [(st, Enum(start))]
        if name == 'next' and o is None and args and args[0] in (FILE, ARG):
            if st.heap.get('reading'):
                raise Unsupported('lines are skipped after the reader was made')
            st = st.copy()
            st.heap['skipped'] = st.heap['skipped'] + 1
            return [(st, z3.FreshConst(T, 'line'))]
        if name == 'next' and o is None and len(args) in (1, 2) and not isinstance(args[0], (Lazy, Reader)):
            c = self.coll(args[0], st)
            if len(c.alts) == 1 and len(c.alts[0].vars) == 1 and is_z3(c.alts[0].value, V):
                out = []
                for s, ok in self.fork(st, self.nonempty(c)):
                    if ok:
                        w = z3.FreshConst(V, 'first')
                        s = s.copy()
                        s.pc.append(self.pred(c, w))
                        out.append((s, w))
                    elif len(args) == 2:
                        out.append((s, args[1]))
                    else:
                        self.ob(s, 'the collection is not empty', 'undef', BoolVal(False), node)
                return out
        if name == 'iter' and o is None and len(args) == 1:
            return [(st, self.coll(args[0], st))]
        if name == 'open' and o is None:
            st = st.copy()
            nl = kw.get('newline')
            st.heap['newline'] = Z(nl == empty) if is_z3(nl, T) else BoolVal(False)
            st.heap['skipped'] = IntVal(0)
            return [(st, FILE)]
        if name in ('csv.DictReader', 'csv.DictWriter') and o is None:
            names = ['f', 'fieldnames', 'restkey', 'restval', 'dialect'] if name.endswith('Reader') else ['f', 'fieldnames', 'restval', 'extrasaction', 'dialect']
            env = dict(zip(names, args))
            env.update(kw)
            if set(env) - {'f', 'fieldnames', 'dialect'} or env.get('f') not in (FILE, ARG) or 'dialect' in env and str(env['dialect']) != "'excel'":
                raise Unsupported('arguments of ' + name)
            if st.heap.get('reading'):
                raise Unsupported('second ' + name)
            st = st.copy()
            if env['f'] is FILE:
                self.ob(st, 'precondition of %s: the file does not translate line ends' % name, 'pre', st.heap['newline'], node)
            st.heap['reading'] = True
            if name.endswith('Reader'):
                self.ob(st, 'precondition of csv.DictReader: the lines to skip are skipped, no others', 'pre', st.heap['skipped'] == If(skip_rows > 0, skip_rows, 0), node)
                self.ob(st, 'precondition of csv.DictReader: the given columns', 'pre', BoolVal(env.get('fieldnames') is COLUMNS), node)
                return [(st, READER)]
            st.heap['columns'] = env.get('fieldnames')
            st.heap['header'] = 0
            st.heap['rows'] = Coll([], None, True)
            return [(st, WRITER)]
        if name == 'sorted' and o is None and len(args) == 1 and not set(kw) - {'key'}:
            c = self.coll(args[0], st)
            c2 = Coll(c.alts, None, True)
            c2.order = (('elements of', str(args[0])) if is_z3(args[0], V) else None, 'sorted', kw['key'].name if isinstance(kw.get('key'), Opaque) else None)
            if 'key' in kw and kw['key'] is not None and not isinstance(kw['key'], Opaque):
                raise Unsupported('key of sorted')
            return [(st, c2)]
        if name == 'isinstance' and args and (args[0] is ARG):
            return [(st, z3.Const('it is a path', BOOL))]
        if name == 'dict' and o is None and not kw:
            return [self.new(st, self.to_map(self.coll(args[0], st) if args else Coll([])))]
        if name in ('list', 'tuple') and o is None and len(args) == 1 and isinstance(args[0], (Lazy, Rows)):
            return [(s, c if isinstance(c, Rows) else self.new(s, c)[1]) for s, c in self.consume(args[0], st, node)]
        if name in ('list', 'tuple', 'iter') and o is None and len(args) == 1 and isinstance(args[0], (Coll, Ref)):
            c = self.coll(args[0], st)
            c2 = Coll(c.alts, None, True)
            c2.order = getattr(c, 'order', None)
            return [(st, c2)] if name != 'list' else [self.new(st, c2)]
        if name == 'append' and isinstance(o, Ref) and len(args) == 1:
            st = st.copy()
            c = self.coll(o, st)
            c2 = Coll(list(c.alts) + [Alt([], [], self.freeze(args[0], st))], None, c.multi)
            st.heap[o.key] = c2
            return [(st, None)]
        if name == 'bool' and o is None and len(args) == 1:
            return [(st, self.truth(args[0], st))]
        return super().builtin(f, args, kw, st, node)

    def writer(self, name, args, kw, st, node):
        st = st.copy()
        if name == 'writeheader' and not args:
            self.ob(st, 'the header is the first line', 'value', BoolVal(st.heap['header'] == 0 and not st.heap['rows'].alts), node)
            st.heap['header'] = st.heap['header'] + 1
            return [(st, None)]
        self.ob(st, 'the header is written before the rows', 'value', BoolVal(st.heap['header'] == 1), node)
        old = st.heap['rows']
        if name == 'writerow' and len(args) == 1:
            w = self.freeze(args[0], st)
            if not isinstance(w, Map):
                raise Unsupported('row')
            st.heap['rows'] = Coll(old.alts + [Alt([], [], w)], None, True)
            return [(st, None)]
        if name == 'writerows' and len(args) == 1:
            c = self.coll(args[0], st)
            if old.alts:
                raise Unsupported('writerows')
            st.heap['rows'] = Coll(list(c.alts), None, True)
            st.heap['rows'].order = getattr(c, 'order', None)
            return [(st, None)]
        raise Unsupported('method ' + name)


MOD = 'algebraixlib.import_export.csv'
IMPORTS = [(index, dup, types) for index in (False, True) for dup in (False, True) for types in (False, True) if not (index and dup)]


class Verifier(IV.Verifier):
    def import_csv(self, index, dup, types):
        m = self.src.mod(MOD)
        d = m.defs.get('import_csv')
        if d is None:
            raise Unsupported('no function import_csv')
        R = IV.Result(import_key(index, dup, types))
        ex = Exec(self.src, theory(index, types), MOD, 'import')
        st = B.start(ex, MOD)
        st.ghost = []
        st.heap['skipped'] = IntVal(0)
        kw = {'types': IV.Doc(None, 'types') if types else None, 'skip_rows': skip_rows, 'index_column': INDEX if index else None, 'has_dup_rows': dup, 'columns': COLUMNS}
        names = [q.arg for q in d.args.args]
        if len(names) != 6 or set(kw) != set(names[1:]):
            raise Unsupported('parameters')
        n = 0
        for s, w in ex.invoke(Fn(d, MOD), [ARG], kw, st, d):
            n += 1
            R.add('the %s of the relations of all rows' % ('multiset' if dup else 'set'), 'value', '%s:%d path %d' % (m.rel, d.lineno, n), ex.hyps() + s.pc,
                  BoolVal(isinstance(w, Table) and w.kind == ('Multiset' if dup else 'Set')))
        if not n:
            R.add('some path returns', 'vacuity', m.rel, [], BoolVal(bool(ex.obs)))
        z1, z2 = z3.Consts('a b', V)
        nn = z3.Int('nn')
        R.add('every relation is functional', 'value', m.rel, ex.hyps() + [rowspec(nn, z1), rowspec(nn, z2), left(z1) == left(z2)], z1 == z2)
        R.obligations(ex, m.rel)
        return R.finish()

    def export_csv(self, given):
        m = self.src.mod(MOD)
        d = m.defs.get('export_csv')
        if d is None:
            raise Unsupported('no function export_csv')
        R = IV.Result(export_key(given))
        n = 0
        for key in (None, SORTKEY):
            ex = Exec(self.src, EXPORT, MOD, 'export')
            st = B.start(ex, MOD)
            st.ghost = []
            st.heap['skipped'] = IntVal(0)
            cols = None
            if given:
                q = z3.FreshConst(P, 'left')
                cols = Coll([Alt([q], [inlefts(q)], q)], None, True)
                cols.order = ('given',)
            kw = {'ordered_lefts': cols, 'sort_key': key}
            exports = And(Or(CABS, MABS), BoolVal(True) if given else REG)
            where = '%s:%d path ' % (m.rel, d.lineno)
            p = z3.Const('p0', P)
            for s, w in ex.invoke(Fn(d, MOD), [M, ARG], kw, st, d):
                n += 1
                H = ex.hyps() + s.pc
                add = lambda name, goal: R.add(name, 'value', where + str(n), H, goal)
                if w is False:
                    add('refused only if it must be', Not(exports))
                    add('nothing is written', BoolVal('columns' not in s.heap))
                    continue
                add('exported if it can be', exports)
                rs, cs = s.heap.get('rows'), s.heap.get('columns')
                if w is not True or rs is None or s.heap['header'] != 1:
                    add('header and rows are written', BoolVal(False))
                    continue
                c = ex.coll(cs, s) if cs is not None else None
                if given:
                    add('the columns are those given, in their order', BoolVal(c is not None and getattr(c, 'order', None) == ('given',)))
                    listed = inlefts(p)
                else:
                    add('the columns are sorted', BoolVal(c is not None and getattr(c, 'order', None) is not None and getattr(c, 'order', None)[1:] == ('sorted', None)))
                    listed = Exists([r, x], And(member(r, M), member(x, lefts(r)), p == unatom(x)))
                    add('the columns are the lefts of the relations', ex.pred(c, p) == listed)
                base = ('elements of', str(M))
                add('one row for each relation, in the required order', BoolVal(getattr(rs, 'order', None) == (base if key is None else (base, 'sorted', key.name))))
                for al in rs.alts:
                    row_ = al.value
                    if not isinstance(row_, Map) or len(al.vars) != 1:
                        add('a row for a relation', BoolVal(False))
                        continue
                    rel = al.vars[0]
                    hy = H + al.conds
                    if row_.val is None:
                        R.add('a row has exactly the rights of the relation', 'value', where + str(n), hy, Not(And(listed, defined(rel, p))))
                        continue
                    R.add('a row has exactly the rights of the relation', 'value', where + str(n), hy, row_.has(p) == And(listed, defined(rel, p)))
                    R.add('a value of a row is the right for its column', 'value', where + str(n), hy + [row_.has(p)], row_.at(p) == unatom(rightof(rel, p)))
            R.obligations(ex, m.rel)
        if not n:
            R.add('some path returns', 'vacuity', m.rel, [], BoolVal(False))
        return R.finish()


def import_key(index, dup, types):
    return 'import_export.csv.import_csv%s' % ''.join(' with ' + n for n, b in (('index', index), ('duplicates', dup), ('types', types)) if b)


def export_key(given): return 'import_export.csv.export_csv' + (' with given columns' if given else '')


def jobs():
    out = {import_key(*c): (lambda vf, c=c: vf.import_csv(*c)) for c in IMPORTS}
    out.update({export_key(g): (lambda vf, g=g: vf.export_csv(g)) for g in (False, True)})
    out['import_export._util.get_left_cached'] = lambda vf: vf.cached()
    return out


def keys(): return list(jobs())


def one_job(job):
    repo, key = job
    return B.attempt(key, lambda: jobs()[key](Verifier(repo)), IV.Solver)


def run(repo): return B.pooled(one_job, [(repo, key) for key in jobs()])


if __name__ == '__main__':
    B.main(run)
