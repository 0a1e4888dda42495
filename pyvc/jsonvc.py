"""Verification of the serialisation of math objects (C17): encode, decode, object_hook_f, ExportJson, ImportJson.

Structural induction over the object: for an object of each type, encode is executed symbolically from the source in /repo,
where the encodings of its parts are opaque (a part that is encoded and decoded is itself: induction hypothesis). What JSON
does to the result is applied (tuples become lists, the object hook replaces every dictionary, innermost first), executing
the hook on it. The obligation is that the object comes back. Lists of any length are mappings over the elements."""
import ast
import z3
from z3 import BoolVal, ForAll, Implies
from pyvc import structvc as B
from pyvc.structvc import Unsupported, Fn, Cls, Mod, Bi, Source, is_property

MOD = 'algebraixlib.import_export.mojson'
SRC = 'algebraixlib/import_export/mojson.py'
V = z3.DeclareSort('Value')
Q = z3.DeclareSort('Sequence')
MATH = ('Atom', 'Couplet', 'Set', 'Multiset')
PLAIN = ('bytes', 'complex', 'frozenset', 'list', 'range', 'tuple')
SCALARS = ('str', 'int', 'bool', 'float', 'NoneType')
COLLECTIONS = ('frozenset', 'list', 'tuple', 'Set', 'bytes')
PARTS = {'Atom': {'value': False}, 'Couplet': {'left': True, 'right': True}, 'range': {'start': 'int', 'stop': 'int', 'step': 'int'}}
elems = z3.Function('elements', V, Q)           # of a collection; (element, multiplicity) of a multiset
count = z3.IntSort()


class Obj:
    """A value of a type. math: is it a math object (None: not known)"""
    def __init__(self, kind, term, math=None, typ=None):
        self.kind, self.term, self.typ = kind, term, typ
        self.math = kind in MATH if kind else math


class Enc:
    """The encoding of a part"""
    def __init__(self, of): self.of = of


class Raw:
    """What a part is when its encoding was read without a hook"""
    def __init__(self, of): self.of = of


class Str:
    """str(of)"""
    def __init__(self, of): self.of = of


class Seq:
    """A sequence with an item for each element of the object: item[var], var a tuple of Obj"""
    def __init__(self, of, var, item): self.of, self.var, self.item = of, var, item


class Elems:
    """The elements, or the items of the dictionary, of an object"""
    def __init__(self, of, pairs=False): self.of, self.pairs = of, pairs


class Data:
    def __init__(self, of): self.of = of


class Ref:
    """A list or dictionary; its content is in the heap: a list, a dict or a Seq"""
    def __init__(self, key, kind): self.key, self.kind = key, kind


class TypeV:
    def __init__(self, kind): self.kind = kind


class Super:
    pass


FUN = {'Couplet': z3.Function('couplet', V, V, V), 'Atom': z3.Function('atom', V, V), 'range': z3.Function('range', V, V, V, V),
       'complex': z3.Function('complex_of_text', V, V)}
COLL = {k: z3.Function('make_' + k, Q, V) for k in COLLECTIONS + ('Multiset',)}
PART = {(k, p): z3.Function('%s_of_%s' % (p, k), V, V) for k, ps in PARTS.items() for p in ps}
TRUTHY = z3.Function('is_true', V, z3.BoolSort())
TEXT = z3.Function('text', V, V)


def axioms(kind, v):
    """A value is determined by its parts (equality of values: C12; semantics of the builtin types)."""
    if kind in COLL:
        return [v == COLL[kind](elems(v))]
    if kind in PARTS:
        return [v == FUN[kind](*[PART[kind, p](v) for p in PARTS[kind]])]
    if kind == 'complex':
        return [v == FUN['complex'](TEXT(v))]
    return []


class Exec(B.Exec):
    def __init__(self, src, hook=None, raw=False):
        super().__init__(src)
        self.hook, self.raw = hook, raw
        self.top = None

    def feasible(self, st, c): return True

    def fork(self, st, c):
        if isinstance(c, bool):
            return [(st, c)]
        out = []
        for val, cond in ((True, c), (False, z3.Not(c))):
            if not any(p.eq(z3.Not(cond)) or z3.is_not(cond) and p.eq(cond.arg(0)) for p in st.pc):
                s = st.copy()
                s.pc.append(cond)
                out.append((s, val))
        return out

    # --- names and attributes ---------------------------------------------------------------------
    def global_(self, mod, name):
        if mod == 'algebraixlib.mathobjects':
            return Cls(mod, name)
        m = self.src.mod(mod)
        if name in m.defs:
            return Fn(m.defs[name], mod)
        if name in m.classes:
            return Cls(mod, name)
        for d in m.tree.body:
            if isinstance(d, ast.Assign) and len(d.targets) == 1 and isinstance(d.targets[0], ast.Name) and d.targets[0].id == name:
                st = B.start(self, mod)
                r = self.ev(d.value, st, self.n)[0]
                if isinstance(r[1], Ref):
                    return self.freeze(r[1], r[0])
                return r[1]
        if name in m.imports:
            return self.imported(m.imports[name])
        if name in PLAIN + ('str', 'int', 'bool', 'float', 'dict', 'set', 'len', 'isinstance', 'type', 'map', 'all', 'any', 'super', 'iter'):
            return Bi(name)
        raise Unsupported('name ' + name)

    def freeze(self, r, st):
        c = st.heap[r.key]
        if isinstance(c, dict):
            return dict((k, self.freeze(v, st) if isinstance(v, Ref) else v) for k, v in c.items())
        if isinstance(c, list):
            return tuple(self.freeze(v, st) if isinstance(v, Ref) else v for v in c)
        raise Unsupported('module variable')

    def imported(self, full):
        if full == 'algebraixlib.mathobjects':
            return Mod(full)
        if full.startswith('algebraixlib.mathobjects.'):
            return Cls('algebraixlib.mathobjects', full.rpartition('.')[2])
        return super().imported(full)

    def part(self, o, p):
        m = PARTS[o.kind][p]
        return Obj('int' if m == 'int' else None, PART[o.kind, p](o.term), m is True)

    def attr(self, o, name, st, node):
        if isinstance(o, Obj):
            if o.kind in PARTS and name in PARTS[o.kind]:
                return [(st, self.part(o, name))]
            if o.kind in ('Set', 'Multiset') and name == 'data':
                return [(st, Data(o) if o.kind == 'Multiset' else Elems(o))]
            if name in ('is_atom', 'is_couplet', 'is_set', 'is_multiset') and o.kind in MATH:
                return [(st, name == 'is_' + o.kind.lower())]
            if name == '__class__' and o.kind:
                return [(st, self.type_of(o))]
        if isinstance(o, (Data, Ref, Super, dict, str)):
            return [(st, Bi(name, o))]
        return super().attr(o, name, st, node)

    def type_of(self, o):
        return Cls('algebraixlib.mathobjects', o.kind) if o.kind in MATH else Bi(o.kind)

    def new(self, st, content, kind):
        st = st.copy()
        self.n += 1
        st.heap[self.n] = content
        return st, Ref(self.n, kind)

    def ev_List(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('star')
        return [self.new(s, list(vs), 'list') for s, vs in self.evs(e.elts, st, fr)]

    def ev_Dict(self, e, st, fr):
        if any(k is None for k in e.keys):
            raise Unsupported('star')
        out = []
        for s, vs in self.evs(list(e.keys) + list(e.values), st, fr):
            n = len(e.keys)
            ks = [self.hashable(k) for k in vs[:n]]
            out.append(self.new(s, dict(zip(ks, vs[n:])), 'dict'))
        return out

    def hashable(self, k):
        if isinstance(k, (str, int, tuple)):
            return k
        if isinstance(k, Cls):
            return ('class', k.name)
        if isinstance(k, Bi) and k.self_ is None:
            return ('class', k.name)
        raise Unsupported('key')

    def ev_Lambda(self, e, st, fr):
        d = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(ast.Return(e.body), e)], decorator_list=[], lineno=e.lineno, col_offset=0)
        return [(st, Fn(d, st.frames[fr]['<module>'], fr))]

    def content(self, v, st):
        if isinstance(v, Ref):
            return st.heap[v.key]
        return v

    def ev_Subscript(self, e, st, fr):
        out = []
        for s, (o, i) in self.evs([e.value, e.slice], st, fr):
            c = self.content(o, s)
            if isinstance(c, dict):
                i = self.hashable(i)
                if i not in c:
                    self.ob(s, 'the key %s is in the dictionary' % (i,), 'undef', BoolVal(False), e)
                    continue
                out.append((s, c[i]))
            elif isinstance(c, (list, tuple)) and isinstance(i, int):
                if not -len(c) <= i < len(c):
                    self.ob(s, 'the index is in the list', 'undef', BoolVal(False), e)
                    continue
                out.append((s, c[i]))
            else:
                raise Unsupported('subscript')
        return out

    def truth(self, v, st):
        c = self.content(v, st)
        if isinstance(c, (bool, int, str, dict, list, tuple)) or c is None:
            return bool(c)
        if isinstance(c, Obj) and not c.math:
            return TRUTHY(c.term)
        raise Unsupported('truth')

    def compare(self, op, a, c, st, node):
        t = type(op)
        neg = t in (ast.NotEq, ast.IsNot, ast.NotIn)
        plain = lambda v: isinstance(v, (str, int, bool)) or v is None
        cl = lambda v: isinstance(v, Cls) or isinstance(v, Bi) and v.self_ is None
        if t in (ast.In, ast.NotIn):
            q = self.content(c, st)
            if isinstance(q, dict):
                return [(st, (self.hashable(a) in q) != neg)]
            if isinstance(q, (list, tuple)) and (cl(a) or plain(a)) and all(cl(x) or plain(x) for x in q):
                return [(st, (self.hashable(a) in [self.hashable(x) for x in q]) != neg)]
            if isinstance(q, str) and isinstance(a, str):
                return [(st, (a in q) != neg)]
            raise Unsupported('membership')
        if t in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot):
            if cl(a) and cl(c):
                return [(st, (self.hashable(a) == self.hashable(c)) != neg)]
            if plain(a) and plain(c):
                return [(st, (a == c) != neg)]
            if (a is None or c is None) and t in (ast.Is, ast.IsNot):
                o = c if a is None else a
                if isinstance(o, Obj) and o.kind is None:
                    raise Unsupported('comparison')
                return [(st, (isinstance(o, Obj) and o.kind == 'NoneType') != neg)]
        if isinstance(a, int) and isinstance(c, int):
            return [(st, {ast.Lt: a < c, ast.LtE: a <= c, ast.Gt: a > c, ast.GtE: a >= c}[t])]
        raise Unsupported('comparison')

    def ev_BinOp(self, e, st, fr):
        out = []
        for s, (a, c) in self.evs([e.left, e.right], st, fr):
            if isinstance(e.op, ast.Add) and isinstance(a, (str, int, tuple)) and type(a) is type(c):
                out.append((s, a + c))
            elif isinstance(e.op, ast.Mod) and isinstance(a, str) and isinstance(c, str):
                out.append((s, a % c))
            else:
                raise Unsupported('operator')
        return out

    # --- comprehensions and loops -----------------------------------------------------------------
    def elements(self, v, st):
        """(object, variable, item) for an iterable over the elements of an object"""
        c = self.content(v, st)
        if isinstance(c, Obj):
            if c.kind in COLLECTIONS or c.kind == 'Multiset':
                c = Elems(c)
            elif c.kind == 'range':
                raise Unsupported('iteration over a range')
        if isinstance(c, Elems):
            x = self.fresh('element', V)
            o = Obj('int' if c.of.kind == 'bytes' else None, x, c.of.kind in ('Set', 'Multiset'))
            if c.of.kind == 'Multiset' and not c.pairs:
                return Seq(c.of, (o,), (o,))                       # without multiplicities
            if c.pairs:
                m = Obj('int', self.fresh('multiplicity', V))
                return Seq(c.of, (o, m), (o, m))
            return Seq(c.of, (o,), o)
        if isinstance(c, Seq):
            return c
        return None

    def comprehension(self, e, st, fr, elt):
        """[(state, Seq or list)] of the values of the expressions elt"""
        if len(e.generators) != 1 or e.generators[0].ifs or e.generators[0].is_async:
            raise Unsupported('comprehension')
        g = e.generators[0]
        out = []
        for s, c in self.ev(g.iter, st, fr):
            q = self.elements(c, s)
            f = self.frame(s, fr, None)
            if q is None:
                c = self.content(c, s)
                if not isinstance(c, (list, tuple)):
                    raise Unsupported('iteration')
                cur = [(s, [])]
                for x in c:
                    new = []
                    for s1, vs in cur:
                        self.assign(g.target, x, s1, f)
                        new += [(s2, vs + [v]) for s2, v in self.tupled(elt, s1, f)]
                    cur = new
                out += cur
                continue
            self.assign(g.target, q.item, s, f)
            rs = self.tupled(elt, s, f)
            if len(rs) != 1:
                raise Unsupported('comprehension')
            out.append((rs[0][0], Seq(q.of, q.var, rs[0][1])))
        return out

    def tupled(self, elt, st, fr):
        if isinstance(elt, list):
            return [(s, tuple(vs)) for s, vs in self.evs(elt, st, fr)]
        return self.ev(elt, st, fr)

    def ev_ListComp(self, e, st, fr):
        return [self.new(s, c, 'list') for s, c in self.comprehension(e, st, fr, e.elt)]

    def ev_GeneratorExp(self, e, st, fr): return self.comprehension(e, st, fr, e.elt)
    ev_SetComp = ev_GeneratorExp

    def ev_DictComp(self, e, st, fr):
        out = []
        for s, c in self.comprehension(e, st, fr, [e.key, e.value]):
            if isinstance(c, list):
                raise Unsupported('dictionary')
            out.append(self.new(s, c, 'dict'))
        return out

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.frames[fr][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.content(v, st)
            if not isinstance(v, (tuple, list)) or len(v) != len(t.elts):
                raise Unsupported('unpacking')
            for a, c in zip(t.elts, v):
                self.assign(a, c, st, fr)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            o = next(iter(self.ev(t.value, st, fr)))[1]
            k = self.ev(t.slice, st, fr)
            if not isinstance(o, Ref) or len(k) != 1:
                raise Unsupported('assignment')
            c = st.heap[o.key]
            k = k[0][1]
            if isinstance(c, dict):
                st.heap[o.key] = dict(c, **{}) if False else {**c, (self.hashable(k) if not isinstance(k, (Obj, Enc)) else k): v}
            else:
                raise Unsupported('assignment')
        else:
            raise Unsupported('assignment to ' + ast.unparse(t))

    def stmt(self, s, st, fr):
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            out = []
            for q, v in self.ev(s.value, st, fr):
                q = q.copy()
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    self.assign(t, v, q, fr)
                out.append((q, 'next', None))
            return out
        return super().stmt(s, st, fr)

    def loop(self, s, st, fr):
        """Loops that append one item or set one key per element."""
        if s.orelse:
            raise Unsupported('loop')
        out = []
        for q, c in self.ev(s.iter, st, fr):
            e = self.elements(c, q)
            if e is None:
                c = self.content(c, q)
                if not isinstance(c, (list, tuple)):
                    raise Unsupported('loop')
                live = [q]
                for v in c:
                    new = []
                    for q2 in live:
                        q2 = q2.copy()
                        self.assign(s.target, v, q2, fr)
                        for q3, o, x in self.block(s.body, q2, fr):
                            if o in ('next', 'continue'):
                                new.append(q3)
                            elif o == 'break':
                                raise Unsupported('break')
                            else:
                                out.append((q3, o, x))
                    live = new
                out += [(q2, 'next', None) for q2 in live]
                continue
            q1 = q.copy()
            self.assign(s.target, e.item, q1, fr)
            rs = self.block(s.body, q1, fr)
            if len(rs) != 1 or rs[0][1] not in ('next', 'continue'):
                raise Unsupported('loop')
            q2 = rs[0][0]
            for kk, c0 in q.heap.items():
                c2 = q2.heap[kk]
                if c2 is c0:
                    continue
                if c0 == [] and isinstance(c2, list) and len(c2) == 1:
                    q2.heap[kk] = Seq(e.of, e.var, c2[0])
                elif c0 == {} and isinstance(c2, dict) and len(c2) == 1:
                    q2.heap[kk] = Seq(e.of, e.var, tuple(c2.items())[0])
                else:
                    raise Unsupported('loop')
            bound = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for f, vs in q.frames.items():
                for nm, v0 in vs.items():
                    if q2.frames[f].get(nm) is not v0 and (f != fr or nm not in bound):
                        raise Unsupported('loop')
            for nm in bound:
                q2.frames[fr].pop(nm, None)
            out.append((q2, 'next', None))
        return out

    # --- calls ------------------------------------------------------------------------------------
    def isinst(self, x, c):
        if isinstance(c, tuple):
            return any([self.isinst(x, q) for q in c])
        if isinstance(x, Ref) or isinstance(x, dict):
            return isinstance(c, Bi) and c.name == (x.kind if isinstance(x, Ref) else 'dict')
        if isinstance(x, (str, int, bool)):
            return isinstance(c, Bi) and c.name in [t.__name__ for t in type(x).__mro__]
        if isinstance(x, Obj):
            if isinstance(c, Bi) and c.name == 'dict':
                return False                                # a value is no dictionary
            if x.kind is None:
                if isinstance(c, Cls) and c.name == 'MathObject':
                    return bool(x.math)
                raise Unsupported('type of a part')
            if isinstance(c, Cls):
                return c.name == x.kind or c.name == 'MathObject' and x.kind in MATH
            if isinstance(c, Bi):
                return c.name == x.kind or c.name == 'int' and x.kind == 'bool'
        raise Unsupported('isinstance')

    def call(self, f, args, kw, st, node):
        if isinstance(f, Cls):
            return self.construct(f, args, kw, st, node)
        if isinstance(f, Fn) and f.module == MOD and f.frame is None and f.self_ is None and len(args) == 1 and not kw:
            x = args[0]
            if f.node.name == 'encode' and isinstance(x, Obj) and (x is not self.top or self.by_contract):
                self.used.add('mojson.encode')
                return [(st, Enc(x))]
            if f.node.name == 'decode' and isinstance(x, Raw):
                self.used.add('mojson.decode')
                return [(st, x.of)]
        if isinstance(f, dict):
            raise Unsupported('call')
        return super().call(f, args, kw, st, node)
    by_contract = False

    def builtin(self, f, args, kw, st, node):
        name, o = f.name, f.self_
        c = self.content(o, st) if o is not None else None
        if isinstance(o, Super):
            if name == '__init__' and not args:
                st = st.copy()
                st.fields = dict(kw)
                return [(st, None)]
            raise Unsupported('super().' + name)
        if o is not None and kw:
            raise Unsupported('keywords')
        if isinstance(o, Data) and name == 'items' and not args:
            return [(st, Elems(o.of, True))]
        if isinstance(c, dict):
            if name == 'get' and args:
                return [(st, c.get(self.hashable(args[0]), args[1] if len(args) > 1 else None))]
            if name in ('keys', 'values', 'items') and not args:
                return [(st, {'keys': lambda: tuple(c), 'values': lambda: tuple(c.values()), 'items': lambda: tuple(c.items())}[name]())]
        if isinstance(c, list) and name == 'append' and isinstance(o, Ref) and len(args) == 1:
            st = st.copy()
            st.heap[o.key] = c + [args[0]]
            return [(st, None)]
        if isinstance(c, str) and name in ('startswith', 'endswith', 'split', 'partition', 'strip', 'lower') and all(isinstance(a, str) for a in args):
            r = getattr(c, name)(*args)
            return [(st, tuple(r) if isinstance(r, list) else r)]
        if o is not None:
            raise Unsupported('method ' + name)
        if kw:
            raise Unsupported('keywords of ' + name)
        if name == 'isinstance':
            return [(st, self.isinst(*args))]
        if name == 'super':
            return [(st, Super())]
        if name == 'type' and isinstance(args[0], Obj) and args[0].kind:
            return [(st, self.type_of(args[0]))]
        if name == 'len':
            q = self.content(args[0], st)
            if isinstance(q, (dict, list, tuple, str)):
                return [(st, len(q))]
            raise Unsupported('len')
        if name == 'map' and len(args) == 2:
            q = self.elements(args[1], st)
            if q is None:
                raise Unsupported('map')
            rs = self.call(args[0], [q.item], {}, st, node)
            if len(rs) != 1:
                raise Unsupported('map')
            return [(rs[0][0], Seq(q.of, q.var, rs[0][1]))]
        if name == 'str' and len(args) == 1 and isinstance(args[0], Obj) and args[0].kind == 'complex':
            return [(st, Str(args[0]))]
        if name == 'complex' and len(args) == 1 and isinstance(args[0], Str):
            return [(st, Obj('complex', FUN['complex'](TEXT(args[0].of.term))))]
        if name == 'range' and 1 <= len(args) <= 3 and all(isinstance(a, (Obj, int)) for a in args):
            num = lambda x: z3.Const('number_%d' % x, V)
            a = [x.term if isinstance(x, Obj) else num(x) for x in args]
            a = [num(0)] + a + [num(1)] if len(a) == 1 else a + [num(1)] if len(a) == 2 else a
            return [(st, Obj('range', FUN['range'](*a)))]
        if name == 'dict' and len(args) == 1:
            return [self.new(st, self.sequence(args[0], st), 'dict')]
        if name in ('frozenset', 'list', 'tuple', 'bytes') and len(args) == 1:
            return self.collection(name, args[0], st)
        raise Unsupported('call of ' + name)

    def sequence(self, v, st):
        q = self.elements(v, st)
        if q is None:
            raise Unsupported('sequence')
        return q

    def image(self, q):
        """The sequence term: the elements themselves, or others"""
        item = q.item if isinstance(q.item, tuple) else (q.item,)
        if len(item) == len(q.var) and all(isinstance(a, Obj) and a.term.eq(b.term) for a, b in zip(item, q.var)) and \
                (len(q.var) == 2) == (q.of.kind == 'Multiset'):
            return elems(q.of.term)
        self.n += 1
        return z3.Function('map!%d' % self.n, Q, Q)(elems(q.of.term))

    def collection(self, kind, v, st):
        c = self.content(v, st)
        q = self.elements(v, st)
        if q is None:
            if kind == 'list' and isinstance(c, (list, tuple)):
                return [self.new(st, list(c), 'list')]
            if kind == 'tuple' and isinstance(c, (list, tuple)):
                return [(st, tuple(c))]
            raise Unsupported(kind)
        if not self.decoding(q):
            if kind in ('list', 'tuple'):
                return [self.new(st, q, 'list')]
            raise Unsupported(kind)
        return [(st, Obj(kind, COLL[kind](self.image(q))))]

    def decoding(self, q):
        item = q.item if isinstance(q.item, tuple) else (q.item,)
        return self.deciding and all(isinstance(x, Obj) for x in item)
    deciding = False

    def construct(self, c, args, kw, st, node):
        kw = {k: v for k, v in kw.items() if k != 'direct_load'}
        if c.module != 'algebraixlib.mathobjects' or c.name not in MATH:
            raise Unsupported('construction of ' + c.name)
        names = {'Atom': ['value'], 'Couplet': ['left', 'right']}.get(c.name)
        if names:
            if len(args) > len(names):
                args = args[:len(names)]
            env = dict(zip(names, args))
            env.update(kw)
            if set(env) != set(names) or not all(isinstance(x, Obj) for x in env.values()):
                raise Unsupported('arguments of ' + c.name)
            return [(st, Obj(c.name, FUN[c.name](*[env[x].term for x in names])))]
        if len(args) != 1 or kw:
            raise Unsupported('arguments of ' + c.name)
        q = self.sequence(args[0], st)
        if c.name == 'Multiset' and not (isinstance(args[0], Ref) and args[0].kind == 'dict'):
            raise Unsupported('arguments of Multiset')
        return [(st, Obj(c.name, COLL[c.name](self.image(q))))]

    # --- JSON -------------------------------------------------------------------------------------
    def json(self, v, st, node):
        """[(state, value)]: what the decoder makes of the text of v"""
        if isinstance(v, Enc):
            return [(st, Raw(v.of) if self.raw else v.of)]
        if isinstance(v, Str):
            return [(st, v)]
        if isinstance(v, Obj):
            if v.kind in SCALARS or v.math and not self.raw:     # the encoder calls default for math objects
                return [(st, v)]
            if v.kind is None:
                return [(st, Obj(None, self.fresh('unknown', V), v.math))]
            raise Unsupported('%s in JSON' % v.kind)
        if isinstance(v, (str, int, float, bool)) or v is None:
            return [(st, v)]
        if isinstance(v, tuple):
            return self.json_list(list(v), st, node)
        if isinstance(v, Ref):
            c = st.heap[v.key]
            if isinstance(c, list):
                return self.json_list(c, st, node)
            if isinstance(c, Seq):
                if v.kind == 'dict':
                    raise Unsupported('dictionary in JSON')
                item = c.item
                s0 = st
                rs = self.json(item, st, node)
                if len(rs) != 1:
                    raise Unsupported('list in JSON')
                s, x = rs[0]
                if isinstance(item, tuple):
                    x = tuple(s.heap[x.key])
                return [self.new(s, Seq(c.of, c.var, x), 'list')]
            if isinstance(c, dict):
                if not all(isinstance(k, str) for k in c):
                    raise Unsupported('key in JSON')
                cur = [(st, {})]
                for k, x in c.items():
                    cur = [(s2, {**d, k: y}) for s, d in cur for s2, y in self.json(x, s, node)]
                out = []
                for s, d in cur:
                    s, r = self.new(s, d, 'dict')
                    out += [(s, r)] if self.raw else self.call(self.hook, [r], {}, s, node)
                return out
        raise Unsupported('%r in JSON' % (v,))

    def json_list(self, vs, st, node):
        cur = [(st, [])]
        for x in vs:
            cur = [(s2, l + [y]) for s, l in cur for s2, y in self.json(x, s, node)]
        return [self.new(s, l, 'list') for s, l in cur]


class Solver(B.Solver):
    seconds, queries = 0, 0

    @classmethod
    def check(cls, hyps, goal, rlimit, seed=0):
        import os, time
        s = z3.Solver()
        s.set('rlimit', rlimit)
        s.set('smt.random_seed', seed + int(os.environ.get('PYVC_SEED', '0')))
        s.add(*hyps, z3.Not(goal))
        t = time.time()
        r = s.check()
        cls.seconds += time.time() - t
        cls.queries += 1
        return r == z3.unsat


class Result(B.Result):
    def __init__(self, key):
        super().__init__(key)
        self.used, self.inlined = set(), set()

    def add(self, name, clause, where, hyps, goal):
        import time
        t = time.time()
        ok = B.prove(hyps, goal, solver=Solver)
        o = dict(name=name, clause=clause, where=where, ok=ok, s=round(time.time() - t, 3))
        if not ok:
            self.r['status'] = 'failed'
            o['output'] = 'under\n%s\nthe solver does not prove\n  %s' % ('\n'.join('  ' + str(h).replace('\n', ' ')[:400] for h in hyps[-12:]), str(goal)[:1500])
        self.r['obs'].append(o)

    def obligations(self, ex, hyps, src):
        for o in ex.obs:
            self.add(o.name, o.clause, '%s:%s' % (src, getattr(o.node, 'lineno', '?')), hyps + o.pc, o.goal)
        self.used |= ex.used
        self.inlined |= ex.inlined

    def finish(self):
        self.r.update(used=sorted(self.used), inlined=sorted(self.inlined))
        return self.r


def value(kind):
    v = z3.Const('v', V)
    return Obj(kind, v), axioms(kind, v)


class Verifier:
    def __init__(self, repo):
        self.src = Source(repo)

    def fn(self, name):
        d = self.src.mod(MOD).defs.get(name)
        if d is None:
            raise Unsupported('no function ' + name)
        return Fn(d, MOD)

    def class_init(self, R=None):
        """The hook that ImportJson passes to the decoder of the library"""
        ex = Exec(self.src)
        c = self.src.mod(MOD).classes.get('ImportJson')
        d = self.src.method(MOD, 'ImportJson', '__init__')
        if c is None or d is None or len([x for x in c.body if isinstance(x, ast.FunctionDef)]) != 1:
            raise Unsupported('ImportJson')
        st = B.start(ex, MOD)
        f = ex.frame(st, None, MOD)
        a = d.args
        env = st.frames[f]
        env[a.args[0].arg] = Super()
        for x, dv in list(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults)) + [(x.arg, dv) for x, dv in zip(a.kwonlyargs, a.kw_defaults)]:
            env[x] = ex.ev(dv, st, f)[0][1]
        if len(a.args) - 1 != len(a.defaults) or a.kwarg or a.vararg or any(x is None for x in a.kw_defaults):
            raise Unsupported('parameters of ImportJson')
        hooks = []
        for s, o, v in ex.block(d.body, st, f):
            if o == 'raise':
                raise Unsupported('exception in ImportJson')
            hooks.append(s.fields)
        if R is not None:
            for h in hooks:
                R.add('the object hook is a function of the module', 'value', SRC, [], BoolVal(isinstance(h.get('object_hook'), Fn)))
                R.add('no other hook', 'value', SRC, [], BoolVal(all(h.get(k) is None for k in h if k not in ('object_hook', 'strict'))))
            R.obligations(ex, [], SRC)
        if len(hooks) != 1 or not isinstance(hooks[0].get('object_hook'), Fn):
            raise Unsupported('the hook of ImportJson')
        return hooks[0]['object_hook']

    def importer(self):
        R = Result('import_export.mojson.ImportJson.__init__')
        try:
            self.class_init(R)
        except Unsupported:
            if R.r['status'] != 'failed':
                raise
        return R.finish()

    def exporter(self):
        R = Result('import_export.mojson.ExportJson.default')
        c = self.src.mod(MOD).classes.get('ExportJson')
        d = self.src.method(MOD, 'ExportJson', 'default')
        if c is None or d is None or len([x for x in c.body if isinstance(x, ast.FunctionDef)]) != 1:
            raise Unsupported('ExportJson')
        for kind in MATH + ('bytes', 'complex', 'frozenset', 'range'):
            o, ax = value(kind)
            ex = Exec(self.src)
            ex.top, ex.by_contract = o, True
            for s, v in ex.invoke(Fn(d, MOD, None, Super()), [o], {}, B.start(ex, MOD), d):
                R.add('gives the encoding (%s)' % kind, 'value', SRC, ax, BoolVal(isinstance(v, Enc) and v.of is o))
            R.obligations(ex, ax, SRC)
        return R.finish()

    def roundtrip(self, kind, raw):
        R = Result('import_export.mojson.%s: %s' % ('encode and decode' if raw else 'encode and object hook', kind))
        enc = self.fn('encode')
        hook = self.fn('decode') if raw else self.class_init()
        o, ax = value(kind)
        ex = Exec(self.src, hook, raw)
        ex.top = o
        n = 0
        for s, e in ex.invoke(enc, [o], {}, B.start(ex, MOD), enc.node):
            ex.top = None
            ex.deciding = True
            for s2, j in ex.json(e, s, enc.node):
                for s3, v in ex.call(hook, [j], {}, s2, hook.node) if raw else [(s2, j)]:
                    n += 1
                    if isinstance(v, Ref) and v.kind == 'list' and isinstance(s3.heap[v.key], Seq):
                        v = ex.collection('list', v, s3)[0][1]
                    ok = isinstance(v, Obj) and v.kind == kind
                    R.add('the object comes back', 'value', '%s:%d path %d' % (SRC, enc.node.lineno, n), ax + s3.pc, v.term == o.term if ok else BoolVal(False))
            ex.deciding = False
            ex.top = o
        if not n:
            R.add('some path returns', 'vacuity', SRC, [], BoolVal(bool(ex.obs)))
        R.obligations(ex, ax, SRC)
        return R.finish()


def jobs():
    r = {}
    for kind in MATH + PLAIN + SCALARS:
        for raw in (False, True):
            r['import_export.mojson.%s: %s' % ('encode and decode' if raw else 'encode and object hook', kind)] = \
                lambda vf, kind=kind, raw=raw: vf.roundtrip(kind, raw)
    r['import_export.mojson.ExportJson.default'] = lambda vf: vf.exporter()
    r['import_export.mojson.ImportJson.__init__'] = lambda vf: vf.importer()
    return r


def keys(): return list(jobs())


def one(job):
    repo, key = job
    return B.attempt(key, lambda: jobs()[key](Verifier(repo)), Solver)


def run(repo): return B.pooled(one, [(repo, key) for key in jobs()])


if __name__ == '__main__':
    B.main(run)
