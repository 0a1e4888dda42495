"""Verification of the export of tables (C20): export_table of rdf.py and the writer classes that it uses.

The function is executed symbolically from the source in /repo, for a table with any number of relations and any (positive)
number of columns. What is written is a sequence of pieces: constant text, and text made from values (str of a value, quotes
doubled, quoted by json.dumps, ...), which are uninterpreted. A loop that writes is verified by induction: before element i
the text ends with what the specification has for the first i elements (header, row, body); which of these is found among
the candidates, as are the values of the variables that the loop changes (Houdini). The comparison is one of tokens: JSON and
CSV text with the same tokens is the same document."""
import ast
import json
import z3
from z3 import And, Or, Not, BoolVal, IntVal
from pyvc import structvc as B
from pyvc import importvc as IV
from pyvc.structvc import Unsupported, Fn, Cls, Mod, Bi, is_z3, simp

MOD = 'algebraixlib.import_export.rdf'
I, BOOL = z3.IntSort(), z3.BoolSort()
R, A, P = z3.DeclareSort('Relation'), z3.DeclareSort('Left'), z3.DeclareSort('Value')
F = z3.Function
N, M = z3.Ints('number_of_columns number_of_relations')
KINDS = ('sorted', 'set')
COL = {q: F('column_' + q, I, A) for q in KINDS}
REL = F('relation', I, R)
lval = F('value_of_left', A, P)
defined, rval = F('has_right', R, A, BOOL), F('right_value', R, A, P)
URI, BNODE = F('is_uri', P, BOOL), F('is_bnode', P, BOOL)
TYPED = F('has_datatype', P, BOOL)
EARLIER = {q: F('none_before_' + q, R, I, BOOL) for q in KINDS}      # no right for any of the first i columns


class Text:
    """Pieces: str, ('value', p), ('datatype', p), ('quoted', pieces), ('method', name, arguments, piece), ('fun', name, kind, relation, i)"""
    def __init__(self, *pieces):
        out = []
        for p in pieces:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        self.pieces = tuple(out)


def text(v):
    if isinstance(v, Text):
        return v
    if isinstance(v, str):
        return Text(v)
    raise Unsupported('text of %r' % (v,))


class Unknown:
    """Value of a location that the loop writes before it reads it"""
    def __init__(self, loc): self.loc = loc


class Reads(Unsupported):
    def __init__(self, loc):
        super().__init__('value from before the iteration')
        self.loc = loc


class Marker:
    def __init__(self, name): self.name = name


LEFTS, TABLE, FILE, ARG, UNDEF, FORMAT = (Marker(x) for x in ('lefts', 'table', 'file', 'file_or_path', 'Undef()', 'text'))


class Right:
    def __init__(self, rel, left): self.rel, self.left = rel, left


class RightAtom:
    def __init__(self, p): self.p = p


class Literal:
    def __init__(self, p): self.p = p


class Datatype:
    """None or a URI"""
    def __init__(self, p): self.p = p


class SeqV:
    """Columns or relations from a position on"""
    def __init__(self, kind, lo=0): self.kind, self.lo = kind, lo

    def size(self): return M if self.kind == 'relations' else N
    def at(self, i): return REL(i) if self.kind == 'relations' else COL[self.kind](i)


class Pairs:
    """enumerate"""
    def __init__(self, seq, start): self.seq, self.start = seq, start


class Gen:
    """Generator expression: loops over a sequence"""
    def __init__(self, node, seq, fr): self.node, self.seq, self.fr = node, seq, fr


class It:
    def __init__(self, key): self.key = key


class Ref:
    def __init__(self, key): self.key = key


class Inst:
    def __init__(self, cls, key): self.cls, self.key = cls, key


class ClsV:
    def __init__(self, node, module, frame, bases): self.node, self.module, self.frame, self.bases = node, module, frame, bases


class Super:
    def __init__(self, cls, inst): self.cls, self.inst = cls, inst


def mro(c):
    out = [c]
    for b in c.bases:
        out += [x for x in mro(b) if x not in out]
    return out


# --- tokens ---------------------------------------------------------------------------------------
class Bad(Exception):
    """No text of the language"""


def lex(pieces, lang):
    return (lex_json if lang == 'json' else lex_csv)(pieces)


def lex_json(pieces):
    out, buf, bare, esc = [], None, '', False

    def end_bare():
        nonlocal bare
        if bare:
            out.append(('bare', bare))
        bare = ''
    for p in pieces:
        if not isinstance(p, str):
            if buf is not None:
                buf.append(p)
                continue
            end_bare()
            out.append(p if p[0] in ('quoted', 'fun') else ('raw', p))
            continue
        for c in p:
            if buf is not None:
                if esc:
                    buf.append('\\' + c)
                    esc = False
                elif c == '\\':
                    esc = True
                elif c == '"':
                    q = Text(*buf).pieces
                    if any(not isinstance(x, str) for x in q) and all(isinstance(x, str) and '\\' not in x or x[0] == 'datatype' for x in q):
                        out.append(('quoted', q))
                    elif all(isinstance(x, str) for x in q):
                        try:
                            t = json.loads('"%s"' % ''.join(q))
                        except ValueError:
                            raise Bad('string')
                        out.append(('quoted', (t,) if t else ()))
                    else:
                        out.append(('unescaped', q))
                    buf = None
                else:
                    buf.append(c)
            elif c in ' \t\r\n':
                end_bare()
            elif c == '"':
                end_bare()
                buf = []
            elif c in '{}[],:':
                end_bare()
                out.append(c)
            else:
                bare += c
    end_bare()
    if buf is not None:
        raise Bad('string over the end')
    return group(out)


def group(toks):
    """Complete objects and lists as one token each, the members of an object in the order of their keys"""
    out = []
    i = 0
    while i < len(toks):
        if toks[i] in ('{', '['):
            d, j = 0, i
            while j < len(toks):
                d += toks[j] in ('{', '[')
                d -= toks[j] in ('}', ']')
                if d == 0:
                    break
                j += 1
            if j == len(toks):
                out.append(toks[i])
                i += 1
                continue
            inner = group(toks[i + 1:j])
            if toks[i] == '{' and toks[j] == '}':
                o = members(inner)
                out += [('object', o)] if o is not None else ['{'] + inner + ['}']
            elif toks[i] == '[' and toks[j] == ']':
                out.append(('list', tuple(inner)))
            else:
                out += [toks[i]] + inner + [toks[j]]
            i = j + 1
        else:
            out.append(toks[i])
            i += 1
    return out


def members(toks):
    if not toks:
        return ()
    d = []
    for i in range(0, len(toks), 4):
        t = toks[i:i + 4]
        if len(t) < 3 or t[1] != ':' or t[0][0] != 'quoted' or not all(isinstance(x, str) for x in t[0][1]) or len(t) == 4 and (t[3] != ',' or i + 4 == len(toks)):
            return None
        d.append((''.join(t[0][1]), t[2]))
    if len({q for q, _ in d}) < len(d):
        return None
    return tuple(sorted(d, key=lambda q: q[0]))


def lex_csv(pieces):
    out, buf, bare, quote, skip = [], None, [], False, False

    def end_bare():
        nonlocal bare
        if bare:
            out.append(('field', Text(*bare).pieces))
        bare = []
    for p in pieces:
        if not isinstance(p, str):
            if quote:
                buf, quote = None, False
                raise Bad('text after a quote')
            if buf is not None:
                if p[:3] == ('method', 'replace', ('"', '""')):
                    buf.append(p[3])
                else:
                    buf.append(('unescaped', p))
            elif p[0] == 'fun':
                end_bare()
                out.append(p)
            else:
                bare.append(('raw', p))
            continue
        for c in p:
            if quote:               # a quote inside of a quoted field
                quote = False
                if c == '"':
                    buf.append('"')
                    continue
                out.append(('field', Text(*buf).pieces))
                buf = None
            if buf is not None:
                if c == '"':
                    quote = True
                else:
                    buf.append(c)
            elif c == '"':
                if bare:
                    raise Bad('quote in a field')
                buf = []
            elif c == ',':
                end_bare()
                out.append(',')
            elif c == '\n':
                end_bare()
                out.append('\n')
            elif c == '\r' or c == ' ' and not bare:
                pass
            else:
                bare.append(c)
    if quote:
        out.append(('field', Text(*buf).pieces))
        buf = None
    end_bare()
    if buf is not None:
        raise Bad('field over the end')
    return out


# --- specification ----------------------------------------------------------------------------------
def value_text(p): return ('value', p)


def quoted(p, lang):
    if lang == 'json':
        return [('quoted', (value_text(p),))]
    return ['"', ('method', 'replace', ('"', '""'), value_text(p)), '"']


def item(rel, left):
    p = rval(rel, left)
    start, end = quoted(lval(left), 'json') + [':{"type":'], [',"value":'] + quoted(p, 'json') + ['}']
    return [(URI(p), start + ['"uri"'] + end), (And(Not(URI(p)), BNODE(p)), start + ['"bnode"'] + end),
            (And(Not(URI(p)), Not(BNODE(p)), TYPED(p)), start + ['"literal","datatype":"', ('datatype', p), '"'] + end),
            (And(Not(URI(p)), Not(BNODE(p)), Not(TYPED(p))), start + ['"literal"'] + end)]


def step(lang, name, kind, rel, i):
    """[(condition, pieces)]: what comes after the text for i elements"""
    first = i == 0
    if name == 'header':
        q = quoted(lval(COL[kind](i)), lang)
        return [(first, q), (Not(first), [','] + q)]
    if name == 'row' and lang == 'csv':
        left = COL[kind](i)
        d = defined(rel, left)
        q = quoted(rval(rel, left), lang)
        return [(And(first, d), q), (And(first, Not(d)), []), (And(Not(first), d), [','] + q), (And(Not(first), Not(d)), [','])]
    if name == 'row':
        left = COL[kind](i)
        d, e = defined(rel, left), EARLIER[kind](rel, i)
        return [(Not(d), [])] + [(And(d, e, c), q) for c, q in item(rel, left)] + [(And(d, Not(e), c), [','] + q) for c, q in item(rel, left)]
    row = ('fun', 'row', kind, REL(i), N)
    if lang == 'csv':
        return [(BoolVal(True), [row, '\n'])]
    return [(first, ['{', row, '}']), (Not(first), [',', '{', row, '}'])]


def core(lang, name, kind, rel, i):
    """The steps without the separator before them, if there is one before each but the first"""
    if name == 'header':
        return [(BoolVal(True), quoted(lval(COL[kind](i)), lang))]
    if name == 'row' and lang == 'csv':
        d = defined(rel, COL[kind](i))
        return [(d, quoted(rval(rel, COL[kind](i)), lang)), (Not(d), [])]
    if name == 'body' and lang == 'json':
        return [(BoolVal(True), ['{', ('fun', 'row', kind, REL(i), N), '}'])]
    return None


def document(lang, k1, k2, rows):
    h, b = ('fun', 'header', k1, None, N), ('fun', 'body', k2, None, M) if rows else ''
    if lang == 'csv':
        return [h, '\n', b]
    return ['{"head":{"vars":[', h, ']},"results":{"bindings":[', b, ']}}']


Z = lambda c: BoolVal(c) if isinstance(c, bool) else c


class Exec(B.Exec):
    def __init__(self, src, lang):
        super().__init__(src)
        self.lang = lang
        self.indices, self.rels, self.stack, self.cache, self.peeled = [IntVal(0), N], [], [], {}, []

    def hyps(self):
        sig = (tuple(r.get_id() for r in self.rels + self.peeled), tuple(i.get_id() for i in self.indices))
        if sig not in self.cache:
            l = [N >= 1, M >= 0]
            for kind in KINDS:
                for r in self.rels + self.peeled:
                    l.append(EARLIER[kind](r, IntVal(0)))
                    for i in self.indices:
                        l.append(z3.Implies(i >= 0, EARLIER[kind](r, i + 1) == And(EARLIER[kind](r, i), Not(defined(r, COL[kind](i))))))
                        l += [z3.Implies(And(i >= a, EARLIER[kind](r, i)), EARLIER[kind](r, IntVal(a))) for a in (1, 2)]
                    l.append(EARLIER[kind](r, IntVal(2)) == And(EARLIER[kind](r, IntVal(1)), Not(defined(r, COL[kind](IntVal(1))))))
            self.cache[sig] = l
        return self.cache[sig]

    def ob(self, st, name, clause, goal, node):
        if not z3.is_true(simp(goal)):
            self.obs.append(B.Ob(name, clause, self.hyps() + st.pc, goal, node))

    def solver(self, pc):
        s = z3.Solver()
        s.set('rlimit', 3000000)
        s.add(*self.hyps())
        s.add(*pc)
        self.queries += 1
        return s

    def feasible(self, st, c):
        s = self.solver(st.pc)
        s.add(c)
        return s.check() != z3.unsat

    def entails(self, pc, g):
        g = simp(Z(g))
        if z3.is_true(g):
            return True
        s = self.solver(pc)
        s.add(Not(g))
        return s.check() == z3.unsat

    # --- equality of tokens -----------------------------------------------------------------------
    def same(self, a, b, pc):
        """Whether the tokens are equal on the path"""
        if is_z3(a) or is_z3(b):
            return is_z3(a) and is_z3(b) and a.sort() == b.sort() and (a.eq(b) or self.entails(pc, a == b))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.same(x, y, pc) for x, y in zip(a, b))
        return type(a) == type(b) and a == b

    # --- names ------------------------------------------------------------------------------------
    def global_(self, mod, name):
        m = self.src.mod(mod) if mod != 'algebraixlib.mathobjects' else None
        if m is None:
            return Cls(mod, name)
        if name in m.classes:
            return self.make_class(m.classes[name], B.start(self, mod), self.n, True) if mod == MOD else Cls(mod, name)
        if name not in m.defs and name not in m.imports:
            for d in m.tree.body:
                if isinstance(d, ast.Assign) and len(d.targets) == 1 and isinstance(d.targets[0], ast.Name) and d.targets[0].id == name:
                    st = B.start(self, mod)
                    return self.ev(d.value, st, self.n)[0][1]
            if name in ('enumerate', 'sorted', 'str', 'open', 'super', 'repr', 'object', 'range', 'map', 'zip', 'print', 'int', 'float', 'NotImplementedError', 'ValueError',
                        'TypeError', 'AssertionError', 'hasattr', 'staticmethod'):
                return Bi(name)
        return super().global_(mod, name)

    def imported(self, full):
        if full == 'algebraixlib.mathobjects':
            return Mod(full)
        if full.startswith('algebraixlib.mathobjects.'):
            return Cls('algebraixlib.mathobjects', full.rpartition('.')[2])
        return super().imported(full)

    def make_class(self, d, st, fr, of_module=False):
        bases = []
        for b in d.bases:
            v = self.ev(b, st, fr)[0][1]
            if isinstance(v, ClsV):
                bases.append(v)
            elif not (isinstance(v, Bi) and v.name in ('abc.ABC', 'object')):
                raise Unsupported('base class')
        if d.decorator_list or d.keywords and any(kw.arg != 'metaclass' for kw in d.keywords):
            raise Unsupported('class')
        return ClsV(d, st.frames[fr]['<module>'], None if of_module else fr, bases)

    def ev(self, e, st, fr):
        out = super().ev(e, st, fr)
        for _, v in out:
            if isinstance(v, Unknown):
                raise Reads(v.loc)
        return out

    def member(self, c, name):
        for q in mro(c):
            for d in q.node.body:
                if isinstance(d, ast.FunctionDef) and d.name == name:
                    return q, d
                if isinstance(d, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == name for t in (d.targets if isinstance(d, ast.Assign) else [d.target])):
                    return q, d
        return None, None

    def bound(self, c, d, inst, st, node):
        decs = [ast.unparse(x).rpartition('.')[2] for x in d.decorator_list]
        if set(decs) - {'abstractmethod', 'property', 'staticmethod'}:
            raise Unsupported('decorator')
        f = Fn(d, c.module, c.frame, None if 'staticmethod' in decs else inst, c)
        return self.call(f, [], {}, st, node) if 'property' in decs else [(st, f)]

    def attr(self, o, name, st, node):
        if isinstance(o, Inst):
            if name in st.heap[o.key]:
                return [(st, st.heap[o.key][name])]
            c, d = self.member(o.cls, name)
            if d is None:
                raise Unsupported('attribute ' + name)
            if isinstance(d, ast.FunctionDef):
                return self.bound(c, d, o, st, node)
            if not isinstance(d.value, ast.Constant):
                raise Unsupported('class attribute')
            return [(st, d.value.value)]
        if isinstance(o, Super):
            chain = mro(o.inst.cls)
            rest = chain[chain.index(next(x for x in chain if x.node is o.cls.node)) + 1:]
            for q in rest:
                for d in q.node.body:
                    if isinstance(d, ast.FunctionDef) and d.name == name:
                        return self.bound(q, d, o.inst, st, node)
            if name == '__init__':
                return [(st, Bi('object.__init__'))]
            raise Unsupported('attribute %s of super' % name)
        if is_z3(o, A):
            if name == 'value':
                return [(st, lval(o))]
            if name in ('is_atom', 'is_couplet', 'is_set', 'is_multiset'):
                return [(st, name == 'is_atom')]
        if isinstance(o, Right):
            if name == 'value':
                self.ob(st, 'the right is defined', 'undef', defined(o.rel, o.left), node)
                st = st.copy()
                st.pc.append(defined(o.rel, o.left))
                return [(st, rval(o.rel, o.left))]
            if name == 'is_atom':
                return [(st, defined(o.rel, o.left))]
        if isinstance(o, Literal):
            if name == 'datatype':
                return [(st, Datatype(o.p))]
            raise Unsupported('attribute of a literal')
        if isinstance(o, (Marker, Text, str, Ref)) or is_z3(o, P) or is_z3(o, R):
            return [(st, Bi(name, o))]
        if isinstance(o, Mod) and o.name == 'os' and name == 'linesep':
            return [(st, '\n')]
        return super().attr(o, name, st, node)

    def truth(self, v, st):
        if isinstance(v, (Right, Literal)):
            raise Unsupported('truth')
        if isinstance(v, Datatype):
            return TYPED(v.p)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, Text) and not v.pieces:
            return False
        if isinstance(v, SeqV):
            return v.size() > v.lo
        if v is LEFTS:
            return True
        if isinstance(v, Marker) and v is TABLE:
            return M > 0
        return super().truth(v, st)

    # --- expressions ------------------------------------------------------------------------------
    def ev_JoinedStr(self, e, st, fr):
        out = [(st, Text())]
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                if x.format_spec is not None or x.conversion not in (-1, 115):
                    raise Unsupported('format')
                out = [(s2, Text(*t.pieces, *self.str_(v, s2).pieces)) for s, t in out for s2, v in self.ev(x.value, s, fr)]
            else:
                out = [(s, Text(*t.pieces, x.value)) for s, t in out]
        return out

    def str_(self, v, st):
        if isinstance(v, (Text, str)):
            return text(v)
        if is_z3(v, P):
            return Text(value_text(v))
        if isinstance(v, int) and not isinstance(v, bool):
            return Text(str(v))
        if isinstance(v, Datatype):
            if not self.entails(st.pc, TYPED(v.p)):
                raise Unsupported('text of a datatype')
            return Text(('datatype', v.p))
        raise Unsupported('text of %r' % (v,))

    def ev_List(self, e, st, fr):
        out = []
        for s, vs in self.evs(e.elts, st, fr):
            out.append(self.new(s, tuple(vs)))
        return out

    def ev_Dict(self, e, st, fr):
        if any(q is None for q in e.keys):
            raise Unsupported('dictionary')
        out = []
        for s, vs in self.evs(list(e.keys) + list(e.values), st, fr):
            n = len(e.keys)
            if not all(isinstance(q, str) for q in vs[:n]):
                raise Unsupported('key of a dictionary')
            out.append(self.new(s, dict(zip(vs[:n], vs[n:]))))
        return out

    def new(self, st, content):
        st = st.copy()
        self.n += 1
        st.heap[self.n] = content
        return st, Ref(self.n)

    def ev_Lambda(self, e, st, fr):
        d = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(ast.Return(e.body), e)], decorator_list=[], lineno=e.lineno, col_offset=0)
        return [(st, Fn(d, st.frames[fr]['<module>'], fr))]

    def ev_GeneratorExp(self, e, st, fr):
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported('generator')
        return [(s, Gen(e, q, fr)) for s, q in self.ev(e.generators[0].iter, st, fr)]

    def ev_ListComp(self, e, st, fr):
        out = []
        for s, g in self.ev_GeneratorExp(e, st, fr):
            q = self.seq(g.seq, s)
            t = e.generators[0].target
            if isinstance(t, ast.Name) and isinstance(e.elt, ast.Name) and e.elt.id == t.id and isinstance(q, SeqV):
                out.append(self.new(s, q))
            else:
                out.append((s, g))
        return out
    ev_SetComp = None

    def ev_Subscript(self, e, st, fr):
        out = []
        if isinstance(e.slice, ast.Slice):
            if e.slice.upper or e.slice.step or not isinstance(e.slice.lower, ast.Constant):
                raise Unsupported('slice')
            for s, o in self.ev(e.value, st, fr):
                q = self.seq(o, s)
                if not isinstance(q, SeqV) or q.kind == 'relations' or e.slice.lower.value not in (0, 1):
                    raise Unsupported('slice')
                out.append((s, SeqV(q.kind, q.lo + e.slice.lower.value)))
            return out
        for s, (o, i) in self.evs([e.value, e.slice], st, fr):
            if isinstance(o, Ref) and isinstance(s.heap[o.key], dict) and isinstance(i, str) and i in s.heap[o.key]:
                out.append((s, s.heap[o.key][i]))
                continue
            if isinstance(o, Ref) and isinstance(s.heap[o.key], SeqV):
                o = s.heap[o.key]
            if isinstance(o, SeqV) and isinstance(i, int) and i >= 0:
                self.ob(s, 'index in the sequence', 'undef', o.size() > o.lo + i, e)
                out.append((s, self.peel(o.at(IntVal(o.lo + i)))))
            elif isinstance(o, tuple) and isinstance(i, int) and -len(o) <= i < len(o):
                out.append((s, o[i]))
            else:
                raise Unsupported('subscript')
        return out

    def ev_BinOp(self, e, st, fr):
        out = []
        for s, (a, c) in self.evs([e.left, e.right], st, fr):
            if isinstance(a, (Text, str)) and isinstance(e.op, ast.Add):
                out.append((s, self.cat(a, c, s)))
            elif isinstance(a, str) and isinstance(e.op, ast.Mod):
                args = list(c) if isinstance(c, tuple) else [c]
                parts = a.split('%s')
                if len(parts) != len(args) + 1 or any('%' in p for p in parts):
                    raise Unsupported('format')
                out.append((s, self.fill(parts, args, s)))
            else:
                out.append((s, self.binop(type(e.op), a, c)))
        return out

    def cat(self, a, c, st):
        if isinstance(a, str) and isinstance(c, str):
            return a + c
        return Text(*self.content(a, st).pieces, *self.content(c, st).pieces)

    def content(self, v, st): return self.str_(v, st) if isinstance(v, Datatype) else text(v)

    def fill(self, parts, args, st):
        t = [parts[0]]
        for p, v in zip(parts[1:], args):
            t += list(self.str_(v, st).pieces) + [p]
        return Text(*t)

    def ev_Compare(self, e, st, fr):
        if len(e.ops) != 1:
            raise Unsupported('chained comparison')
        return super().ev_Compare(e, st, fr)

    def compare(self, op, a, c, st, node):
        t = type(op)
        neg = t in (ast.NotEq, ast.IsNot, ast.NotIn)
        wrap = lambda f: [(st, (not f if isinstance(f, bool) else Not(f)) if neg else f)]
        for x, y in ((a, c), (c, a)):
            if y is UNDEF:
                if t not in (ast.Is, ast.IsNot):
                    self.ob(st, 'undefined values are not compared', 'undef', BoolVal(False), node)
                    return []
                if isinstance(x, Right):
                    return wrap(Not(defined(x.rel, x.left)))
                return wrap(x is UNDEF)
            if y is None and t in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq):
                if isinstance(x, Datatype):
                    return wrap(Not(TYPED(x.p)))
                return wrap(x is None)
        if isinstance(a, str) and isinstance(c, str) and t in (ast.Eq, ast.NotEq):
            return wrap(a == c)
        if isinstance(a, str) and isinstance(c, (tuple, Ref)) and t in (ast.In, ast.NotIn):
            c = st.heap[c.key] if isinstance(c, Ref) else c
            if isinstance(c, (tuple, dict)):
                return wrap(a in c)
        if t in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot) and any(is_z3(x, BOOL) for x in (a, c)) and all(is_z3(x, BOOL) or isinstance(x, bool) for x in (a, c)):
            return wrap(Z(a) == Z(c))
        return super().compare(op, a, c, st, node)

    def isinst(self, x, c):
        if isinstance(c, Ref):
            raise Unsupported('isinstance')
        if isinstance(c, tuple):
            return Or(*[Z(self.isinst(x, q)) for q in c])
        name = c.name if isinstance(c, (Bi, Cls)) else None
        if is_z3(x, P) and name in ('rdflib.URIRef', 'rdflib.term.URIRef'):
            return URI(x)
        if is_z3(x, P) and name in ('rdflib.BNode', 'rdflib.term.BNode'):
            return And(BNODE(x), Not(URI(x)))
        if is_z3(x, P) and name in ('str', 'int', 'float', 'bool', 'rdflib.Literal', 'rdflib.term.Literal', 'rdflib.term.Identifier'):
            return F('is_' + name, P, BOOL)(x)
        if isinstance(x, Datatype) and name in ('str', 'rdflib.URIRef', 'rdflib.term.URIRef'):
            return TYPED(x.p)
        if x is ARG and name == 'str':
            return z3.Const('it is a path', BOOL)
        if isinstance(x, Right) and name in ('Undef', 'Atom'):
            return Not(defined(x.rel, x.left)) if name == 'Undef' else defined(x.rel, x.left)
        if is_z3(x, A) and name in ('Atom', 'Undef'):
            return name == 'Atom'
        raise Unsupported('isinstance')

    # --- calls ------------------------------------------------------------------------------------
    def call(self, f, args, kw, st, node):
        if isinstance(f, ClsV):
            st, r = self.new(st, {})
            o = Inst(f, r.key)
            c, d = self.member(f, '__init__')
            return [(st, o)] if d is None else [(s, o) for s, _ in self.call(Fn(d, c.module, c.frame, o, c), args, kw, st, node)]
        if isinstance(f, Fn):
            nm, md = f.node.name, f.module
            if f.frame is None and f.cls is None:
                a = [x for x in args]
                if md == 'algebraixlib.algebras.clans' and nm in ('is_member', 'is_absolute_member') and a == [TABLE]:
                    self.used.add('algebras.clans.' + nm)
                    return [(st, True)]
                if md == 'algebraixlib.algebras.relations' and nm == 'get_right' and len(a) == 2 and is_z3(a[0], R) and is_z3(a[1], A) and not kw:
                    self.used.add('algebras.relations.get_right')
                    return [(st, Right(*a))]
                if md.startswith('algebraixlib.algebras'):
                    raise Unsupported('call of ' + nm)
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    raise Unsupported('generator')
            self.stack.append(f)
            try:
                return self.invoke(f, args, kw, st, node)
            finally:
                self.stack.pop()
        if isinstance(f, Cls):
            if f.name == 'Undef':
                return [(st, UNDEF)]
            raise Unsupported('construction of ' + f.name)
        return super().call(f, args, kw, st, node)

    def ev_Call(self, e, st, fr):
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'format':
            out = []
            for s, t in self.ev(e.func.value, st, fr):
                if not isinstance(t, str) or e.keywords:
                    raise Unsupported('format')
                parts = t.replace('{0}', '{}').split('{}') if '{1}' not in t else t.split('{}')
                for s2, vs in self.evs(e.args, s, fr):
                    if len(parts) != len(vs) + 1 or any('{' in p or '}' in p for p in parts):
                        raise Unsupported('format')
                    out.append((s2, self.fill(parts, vs, s2)))
            return out
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            f = self.stack[-1]
            if f.cls is None or not isinstance(f.self_, Inst):
                raise Unsupported('super')
            return [(st, Super(f.cls, f.self_))]
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            raise Unsupported('star argument')
        out = []
        for s, f in self.ev(e.func, st, fr):
            for s2, vs in self.evs(list(e.args) + [k.value for k in e.keywords], s, fr):
                n = len(e.args)
                out += self.call(f, vs[:n], dict(zip([k.arg for k in e.keywords], vs[n:])), s2, e)
        return out

    def seq(self, v, st):
        if isinstance(v, SeqV):
            return v
        if isinstance(v, Pairs):
            return v
        if v is LEFTS:
            return SeqV('set')
        if v is TABLE:
            return SeqV('relations')
        if isinstance(v, Ref) and isinstance(st.heap[v.key], (SeqV, tuple)):
            return st.heap[v.key]
        if isinstance(v, It):
            q, pos = st.heap[v.key]
            return SeqV(q.kind, pos)
        if isinstance(v, tuple):
            return v
        raise Unsupported('iterable')

    def write(self, st, v):
        st = st.copy()
        st.heap['out'] = Text(*st.heap['out'].pieces, *self.content(v, st).pieces)
        return st

    def builtin(self, f, args, kw, st, node):
        name, o = f.name, f.self_
        if name == 'object.__init__':
            return [(st, None)]
        if o is FILE:
            if name == 'write' and len(args) == 1 and not kw:
                return [(self.write(st, args[0]), None)]
            if name in ('flush',) and not args:
                return [(st, None)]
            if name == 'writelines' and len(args) == 1 and not kw:
                return [(self.write(s, t), None) for s, t in self.join('', args[0], st, node)]
            raise Unsupported('method ' + name)
        if o is ARG and name == 'write' and len(args) == 1 and not kw:
            return [(self.write(st, args[0]), None)]
        if o is LEFTS or o is TABLE:
            if name == 'data' or name == 'is_empty' or name == 'cardinality':
                raise Unsupported('attribute ' + name)
            raise Unsupported('method ' + name)
        if isinstance(o, Ref):
            c = st.heap[o.key]
            if name == 'append' and len(args) == 1 and isinstance(c, tuple):
                st = st.copy()
                st.heap[o.key] = c + (args[0],)
                return [(st, None)]
            raise Unsupported('method ' + name)
        if isinstance(o, (Text, str)):
            return self.text_method(o, name, args, kw, st, node)
        if o is not None:
            raise Unsupported('method ' + name)
        if name == 'isinstance':
            return [(st, self.isinst(*args))]
        if name == 'str' and len(args) == 1 and not kw:
            return [(st, args[0] if isinstance(args[0], str) else self.str_(args[0], st))]
        if name == 'repr' and is_z3(args[0], P):
            return [(st, Text(('method', 'repr', (), value_text(args[0]))))]
        if name in ('json.dumps', 'json.JSONEncoder.encode'):
            if set(kw) - {'ensure_ascii', 'separators', 'indent', 'sort_keys'} or len(args) != 1:
                raise Unsupported('arguments of json.dumps')
            return [(st, Text(*self.json_(args[0], st)))]
        if name in ('rdflib.Literal', 'rdflib.term.Literal') and len(args) == 1 and not kw and is_z3(args[0], P):
            return [(st, Literal(args[0]))]
        if name == 'sorted' and len(args) == 1:
            if kw:
                raise Unsupported('keywords of sorted')
            q = self.seq(args[0], st)
            if not isinstance(q, SeqV) or q.kind == 'relations' or q.lo:
                raise Unsupported('sorted')
            return [self.new(st, SeqV('sorted'))]
        if name in ('list', 'tuple') and len(args) == 1 and not kw:
            if isinstance(args[0], Gen):
                return [(st, args[0])]
            return [self.new(st, self.seq(args[0], st))]
        if name == 'list' and not args:
            return [self.new(st, ())]
        if name == 'enumerate' and not set(kw) - {'start'}:
            start = args[1] if len(args) > 1 else kw.get('start', 0)
            q = self.seq(args[0], st)
            if not isinstance(start, int) or not isinstance(q, SeqV):
                raise Unsupported('enumerate')
            return [(st, Pairs(q, start))]
        if name == 'iter' and len(args) == 1:
            q = self.seq(args[0], st)
            if not isinstance(q, SeqV):
                raise Unsupported('iter')
            st = st.copy()
            self.n += 1
            st.heap[self.n] = (q, q.lo)
            return [(st, It(self.n))]
        if name == 'next' and isinstance(args[0], It):
            q, pos = st.heap[args[0].key]
            if not isinstance(pos, int):
                raise Unsupported('next')
            out = []
            for s, ok in self.fork(st, q.size() > pos):
                if ok:
                    s = s.copy()
                    s.heap[args[0].key] = (q, pos + 1)
                    out.append((s, self.peel(q.at(IntVal(pos)))))
                elif len(args) == 2:
                    out.append((s, args[1]))
                else:
                    self.ob(s, 'there is a next element', 'undef', BoolVal(False), node)
            return out
        if name == 'len':
            q = self.seq(args[0], st)
            if isinstance(q, tuple):
                return [(st, len(q))]
            return [(st, q.size() - q.lo)]
        if name == 'open':
            mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
            self.ob(st, 'the file is opened for writing', 'value', BoolVal(isinstance(mode, str) and mode[:1] == 'w' and 'b' not in mode and args[0] is ARG), node)
            return [(st, FILE)]
        if name == 'bool' and len(args) == 1:
            return [(st, self.truth(args[0], st))]
        raise Unsupported('call of ' + name)

    def peel(self, x):
        if is_z3(x, R) and not any(x.eq(r) for r in self.peeled):
            self.peeled.append(x)
        return x

    def json_(self, v, st):
        if isinstance(v, Ref):
            v = st.heap[v.key]
        if isinstance(v, dict):
            out = ['{']
            for i, (a, b) in enumerate(v.items()):
                out += [',' * (i > 0), ('quoted', (a,)), ':'] + self.json_(b, st)
            return out + ['}']
        if isinstance(v, str):
            return [('quoted', (v,) if v else ())]
        if isinstance(v, Text):
            return [('quoted', v.pieces)]
        if isinstance(v, Datatype):
            return [('quoted', self.str_(v, st).pieces)]
        if v is None or isinstance(v, (bool, int)):
            return [json.dumps(v)]
        raise Unsupported('value for json.dumps')

    def text_method(self, o, name, args, kw, st, node):
        if name == 'join' and isinstance(o, str) and len(args) == 1:
            return self.join(o, args[0], st, node)
        if kw or not all(isinstance(a, (str, int)) for a in args):
            raise Unsupported('method ' + name)
        if isinstance(o, str):
            if name in ('replace', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'startswith', 'endswith'):
                return [(st, getattr(o, name)(*args))]
            raise Unsupported('method ' + name)
        if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'replace', 'expandtabs', 'casefold') and len(o.pieces) == 1:
            return [(st, Text(('method', name, tuple(args), o.pieces[0])))]
        raise Unsupported('method ' + name)

    # --- statements -------------------------------------------------------------------------------
    def stmt(self, s, st, fr):
        if isinstance(s, ast.ClassDef):
            c = self.make_class(s, st, fr)
            st = st.copy()
            st.frames[fr][s.name] = c
            return [(st, 'next', None)]
        if isinstance(s, ast.With):
            live = [st]
            for it in s.items:
                new = []
                for q in live:
                    for q2, v in self.ev(it.context_expr, q, fr):
                        if v is not FILE:
                            raise Unsupported('with')
                        q2 = q2.copy()
                        if it.optional_vars is not None:
                            self.assign(it.optional_vars, v, q2, fr)
                        new.append(q2)
                live = new
            return [x for q in live for x in self.block(s.body, q, fr)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            out = []
            for q, v in self.ev(s.value, st, fr):
                q = q.copy()
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    self.assign(t, v, q, fr)
                out.append((q, 'next', None))
            return out
        if isinstance(s, ast.AugAssign):
            load = ast.copy_location(ast.parse(ast.unparse(s.target), mode='eval').body, s)
            out = []
            for q, (a, c) in self.evs([load, s.value], st, fr):
                q = q.copy()
                if isinstance(a, (str, Text)) and isinstance(s.op, ast.Add):
                    v = self.cat(a, c, q)
                else:
                    v = self.binop(type(s.op), a, c)
                self.assign(s.target, v, q, fr)
                out.append((q, 'next', None))
            return out
        return super().stmt(s, st, fr)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.frames[fr][t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)[0][1]
            if not isinstance(o, Inst):
                raise Unsupported('assignment to ' + ast.unparse(t))
            d = dict(st.heap[o.key])
            d[t.attr] = v
            st.heap[o.key] = d
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, st, fr)[0][1], self.ev(t.slice, st, fr)[0][1]
            if not (isinstance(o, Ref) and isinstance(st.heap[o.key], dict) and isinstance(i, str)):
                raise Unsupported('assignment to ' + ast.unparse(t))
            d = dict(st.heap[o.key])
            d[i] = v
            st.heap[o.key] = d
        elif isinstance(t, ast.Tuple) and isinstance(v, tuple) and len(v) == len(t.elts):
            for a, b in zip(t.elts, v):
                self.assign(a, b, st, fr)
        else:
            raise Unsupported('assignment to ' + ast.unparse(t))

    # --- loops ------------------------------------------------------------------------------------
    def join(self, sep, v, st, node):
        """Text of sep.join(v)"""
        if isinstance(v, Ref):
            v = st.heap[v.key]
        if isinstance(v, tuple):
            t = []
            for i, x in enumerate(v):
                t += ([sep] if i else []) + list(self.content(x, st).pieces)
            return [(st, Text(*t))]
        if isinstance(v, Gen):
            q = self.seq(v.seq, st)
            start, q, pairs = (q.start, q.seq, True) if isinstance(q, Pairs) else (0, q, False)
            if isinstance(q, tuple):
                raise Unsupported('join')
            saved = st.heap['out']
            s0 = st.copy()
            s0.heap['out'] = Text()

            def body(i, x, s):
                s = s.copy()
                f = self.frame(s, v.fr, None)
                self.assign(v.node.generators[0].target, (i - q.lo + start, x) if pairs else x, s, f)
                out = []
                for s2, w in self.ev(v.node.elt, s, f):
                    for s3, first in self.fork(s2, i == q.lo):
                        s3 = s3 if first else self.write(s3, sep)
                        out.append((self.write(s3, w), 'next', None))
                return out
            res = []
            for s, o, _ in self.iterate(q, s0, body, node):
                t = s.heap['out']
                s.heap['out'] = saved
                res.append((s, t))
            return res
        raise Unsupported('join')

    def loop(self, s, st, fr):
        if s.orelse:
            raise Unsupported('loop')
        out = []
        for q, c in self.ev(s.iter, st, fr):
            sv = self.seq(c, q)
            pairs, start = isinstance(sv, Pairs), 0
            if pairs:
                sv, start = sv.seq, sv.start
            if isinstance(sv, tuple):
                raise Unsupported('loop')

            def body(i, x, s1):
                s1 = s1.copy()
                self.assign(s.target, (simp(i - sv.lo + start), x) if pairs else x, s1, fr)
                return self.block(s.body, s1, fr)
            names = {z.id for z in ast.walk(s.target) if isinstance(z, ast.Name)}
            for q2, o, w in self.iterate(sv, q, body, s, {(fr, n) for n in names}):
                for n in names:
                    q2.frames[fr].pop(n, None)
                if isinstance(c, It):
                    q2.heap[c.key] = (q2.heap[c.key][0], None)
                out.append((q2, o, w))
        return out

    def changes(self, a, b, ignore):
        """Locations that the second state has a different value for"""
        out = []
        for f, d in a.frames.items():
            for n, v in d.items():
                if (f, n) not in ignore and b.frames[f].get(n) is not v:
                    out.append(('frame', f, n))
        for key, v in a.heap.items():
            w = b.heap[key]
            if w is v or key == 'out':
                continue
            if isinstance(v, dict) and isinstance(w, dict):
                for n in w:
                    if n not in v or v[n] is not w[n]:
                        out.append(('field', key, n))
            else:
                out.append(('heap', key, None))
        return out

    def read(self, st, loc): return st.frames[loc[1]].get(loc[2]) if loc[0] == 'frame' else st.heap[loc[1]].get(loc[2]) if loc[0] == 'field' else st.heap[loc[1]]

    def put(self, st, loc, v):
        if loc[0] == 'frame':
            st.frames[loc[1]][loc[2]] = v
        elif loc[0] == 'field':
            d = dict(st.heap[loc[1]])
            d[loc[2]] = v
            st.heap[loc[1]] = d
        else:
            st.heap[loc[1]] = v

    def states(self, loc, v0, v1s, q, i):
        """{name: [(condition, value)]}: what the location may have before element i"""
        out = {}
        if isinstance(v0, tuple):       # a list that the elements are added to
            return {'the elements': None}
        tests = [('first', i == q.lo)]
        if q.kind != 'relations':
            tests += [('none before', EARLIER[q.kind](r, i)) for r in self.rels[-1:] or self.peeled]
        if isinstance(v0, int) and not isinstance(v0, bool) and all(is_z3(v, I) or isinstance(v, int) for v in v1s):
            out['counts'] = [(BoolVal(True), i - q.lo + v0)]
        plain = [v for v in v1s if isinstance(v, (bool, str, int))]
        out['constant'] = [(BoolVal(True), v0)]
        for v in plain:
            if v != v0:
                for n, t in tests:
                    out['%s: %r, later %r' % (n, v0, v)] = [(t, v0), (Not(t), v)]
        return out

    def iterate(self, q, st, body, node, ignore=frozenset()):
        """[(state, outcome, value)] after all elements of the sequence"""
        size = q.size()
        if not self.entails(st.pc, size >= q.lo):
            raise Unsupported('loop that may start behind the end')
        i = z3.FreshConst(I, 'i')
        self.indices.append(i)
        rel = q.kind == 'relations'
        if rel:
            self.rels.append(q.at(i))
        try:
            return self.induction(q, st, body, node, ignore, i, size)
        finally:
            self.indices.pop()
            if rel:
                self.rels.pop()

    def induction(self, q, st, body, node, ignore, i, size):
        x = q.at(i)
        inside = [i >= q.lo, i < size]

        def run(out, env):
            """Paths of one iteration, for each combination of the values of the locations"""
            starts = [st.copy()]
            starts[0].heap['out'] = out
            starts[0].pc += inside
            for loc, alts in env.items():
                new = []
                for s in starts:
                    for c, v in alts:
                        if self.feasible(s, c):
                            s2 = s.copy()
                            s2.pc.append(c)
                            self.put(s2, loc, v)
                            new.append(s2)
                starts = new
            return [(s, p) for s in starts for p in body(i, x, s)]
        saved, o0 = len(self.obs), st.heap['out']
        mark = Text(('fun', 'before', None, None, i))
        # what changes
        first = run(mark, {})
        locs, vals = [], {}
        for s, (s2, o, w) in first:
            if o not in ('next', 'continue'):
                raise Unsupported('exit of a loop')
            for loc in self.changes(s, s2, ignore):
                if loc not in locs:
                    locs.append(loc)
                vals.setdefault(loc, []).append(self.read(s2, loc))
        del self.obs[saved:]
        if not locs and all(s2.heap['out'].pieces == mark.pieces for _, (s2, _, _) in first):
            run(mark, {})
            return [(st.copy(), 'next', None)]
        lists = [loc for loc in locs if isinstance(self.read(st, loc), tuple)]
        if lists:
            if locs == lists and len(locs) == 1 and self.read(st, locs[0]) == () and q.lo == 0 and q.kind != 'relations' and \
                    all(len(v) == 1 and is_z3(v[0]) and v[0].eq(x) for v in vals[locs[0]]) and len(first) == 1:
                end = st.copy()
                self.put(end, locs[0], SeqV(q.kind))
                return [(end, 'next', None)]
            raise Unsupported('loop that builds a list')
        cands = {loc: self.states(loc, self.read(st, loc), vals[loc], q, i) for loc in locs}
        spec = [('body', k, None) for k in KINDS] if q.kind == 'relations' else [('row', q.kind, r) for r in self.rels[-1:]] or [('header', q.kind, None)] + [('row', q.kind, r) for r in self.peeled]
        best = None
        for name, kind, rel in spec:
            for prefix, after in [(p, a) for p in self.prefixes(o0, name, kind, rel, q.lo, st) for a in ((False, True) if q.lo == 0 and core(self.lang, name, kind, rel, i) else (False,))]:
                read, todo = set(), None
                while True:
                    if todo is None:
                        todo = self.environments(locs, cands, read)
                    if not todo:
                        break
                    env = todo.pop(0)
                    del self.obs[saved:]
                    depth, indices, rels = self.depth, list(self.indices), list(self.rels)
                    try:
                        fails = self.check(run, prefix, name, kind, rel, i, env, q, st, after)
                    except Reads as e:
                        if e.loc not in locs or e.loc in read:
                            raise
                        read.add(e.loc)
                        self.depth, self.indices, self.rels = depth, indices, rels
                        todo = None
                        continue
                    if not fails:
                        end = st.copy()
                        end.heap['out'] = Text(*prefix, ('fun', name, kind, rel, size))
                        ends = [end]
                        for loc, alts in env.items():
                            new = []
                            for e in ends:
                                for c, v in alts:
                                    c2 = z3.substitute(c, (i, size))
                                    v2 = z3.substitute(v, (i, size)) if is_z3(v) else v
                                    if self.feasible(e, c2):
                                        e2 = e.copy()
                                        e2.pc.append(c2)
                                        self.put(e2, loc, v2)
                                        new.append(e2)
                            ends = new
                        self.ob(st, 'loop: what is written for an element is the specified text of the %s' % name, 'value', z3.Const('established', BOOL), node)
                        self.obs[-1].goal = BoolVal(True)
                        return [(e, 'next', None) for e in ends]
                    if best is None or len(fails) < len(best[1]):
                        best = (name, fails)
        del self.obs[saved:]
        if best is None:
            self.ob(st, 'loop: what is written before it is the specified text', 'value', BoolVal(False), node)
        else:
            for pc, what in best[1]:
                s = st.copy()
                s.pc = pc
                self.ob(s, 'loop: what is written for an element is the specified text of the %s: %s' % (best[0], what), 'value', BoolVal(False), node)
        return []

    def separated(self, name, kind, rel, i, q):
        """What comes after the text for i elements, each with a separator behind it; but not the last one"""
        last = i + 1 == q.size()
        return [(And(c, last), p) for c, p in core(self.lang, name, kind, rel, i)] + [(And(c, Not(last)), p + [',']) for c, p in core(self.lang, name, kind, rel, i)]

    def environments(self, locs, cands, read):
        envs = [{}]
        for loc in locs:
            envs = [{**e, loc: alts} for e in envs for alts in (cands[loc].values() if loc in read else [[(BoolVal(True), Unknown(loc))]])]
        return envs[:40]

    def prefixes(self, o0, name, kind, rel, lo, st):
        """What comes before the text of the first lo elements"""
        if lo == 0:
            return [o0.pieces]
        cases = [[]]
        pcs = [(st, [])]
        for j in range(lo):
            new = []
            for s, t in pcs:
                for c, p in step(self.lang, name, kind, rel, IntVal(j)):
                    if self.entails(s.pc, c):
                        new.append((s, t + list(p)))
            pcs = new
        out = []
        for s, t in pcs:
            # the shortest end of the text with these tokens
            for k in range(len(o0.pieces), -1, -1):
                head, tail = o0.pieces[:k], o0.pieces[k:]
                found = False
                for cut in ([None] if k == 0 or not isinstance(o0.pieces[k - 1], str) else range(len(o0.pieces[k - 1]), -1, -1)):
                    h, u = (head, tail) if cut is None else (head[:-1] + (head[-1][:cut],), (head[-1][cut:],) + tail)
                    try:
                        lex(Text(*h).pieces, self.lang)
                        ok = self.same(lex(Text(*u).pieces, self.lang), lex(Text(*t).pieces, self.lang), s.pc)
                    except Bad:
                        continue
                    if ok:
                        out.append(Text(*h).pieces)
                        found = True
                        break
                if found:
                    break
        return out

    def check(self, run, prefix, name, kind, rel, i, env, q, st, after):
        """[(path condition, what fails)] of the induction step and of the values of the locations"""
        fails = []
        here = ('fun', name + ' and separator' * after, kind, rel, i)
        for loc, alts in env.items():
            v0 = self.read(st, loc)
            if isinstance(alts[0][1], Unknown):
                continue
            if not any(self.entails(st.pc, z3.substitute(Z(c), (i, IntVal(q.lo)))) and self.equal(z3.substitute(v, (i, IntVal(q.lo))) if is_z3(v) else v, v0, st.pc) for c, v in alts):
                fails.append((list(st.pc), 'initial value of %s' % (loc[2],)))
        if fails:
            return fails
        base = Text(*prefix, here).pieces
        for s, (s2, o, w) in run(Text(*base), env):
            if o not in ('next', 'continue'):
                raise Unsupported('exit of a loop')
            got = s2.heap['out'].pieces
            k = next((j for j, p in enumerate(got) if p is here or isinstance(p, tuple) and self.same(p, here, [])), None)
            if k is None or got[:k] != base[:k]:
                fails.append((s2.pc, 'the text before it is lost'))
                continue
            extra = got[k + 1:]
            try:
                toks = lex(extra, self.lang)
            except Bad as e:
                fails.append((s2.pc, str(e)))
                continue
            for c, p in self.separated(name, kind, rel, i, q) if after else step(self.lang, name, kind, rel, i):
                if self.feasible(s2, c) and not self.same(toks, lex(Text(*p).pieces, self.lang), s2.pc + [c]):
                    fails.append((s2.pc + [c], 'written %s instead of %s' % (show(extra), show(p))))
            for loc in self.changes(s, s2, frozenset()):
                if loc not in env and loc[0] != 'frame':
                    fails.append((s2.pc, 'changes %s' % (loc[2],)))
            for loc, alts in env.items():
                v = self.read(s2, loc)
                if isinstance(alts[0][1], Unknown):
                    continue
                nxt = [(z3.substitute(Z(c), (i, i + 1)), z3.substitute(u, (i, i + 1)) if is_z3(u) else u) for c, u in alts]
                for c, u in nxt:
                    if self.feasible(s2, c) and not self.equal(u, v, s2.pc + [c]):
                        fails.append((s2.pc + [c], 'value of %s' % (loc[2],)))
        return fails

    def equal(self, a, b, pc):
        if is_z3(a) or is_z3(b):
            return (is_z3(a) or isinstance(a, int)) and (is_z3(b) or isinstance(b, int)) and self.entails(pc, a == b)
        return type(a) == type(b) and a == b


def show(pieces): return ' '.join(repr(p) if isinstance(p, str) else str(p).replace('\n', ' ') for p in pieces)[:300]


class Verifier:
    def __init__(self, repo):
        self.src = B.Source(repo)

    def table(self, lang):
        m = self.src.mod(MOD)
        d = m.defs.get('export_table')
        if d is None:
            raise Unsupported('no function export_table')
        if [q.arg for q in d.args.args] != ['file_or_path', 'lefts', 'table', 'out_format']:
            raise Unsupported('parameters')
        R_ = IV.Result(key(lang))
        ex = Exec(self.src, lang)
        st = B.start(ex, MOD)
        st.heap['out'] = Text()
        n = 0
        for s, w in ex.call(Fn(d, MOD), [ARG, LEFTS, TABLE, lang], {}, st, d):
            n += 1
            where = '%s:%d path %d' % (m.rel, d.lineno, n)
            try:
                got = lex(s.heap['out'].pieces, lang)
            except Bad as e:
                got = ['no %s text' % lang]
            pairs = [(a, b) for a in KINDS for b in KINDS if lang == 'json' or a == b]
            rows = [True] + [False] * ex.entails(s.pc, M == 0)
            ok = any(ex.same(got, lex(Text(*document(lang, a, b, c)).pieces, lang), s.pc) for a, b in pairs for c in rows)
            R_.add('the text is the document with the header and the rows of the table' + ('' if ok else ': ' + show(s.heap['out'].pieces)), 'value', where, ex.hyps() + s.pc, BoolVal(ok))
        if not n:
            R_.add('some path returns', 'vacuity', m.rel, [], BoolVal(bool(ex.obs)))
        R_.obligations(ex, m.rel)
        return R_.finish()


def key(lang): return 'import_export.rdf.export_table as ' + lang


def jobs(): return {key(q): (lambda vf, q=q: vf.table(q)) for q in ('csv', 'json')}


def keys(): return list(jobs())


def one_job(job):
    repo, k = job
    return B.attempt(k, lambda: jobs()[k](Verifier(repo)), IV.Solver)


def run(repo): return B.pooled(one_job, [(repo, k) for k in jobs()])


if __name__ == '__main__':
    B.main(run)
