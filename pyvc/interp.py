"""Symbolic execution of the functions of /repo/algebraixlib (their ast, read on every run)."""
import ast
import os
import z3
from z3 import And, Or, Not, If, Implies, is_true, is_false, BoolVal, IntVal
from . import theory as th
from .theory import V, I, B, kind, mem, mult, item, ditem, conv
from .speclang import Spec, Unsupported
from .values import *

FLAGS = ['atom', 'couplet', 'set', 'multiset', 'relation', 'clan', 'multiclan', 'absolute', 'functional',
         'right_functional', 'reflexive', 'symmetric', 'transitive', 'regular', 'right_regular']
TYPEKIND = {'atom': 1, 'couplet': 2, 'set': 3, 'multiset': 4}
NOT_NA = {'relation', 'clan', 'multiclan', 'absolute'}
KCLASS = {0: ('undef', 'Undef'), 1: ('mathobjects.atom', 'Atom'), 2: ('mathobjects.couplet', 'Couplet'),
          3: ('mathobjects.set', 'Set'), 4: ('mathobjects.multiset', 'Multiset')}
CLSKIND = {v: k for k, v in KCLASS.items()}


def simp(e): return z3.simplify(e)


LEVEL = 'level of '


def written_attrs(cls):
    """Attributes of a class that functions of its module write as Class.name."""
    out = set()
    for f in ast.walk(cls.mod.tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in (cls.node.name, 'cls'):
                    out.add(n.attr)
    return out


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path, encoding='utf-8', newline='').read()
        self.tree = ast.parse(self.src)
        self.names = {}
        self.pkg = os.path.basename(path) == '__init__.py'
        for n in self.tree.body:
            self.index(n, self.names)

    def index(self, n, names):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names[n.name] = n
        elif isinstance(n, ast.Import):
            for a in n.names:
                names[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ''
            if n.level:
                parts = self.name.split('.') if self.name else []
                keep = len(parts) - n.level + (1 if self.pkg else 0)
                base = '.'.join(['algebraixlib'] + parts[:keep] + ([n.module] if n.module else []))
            for a in n.names:
                names[a.asname or a.name] = ('from', base, a.name)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            names[n.targets[0].id] = ('assign', n.value)
        elif isinstance(n, ast.If):
            for m in n.body + n.orelse:
                self.index(m, names)


class Source:
    """Modules of the library, by name below algebraixlib ('' is the package)."""
    def __init__(self, repo):
        self.root = os.path.join(repo, 'algebraixlib')
        self.mods = {}

    def module(self, name):
        if name not in self.mods:
            p = os.path.join(self.root, *name.split('.')) if name else self.root
            f = p + '.py' if os.path.exists(p + '.py') and name else os.path.join(p, '__init__.py')
            if not os.path.exists(f):
                raise Unsupported('module ' + name)
            self.mods[name] = Module(name, f)
        return self.mods[name]

    def has(self, name):
        p = os.path.join(self.root, *name.split('.'))
        return os.path.exists(p + '.py') or os.path.isdir(p)

    def find(self, key):
        """(module, class node or None, function node) of a contract key."""
        parts = key.split('.')
        for i in range(len(parts) - 1, 0, -1):
            if self.has('.'.join(parts[:i])):
                m = self.module('.'.join(parts[:i]))
                rest = parts[i:]
                break
        n = m.names.get(rest[0])
        while isinstance(n, tuple) and n[0] == 'assign':
            e = n[1]
            if isinstance(e, ast.Name):
                n = m.names.get(e.id)
            elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and isinstance(m.names.get(e.value.id), ast.ClassDef):
                n = class_names(m.names[e.value.id]).get(e.attr)
            else:
                break
        if len(rest) == 2 and isinstance(n, ast.ClassDef):
            return m, n, class_names(n).get(rest[1])
        return m, None, n if isinstance(n, ast.FunctionDef) else None


_cn = {}


def class_names(node):
    r = _cn.get(node)
    if r is None:
        r = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                if any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in n.decorator_list):
                    continue
                r[n.name] = n
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                r[n.targets[0].id] = ('assign', n.value)
        _cn[node] = r
    return r


def is_property(n): return any(isinstance(d, ast.Name) and d.id == 'property' for d in n.decorator_list)
def is_static(n): return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in n.decorator_list)
def is_gen(n):
    todo = list(n.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(x))
    return False


class Ob:
    def __init__(self, name, clause, path, goal, where, hyps=()):
        self.name, self.clause, self.path, self.goal, self.where = name, clause, list(path), goal, where


class Out:
    def __init__(self, what, st, val=None): self.what, self.st, self.val = what, st, val


def has_card(e):
    return e.decl().eq(th.card) or any(has_card(c) for c in e.children()) if z3.is_app(e) else False


OPT = ('optval', 'optdict')


class Interp:
    def __init__(self, theory, prover, source, contracts):
        self.th, self.pr, self.src = theory, prover, source
        self.contracts = contracts
        self.bynode = {}
        for c in contracts.values():
            n = source.find(c.key)[2] if 'code' not in c.opts else None
            if n is not None:
                self.bynode[n] = c
        self.obs = []
        self.noid, self.nfid = 0, 0
        self.depth = 0
        self.where = []
        self.genstack = []
        self.redirects = None
        self.redirect_memo = {}
        self.assumed = set()
        self.trying, self.names = [], set()     # conditions of exceptions in try; optional terms that are true if they are not None
        self.levels = {}            # id of the symbol of a level: (symbol, initial level)
        self.escape_cond = None     # arguments for which neither the result nor an exception is specified
        self.redirect_const, self.redirect_keep = {}, []
        self.init_memo = {}
        self.used = set()           # contracts relied upon
        self.inlined = set()        # functions executed in place
        self.current = None
        self.truthful = {}
        self.logbase, self.logreads = {}, set()
        self.nwrites = 0
        self.optional = set()       # terms that may be None
        self.literals = ['s', 'p', 'o']

    # --- utilities --------------------------------------------------------------------------------
    def spec(self, st): return Spec(self.th, st.path)

    def oid(self):
        self.noid += 1
        return self.noid

    def obj(self, st, v, known=None):
        o = Obj(v, self.oid())
        if known:
            st.heap[o.oid] = dict(known)
        return o

    def st_of(self, p, v):
        return Spec(self.th).st(p, v)

    def ob(self, st, name, clause, goal, node=None, assume=True):
        goal = simp(goal) if not isinstance(goal, bool) else BoolVal(goal)
        if not is_true(goal):
            if clause in ('undef', 'pre') and self.escape_cond is not None:
                # a property of a nested value: the result is not specified
                goal = simp(Or(goal, self.escape_cond))
            loc = '%s:%s' % (self.where[-1] if self.where else '?', getattr(node, 'lineno', '?'))
            self.obs.append(Ob(name, clause, st.path, goal, loc))
            if clause != 'flags' and assume:
                st.path.append(goal)

    def literal(self, x, st):
        """A string literal as a plain value; distinct literals convert to distinct atoms."""
        if not isinstance(x, Py) or not isinstance(x.c, str):
            return x
        v = th.strc(x.c)
        if x.c not in self.literals:
            self.literals.append(x.c)
        i = self.literals.index(x.c)
        facts = [kind(v) == 5, th.is_str(v), kind(conv(v)) == 1] + [Not(conv(v) == conv(th.strc(y))) for y in self.literals[:i] + self.literals[i + 1:]]
        facts += [th.starts(v, p) if x.c.startswith(p) else Not(th.starts(v, p)) for p in '?$']
        for g in facts:
            g = simp(g)
            if not any(p.eq(g) for p in st.path):
                st.path.append(g)
        return Obj(v, self.oid())

    def decide(self, st, c):
        """True / False if the path decides c, else None."""
        c = simp(c)
        if is_true(c):
            return True
        if is_false(c):
            return False
        for p in reversed(st.path):
            if p.eq(c):
                return True
            if z3.is_not(p) and p.arg(0).eq(c) or z3.is_not(c) and c.arg(0).eq(p):
                return False
        if self.pr.quick(st.path, c):
            return True
        if self.pr.quick(st.path, Not(c)):
            return False
        return None

    def feasible(self, st): return not self.pr.quick(st.path, z3.BoolVal(False))

    def essential(self, path, base):
        """Conditions of path[base:] that do not follow from the others."""
        out = list(path[:base])
        for p in path[base:]:
            if not is_true(p) and not any(p.eq(q) for q in out) and not self.pr.quick(out, p):
                out.append(p)
        return out[base:]

    # --- flags ------------------------------------------------------------------------------------
    def inits(self, k):
        """{flag: status} initial flags of kind k: (not empty, empty), from the classes' _INIT_CACHE constants."""
        if k in self.init_memo:
            return self.init_memo[k]
        self.init_memo[k] = None
        m, cname = KCLASS[k]
        mod = self.src.module(m)
        cn = class_names(mod.names[cname])
        res = []
        for n in (['_INIT_CACHE_NOT_EMPTY', '_INIT_CACHE_EMPTY'] if k in (3, 4) else ['_INIT_CACHE']):
            if n not in cn:
                raise Unsupported('%s of %s' % (n, cname))
            st = State()
            v = self.ev(cn[n][1], st, self.frame(st, mod))
            if not isinstance(v, FlagsInt):
                raise Unsupported('initial flags of ' + cname)
            d = {}
            for p, t in v.d.items():
                t = simp(t)
                if not z3.is_int_value(t):
                    raise Unsupported('initial flags of ' + cname)
                d[p] = t.as_long()
            res.append(d)
        self.init_memo[k] = res if len(res) == 2 else res * 2
        return self.init_memo[k]

    def kindof(self, v, st, ask=True):
        """The kind of v if the path determines it, else None."""
        n = v.decl().name().split('_')[0] if z3.is_app(v) else ''
        if n in ('Set', 'SetBy', 'EMPTY', 'single', 'Powerset'):
            return 3
        if n in ('MSet', 'MSetBy', 'MEMPTY', 'msingle'):
            return 4
        for c in st.path:
            if z3.is_eq(c) and c.arg(0).decl().eq(kind) and c.arg(0).arg(0).eq(v) and z3.is_int_value(c.arg(1)):
                return c.arg(1).as_long()
        if ask:
            for k in (3, 4, 2, 1, 0):
                if self.pr.quick(st.path, kind(v) == k):
                    st.path.append(kind(v) == k)
                    return k
        return None

    def init_known(self, p, v, st=None):
        """Condition under which flag p of every object with value v is known from the start."""
        out = []
        k0 = self.kindof(v, st) if st is not None else None
        for k in (1, 2, 3, 4) if k0 is None else (k0,):
            if k == 0:
                return th.F
            i = self.inits(k)
            if i is None:
                continue
            ne, em = i[0].get(p, 0) != 0, i[1].get(p, 0) != 0
            c = th.T if ne and em else And(th.nonempty(v)) if ne else Not(th.nonempty(v)) if em else None
            if c is not None:
                if k0 is not None and st is not None and not is_true(c):
                    d = self.decide(st, c)
                    c = c if d is None else BoolVal(d)
                out.append(simp(And(kind(v) == k, c)) if k0 is None else c)
        return simp(Or(*out)) if out else th.F

    def read_flag(self, st, o, p):
        if p in TYPEKIND:
            k = self.kindof(o.v, st)
            if k is not None:
                return IntVal(1 if TYPEKIND[p] == k else 2)
            return If(kind(o.v) == TYPEKIND[p], IntVal(1), IntVal(2))
        h = st.heap.setdefault(o.oid, {})
        known = h.get(p, th.F)
        if is_true(known):
            return self.st_of(p, o.v)
        if o.oid not in st.created or o.oid in st.escaped:
            # another function may have cached the flag since the last look at it
            if st.seen.get((o.oid, p), -1) != st.epoch:
                st.seen[o.oid, p] = st.epoch
                ik = self.init_known(p, o.v, st)
                if self.decide(st, ik) is True:
                    known = th.T
                else:
                    known = simp(Or(known, ik, self.th.fresh('known', B)))
                h[p] = known
        return If(known, self.st_of(p, o.v), IntVal(0)) if not is_true(known) else self.st_of(p, o.v)

    def nested(self, st, v): return Spec(self.th).fn('nested', [v])

    def nested_write(self, p, v, w):
        """The status w of property p may be recorded for a nested value (it is specified only as far as the axiom of ust_p)."""
        if p in NOT_NA:
            return th.F
        sp = Spec(self.th)
        return simp(And(sp.fn('nested', [v]), Or(w == 3, w == 0, sp.call('nested_elems2' if p in ('symmetric', 'transitive') else 'nested_elems', v))))

    def write_flag(self, st, o, p, w, node):
        h = st.heap.setdefault(o.oid, {})
        known = h.get(p, th.F)
        stv = self.st_of(p, o.v)
        fresh = o.oid in st.created and o.oid not in st.escaped
        w = simp(w)
        if p in TYPEKIND:
            self.ob(st, 'flag %s is the type of the object' % p, 'flags', w == If(kind(o.v) == TYPEKIND[p], IntVal(1), IntVal(2)), node)
            return
        nested = self.nested_write(p, o.v, w)
        ok = Or(w == stv, And(w == 0, Not(known))) if fresh else w == stv
        self.ob(st, 'write of %s is the truth' % p, 'flags', Or(ok, nested), node)
        st.seen[o.oid, p] = st.epoch
        h[p] = simp(Or(known, w != 0)) if not (z3.is_int_value(w) and w.as_long() != 0) else th.T

    # --- names ------------------------------------------------------------------------------------
    def frame(self, st, mod, closure=None, cls=None):
        self.nfid += 1
        st.frames[self.nfid] = {'%mod': mod, '%closure': closure, '%cls': cls}
        return self.nfid

    def lookup(self, name, st, fid):
        f = fid
        while f is not None:
            fr = st.frames[f]
            if name in fr:
                v = fr[name]
                if v is POISON:
                    raise PoisonRead(name)
                return v
            f = fr['%closure']
        return self.glob(st.frames[fid]['%mod'], name, st)

    BUILTINS = {'isinstance', 'len', 'iter', 'next', 'all', 'any', 'sum', 'min', 'max', 'frozenset', 'set', 'list', 'tuple',
                'sorted', 'type', 'str', 'hasattr', 'getattr', 'bool', 'range', 'dict', 'int', 'super', 'repr', 'reversed',
                'TypeError', 'AssertionError', 'Exception', 'ValueError', 'StopIteration', 'NotImplemented', 'enumerate', 'zip', 'map',
                'filter', 'float', 'KeyError', 'object', 'hash', 'print', 'id', 'abs'}

    def glob(self, mod, name, st):
        n = mod.names.get(name)
        if n is None:
            if name in self.BUILTINS:
                return Bi(name)
            if mod.pkg:
                sub = (mod.name + '.' if mod.name else '') + name
                if self.src.has(sub):
                    return Mod('algebraixlib.' + sub)
            raise Unsupported('name %s in %s' % (name, mod.name))
        return self.globval(mod, n, st)

    def globval(self, mod, n, st):
        if isinstance(n, ast.FunctionDef):
            return Fn(mod, n)
        if isinstance(n, ast.ClassDef):
            return Cls(mod, n)
        if n[0] == 'import':
            return Mod(n[1])
        if n[0] == 'from':
            if n[1].split('.')[0] == 'algebraixlib':
                b = n[1][len('algebraixlib'):].lstrip('.')
                m = self.src.module(b)
                if n[2] in m.names:
                    return self.globval(m, m.names[n[2]], st)
                return Mod('algebraixlib.' + (b + '.' if b else '') + n[2])
            return Bi(n[1] + '.' + n[2])
        if n[0] == 'assign':
            return self.ev(n[1], st, self.frame(st, mod))
        raise Unsupported('global')

    # --- truth values -----------------------------------------------------------------------------
    def truth(self, val, st, node=None):
        if isinstance(val, PB):
            if val.undef is not None:
                self.ob(st, 'truth value of an undefined result', 'undef', Not(val.undef), node)
            return val.b
        if isinstance(val, PI):
            return val.i != 0
        if isinstance(val, Py):
            return BoolVal(bool(val.c))
        if isinstance(val, Coll):
            return th.nonempty(val.t)
        if isinstance(val, (CellRef, DataRef)):
            return self.truth(self.content(val, st), st, node)
        if isinstance(val, Seq):
            return BoolVal(bool(val.items))
        if isinstance(val, (Fn, Partial, Bound, Cls, Mod)):
            return th.T
        if isinstance(val, Obj) and val.v.get_id() in self.names:
            return Not(val.v == th.NONE)
        if isinstance(val, Obj):
            self.ob(st, 'truth value of Undef()', 'undef', Not(kind(val.v) == 0), node)
            d = self.decide(st, Or(kind(val.v) == 3, kind(val.v) == 4))
            if d is False:
                self.ob(st, 'truth value of a plain value', 'undef', kind(val.v) <= 4, node)
                return th.T
            return self.truth_obj(val, st, node)
        raise Unsupported('truth of %r' % val)

    def truth_obj(self, val, st, node):
        c = []
        for k in (3, 4):
            m, cname = KCLASS[k]
            cls = Cls(self.src.module(m), self.src.module(m).names[cname])
            if '__bool__' in class_names(cls.node):
                raise Unsupported('__bool__')
        return If(Or(kind(val.v) == 3, kind(val.v) == 4), th.nonempty(val.v), th.T)

    # --- merging ----------------------------------------------------------------------------------
    def merge_val(self, c, x, y, st):
        if x is y:
            return x
        if isinstance(x, Py) and isinstance(y, Py) and type(x.c) is type(y.c) and x.c == y.c:
            return x
        x, y = self.norm(x), self.norm(y)
        if isinstance(x, Obj) and isinstance(y, Obj):
            if x.oid == y.oid and x.v.eq(y.v):
                return x
            o = Obj(ite(c, x.v, y.v), self.oid())
            hx, hy = st.heap.get(x.oid, {}), st.heap.get(y.oid, {})
            st.heap[o.oid] = {p: ite(c, hx.get(p, th.F), hy.get(p, th.F)) for p in set(hx) | set(hy)}
            if x.oid in st.created and y.oid in st.created:
                st.created.add(o.oid)
                if x.oid in st.escaped or y.oid in st.escaped:
                    st.escaped.add(o.oid)
            return o
        if isinstance(x, PB) and isinstance(y, PB):
            u = None
            if x.undef is not None or y.undef is not None:
                u = ite(c, x.undef if x.undef is not None else th.F, y.undef if y.undef is not None else th.F)
            return PB(ite(c, x.b, y.b), u)
        if isinstance(x, Obj) and isinstance(y, Py) and isinstance(y.c, str) or isinstance(y, Obj) and isinstance(x, Py) and isinstance(x.c, str):
            return self.merge_val(c, self.literal(x, st), self.literal(y, st), st)
        for p, q, cc in ((x, y, c), (y, x, Not(c))):
            if isinstance(p, Obj) and isinstance(q, PB) and p.v.eq(th.UNDEF):
                return PB(q.b, simp(Or(cc, q.undef if q.undef is not None else th.F)))
        if isinstance(x, PI) and isinstance(y, PI):
            return PI(ite(c, x.i, y.i))
        if isinstance(x, Coll) and isinstance(y, Coll) and x.k == y.k:
            return Coll(ite(c, x.t, y.t), x.k)
        if isinstance(x, Bound) and isinstance(y, Bound) and x.fn.node is y.fn.node and isinstance(x.self_, Obj) and \
                isinstance(y.self_, Obj) and x.self_.oid == y.self_.oid:
            return x
        if all(isinstance(v, Bound) or isinstance(v, Opaque) and v.what[0] == 'choice' for v in (x, y)):
            case = lambda v: v.what[1] if isinstance(v, Opaque) else [(th.T, v)]
            return Opaque(('choice', [(simp(And(c, a)), t) for a, t in case(x)] + [(simp(And(Not(c), a)), t) for a, t in case(y)]))
        if type(x) is type(y):
            if isinstance(x, Seq) and len(x.items) == len(y.items) and x.islist == y.islist:
                return Seq([self.merge_val(c, p, q, st) for p, q in zip(x.items, y.items)], x.islist)
            if isinstance(x, (Mod,)) and x.name == y.name or isinstance(x, (Fn, Cls)) and x.node is y.node and \
                    getattr(x, 'closure', None) == getattr(y, 'closure', None):
                return x
            if isinstance(x, Bi) and x.name == y.name and x.self_ is y.self_:
                return x
            if isinstance(x, CellRef) and x.cid == y.cid or isinstance(x, IterV) and x.cid == y.cid:
                return x
            if isinstance(x, (DataRef, FlagsOf)) and x.obj.oid == y.obj.oid:
                return x
            if isinstance(x, New) and x.oid == y.oid:
                return x
            if isinstance(x, FlagsInt):
                return FlagsInt({p: ite(c, x.d[p], y.d[p]) for p in x.d})
            if isinstance(x, Opaque) and x.what == y.what:
                return x
            if isinstance(x, GenV):
                return GenV([Branch(b.binders, b.doms, simp(And(b.cond, cc)), b.val, b.weight)
                             for g, cc in ((x, c), (y, Not(c))) for b in g.branches])
        raise Unmergeable('%r / %r' % (x, y))

    def norm(self, x):
        if isinstance(x, Py):
            if isinstance(x.c, bool):
                return PB(BoolVal(x.c))
            if isinstance(x.c, int):
                return PI(IntVal(x.c))
        return x

    def merge(self, base, sts):
        """Merge states [(state, value or None)] with the common path prefix of length base."""
        if len(sts) == 1:
            return sts[0]
        conds = [simp(And(*s.path[base:])) if len(s.path) > base else th.T for s, _ in sts]
        res, val = sts[-1][0].copy(), sts[-1][1]
        for (s, v), c in list(zip(sts, conds))[-2::-1]:
            r = State()
            r.path = res.path[:base]
            r.gens = res.gens
            r.epoch = res.epoch if res.epoch == s.epoch else self.oid()
            r.seen = {k: e for k, e in s.seen.items() if res.seen.get(k) == e} if r.epoch == s.epoch else {}
            r.sub = res.sub
            r.created = s.created | res.created
            r.escaped = s.escaped | res.escaped
            r.heap = {}
            for o in set(s.heap) | set(res.heap):
                if o not in s.heap:
                    r.heap[o] = dict(res.heap[o])
                    if o not in s.created and not (o in res.created):
                        r.heap[o] = {p: ite(c, th.F, t) for p, t in res.heap[o].items()}
                elif o not in res.heap:
                    r.heap[o] = dict(s.heap[o])
                    if o not in res.created and not (o in s.created):
                        r.heap[o] = {p: ite(c, t, th.F) for p, t in s.heap[o].items()}
                else:
                    a, b = s.heap[o], res.heap[o]
                    r.heap[o] = {p: ite(c, a.get(p, th.F), b.get(p, th.F)) for p in set(a) | set(b)}
            for name in ('cells', 'fields', 'raw'):
                A, Bm, R = getattr(s, name), getattr(res, name), getattr(r, name)
                for k in set(A) | set(Bm):
                    if k not in A or k not in Bm:
                        R[k] = A.get(k, Bm.get(k))
                    elif name == 'raw':
                        R[k] = {p: ite(c, A[k][p], Bm[k][p]) for p in A[k]}
                    elif name == 'fields':
                        R[k] = {p: self.merge_val(c, A[k][p], Bm[k][p], r) for p in set(A[k]) & set(Bm[k])}
                    else:
                        R[k] = self.merge_cell(c, A[k], Bm[k], r)
            for k in set(s.log) | set(res.log):
                l = list(s.log.get(k, []))
                r.log[k] = l + [e for e in res.log.get(k, []) if not any(e is f for f in l)]
            for f in set(s.frames) | set(res.frames):
                A, Bm = s.frames.get(f), res.frames.get(f)
                if A is None or Bm is None:
                    r.frames[f] = dict(A or Bm)
                    continue
                fr = {}
                for n in set(A) | set(Bm):
                    if n.startswith('%'):
                        fr[n] = A.get(n, Bm.get(n))
                    elif n in A and n in Bm:
                        if A[n] is POISON or Bm[n] is POISON:
                            fr[n] = POISON
                        else:
                            fr[n] = self.merge_val(c, A[n], Bm[n], r)
                    else:
                        fr[n] = POISON
                r.frames[f] = fr
            if v is not None and val is not None:
                val = self.merge_val(c, v, val, r)
            elif (v is None) != (val is None):
                raise Unmergeable('value')
            res = r
        tot = simp(Or(*conds))
        if not is_true(tot):
            res.path.append(tot)
        return res, val

    def merge_cell(self, c, x, y, st):
        if x is y:
            return x
        if isinstance(x, dict) and isinstance(y, dict):
            if 'newdict' in x and 'newdict' in y and x['cid'] == y['cid'] and ('entries' in x or 'entries' in y):
                ex, ey, out = x.get('entries', {}), y.get('entries', {}), {}
                for k in sorted(set(ex) | set(ey)):
                    (p, v), (q, w) = ex.get(k, (th.F, None)), ey.get(k, (th.F, None))
                    out[k] = (ite(c, p, q), v if w is None else w if v is None else ite(c, v, w))
                return dict(x, entries=out)
            if x.keys() == y.keys():
                return {k: (x[k] if x[k] is y[k] else ite(c, x[k], y[k]) if z3.is_expr(x[k]) else self.bad()) for k in x}
        if isinstance(x, Val) and isinstance(y, Val):
            return self.merge_val(c, x, y, st)
        if isinstance(x, tuple) and isinstance(y, tuple) and x == y:
            return x
        raise Unmergeable('cell')

    def bad(self): raise Unmergeable('cell')

    def alts(self, st, cases):
        """Evaluate alternatives [(cond, thunk(state))] and merge."""
        base = len(st.path)
        done = []
        for c, f in cases:
            s = st.copy()
            s.path.append(simp(c))
            if len(cases) > 1 and not self.feasible(s):
                continue
            done.append((s, f(s)))
        if not done:
            raise Unsupported('no feasible alternative')
        try:
            s, v = self.merge(base, done)
        except Unmergeable:
            raise Split(done[0][0].path[base])
        st.assign(s)
        return v

    # --- containers -------------------------------------------------------------------------------
    def content(self, val, st):
        if isinstance(val, CellRef):
            if val.cid in st.log:
                self.logreads.add(val.cid)
            return st.cells[val.cid]
        if isinstance(val, DataRef):
            d = self.decide(st, kind(val.obj.v) == 3)
            k = 'fset' if d else 'counter' if self.decide(st, kind(val.obj.v) == 4) else None
            if k is None:
                raise Unsupported('data of unknown kind')
            return Coll(val.obj.v, k)
        return val

    def domain(self, val, st, node=None):
        """Iteration over val: list of Branch(binders, doms, cond, element, weight); 'distinct' if elements are distinct."""
        if isinstance(val, (CellRef, DataRef)):
            val = self.content(val, st)
        if isinstance(val, Obj):
            v = val.v
            self.ob(st, 'iteration over something that is no collection', 'undef', Or(kind(v) == 3, kind(v) == 4), node)
            d = self.decide(st, kind(v) == 3)
            if d is None:
                d4 = self.decide(st, kind(v) == 4)
                if d4 is None:
                    x = self.th.fresh('e')
                    return [Branch([x], [mem(x, v)], th.T, Obj(x, self.oid()), If(kind(v) == 4, mult(x, v), IntVal(1)))], False
                d = False
            cls = KCLASS[3 if d else 4]
            itf = class_names(self.src.module(cls[0]).names[cls[1]]).get('__iter__')
            if itf is None:
                raise Unsupported('__iter__')
            self.inlined.add('%s.%s.__iter__' % cls)
            r = self.inline(Fn(self.src.module(cls[0]), itf), [val], {}, st)
            return self.domain(r, st, node)
        if isinstance(val, Coll):
            x = self.th.fresh('e')
            return [Branch([x], [mem(x, val.t)], th.T, Obj(x, self.oid()), IntVal(1))], True
        if isinstance(val, View):
            c = self.content(val.coll, st)
            if isinstance(c, SymDict):
                k, w = self.th.fresh('k'), self.th.fresh('v')
                kk, ww = Obj(k, self.oid()), Obj(w, self.oid())
                el = {'items': Seq([kk, ww]), 'keys': kk, 'values': ww}[val.which]
                return [Branch([k, w], [ditem(k, w, c.q)], th.T, el, IntVal(1))], True
            if isinstance(c, Coll) and c.k == 'counter':
                x = self.th.fresh('e')
                o = Obj(x, self.oid())
                if val.which == 'elements':
                    return [Branch([x], [mem(x, c.t)], th.T, o, mult(x, c.t))], False
                el = {'items': Seq([o, PI(mult(x, c.t))]), 'keys': o, 'values': PI(mult(x, c.t))}[val.which]
                return [Branch([x], [mem(x, c.t)], th.T, el, IntVal(1))], True
            if isinstance(c, dict) and 'group' in c:
                return self.group_view(c, val.which, st), False
            raise Unsupported('view of %r' % (c,))
        if isinstance(val, SymSeq):
            x = self.th.fresh('i')
            return [Branch([x], [item(x, val.q)], th.T, Obj(x, self.oid()), th.occ(x, val.q) if val.counted else IntVal(1))], False
        if isinstance(val, SymDict):
            return self.domain(View(val, 'keys'), st, node)
        if isinstance(val, GenV):
            b = val.branches[0] if len(val.branches) == 1 else None
            return val.branches, bool(b is not None and len(b.binders) == 1 and isinstance(b.val, Obj) and b.val.v.eq(b.binders[0]) and
                                      z3.is_int_value(simp(b.weight)) and simp(b.weight).as_long() == 1 and
                                      b.doms[0].decl().name() == 'mem')
        if isinstance(val, Seq):
            return [Branch([], [], th.T, i, IntVal(1)) for i in val.items], False
        if isinstance(val, IterV):
            src, first = st.cells[val.cid]
            brs, dist = self.domain(src, st, node)
            if first is None:
                return brs, dist
            if len(brs) != 1 or not isinstance(brs[0].val, Obj):
                raise Unsupported('iterator')
            b = brs[0]
            if dist:
                return [Branch(b.binders, b.doms, simp(And(b.cond, b.val.v != first)), b.val, b.weight)], True
            w = simp(b.weight - If(b.val.v == first, 1, 0))
            return [Branch(b.binders, b.doms, simp(And(b.cond, w > 0)), b.val, w)], False
        if isinstance(val, Opaque) and val.what[0] == 'rdfgraph':
            val = self.rdf_data(val, st)
        if isinstance(val, Triples):
            x = self.th.fresh('t')
            return [Branch([x], [item(x, val.q)], th.T, Seq([Obj(th.RDF['part'](x, i), self.oid()) for i in range(3)]), IntVal(1))], False
        if isinstance(val, Py) and isinstance(val.c, (tuple, list)):
            return [Branch([], [], th.T, Py(i), IntVal(1)) for i in val.c], False
        if isinstance(val, Opaque) and val.what[0] == 'genfn':
            return self.run_gen(val, st).branches, False
        if isinstance(val, Opaque) and val.what[0] == 'combinations':
            return self.combos(val, st), True
        if isinstance(val, dict) and 'adds' in val and z3.is_expr(val['adds']):
            # how often an element was added is not known
            x = self.th.fresh('e')
            w = z3.Function(str(self.th.fresh('w')), V, I)
            return [Branch([x], [mem(x, val['adds'])], th.T, Obj(x, self.oid()), w(x))], False
        if isinstance(val, Opaque) and val.what[0] == 'range':
            n = self.th.fresh('n', I)
            return [Branch([n], [And(n >= 0, n < val.what[1])], th.T, PI(n), IntVal(1))], True
        raise Unsupported('iteration over %r' % val)

    def combos(self, val, st):
        coll, k = val.what[1:]
        brs, dist = self.domain(coll, st)
        D = self.plain(brs, st)
        if D is None or not dist and not self.decide(st, kind(D) == 3):
            raise Unsupported('combinations')
        from .speclang import powerset
        c = self.th.fresh('c')
        return [Branch([c], [mem(c, powerset(self.th, D))], simp(th.card(c) == k), Coll(c, 'fset'), IntVal(1))]

    def skolemize(self, exprs, binders, start):
        """Constants created since `start` become functions of the binders."""
        if not binders:
            return exprs
        bids = {b.get_id() for b in binders}
        found = {}
        for e in exprs:
            stack, seen = [e], set()
            while stack:
                q = stack.pop()
                if q.get_id() in seen:
                    continue
                seen.add(q.get_id())
                if z3.is_quantifier(q):
                    stack.append(q.body())
                elif z3.is_app(q):
                    if q.num_args() == 0 and q.get_id() not in bids and '!' in q.decl().name():
                        n = q.decl().name().rsplit('!', 1)
                        if n[1].isdigit() and int(n[1]) > start:
                            found[q.get_id()] = q
                    stack += q.children()
        if not found:
            return exprs
        sub = []
        for q in found.values():
            f = z3.Function(q.decl().name() + 'f', *([b.sort() for b in binders] + [q.sort()]))
            sub.append((q, f(*binders)))
        return [z3.substitute(e, *sub) for e in exprs]

    def elem_v(self, st, val, node=None):
        """Value term of an element stored in a collection of the library."""
        if isinstance(val, Obj):
            return val.v
        raise Unsupported('element %r' % val)

    def collect(self, val, st, node=None, counter=False):
        """Coll of the values that an iterable yields."""
        if isinstance(val, (CellRef, DataRef)):
            val = self.content(val, st)
        if isinstance(val, Coll) and not counter and val.k == 'fset':
            return val
        if isinstance(val, Coll) and counter and val.k == 'counter':
            return val
        if isinstance(val, dict) and 'adds' in val:
            return val
        brs, _ = self.domain(val, st, node)
        return self.collect_branches(brs, st, node, counter)

    def collect_branches(self, brs, st, node, counter=False, check=True):
        parts = []
        for b in brs:
            v = self.elem_v(st, b.val, node)
            n = len(st.path)
            st.path += b.doms + [b.cond]
            bad = Not(And(kind(v) >= 1, kind(v) <= 4))
            if check:
                loc = '%s:%s' % (self.where[-1] if self.where else '?', getattr(node, 'lineno', '?'))
                if self.decide(st, bad) is not False:
                    self.obs.append(Ob('element of a collection is a math object', 'undef', st.path, simp(Not(bad)), loc))
            del st.path[n:]
            if not b.binders:
                if counter and not z3.eq(simp(b.weight), IntVal(1)):
                    raise Unsupported('counter of values')
                t = th.msingle(v) if counter else th.single(v)
                if not is_true(simp(b.cond)):
                    t = If(b.cond, t, th.MEMPTY if counter else th.EMPTY)
                parts.append(t)
            elif counter:
                parts.append(self.th.msetof(b.binders, b.doms, b.cond, v, simp(b.weight)))
            elif len(b.binders) == len(b.doms) == 1 and v.eq(b.binders[0]) and is_true(simp(b.cond)) and b.doms[0].decl().eq(mem) and \
                    b.doms[0].arg(0).eq(v) and self.decide(st, kind(b.doms[0].arg(1)) == 3):
                parts.append(b.doms[0].arg(1))      # the elements of a set
            else:
                parts.append(self.th.setof(*self.drop_bounds(st, b.binders, b.doms, b.cond, v)))
        if counter:
            t = parts[0] if parts else th.MEMPTY
            for p in parts[1:]:
                t = Spec(self.th).call('msum', t, p)
            return Coll(t, 'counter')
        return Coll(self.union(parts), 'fset')

    def drop_bounds(self, st, binders, doms, cond, val):
        """Without conditions on cardinalities that always hold."""
        for d in list(doms):        # elements of {x in S | condition on the cardinality of x}
            q = self.th.info.get(d.arg(1).decl().name(), {}) if d.decl().eq(mem) else {}
            if q.get('tag') == 'Set' and len(q['binders']) == 1 and q['bodies'][2].eq(q['binders'][0]) and has_card(q['bodies'][1]):
                inst = [z3.substitute(e, *zip(q['params'] + q['binders'], list(d.arg(1).children()) + [d.arg(0)])) for e in q['bodies'][:2]]
                if inst[0].decl().eq(mem):
                    doms, cond = [e for e in doms if not e.eq(d)] + [inst[0]], simp(And(cond, inst[1]))
        if not has_card(cond):
            return binders, doms, cond, val
        binders, doms, cond, val = self.th.one_point(binders, doms, cond, val)
        rest = [c for c in self.th.conjuncts(cond) if not self.pr.quick(st.path + doms, c)]
        return binders, doms, simp(And(*rest)), val

    def union(self, parts):
        if not parts:
            return th.EMPTY
        t = parts[0]
        for p in parts[1:]:
            t = Spec(self.th).call('union', t, p)
        return t

    # --- generators -------------------------------------------------------------------------------
    def ev_gen(self, e, st, fid):
        """Generator expression / comprehension -> GenV."""
        f2 = self.frame(st, st.frames[fid]['%mod'], fid)
        out = []
        self.gen_rec(e, 0, st, f2, [], [], IntVal(1), len(st.path), [], out, self.th.nfresh)
        return GenV(out)

    def gen_rec(self, e, i, st, fid, binders, doms, weight, base, dompos, out, start):
        if i == len(e.generators):
            n = len(self.obs)
            s2 = st.copy()
            try:
                val = self.ev(e.elt, st, fid)
            except Split as sp:
                del self.obs[n:]
                for c in (sp.cond, Not(sp.cond)):
                    s3 = s2.copy()
                    s3.path.append(simp(c))
                    if self.feasible(s3):
                        self.gen_rec(e, i, s3, fid, binders, doms, weight, base, dompos, out, start)
                return
            conds = [p for j, p in enumerate(st.path[base:]) if j + base not in dompos]
            self.add_branch(out, binders, doms, conds, val, weight, start, st)
            return
        g = e.generators[i]
        it = self.ev(g.iter, st, fid)
        brs, _ = self.domain(it, st, g.iter)
        for b in brs:
            s = st.copy() if True else st
            b, s = self.rename(b, s)
            dp = list(dompos)
            for d in b.doms:
                dp.append(len(s.path))
                s.path.append(d)
            s.path.append(b.cond)
            self.bind(g.target, b.val, s, fid)
            ok = True
            states = [s]
            for c in g.ifs:
                nxt = []
                for q in states:
                    nxt += self.cond_states(c, q, fid)
                states = nxt
            for q in states:
                self.gen_rec(e, i + 1, q, fid, binders + b.binders, doms + b.doms, simp(weight * b.weight), base, dp, out, start)
            for o in (s.heap.keys() & st.heap.keys()):
                if o in st.created:
                    st.escaped.add(o)

    def cond_states(self, c, st, fid):
        n = len(self.obs)
        s0 = st.copy()
        try:
            t = simp(self.truth(self.ev(c, st, fid), st, c))
            if is_false(t):
                return []
            st.path.append(t)
            return [st]
        except Split as sp:
            del self.obs[n:]
            r = []
            for cc in (sp.cond, Not(sp.cond)):
                s3 = s0.copy()
                s3.path.append(simp(cc))
                if self.feasible(s3):
                    r += self.cond_states(c, s3, fid)
            return r

    def rename(self, b, st):
        """Fresh binders for a branch that is iterated again."""
        if not b.binders:
            return b, st
        sub = [(x, self.th.fresh('e', x.sort())) for x in b.binders]
        f = lambda e: z3.substitute(e, *sub)
        return Branch([y for _, y in sub], [f(d) for d in b.doms], f(b.cond), self.subst_val(b.val, sub, st), f(b.weight)), st

    def subst_val(self, v, sub, st):
        f = lambda e: z3.substitute(e, *sub)
        if isinstance(v, Obj):
            o = Obj(f(v.v), self.oid())
            if v.oid in st.heap:
                st.heap[o.oid] = {p: f(t) for p, t in st.heap[v.oid].items()}
            return o
        if isinstance(v, PI):
            return PI(f(v.i))
        if isinstance(v, PB):
            return PB(f(v.b), f(v.undef) if v.undef is not None else None)
        if isinstance(v, Seq):
            return Seq([self.subst_val(i, sub, st) for i in v.items], v.islist)
        if isinstance(v, Coll):
            return Coll(f(v.t), v.k)
        if isinstance(v, (Py, Fn, Cls, Mod, Bi)):
            return v
        raise Unsupported('iteration over %r' % v)

    def add_branch(self, out, binders, doms, conds, val, weight, start, st):
        cond = simp(And(*conds)) if conds else th.T
        terms = []
        self.val_terms(val, terms)
        ex = self.skolemize([cond] + terms, binders, start)
        val = self.rebuild(val, iter(ex[1:]), st)
        out.append(Branch(list(binders), list(doms), ex[0], val, weight))

    def val_terms(self, v, out):
        if isinstance(v, Obj):
            out.append(v.v)
        elif isinstance(v, PB):
            out.append(v.b)
            if v.undef is not None:
                out.append(v.undef)
        elif isinstance(v, PI):
            out.append(v.i)
        elif isinstance(v, Coll):
            out.append(v.t)
        elif isinstance(v, Seq):
            for i in v.items:
                self.val_terms(i, out)

    def rebuild(self, v, it, st):
        if isinstance(v, Obj):
            t = next(it)
            return v if t.eq(v.v) else Obj(t, self.oid())
        if isinstance(v, PB):
            b = next(it)
            return PB(b, next(it) if v.undef is not None else None)
        if isinstance(v, PI):
            return PI(next(it))
        if isinstance(v, Coll):
            return Coll(next(it), v.k)
        if isinstance(v, Seq):
            return Seq([self.rebuild(i, it, st) for i in v.items], v.islist)
        return v

    def run_gen(self, val, st):
        """Execute a generator function for all of its iterations."""
        _, fn, args, kwargs = val.what
        fid = self.call_frame(fn, args, kwargs, st)
        g = dict(fid=fid, base=len(st.path), binders=[], doms=[], dompos=set(), weight=IntVal(1), out=[], start=self.th.nfresh)
        self.genstack.append(g)
        self.inlined.add(self.fname(fn))
        s = st.copy()
        try:
            self.where.append(self.fname(fn))
            outs, _ = self.block(fn.node.body, [s], fid)
        finally:
            self.where.pop()
            self.genstack.pop()
        for o in outs:
            if o.what == 'raise':
                self.ob(o.st, 'exception in a generator', 'undef', False)
            elif o.what == 'ret' and o.val is not None:
                raise Unsupported('return in a generator')
        return GenV(g['out'])

    # --- expressions ------------------------------------------------------------------------------
    def ev(self, e, st, fid):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s:%s' % (type(e).__name__, self.where[-1] if self.where else '', getattr(e, 'lineno', '')))
        return m(e, st, fid)

    def ev_Constant(self, e, st, fid):
        if isinstance(e.value, bool):
            return PB(BoolVal(e.value))
        if isinstance(e.value, int):
            return PI(IntVal(e.value))
        return Py(e.value)

    def ev_Name(self, e, st, fid): return self.lookup(e.id, st, fid)
    def ev_JoinedStr(self, e, st, fid): return Opaque(('str',))
    def ev_GeneratorExp(self, e, st, fid): return self.ev_gen(e, st, fid)
    def ev_ListComp(self, e, st, fid): return self.ev_gen(e, st, fid)

    def ev_SetComp(self, e, st, fid): return self.collect(self.ev_gen(e, st, fid), st, e)

    def ev_Tuple(self, e, st, fid): return Seq(self.ev_items(e.elts, st, fid))
    def ev_List(self, e, st, fid):
        its = self.ev_items(e.elts, st, fid)
        if not its:
            cid = self.oid()
            st.cells[cid] = dict(adds=th.EMPTY, list=True)
            return CellRef(cid)
        return Seq(its, True)

    def ev_items(self, elts, st, fid):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fid)
                if isinstance(v, Seq):
                    out += v.items
                else:
                    raise Unsupported('star')
            else:
                out.append(self.ev(x, st, fid))
        return out

    def ev_Set(self, e, st, fid):
        its = self.ev_items(e.elts, st, fid)
        return self.collect(Seq(its), st, e)

    def ev_Dict(self, e, st, fid):
        if not e.keys:
            cid = self.oid()
            st.cells[cid] = dict(newdict=True, cid=cid)
            return CellRef(cid)
        return Opaque(('dict', [(self.ev(k, st, fid), self.ev(v, st, fid)) for k, v in zip(e.keys, e.values)]))

    def ev_Lambda(self, e, st, fid):
        n = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)], decorator_list=[])
        return Fn(st.frames[fid]['%mod'], ast.copy_location(n, e), None, fid)

    def ev_NamedExpr(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        st.frames[fid][e.target.id] = v
        return v

    def ev_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)
        return self.boolop(list(e.values), isand, st, fid)

    def boolop(self, vals, isand, st, fid):
        v = self.ev(vals[0], st, fid)
        if len(vals) == 1:
            return v
        t = simp(self.truth(v, st, vals[0]))
        go, stop = (t, Not(t)) if isand else (Not(t), t)
        d = self.decide(st, go)
        if d is True:
            return self.boolop(vals[1:], isand, st, fid)
        if d is False:
            return v
        # both: v if stopping here, else the rest
        keep = PB(BoolVal(not isand)) if isinstance(v, PB) and v.undef is None else v
        if isinstance(v, PB) and v.undef is not None:
            keep = PB(BoolVal(not isand))
        return self.alts(st, [(stop, lambda s: keep), (go, lambda s: self.boolop(vals[1:], isand, s, fid))])

    def ev_UnaryOp(self, e, st, fid):
        v = self.ev(e.operand, st, fid)
        if isinstance(e.op, ast.Not):
            return PB(simp(Not(self.truth(v, st, e.operand))))
        if isinstance(e.op, ast.USub) and isinstance(v, PI):
            return PI(-v.i)
        raise Unsupported('unary operator')

    def ev_IfExp(self, e, st, fid):
        t = simp(self.truth(self.ev(e.test, st, fid), st, e.test))
        d = self.decide(st, t)
        if d is not None:
            return self.ev(e.body if d else e.orelse, st, fid)
        return self.alts(st, [(t, lambda s: self.ev(e.body, s, fid)), (Not(t), lambda s: self.ev(e.orelse, s, fid))])

    def ev_BinOp(self, e, st, fid):
        l, r = self.norm(self.ev(e.left, st, fid)), self.norm(self.ev(e.right, st, fid))
        return self.binop(e.op, l, r, st, e)

    def binop(self, op, l, r, st, e):
        if isinstance(l, PI) and isinstance(r, PI):
            if isinstance(op, ast.Add):
                return PI(l.i + r.i)
            if isinstance(op, ast.Sub):
                return PI(l.i - r.i)
            if isinstance(op, ast.Mult):
                return PI(l.i * r.i)
        if isinstance(l, (Coll, DataRef, CellRef)) and isinstance(r, (Coll, DataRef, CellRef)):
            l, r = self.content(l, st), self.content(r, st)
            if isinstance(l, Coll) and isinstance(r, Coll) and l.k == r.k:
                names = {'fset': {ast.BitOr: 'union', ast.BitAnd: 'intersect', ast.Sub: 'minus'},
                         'counter': {ast.BitOr: 'm_union', ast.BitAnd: 'm_intersect', ast.Sub: 'm_minus', ast.Add: 'm_add'}}[l.k]
                if type(op) in names:
                    return Coll(Spec(self.th).call(names[type(op)], l.t, r.t), l.k)
        if isinstance(l, (Py, Opaque)) or isinstance(r, (Py, Opaque)):
            return Opaque(('str',))
        raise Unsupported('operator on %r and %r' % (l, r))

    def ev_Compare(self, e, st, fid):
        l = self.ev(e.left, st, fid)
        out, n = None, len(st.path)
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, st, fid)
            v = self.compare(op, l, r, st, e)
            if out is None:
                out = v
            else:
                out = PB(simp(And(self.truth(out, st, e), self.truth(v, st, e))))
            l = r
        return out

    def compare(self, op, l, r, st, e):
        l, r = self.norm(l), self.norm(r)
        if isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn)):
            pos = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[type(op)]()
            if isinstance(op, ast.NotEq) and isinstance(l, Obj) and isinstance(r, Obj):
                self.ob(st, '!= on Undef()', 'undef', And(Not(kind(l.v) == 0), Not(kind(r.v) == 0)), e)
                return PB(Not(th.equal(l.v, r.v)))
            return PB(simp(Not(self.truth(self.compare(pos, l, r, st, e), st, e))))
        if isinstance(op, ast.Is):
            if isinstance(l, Py) and isinstance(r, Py):
                return PB(BoolVal(l.c is r.c))
            if isinstance(l, Py) or isinstance(r, Py):
                o = r if isinstance(l, Py) else l
                c = l if isinstance(l, Py) else r
                if c.c is None:
                    return PB(o.v == th.NONE) if isinstance(o, Obj) and o.v.get_id() in self.optional else \
                        PB(o.q == th.NONE) if isinstance(o, SymDict) and o.q.get_id() in self.optional else PB(th.F)
            for p, q in ((l, r), (r, l)):
                if isinstance(p, Obj) and p.v.eq(th.UNDEF):
                    if isinstance(q, Obj):
                        return PB(simp(kind(q.v) == 0))
                    if isinstance(q, PB):
                        return PB(q.undef if q.undef is not None else th.F)
                    return PB(th.F)
            if isinstance(l, Obj) and isinstance(r, Obj) and l.oid == r.oid and l.v.eq(r.v):
                return PB(th.T)
            if isinstance(l, Obj) and isinstance(r, Obj):
                # unknown, but the same object has one value
                same = z3.Function('same_%d_%d' % tuple(sorted((l.oid, r.oid))), V, V, B)
                return PB(simp(And(l.v == r.v, same(l.v, r.v))))
            if isinstance(l, PB) and isinstance(r, PB):
                return PB(l.b == r.b)
            if isinstance(l, Cls) and isinstance(r, Cls):
                return PB(BoolVal(l.node is r.node))
            raise Unsupported('is on %r and %r' % (l, r))
        if isinstance(op, ast.Eq):
            if isinstance(l, PI) and isinstance(r, PI):
                return PB(simp(l.i == r.i))
            if isinstance(l, Obj) and isinstance(r, Obj):
                self.ob(st, '== on Undef()', 'undef', And(Not(kind(l.v) == 0), Not(kind(r.v) == 0)), e)
                return PB(th.equal(l.v, r.v))
            if isinstance(l, PB) and isinstance(r, PB):
                return PB(self.truth(l, st, e) == self.truth(r, st, e))
            l, r = self.as_fset(l, st), self.as_fset(r, st)
            if isinstance(l, Coll) and isinstance(r, Coll) and l.k == r.k:
                return PB(th.equal(l.t, r.t))
            if isinstance(l, Py) and isinstance(r, Py):
                return PB(BoolVal(l.c == r.c))
            if isinstance(l, Cls) and isinstance(r, Cls):
                return PB(BoolVal(l.node is r.node))
            if isinstance(l, Opaque) and isinstance(r, Opaque) and l.what[0] == r.what[0]:
                what, p, q = l.what[0], l.what[-1], r.what[-1]
                if what == 'value' and z3.is_expr(p) and z3.is_expr(q):
                    # values of different types may be equal, atoms of them are not
                    f = z3.Function('values_equal', V, V, B)
                    return PB(simp(Or(p == q, f(p, q), f(q, p))))
                if what == 'id of':
                    return self.compare(ast.Is(), p, q, st, e)
                if what in ('str of', 'repr of'):
                    f = z3.Function(what.replace(' ', '_'), V, z3.IntSort())
                    return PB(simp(f(p.v) == f(q.v)))
            raise Unsupported('== on %r and %r' % (l, r))
        if isinstance(op, ast.In):
            if isinstance(r, (CellRef, DataRef)):
                r = self.content(r, st)
            if isinstance(r, Coll) and isinstance(l, Obj):
                return PB(mem(l.v, r.t))
            if isinstance(r, View) and r.which == 'keys' and isinstance(l, Obj):
                return self.compare(op, l, self.content(r.coll, st), st, e)
            if isinstance(r, Obj):
                return self.method_call(r, '__contains__', [l], st, e)
            if isinstance(r, Seq):
                return PB(simp(Or(*[self.truth(self.compare(ast.Eq(), l, i, st, e), st, e) for i in r.items])))
            if isinstance(r, dict) and not isinstance(r, Val):
                return self.in_dict(l, r, st, e)
            raise Unsupported('in %r' % (r,))
        if isinstance(l, PI) and isinstance(r, PI):
            return PB(simp({ast.Lt: lambda: l.i < r.i, ast.LtE: lambda: l.i <= r.i, ast.Gt: lambda: l.i > r.i,
                            ast.GtE: lambda: l.i >= r.i}[type(op)]()))
        l, r = self.as_fset(l, st), self.as_fset(r, st)
        if isinstance(l, Coll) and isinstance(r, Coll) and l.k == r.k == 'fset':
            sub = lambda p, q: Spec(self.th).call('subset', p.t, q.t)
            f = {ast.LtE: lambda: sub(l, r), ast.GtE: lambda: sub(r, l), ast.Lt: lambda: And(sub(l, r), Not(l.t == r.t)),
                 ast.Gt: lambda: And(sub(r, l), Not(l.t == r.t))}
            return PB(f[type(op)]())
        raise Unsupported('comparison of %r and %r' % (l, r))

    def as_fset(self, o, st):
        """Content of a container; the keys of a counter as a set."""
        c = self.content(o, st)
        if isinstance(c, View) and c.which == 'keys':
            d = self.content(c.coll, st)
            if isinstance(d, Coll) and d.k == 'counter':
                return Coll(self.demultify(d.t), 'fset')
        return c

    # --- dictionaries of containers that a loop fills (see loops.py, group) -------------------------
    def avail(self, st, c, k): return ('avail', c['cid'], k.v.get_id())

    def open_dict(self, c, k, st):
        if not isinstance(c, dict) or 'newdict' not in c or c['cid'] not in st.log or not isinstance(k, Obj):
            raise Unsupported('dictionary')

    def in_dict(self, l, r, st, e):
        self.open_dict(r, l, st)
        p = self.th.fresh('present', B)
        st.cells.setdefault(self.avail(st, r, l), PB(p))
        return PB(st.cells[self.avail(st, r, l)].b)

    def group_ref(self, c, k, st):
        cid = self.oid()
        st.cells[cid] = dict(groupref=True, of=c['cid'], key=k.v)
        return CellRef(cid)

    def dict_get(self, c, k, st, e):
        self.open_dict(c, k, st)
        a = st.cells.get(self.avail(st, c, k))
        if 'default' not in c and (a is None or self.decide(st, a.b) is not True):
            raise Unsupported('key that may be missing in a dictionary')
        return self.group_ref(c, k, st)

    def container_kind(self, v, st):
        if isinstance(v, CellRef) and v.cid in st.cells:
            c = st.cells[v.cid]
            if isinstance(c, Coll) and (c.t.eq(th.EMPTY) or c.t.eq(th.MEMPTY)):
                return c.k
        raise Unsupported('value of a dictionary')

    def dict_init(self, c, k, kind_, st):
        st.log[c['cid']].append(([], [], th.T, Seq([]), IntVal(0), 'init', kind_))

    def dict_value(self, c, st, node):
        """A dictionary with known string keys as an argument."""
        if not isinstance(c, dict) or 'newdict' not in c or 'default' in c or c['cid'] in st.log:
            raise Unsupported('dictionary as an argument')
        q = self.th.fresh('dict')
        k, w = z3.Const('?k', V), z3.Const('?w', V)
        alts = []
        for key, (pres, val) in c.get('entries', {}).items():
            x = self.literal(Py(key), st).v
            self.ob(st, 'value of a dictionary', 'pre', Implies(pres, And(kind(val) >= 1, kind(val) <= 5)), node)
            alts.append((pres, x, val))
        st.path.append(And(kind(q) == 6, z3.Function('is_dict', V, B)(q)))
        body = simp(Or(*[And(pres, k == x, w == val) for pres, x, val in alts])) if alts else th.F
        st.path.append(z3.ForAll([k, w], ditem(k, w, q) == body, patterns=[ditem(k, w, q)]))
        for pres, x, val in alts:
            st.path.append(simp(Implies(pres, ditem(x, val, q))))
        return SymDict(q)

    def dict_set(self, o, c, k, v, st, node):
        if isinstance(k, Py) and isinstance(k.c, str) and c.get('cid') not in st.log and 'default' not in c:
            v = self.literal(v, st)
            if not isinstance(v, Obj):
                raise Unsupported('value of a dictionary')
            st.cells[o.cid] = dict(c, entries=dict(c.get('entries', {}), **{k.c: (th.T, v.v)}))
            return
        self.open_dict(c, k, st)
        a = st.cells.get(self.avail(st, c, k))
        if a is None or self.decide(st, a.b) is not False:
            raise Unsupported('value of a dictionary is replaced')
        self.dict_init(c, k, self.container_kind(v, st), st)
        st.cells[self.avail(st, c, k)] = PB(th.T)
        st.cells[v.cid] = dict(groupref=True, of=c['cid'], key=k.v)

    def group_add(self, c, x, w, kind_, st):
        if c['of'] not in st.log:
            raise Unsupported('dictionary')
        st.log[c['of']].append(([], [], th.T, Seq([Obj(c['key'], self.oid()), x]), w, 'group', kind_))
        return Py(None)

    def group_view(self, c, which, st):
        b, _ = self.rename(c['branch'], st)
        sub = lambda e, y: z3.substitute(e, (c['branch'].binders[0], y))
        x, y = b.binders[0], self.th.fresh('e')
        lab = Obj(sub(c['key'], x), self.oid())
        cond = simp(And(sub(c['branch'].cond, y), sub(c['key'], y) == sub(c['key'], x)))
        doms = [sub(d, y) for d in c['branch'].doms]
        if c['kindname'] == 'counter':
            g = Coll(self.th.msetof([y], doms, cond, y, sub(c['weight'], y)), 'counter')
        else:
            g = Coll(self.th.setof([y], doms, cond, y), 'fset')
        el = {'items': Seq([lab, g]), 'keys': lab, 'values': g}[which]
        return [Branch(b.binders, b.doms, b.cond, el, IntVal(1))]

    def ev_Subscript(self, e, st, fid):
        o = self.ev(e.value, st, fid)
        k = self.ev(e.slice if not isinstance(e.slice, ast.Index) else e.slice.value, st, fid)
        return self.subscript(o, k, st, e)

    def subscript(self, o, k, st, e):
        if isinstance(o, (CellRef, DataRef)):
            o = self.content(o, st)
        if isinstance(o, Coll) and o.k == 'counter' and isinstance(k, Obj):
            return PI(mult(k.v, o.t))
        if isinstance(o, Seq):
            k = self.norm(k)
            if isinstance(k, PI) and z3.is_int_value(simp(k.i)):
                i = simp(k.i).as_long()
                if -len(o.items) <= i < len(o.items):
                    return o.items[i]
            raise Unsupported('index')
        if isinstance(o, Obj):
            return self.method_call(o, '__getitem__', [k], st, e)
        if isinstance(o, SymSeq):
            k = self.norm(k)
            raise Unsupported('index into arguments')
        if isinstance(o, dict):
            return self.dict_get(o, k, st, e)
        raise Unsupported('subscript of %r' % (o,))

    # --- attributes -------------------------------------------------------------------------------
    def ev_Attribute(self, e, st, fid):
        return self.attr(self.ev(e.value, st, fid), e.attr, st, e)

    def mro(self, cls):
        out = [cls]
        for b in cls.node.bases:
            n = cls.mod.names.get(b.id) if isinstance(b, ast.Name) else None
            if n is not None:
                v = self.globval(cls.mod, n, State())
                if isinstance(v, Cls):
                    out += self.mro(v)
        return out

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            n = class_names(c.node).get(name)
            if n is not None:
                return c, n
        return None, None

    def kcls(self, k):
        m, n = KCLASS[k]
        mod = self.src.module(m)
        return Cls(mod, mod.names[n])

    def attr(self, o, name, st, node=None):
        if isinstance(o, Mod):
            if o.name.split('.')[0] == 'algebraixlib':
                b = o.name[len('algebraixlib'):].lstrip('.')
                m = self.src.module(b)
                if name in m.names or name in self.BUILTINS and False:
                    return self.glob(m, name, st)
                sub = (b + '.' if b else '') + name
                if self.src.has(sub):
                    return Mod('algebraixlib.' + sub)
                raise Unsupported('attribute %s of %s' % (name, o.name))
            return Bi(o.name + '.' + name)
        if isinstance(o, Cls):
            c, n = self.class_attr(o, name)
            if n is None:
                raise Unsupported('class attribute ' + name)
            if isinstance(n, ast.FunctionDef):
                return Fn(c.mod, n, c)
            if c.mod.name.endswith('undef') and name in written_attrs(c):
                # state of the library, not a constant: the level of handling undefined results
                v = self.ev_class(c, n[1], st)
                v = IntVal(v.c) if isinstance(v, Py) and type(v.c) is int else simp(v.i) if isinstance(v, PI) else None
                if v is None or not z3.is_int_value(v):
                    raise Unsupported('class attribute %s that is written' % name)
                l = z3.Int(LEVEL + name)
                th.CONSTS.add(l.decl().name())
                self.levels[l.get_id()] = (l, v)
                return PI(l)
            return self.ev_class(c, n[1], st)
        if isinstance(o, Obj) and name == 'toPython':
            return Bi(name, o)
        if isinstance(o, Obj) and name == 'startswith':
            return Bi(name, o)
        if isinstance(o, Obj):
            return self.obj_attr(o, name, st, node)
        if isinstance(o, New):
            f = st.fields.get(o.oid, {})
            if name in f:
                return f[name]
            if name == '_flags':
                return FlagsOf(o)
            c, n = self.class_attr(o.cls, name)
            if isinstance(n, ast.FunctionDef):
                if is_property(n):
                    return self.call_fn(Fn(c.mod, n, c), [o], {}, st, node)
                return Fn(c.mod, n, c) if is_static(n) else Bound(Fn(c.mod, n, c), o)
            if n is not None:
                return self.ev_class(c, n[1], st)
            raise Unsupported('attribute %s of a new object' % name)
        if isinstance(o, FlagsOf):
            if name == 'f':
                return BitsOf(o)
            if name == 'asint' and isinstance(o.obj, Obj):
                raise Unsupported('asint')
        if isinstance(o, NewFlags):
            if name == 'f':
                return BitsOf(o)
            if name == 'asint':
                return FlagsInt(dict(st.cells[o.cid]))
        if isinstance(o, BitsOf):
            if name not in FLAGS:
                raise Unsupported('flag ' + name)
            if isinstance(o.flags, NewFlags):
                return PI(st.cells[o.flags.cid][name])
            if isinstance(o.flags.obj, New):
                return PI(st.raw[o.flags.obj.oid][name])
            return PI(simp(self.read_flag(st, o.flags.obj, name)))
        if isinstance(o, SuperOf):
            for c in self.mro(o.cls)[1:]:
                n = class_names(c.node).get(name)
                if n is not None:
                    return Bound(Fn(c.mod, n, c), o.self_)
            raise Unsupported('super().' + name)
        if isinstance(o, (Coll, CellRef, DataRef, SymDict, Seq, Py, Opaque, View, IterV, PI, PB)):
            return Bi(name, o)
        if isinstance(o, Bi) and o.self_ is None and o.name.startswith('rdflib.'):
            return Bi(o.name + '.' + name)
        if isinstance(o, Fn):
            raise Unsupported('attribute of a function')
        if isinstance(o, Partial):
            if name in ('func', 'args', 'keywords'):
                raise Unsupported('partial.' + name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def ev_class(self, c, expr, st):
        if isinstance(expr, ast.Name):
            n = class_names(c.node).get(expr.id)
            if n is not None:
                return Fn(c.mod, n, c) if isinstance(n, ast.FunctionDef) else self.ev_class(c, n[1], st)
        f = self.frame(st, c.mod, None, c)
        for k, n in class_names(c.node).items():
            if isinstance(n, ast.FunctionDef):
                st.frames[f][k] = Fn(c.mod, n, c)
        return self.ev(expr, st, f)

    def subobj(self, st, o, which):
        key = (o.oid, which)
        if key not in st.sub:
            st.sub[key] = self.oid()
        return Obj(th.left(o.v) if which == 'left' else th.right(o.v), st.sub[key])

    def kinds(self, o, st):
        """Possible kinds of an object."""
        v = o.v
        for p in reversed(st.path):
            pass
        out = []
        for k in range(7):
            c = simp(kind(v) == k)
            if is_false(c):
                continue
            if is_true(c):
                return [k]
            out.append(k)
        d = [k for k in out if not self.pr.quick(st.path, Not(kind(v) == k))]
        return d

    def obj_attr(self, o, name, st, node):
        v = o.v
        if name == '_data':
            self.ob(st, 'data of something that is no collection', 'undef', Or(kind(v) == 3, kind(v) == 4), node)
            return DataRef(o)
        if name in ('_left', '_right'):
            self.ob(st, '%s of something that is no couplet' % name[1:], 'undef', kind(v) == 2, node)
            return self.subobj(st, o, name[1:])
        if name == '_flags':
            return FlagsOf(o)
        if name == '_value':
            return Opaque(('value', v))
        if name == '_hash':
            return Opaque(('hash', v))
        if name == '__class__':
            return Opaque(('class', v))
        if name == 'get_ground_set':
            return Bi(name, Opaque(('ground', o)))
        key = ('attr', o.oid, name)
        if o.oid in st.fields and name in st.fields[o.oid]:
            return st.fields[o.oid][name]
        groups = {}
        for k in self.kinds(o, st):
            if k > 4:
                self.ob(st, 'attribute %s of a plain value' % name, 'undef', kind(v) != k, node)
                continue
            c, n = self.class_attr(self.kcls(k), name)
            if n is None:
                self.ob(st, '%s has no attribute %s' % (KCLASS[k][1], name), 'undef', kind(v) != k, node)
                continue
            groups.setdefault(id(n), (c, n, []))[2].append(k)
        if not groups:
            raise Unsupported('attribute %s of %s' % (name, v))

        def get(c, n):
            def f(s):
                if isinstance(n, ast.FunctionDef):
                    if is_property(n):
                        return self.call_fn(Fn(c.mod, n, c), [o], {}, s, node)
                    return Fn(c.mod, n, c) if is_static(n) else Bound(Fn(c.mod, n, c), o)
                if name.endswith('_redirect'):
                    return self.redirect(c, o, name, n, s)
                r = self.ev_class(c, n[1], s)
                return Bound(r, o) if isinstance(r, Fn) else r
            return f
        gs = list(groups.values())
        if len(gs) == 1:
            return get(gs[0][0], gs[0][1])(st)
        return self.alts(st, [(Or(*[kind(v) == k for k in ks]), get(c, n)) for c, n, ks in gs])

    def redirect(self, c, o, name, n, st):
        """An attribute of the object that methods of its class replace (C13): the class attribute, or any value that a
        method assigns, under the condition of the assignment."""
        r = self.ev_class(c, n[1], st)
        default = Bound(r, o)
        inv = self.redirect_inv(c, name)
        alts = [(None, default)] + inv
        sel = []
        rest = th.T
        cases = []
        for i, (cond, target) in enumerate(alts):
            if i == len(alts) - 1:
                here = rest
            else:
                key = (o.v.get_id(), name, i, tuple(self.where))
                k = self.redirect_const.get(key)
                if k is None:
                    # one value per call site: a statement that is executed again for a case sees the same one
                    k = self.redirect_const[key] = self.th.fresh('attr', B)
                    self.redirect_keep.append(o.v)
                here = simp(And(rest, k))
                rest = simp(And(rest, Not(k)))
            cond_v = None if cond is None else cond(o.v)
            cases.append((here if cond_v is None else And(here, cond_v), target if i == 0 else Bound(target, o)))
        return Opaque(('choice', cases))

    def redirect_inv(self, c, name):
        key = (c.node, name)
        if key in self.redirect_memo:
            return self.redirect_memo[key]
        self.redirect_memo[key] = []
        sites = []
        k = CLSKIND.get((c.mod.name, c.node.name))
        for mname, n in class_names(c.node).items():
            if not isinstance(n, ast.FunctionDef):
                continue
            if any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == name for t in x.targets) for x in ast.walk(n)):
                sites.append(n)
        found = []
        for n in sites:
            st = State()
            me = Obj(self.th.fresh('self'), self.oid())
            st.path.append(kind(me.v) == k)
            arg = Obj(self.th.fresh('arg'), self.oid())
            st.path += [kind(arg.v) >= 1, kind(arg.v) <= 5]
            saved, self.redirects, nobs = self.redirects, [], len(self.obs)
            try:
                self.run_body(Fn(c.mod, n, c), [me, arg][:len(n.args.args)], {}, st)
                for (nm, v, path, target) in self.redirects:
                    if nm == name:
                        found.append((me.v, path, target))
            finally:
                self.redirects = saved
                del self.obs[nobs:]
        res = {}
        for mev, path, target in found:
            res.setdefault(target.node, (target, []))[1].append((mev, simp(And(*path))))
        out = []
        for target, ps in res.values():
            out.append((lambda v, ps=ps: simp(Or(*[self.instance(p, mev, v) for mev, p in ps])), target))
        self.redirect_memo[key] = out
        return out

    def instance(self, p, mev, v): return z3.substitute(p, (mev, v))

    # --- calls ------------------------------------------------------------------------------------
    def ev_Call(self, e, st, fid):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fr = st.frames[fid]
            return SuperOf(fr['%cls'], fr[next(iter(k for k in fr if not k.startswith('%')))])
        f = self.ev(e.func, st, fid)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fid)
                if isinstance(v, Seq):
                    args += v.items
                elif isinstance(v, (SymSeq, Obj, Coll)):
                    args.append(('*', v))
                elif isinstance(v, GenV) and not any(b.binders for b in v.branches):
                    for b in v.branches:
                        d = self.decide(st, b.cond)
                        if d is None:
                            raise Split(b.cond)
                        if d:
                            args.append(b.val)
                elif isinstance(v, (CellRef, GenV)):
                    args.append(('*', v))
                else:
                    raise Unsupported('star argument %r' % v)
            else:
                args.append(self.ev(a, st, fid))
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('** argument')
            kwargs[k.arg] = self.ev(k.value, st, fid)
        return self.call(f, args, kwargs, st, e)

    def method_call(self, o, name, args, st, node):
        return self.call(self.attr(o, name, st, node), args, {}, st, node)

    def call(self, f, args, kwargs, st, node):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, st, node)
        if isinstance(f, Bound):
            if isinstance(f.fn, Fn):
                return self.call_fn(f.fn, [f.self_] + args, kwargs, st, node)
            return self.call(f.fn, [f.self_] + args, kwargs, st, node)
        if isinstance(f, Partial):
            return self.call(f.fn, f.args + args, {**f.kwargs, **kwargs}, st, node)
        if isinstance(f, Abs):
            vs = []
            for a in args:
                if not isinstance(a, Obj):
                    raise Unsupported('argument of a parameter function')
                vs.append(a.v)
            r = f.f(*vs)
            st.epoch = self.oid()
            return PB(r) if r.sort() == B else Obj(r, self.oid())
        if isinstance(f, Cls):
            return self.construct(f, args, kwargs, st, node)
        if isinstance(f, Bi):
            return self.builtin(f, args, kwargs, st, node)
        if isinstance(f, Obj):
            return self.call(self.attr(f, '__call__', st, node), args, kwargs, st, node)
        if isinstance(f, Opaque) and f.what[0] == 'choice':
            return self.alts(st, [(c, (lambda s, t=t: self.call(t, args, kwargs, s, node))) for c, t in f.what[1]])
        raise Unsupported('call of %r' % f)

    def fname(self, f):
        return '.'.join(x for x in (f.mod.name, f.cls.node.name if f.cls else '', f.node.name) if x)

    def call_fn(self, f, args, kwargs, st, node):
        c = self.bynode.get(f.node)
        if c is not None:
            return self.call_contract(c, f, args, kwargs, st, node)
        lazy = self.lazy_import(f)
        if lazy:
            return lazy
        if is_gen(f.node):
            return Opaque(('genfn', f, args, kwargs))
        return self.inline(f, args, kwargs, st)

    def lazy_import(self, f):
        """The library's cached lazy import: def _m(): ... import algebraixlib.m as m; _m.algebra = m ...; return _m.algebra"""
        n = f.node
        if n.args.args or not n.body or not isinstance(n.body[-1], ast.Return):
            return None
        imps = [x for x in ast.walk(n) if isinstance(x, ast.Import)]
        r = n.body[-1].value
        if isinstance(r, ast.Name):
            defs = [x for x in ast.walk(n) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r.id for t in x.targets)]
            if len(defs) == 1 and len(defs[0].targets) == 1:
                r = defs[0].value
        if len(imps) == 1 and len(imps[0].names) == 1 and imps[0].names[0].name.startswith('algebraixlib.') and \
                isinstance(r, ast.Attribute) and isinstance(r.value, ast.Name) and r.value.id == n.name:
            alias = imps[0].names[0].asname
            for x in ast.walk(n):
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and x.targets[0].attr == r.attr and \
                        isinstance(x.value, ast.Name) and x.value.id == alias:
                    return Mod(imps[0].names[0].name)
        return None

    def call_frame(self, f, args, kwargs, st):
        a = f.node.args
        fid = self.frame(st, f.mod, f.closure, f.cls)
        fr = st.frames[fid]
        names = [p.arg for p in a.args]
        if any(isinstance(x, tuple) for x in args):
            i = next(i for i, x in enumerate(args) if isinstance(x, tuple))
            if i != len(args) - 1 or i != len(names) or not a.vararg:
                raise Unsupported('star argument for %s' % self.fname(f))
            star = args[i][1]
            args = args[:i]
        else:
            star = None
        if len(args) > len(names) and not a.vararg:
            self.ob(st, 'too many arguments for ' + self.fname(f), 'undef', False)
            raise Unsupported('arguments')
        for n, v in zip(names, args):
            fr[n] = v
        rest = args[len(names):]
        if a.vararg:
            fr[a.vararg.arg] = self.as_args(star, st) if star is not None else Seq(rest)
        kwnames = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwnames:
                fr[k] = v
            else:
                extra[k] = v
        if extra or a.kwarg:
            if not a.kwarg:
                raise Unsupported('keyword argument %s of %s' % (list(extra), self.fname(f)))
            fr[a.kwarg.arg] = Opaque(('dict', [(Py(k), v) for k, v in extra.items()]))
        dm = self.frame(st, f.mod, f.closure)
        for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(n, d) for n, d in zip(kwnames, a.kw_defaults) if d is not None]:
            if n not in fr:
                fr[n] = self.ev(d, st, dm)
        for n in names + kwnames:
            if n not in fr:
                self.ob(st, 'missing argument %s of %s' % (n, self.fname(f)), 'undef', False)
                raise Unsupported('missing argument %s of %s' % (n, self.fname(f)))
        return fid

    def as_args(self, v, st):
        """A tuple of arguments with the elements of v."""
        if isinstance(v, SymSeq):
            return v
        if isinstance(v, Obj):
            brs, dist = self.domain(v, st)
            t = self.plain(brs, st)
            if t is not None:
                return self.seq_of(t, st)
        if isinstance(v, Coll):
            return self.seq_of(v.t, st)
        if isinstance(v, CellRef):
            v = self.content(v, st)
        if isinstance(v, dict) and 'adds' in v:
            return self.seq_of(v['adds'], st)
        if isinstance(v, GenV):
            return self.seq_of(self.collect_branches(v.branches, st, None, check=False).t, st)
        raise Unsupported('star argument')

    def plain(self, brs, st):
        """The collection t if the branches enumerate exactly the elements of t."""
        if len(brs) != 1:
            return None
        b = brs[0]
        if len(b.binders) != 1 or len(b.doms) != 1 or b.doms[0].decl().name() != 'mem' or not isinstance(b.val, Obj) or \
                not b.val.v.eq(b.binders[0]) or not b.doms[0].arg(0).eq(b.binders[0]):
            return None
        if not is_true(simp(b.cond)) and not self.pr.quick(st.path + b.doms, simp(b.cond)):
            return None
        return b.doms[0].arg(1)

    def seq_len(self, c, st, node):
        n, w = z3.Function('seqlen', V, I), z3.Function('seqone', V, V)
        if 'seqlen' not in self.th.axioms:
            p, q = z3.Const('?s', V), z3.Const('?i', V)
            self.th.axioms['seqlen'], self.th.info['seqlen'] = [], dict(tag='seqlen')
            self.th.add('seqlen', th.fa([p], [n(p)], And(n(p) >= 0, Implies(n(p) > 0, item(w(p), p)))))
            self.th.add('seqlen', th.fa([p, q], [(item(q, p), n(p))], Implies(item(q, p), And(n(p) > 0, Implies(n(p) == 1, q == w(p))))))
        if c.counted:
            self.ob(st, 'len of an iterable', 'undef', Or(*[z3.Function('is_' + k, V, B)(c.q) for k in ('tuple', 'list', 'Collection')]), node)
        return n(c.q)

    def seq_of(self, t, st):
        """Symbol for the sequence of the elements of t."""
        d = z3.Function('seqof', V, V)
        if 'seqof' not in self.th.axioms:
            p, q = z3.Const('?s', V), z3.Const('?i', V)
            self.th.axioms['seqof'], self.th.info['seqof'] = [], dict(tag='seqof')
            self.th.add('seqof', th.fa([p], [d(p)], kind(d(p)) == 6))
            self.th.add('seqof', th.fa([p, q], [item(q, d(p))], item(q, d(p)) == mem(q, p)))
            self.th.add('seqof', th.fa([p, q], [(mem(q, p), d(p))], item(q, d(p)) == mem(q, p)))
        return SymSeq(d(t))

    def run_body(self, f, args, kwargs, st):
        """Outs of the body of f."""
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('call depth')
        self.where.append(self.fname(f))
        gs, self.genstack = self.genstack, self.genstack + [None]
        try:
            fid = self.call_frame(f, args, kwargs, st)
            outs, falls = self.block(f.node.body, [st], fid)
            return outs + [Out('ret', s, Py(None)) for s in falls]
        finally:
            self.depth -= 1
            self.where.pop()
            self.genstack = gs

    def inline(self, f, args, kwargs, st):
        if is_gen(f.node):
            return self.run_gen(Opaque(('genfn', f, args, kwargs)), st)
        self.inlined.add(self.fname(f))
        base = len(st.path)
        s0 = st.copy()
        outs = self.run_body(f, args, kwargs, s0)
        rets = []
        for o in outs:
            if o.what == 'ret':
                rets.append((o.st, o.val))
            else:
                self.ob(o.st, 'exception: %s' % (o.val,), 'undef', False)
        if not rets:
            raise Unsupported('%s never returns' % self.fname(f))
        if len(rets) == 1:
            # what remains if the paths that raise the undefined exception are left: the same at every level (weaker: the
            # level is forgotten)
            s = rets[0][0]
            s.path[base:] = [th.T if self.only_level(p) else p for p in s.path[base:]]
        try:
            s, v = self.merge(base, rets)
        except Unmergeable:
            cs = [simp(And(*r[0].path[base:])) for r in rets]
            for c in cs:
                if self.decide(st, c) is None:
                    raise Split(c)
            raise Unsupported('cannot merge the results of ' + self.fname(f))
        st.assign(s)
        return v

    # --- contracts --------------------------------------------------------------------------------
    def dom(self, d, v, st):
        if d == 'any':
            return And(kind(v) >= 0, kind(v) <= 4)
        if d == 'mo':
            return And(kind(v) >= 1, kind(v) <= 4)
        if d in ('left', 'val'):
            return And(kind(v) >= (0 if d == 'left' else 1), kind(v) <= 5)
        if d == 'set':
            return kind(v) == 3
        if d == 'mset':
            return kind(v) == 4
        if d == 'coll':
            return Or(kind(v) == 3, kind(v) == 4)
        if d == 'couplet':
            return kind(v) == 2
        return Spec(self.th).call({'rel': 'is_rel', 'clan': 'is_clan', 'mclan': 'is_mclan', 'graph': 'is_graph'}[d], v)

    def bind_contract(self, c, f, args, kwargs, st):
        fid = self.call_frame(f, args, kwargs, st)
        fr = st.frames[fid]
        rest = [n for n in c.params if n not in fr]
        a = f.node.args.vararg
        if rest and a and isinstance(fr[a.arg], Seq):
            # the further parameters of the contract are the elements of *args
            if len(fr[a.arg].items) != len(rest):
                raise Unsupported('arguments of ' + c.key)
            fr.update(zip(rest, fr[a.arg].items))
        return {n: fr[n] for n in list(c.params) + (['_checked'] if c.checked else []) if n in fr}

    def call_contract(self, c, f, args, kwargs, st, node):
        self.used.add(c.key)
        st.epoch = self.oid()
        b = self.bind_contract(c, f, args, kwargs, st)
        checked = True
        if c.checked:
            ch = self.norm(b['_checked'])
            t = simp(self.truth(ch, st, node))
            if not (is_true(t) or is_false(t)):
                raise Unsupported('_checked')
            checked = is_true(t)
        sp_args, doms, undefs = [], [], []
        pre = []
        for p, d in c.params.items():
            a = b[p]
            if d in ('fun1', 'fun2', 'pred', 'inv'):
                sp_args.append(self.fun_arg(a, d, st, node))
                continue
            if d in ('lefts', 'vals', 'mos'):
                if isinstance(a, Seq):
                    a = self.seq_from(a, st, node)
                if not isinstance(a, SymSeq):
                    raise Unsupported('argument %s of %s: %r' % (p, c.key, a))
                sp_args.append(a.q)
                continue
            if d in ('dict', 'optdict'):
                if isinstance(a, CellRef):
                    a = self.dict_value(st.cells[a.cid], st, node)
                if d == 'optdict' and isinstance(a, Py) and a.c is None:
                    a = SymDict(th.NONE)
                if isinstance(a, SymDict) and d == 'dict' and a.q.get_id() in self.optional:
                    pre.append((p, Not(a.q == th.NONE)))
                if not isinstance(a, SymDict):
                    raise Unsupported('argument %s of %s: %r' % (p, c.key, a))
                sp_args.append(a.q)
                continue
            if d in OPT and isinstance(a, Py) and a.c is None:
                a = Obj(th.NONE, 0)
            if d in ('left', 'val', 'optval'):
                a = self.literal(a, st)
            if not isinstance(a, Obj):
                raise Unsupported('argument %s of %s: %r' % (p, c.key, a))
            v = a.v
            if d == 'optval':
                pre.append((p, Or(v == th.NONE, And(kind(v) >= 1, kind(v) <= 5))))
                sp_args.append(v)
                continue
            if a.oid in st.created:
                st.escaped.add(a.oid)
            if d in ('left', 'val'):
                lo, hi = (0 if d == 'left' else 1), 5
                if c.checked and not checked:
                    hi = 4
                pre.append((p, And(kind(v) >= lo, kind(v) <= hi)))
                sp_args.append(simp_conv(self, st, v))
                continue
            if c.opts.get('total') or c.opts.get('prop'):
                pre.append((p, And(self.dom(d, v, st), Not(self.nested(st, v))) if c.opts.get('not_nested') else self.dom(d, v, st)))
            elif checked:
                pre.append((p, And(kind(v) >= 0, kind(v) <= 4)))
                doms.append(self.dom(d, v, st))
            else:
                pre.append((p, Or(kind(v) == 0, self.dom(d, v, st))))
                undefs.append(kind(v) == 0)
            sp_args.append(v)
        for p, g in pre:
            self.ob(st, 'precondition of %s: %s' % (c.key, p), 'pre', g, node)
        cond = simp(And(*doms)) if doms else simp(Not(Or(*undefs))) if undefs else th.T
        d = self.decide(st, cond)
        if d is True:
            cond = th.T
        elif d is False:
            if c.rtype == 'V' or c.rtype == 'bool':
                return Obj(th.UNDEF, 0)
        sp = self.spec(st)
        relational = c.opts.get('relational')
        if relational:
            r = self.th.fresh('some')
            sp_args = sp_args + [r]
        n = len(st.path)
        st.path.append(cond)
        try:
            val = sp.call(c.fn.__name__, *sp_args)
        finally:
            st.path.remove(cond) if False else None
            del st.path[n]
        for (param, flag) in c.opts.get('knows', []):
            a = b[param]
            st.heap.setdefault(a.oid, {})[flag] = th.T
        if c.rtype == 'bool':
            return PB(simp(val), None if is_true(cond) else simp(Not(cond)))
        if c.rtype == 'optbool':
            return PB(simp(val.b), val.undef)
        if relational:
            st.path.append(simp(If(cond, val, r == th.UNDEF)))
            return Obj(r, self.oid())
        val = ite(cond, val, th.UNDEF)
        o = Obj(val, self.oid())
        st.heap[o.oid] = {}
        if c.opts.get('pristine'):
            st.created.add(o.oid)
            for p in FLAGS[4:]:
                st.heap[o.oid][p] = self.init_known(p, val)
        for p, ps in c.opts.get('known', []):
            ks = [And(st.heap.get(b[q].oid, {}).get(p, th.F), self.st_of(p, b[q].v) == 1) for q in ps]
            st.heap[o.oid][p] = simp(Or(st.heap[o.oid].get(p, th.F), And(*ks)))
        for p in c.opts.get('known_const', []):
            st.heap[o.oid][p] = th.T
        return o

    def seq_from(self, a, st, node):
        """SymSeq for a concrete tuple of objects."""
        q = self.th.fresh('args')
        xx = z3.Const('?i', V)
        vs = []
        for i in a.items:
            i = self.literal(i, st)
            if not isinstance(i, Obj):
                raise Unsupported('argument %r' % i)
            vs.append(i.v)
        st.path.append(kind(q) == 6)
        st.path.append(z3.ForAll([xx], item(xx, q) == Or(*[xx == v for v in vs]), patterns=[item(xx, q)]))
        for v in vs:
            st.path.append(item(v, q))
        return SymSeq(q)

    def fun_arg(self, a, d, st, node):
        def f(*xs):
            # evaluated by the contract's specification, in its scope
            n0 = len(st.path)
            s = st.copy()
            r = self.call(a, [Obj(x, self.oid()) for x in xs], {}, s, node)
            facts = s.path[n0:]
            if d == 'pred':
                return simp(self.truth(r, s, node))
            if isinstance(r, PB) and d == 'fun1':
                raise Unsupported('Boolean operation')
            if not isinstance(r, Obj):
                raise Unsupported('operation returns %r' % r)
            if d == 'inv':
                return simp_conv(self, s, r.v)
            return r.v
        return f

    # --- construction -----------------------------------------------------------------------------
    def construct(self, cls, args, kwargs, st, node):
        name = (cls.mod.name, cls.node.name)
        if name == ('undef', 'Undef'):
            return Obj(th.UNDEF, 0)
        if name == ('mathobjects._flags', 'Flags'):
            cid = self.oid()
            if 'asint' in kwargs:
                v = kwargs['asint']
                if isinstance(v, FlagsInt):
                    st.cells[cid] = dict(v.d)
                elif isinstance(v, PI) and z3.is_int_value(simp(v.i)) and simp(v.i).as_long() == 0:
                    st.cells[cid] = {p: IntVal(0) for p in FLAGS}
                else:
                    raise Unsupported('Flags(asint)')
            else:
                st.cells[cid] = {p: IntVal(0) for p in FLAGS}
            return NewFlags(cid)
        if name == ('mathobjects.atom', 'Atom'):
            if len(args) == 1 and isinstance(self.literal(args[0], st), Obj):
                v = self.literal(args[0], st).v
                self.ob(st, 'Atom() of Undef() or of a math object that is no atom', 'undef', Or(kind(v) == 5, kind(v) == 1), node)
                return Obj(simp_conv(self, st, v), self.oid())
            raise Unsupported('Atom(%r)' % args)
        if name[0] == 'structure' and not kwargs and all(isinstance(a, Opaque) and a.what[0] == 'struct' for a in args):
            return Opaque(('struct', '%s(%s)' % (name[1], ','.join(a.what[1] for a in args))))
        if name in CLSKIND:
            return self.construct_mo(cls, CLSKIND[name], args, kwargs, st, node)
        raise Unsupported('construction of ' + cls.node.name)

    def construct_mo(self, cls, k, args, kwargs, st, node):
        oid = self.oid()
        new = New(cls, oid)
        st.fields[oid] = {}
        st.raw[oid] = {p: IntVal(0) for p in FLAGS}
        c, init = self.class_attr(cls, '__init__')
        self.inline(Fn(c.mod, init, c), [new] + args, kwargs, st)
        f = st.fields.pop(oid)
        raw = st.raw.pop(oid)
        if k == 2:
            if not isinstance(f.get('_left'), Obj) or not isinstance(f.get('_right'), Obj):
                raise Unsupported('couplet')
            l, r = f['_left'].v, f['_right'].v
            for w, x in (('left', l), ('right', r)):
                self.ob(st, 'component %s of a couplet is a math object' % w, 'undef', And(kind(x) >= 1, kind(x) <= 4), node)
            v = th.cpl(l, r)
            st.sub[(oid, 'left')], st.sub[(oid, 'right')] = f['_left'].oid, f['_right'].oid
        else:
            d = f.get('_data')
            if isinstance(d, DataRef) or isinstance(d, CellRef) and d.cid < oid:
                self.ob(st, 'data of a new object is its own', 'frame', BoolVal(k == 3), node)
            if isinstance(d, (CellRef, DataRef)):
                d = self.content(d, st)
            if not isinstance(d, Coll) or d.k != ('fset' if k == 3 else 'counter'):
                raise Unsupported('data of a new object: %r' % (d,))
            v = d.t
        o = Obj(v, oid)
        st.created.add(oid)
        st.heap[oid] = {}
        for p in FLAGS:
            w = simp(raw[p])
            if p in TYPEKIND:
                good = w == (1 if TYPEKIND[p] == k else 2)
                if not is_true(simp(good)):
                    self.ob(st, 'new %s: flag %s is the type' % (cls.node.name, p), 'flags', good, node)
                continue
            if z3.is_int_value(w) and w.as_long() == 0:
                continue
            self.new_flag(k, cls, p, v, w, st, node)
            st.heap[oid][p] = simp(w != 0)
        return o

    def new_flag(self, k, cls, p, v, w, st, node):
        """Initial flag of a new object is unknown or the truth; proved once for all values if it depends only on emptiness."""
        u = z3.Const('new', V)
        g = z3.substitute(w, (v, u))
        key = (k, p, g.sexpr())
        if th_closed(g, u):
            if key not in self.truthful:
                nested = self.nested_write(p, u, g)
                goal = simp(Or(g == 0, g == self.st_of(p, u), nested))
                self.truthful[key] = self.pr.prove([kind(u) == k], goal)
                if self.truthful[key] and not is_true(goal):
                    self.obs.append(Ob('new %s: initial flag %s is the truth' % (cls.node.name, p), 'flags', [kind(u) == k], goal,
                                       '%s.__init__' % cls.node.name))
            if self.truthful[key]:
                return
        if True:
            nested = self.nested_write(p, v, w)
            self.ob(st, 'new %s: initial flag %s is the truth' % (cls.node.name, p), 'flags', Or(w == 0, w == self.st_of(p, v), nested), node)

    # --- ground sets ------------------------------------------------------------------------------
    def ground_level(self, o, s, st, node):
        """o.get_ground_set().get_powerset_level(s): assumed contract of structure.py (decided, bounded, by C16)."""
        m = 'CartesianProduct(GenesisSetM(),GenesisSetM())'
        name = {'PowerSet(%s)' % m: 'relations', 'PowerSet(PowerSet(%s))' % m: 'clans'}.get(s)
        if name is None:
            raise Unsupported('powerset level of ' + s)
        v = o.v
        self.ob(st, 'ground set of something that is no math object', 'undef', And(kind(v) >= 1, kind(v) <= 4), node)
        self.assumed.add('spec/logic.py: ground_%s (structure.py: get_powerset_level)' % name)
        n = z3.Function('level_' + name, V, I)(v)
        st.path.append(Spec(self.th).call('ground_' + name, v, n))
        return PI(n)

    # --- builtins ---------------------------------------------------------------------------------
    def is_instance(self, o, c, st, node):
        if isinstance(c, Seq):
            return simp(Or(*[self.is_instance(o, x, st, node) for x in c.items]))
        name = None
        if isinstance(c, Cls):
            name = c.node.name
        elif isinstance(c, Bi):
            name = c.name.split('.')[-1]
        if isinstance(o, Obj):
            k = kind(o.v)
            if name == 'MathObject':
                return simp(And(k >= 1, k <= 4))
            if name in ('Atom', 'Couplet', 'Set', 'Multiset'):
                return simp(k == {'Atom': 1, 'Couplet': 2, 'Set': 3, 'Multiset': 4}[name])
            if name in ('str', 'dict', 'Counter', 'int', 'frozenset', 'set', 'list', 'tuple', 'float', 'bool', 'Mapping'):
                return simp(And(k == 5, z3.Function('is_' + name, V, B)(o.v)))
            if isinstance(c, Bi) and c.name.startswith('rdflib.') and name in th.RDF_CLASSES:
                return simp(And(k == 5, z3.Function('is_' + name, V, B)(o.v)))
            if name in ('Iterable', 'Collection'):
                return simp(Or(k == 3, k == 4, And(k == 5, z3.Function('is_' + name, V, B)(o.v))))
            if name == 'Undef':
                return simp(k == 0)
        elif isinstance(o, (Seq, SymSeq)) and name in ('tuple', 'list', 'Collection'):
            if isinstance(o, SymSeq) and o.counted:
                return z3.Function('is_' + name, V, B)(o.q)
            return BoolVal(name == 'Collection' or name == ('list' if isinstance(o, Seq) and o.islist else 'tuple'))
        elif isinstance(o, (Coll, CellRef, DataRef, Seq, GenV, SymSeq, SymDict, View)) or isinstance(o, Opaque) and o.what[0] == 'genfn':
            if name in ('MathObject', 'Atom', 'Couplet', 'Set', 'Multiset', 'str', 'int', 'Undef'):
                return th.F
            if name == 'Iterable':
                return th.T
            cc = self.content(o, st)
            counter = isinstance(cc, Coll) and cc.k == 'counter'
            if name == 'Counter':
                return BoolVal(counter)
            if name == 'dict':
                return BoolVal(counter or isinstance(cc, SymDict))
            if name in ('frozenset',):
                return BoolVal(isinstance(cc, Coll) and cc.k == 'fset')
        elif isinstance(o, PI):
            if name == 'int':
                return th.T
            return th.F
        elif isinstance(o, Py):
            if name == 'str':
                return BoolVal(isinstance(o.c, str))
            if name in ('MathObject', 'Atom', 'Couplet', 'Set', 'Multiset'):
                return th.F
        raise Unsupported('isinstance(%r, %s)' % (o, name))

    def builtin(self, f, args, kwargs, st, node):
        name = f.name
        if isinstance(f.self_, Opaque) and f.self_.what[0] == 'ground':
            if name == 'get_ground_set' and not args:
                return Opaque(('ground', f.self_.what[1]))
            if name == 'get_powerset_level' and len(args) == 1 and isinstance(args[0], Opaque) and args[0].what[0] == 'struct':
                return self.ground_level(f.self_.what[1], args[0].what[1], st, node)
            raise Unsupported('ground set: ' + name)
        if f.self_ is not None:
            return self.bi_method(f.self_, name, args, kwargs, st, node)
        if name.startswith('rdflib.'):
            return self.rdf_call(name, args, kwargs, st, node)
        short = name.split('.')[-1]
        if name.startswith(('collections.', 'functools.', 'types.', 'itertools.', 'abc.', 'typing.')):
            name = short
        if name == 'isinstance':
            return PB(self.is_instance(args[0], args[1], st, node))
        if name == 'len':
            o = args[0]
            if isinstance(o, Obj):
                return self.method_call(o, '__len__', [], st, node)
            c = self.content(o, st)
            if isinstance(c, Coll):
                if c.k == 'fset':
                    return PI(th.card(c.t))
                s = self.demultify(c.t)
                return PI(th.card(s))
            if isinstance(c, Seq):
                return PI(IntVal(len(c.items)))
            if isinstance(c, Opaque) and c.what[0] == 'dict':
                return PI(IntVal(len(c.what[1])))
            if isinstance(c, View):
                return self.builtin(f, [c.coll], kwargs, st, node)
            if isinstance(c, SymSeq):
                return PI(self.seq_len(c, st, node))
            raise Unsupported('len(%r)' % (c,))
        if name == 'sum':
            a = args[0]
            if isinstance(a, View) and a.which == 'values':
                c = self.content(a.coll, st)
                if isinstance(c, Coll) and c.k == 'counter':
                    return PI(th.card(c.t))
            raise Unsupported('sum')
        if name in ('all', 'any'):
            brs, _ = self.domain(args[0], st, node)
            parts = []
            for b in brs:
                n = len(st.path)
                st.path += b.doms + [b.cond]
                t = simp(self.truth(b.val, st, node))
                del st.path[n:]
                if name == 'all':
                    parts.append(self.th.all(b.binders, b.doms, b.cond, t) if b.binders else Implies(b.cond, t))
                else:
                    parts.append(self.th.any(b.binders, b.doms, b.cond, t) if b.binders else And(b.cond, t))
            return PB(simp(And(*parts) if name == 'all' else Or(*parts)))
        if name in ('frozenset', 'set'):
            if not args:
                c = Coll(th.EMPTY, 'fset')
            else:
                c = self.collect(args[0], st, node)
                if isinstance(c, dict):
                    c = Coll(c['adds'], 'fset')
            if name == 'frozenset':
                return c
            cid = self.oid()
            st.cells[cid] = c
            return CellRef(cid)
        if name == 'Counter':
            cid = self.oid()
            if not args:
                st.cells[cid] = Coll(th.MEMPTY, 'counter')
            else:
                a = args[0]
                if isinstance(a, Opaque) and a.what[0] == 'dict' and len(a.what[1]) == 1:
                    k, v = a.what[1][0]
                    if not (isinstance(k, Obj) and isinstance(v, PI) and z3.is_int_value(simp(v.i)) and simp(v.i).as_long() == 1):
                        raise Unsupported('Counter of a dict')
                    self.ob(st, 'element of a multiset is a math object', 'undef', And(kind(k.v) >= 1, kind(k.v) <= 4), node)
                    st.cells[cid] = Coll(th.msingle(k.v), 'counter')
                else:
                    st.cells[cid] = self.collect(a, st, node, True)
            return CellRef(cid)
        if name == 'defaultdict' and len(args) == 1 and isinstance(args[0], Bi):
            d = {'set': 'fset', 'collections.Counter': 'counter'}.get(args[0].name)
            if d is None:
                raise Unsupported('defaultdict')
            cid = self.oid()
            st.cells[cid] = dict(newdict=True, cid=cid, default=d)
            return CellRef(cid)
        if name in ('list', 'tuple'):
            if args and isinstance(args[0], (Seq,)):
                return Seq(args[0].items, name == 'list')
            if args and isinstance(args[0], SymSeq):
                return args[0]
            if args:
                brs, d = self.domain(args[0], st, node)
                return GenV(brs)
            return Seq([], name == 'list')
        if name == 'iter':
            cid = self.oid()
            a = args[0]
            if isinstance(a, IterV):
                return a
            if isinstance(a, Opaque) and a.what[0] == 'genfn':
                a = self.run_gen(a, st)
            st.cells[cid] = (a, None)
            return IterV(cid)
        if name == 'next':
            a = args[0]
            if isinstance(a, GenV):
                brs = a.branches
                first = None
            elif isinstance(a, IterV):
                src, first = st.cells[a.cid]
                if first is not None:
                    raise Unsupported('second next()')
                brs, _ = self.domain(src, st, node)
            else:
                raise Unsupported('next(%r)' % a)
            if len(brs) != 1:
                raise Unsupported('next')
            b, _ = self.rename(brs[0], st)
            ne = self.th.any(b.binders, b.doms, b.cond, th.T)
            if len(b.binders) == 1 and b.doms[0].decl().name() == 'mem' and is_true(simp(b.cond)):
                ne = th.nonempty(b.doms[0].arg(1))
            if isinstance(a, IterV) and not isinstance(b.val, Obj):
                raise Unsupported('next')

            def there(s):
                s.path += b.doms + [simp(b.cond)]
                if isinstance(a, IterV):
                    s.cells[a.cid] = (src, b.val.v)
                return b.val
            if len(args) > 1:
                d = self.decide(st, ne)
                if d is not None:
                    return there(st) if d else args[1]
                return self.alts(st, [(ne, there), (Not(ne), lambda s: args[1])])
            self.ob(st, 'next() of an empty iterator', 'undef', ne, node)
            return there(st)
        if name == 'partial':
            return Partial(args[0], args[1:], kwargs)
        if name == 'MethodType':
            return Bound(args[0], args[1])
        if name in ('min', 'max') and len(args) == 2:
            l, r = self.norm(args[0]), self.norm(args[1])
            if isinstance(l, PI) and isinstance(r, PI):
                return PI(If(l.i <= r.i, l.i, r.i) if name == 'min' else If(l.i >= r.i, l.i, r.i))
        if name == 'bool':
            return PB(self.truth(args[0], st, node))
        if name == 'type':
            return Opaque(('type',))
        if name == 'hash' and isinstance(args[0], Obj):
            return PI(z3.Function('hash_of', V, z3.IntSort())(args[0].v))       # equal objects have equal hashes, nothing else is known
        if name in ('str', 'repr', 'id') and len(args) == 1 and isinstance(args[0], Obj):
            return Opaque((name + ' of', args[0]))
        if name in ('str', 'repr', 'hash', 'id', 'print'):
            return Opaque(('str',))
        if name == 'range':
            ns = [self.norm(a) for a in args]
            if len(ns) == 1 and isinstance(ns[0], PI):
                return Opaque(('range', ns[0].i))
        if name == 'combinations':
            k = self.norm(args[1])
            return Opaque(('combinations', args[0], k.i))
        if name in ('TypeError', 'AssertionError', 'Exception', 'ValueError'):
            return Opaque(('exc', name))
        if name == 'hasattr':
            raise Unsupported('hasattr')
        if name.endswith('get_hash'):
            return Opaque(('hash',))
        if name == 'map' and len(args) == 2:
            brs, d = self.domain(args[1], st, node)
            out = []
            for b in brs:
                n = len(st.path)
                start = self.th.nfresh
                st.path += b.doms + [b.cond]
                base = len(st.path)
                v = self.call(args[0], [b.val], {}, st, node)
                conds = [b.cond] + st.path[base:]
                del st.path[n:]
                self.add_branch(out, b.binders, b.doms, conds, v, b.weight, start, st)
            return GenV(out)
        if name == 'filter' and len(args) == 2:
            brs, d = self.domain(args[1], st, node)
            out = []
            for b in brs:
                n = len(st.path)
                start = self.th.nfresh
                st.path += b.doms + [b.cond]
                base = len(st.path)
                t = self.truth(self.call(args[0], [b.val], {}, st, node), st, node)
                conds = [b.cond, t] + st.path[base:]
                del st.path[n:]
                self.add_branch(out, b.binders, b.doms, conds, b.val, b.weight, start, st)
            return GenV(out)
        raise Unsupported('builtin %s' % name)

    # --- RDF library: contracts -------------------------------------------------------------------
    def rdf_term(self, v, st):
        v = self.literal(v, st) if isinstance(v, Py) and isinstance(v.c, str) else v
        if isinstance(v, Py) and v.c is None:
            return th.NONE
        if isinstance(v, Obj):
            return v.v
        raise Unsupported('argument of the RDF library')

    def rdf_data(self, o, st):
        d = st.cells[o.what[1]]
        if not isinstance(d, Triples):
            raise Unsupported('RDF graph that is not parsed')
        a, g = self.th.fresh('t'), d.q
        for i in range(3):
            p = th.RDF['part'](a, i)
            cls = [z3.Function('is_' + n, V, B)(p) for n in th.RDF_CLASSES]
            st.path.append(th.fa([a], [p], Implies(item(a, g), And(kind(p) == 5, th.is_str(p), Or(*cls), kind(th.RDF['native'](p)) == 5, *[
                Not(And(x, y)) for j, x in enumerate(cls) for y in cls[:j]]))))
        return d

    def rdf_call(self, name, args, kwargs, st, node):
        if name == 'rdflib.Graph' and not args and not kwargs:
            c = self.oid()
            st.cells[c] = Opaque(('empty RDF graph',))
            return Opaque(('rdfgraph', c))
        if name in ('rdflib.util.guess_format', 'rdflib.guess_format') and len(args) == 1 and not kwargs:
            s = self.rdf_term(args[0], st)
            f, v = th.RDF['guess_fails'](s), th.RDF['guess'](s)
            if self.trying:
                self.trying[-1].append((f, len(st.path)))
            else:
                self.ob(st, 'exception of guess_format', 'undef', Not(f), node)
            st.path += [Or(v == th.NONE, And(kind(v) == 5, th.is_str(v))), kind(th.NONE) == 6, Implies(And(kind(s) == 5, th.is_str(s)), Not(f))]
            self.optional.add(v.get_id())
            self.names.add(v.get_id())
            return Obj(v, self.oid())
        raise Unsupported('builtin ' + name)

    def rdf_method(self, o, name, args, kwargs, st, node):
        d = st.cells[o.what[1]]
        if name == 'parse' and not isinstance(d, Triples) and len(args) <= 1 and not set(kwargs) - {'source', 'format'} and \
                len(args) + ('source' in kwargs) == 1:
            s = self.rdf_term(args[0] if args else kwargs['source'], st)
            f = self.rdf_term(kwargs.get('format', Py(None)), st)
            st.cells[o.what[1]] = Triples(th.RDF['parsed'](s, f))
            return o
        if name == 'skolemize' and isinstance(d, Triples) and not args and not kwargs:
            c = self.oid()
            st.cells[c] = Triples(th.RDF['skolemized'](d.q))
            return Opaque(('rdfgraph', c))
        raise Unsupported('method %s of an RDF graph' % name)

    def demultify(self, t):
        x = self.th.fresh('e')
        return self.th.setof([x], [mem(x, t)], th.T, x)

    def bi_method(self, o, name, args, kwargs, st, node):
        if isinstance(o, Opaque) and o.what[0] == 'rdfgraph':
            return self.rdf_method(o, name, args, kwargs, st, node)
        if isinstance(o, Obj) and name == 'toPython' and not args and not kwargs:
            self.ob(st, 'toPython of something that is no literal', 'undef', And(kind(o.v) == 5, z3.Function('is_Literal', V, B)(o.v)), node)
            return Obj(th.RDF['native'](o.v), self.oid())
        if isinstance(o, CellRef) and isinstance(st.cells[o.cid], dict) and 'groupref' in st.cells[o.cid]:
            if name == 'add' and isinstance(args[0], Obj):
                return self.group_add(st.cells[o.cid], args[0], IntVal(1), 'fset', st)
            raise Unsupported('method %s of a value of a dictionary' % name)
        if isinstance(o, CellRef) and name in ('add', 'update', 'append', 'extend'):
            return self.cell_method(o, st.cells[o.cid], name, args, st, node)
        c = self.content(o, st)
        if isinstance(c, Coll):
            if c.k == 'fset' and name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint'):
                if len(args) != 1:
                    raise Unsupported(name)
                r = self.collect(args[0], st, node)
                if isinstance(r, dict):
                    r = Coll(r['adds'], 'fset')
                S = Spec(self.th)
                if name == 'issubset':
                    return PB(S.call('subset', c.t, r.t))
                if name == 'issuperset':
                    return PB(S.call('subset', r.t, c.t))
                if name == 'isdisjoint':
                    return PB(Not(th.nonempty(S.call('intersect', c.t, r.t))))
                return Coll(S.call({'union': 'union', 'intersection': 'intersect', 'difference': 'minus'}[name], c.t, r.t), 'fset')
            if c.k == 'counter' and name in ('items', 'keys', 'values', 'elements'):
                return View(o, name)
            if c.k == 'counter' and name == 'get' and len(args) == 2:
                d = self.norm(args[1])
                if isinstance(args[0], Obj) and isinstance(d, PI) and z3.is_int_value(simp(d.i)) and simp(d.i).as_long() == 0:
                    return PI(mult(args[0].v, c.t))
            if name == 'copy':
                cid = self.oid()
                st.cells[cid] = c
                return CellRef(cid)
        if isinstance(o, DataRef) and name in ('setdefault', 'update', 'subtract', 'pop', 'popitem', 'clear', 'add', 'remove', 'discard'):
            if o.obj.oid not in st.created or o.obj.oid in st.escaped:
                self.ob(st, 'modification of the data of an existing object', 'frame', BoolVal(False), node, False)
                if isinstance(c, Coll) and c.k == 'counter' and name in ('setdefault', 'pop'):
                    return PI(self.th.fresh('n', I))
                return Py(None)
        if isinstance(o, CellRef):
            return self.cell_method(o, c, name, args, st, node)
        if isinstance(o, SymDict) and name in ('items', 'keys', 'values'):
            return View(o, name)
        if isinstance(o, Obj) and name == 'startswith' and len(args) == 1:
            ps = args[0].items if isinstance(args[0], Seq) else [args[0]]
            if all(isinstance(x, Py) and isinstance(x.c, str) for x in ps):
                self.ob(st, 'startswith of a string', 'undef', And(kind(o.v) == 5, th.is_str(o.v)), node)
                return PB(Or(*[th.starts(o.v, x.c) for x in ps]))
        if isinstance(o, (Py, Opaque)):
            if name in ('format', 'join'):
                return Opaque(('str',))
        if isinstance(o, Seq) and name in ('extend', 'append'):
            raise Unsupported('list method')
        raise Unsupported('method %s of %r' % (name, c))

    # --- accumulation -----------------------------------------------------------------------------
    def cell_method(self, o, c, name, args, st, node):
        if isinstance(c, Coll) and c.k == 'fset' and name == 'add':
            return self.accumulate(o, [Branch([], [], th.T, args[0], IntVal(1))], st, node)
        if isinstance(c, Coll) and c.k == 'fset' and name == 'update':
            return self.accumulate(o, self.domain(args[0], st, node)[0], st, node)
        if isinstance(c, Coll) and c.k == 'counter' and name == 'update':
            a = args[0]
            cc = self.content(a, st)
            if isinstance(cc, Coll) and cc.k == 'counter':
                brs, _ = self.domain(View(a, 'elements'), st, node)
            else:
                brs, _ = self.domain(a, st, node)
            return self.accumulate(o, brs, st, node)
        if isinstance(c, dict) and c.get('list'):
            if name == 'append':
                return self.accumulate(o, [Branch([], [], th.T, args[0], IntVal(1))], st, node)
            if name == 'extend':
                return self.accumulate(o, self.domain(args[0], st, node)[0], st, node)
        if isinstance(c, dict) and ('newdict' in c or 'group' in c):
            return self.dict_method(o, c, name, args, st, node)
        raise Unsupported('method %s of a container' % name)

    def dict_method(self, o, c, name, args, st, node):
        if name in ('items', 'keys', 'values'):
            return View(o, name)
        if name == 'setdefault' and len(args) == 2:
            self.open_dict(c, args[0], st)
            self.dict_init(c, args[0], self.container_kind(args[1], st), st)
            return self.group_ref(c, args[0], st)
        raise Unsupported('dict.' + name)

    def accumulate(self, o, brs, st, node):
        self.nwrites += 1
        """Add the branches' values to the container."""
        if o.cid in st.log:
            extra = self.essential(st.path, self.logbase[o.cid])
            for b in brs:
                st.log[o.cid].append((list(b.binders), list(b.doms), simp(And(b.cond, *extra)), b.val, b.weight))
            return Py(None)
        return self.apply_adds(o, brs, st, node)

    def apply_adds(self, o, brs, st, node):
        c = st.cells[o.cid]
        if isinstance(c, Coll) and c.k == 'fset':
            r = self.collect_branches(brs, st, node)
            st.cells[o.cid] = Coll(r.t if c.t.eq(th.EMPTY) else self.union([c.t, r.t]), 'fset')
        elif isinstance(c, Coll) and c.k == 'counter':
            if not c.t.eq(th.MEMPTY):
                raise Unsupported('accumulation into a counter that is not empty')
            brs = [b for b in brs]
            if len(brs) != 1 or not brs[0].binders:
                raise Unsupported('accumulation into a counter')
            st.cells[o.cid] = self.collect_branches(brs, st, node, True)
        elif isinstance(c, dict) and c.get('list'):
            r = self.collect_branches(brs, st, node, check=False)
            st.cells[o.cid] = dict(adds=r.t if c['adds'].eq(th.EMPTY) else self.union([c['adds'], r.t]), list=True)
        else:
            raise Unsupported('accumulation')
        return Py(None)

    # --- statements -------------------------------------------------------------------------------
    def block(self, stmts, states, fid):
        outs = []
        for s in stmts:
            nxt = []
            for st in states:
                o, f = self.stmt(s, st, fid)
                outs += o
                nxt += f
            states = nxt
            if len(states) > 24:
                raise Unsupported('too many paths')
            if not states:
                break
        return outs, states

    def stmt(self, s, st, fid, depth=0):
        saved, n = st.copy(), len(self.obs)
        gout = [(g, len(g['out'])) for g in self.genstack if g]
        try:
            return self.stmt1(s, st, fid)
        except Split as sp:
            if depth > 6:
                raise Unsupported('too many splits')
            del self.obs[n:]
            for g, k in gout:
                del g['out'][k:]
            outs, falls = [], []
            for c in (sp.cond, Not(sp.cond)):
                s2 = saved.copy()
                s2.path.append(simp(c))
                if not self.feasible(s2):
                    continue
                o, f = self.stmt(s, s2, fid, depth + 1)
                outs += o
                falls += f
            return outs, falls

    def stmt1(self, s, st, fid):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s:%d' % (type(s).__name__, self.where[-1], s.lineno))
        r = m(s, st, fid)
        return r if r is not None else ([], [st])

    def s_Pass(self, s, st, fid): return None
    def s_Nonlocal(self, s, st, fid): raise Unsupported('nonlocal')

    def s_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant):
            return None
        if isinstance(s.value, ast.Yield):
            g = self.genstack[-1]
            if g is None or g['fid'] != fid:
                raise Unsupported('yield')
            v = self.ev(s.value.value, st, fid)
            conds = [p for j, p in enumerate(st.path[g['base']:]) if j + g['base'] not in g['dompos']]
            self.add_branch(g['out'], g['binders'], g['doms'], conds, v, g['weight'], g['start'], st)
            return None
        if isinstance(s.value, ast.YieldFrom):
            g = self.genstack[-1]
            it = self.ev(s.value.value, st, fid)
            brs, _ = self.domain(it, st, s)
            for b in brs:
                b, _ = self.rename(b, st)
                conds = [p for j, p in enumerate(st.path[g['base']:]) if j + g['base'] not in g['dompos']] + [b.cond]
                self.add_branch(g['out'], g['binders'] + b.binders, g['doms'] + b.doms, conds, b.val, simp(g['weight'] * b.weight), g['start'], st)
            return None
        self.ev(s.value, st, fid)

    def s_Return(self, s, st, fid):
        v = self.ev(s.value, st, fid) if s.value is not None else Py(None)
        return [Out('ret', st, v)], []

    def only_level(self, p):
        c = [] if z3.is_quantifier(p) else self.level_consts(p)
        return bool(c) and all(x in self.levels for x in c)

    def level_consts(self, p):
        """Ids of the constants of p that are no values."""
        out, stack = [], [p]
        while stack:
            q = stack.pop()
            if z3.is_app(q) and q.num_args() == 0 and q.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(q.get_id())
            stack += q.children()
        return out

    def s_Raise(self, s, st, fid):
        if self.levels and isinstance(s.exc, ast.Call):
            v = self.ev(s.exc.func, st, fid)
            if isinstance(v, Cls) and v.mod.name.endswith('undef') and v.node.name == 'UndefException':
                # allowed at a higher level than the initial one, whatever the result is; the path ends (no handlers: s_Try)
                known = [p for p in st.path if self.only_level(p)]
                ok = Or(*[l > v for l, v in self.levels.values()])
                q = State()
                q.path = known if known else list(st.path)
                self.ob(q, 'the undefined exception is raised at a higher level only', 'undef', ok, s)
                return [], []
        return [Out('raise', st, ast.unparse(s.exc)[:80] if s.exc else 'raise')], []

    def s_Assert(self, s, st, fid):
        t = self.truth(self.ev(s.test, st, fid), st, s)
        self.ob(st, 'assert ' + ast.unparse(s.test)[:100], 'assert', t, s)

    def s_FunctionDef(self, s, st, fid):
        st.frames[fid][s.name] = Fn(st.frames[fid]['%mod'], s, None, fid)

    def s_Import(self, s, st, fid):
        for a in s.names:
            st.frames[fid][a.asname or a.name.split('.')[0]] = Mod(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s, st, fid):
        m = Module.__new__(Module)
        base = st.frames[fid]['%mod']
        m.name, m.pkg, m.names = base.name, base.pkg, {}
        m.index(s, m.names)
        for k, n in m.names.items():
            st.frames[fid][k] = self.globval(m, n, st)

    def s_Assign(self, s, st, fid):
        v = self.ev(s.value, st, fid)
        for t in s.targets:
            self.bind(t, v, st, fid, s)

    def s_AnnAssign(self, s, st, fid):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, st, fid), st, fid, s)

    def bind(self, t, v, st, fid, node=None):
        if isinstance(t, ast.Name):
            st.frames[fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Seq) and len(v.items) == len(t.elts):
                for x, y in zip(t.elts, v.items):
                    self.bind(x, y, st, fid, node)
            else:
                raise Unsupported('unpacking of %r' % v)
        elif isinstance(t, ast.Attribute):
            self.store_attr(self.ev(t.value, st, fid), t.attr, v, st, node or t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fid)
            k = self.ev(t.slice if not isinstance(t.slice, ast.Index) else t.slice.value, st, fid)
            self.store_sub(o, k, v, st, node or t)
        else:
            raise Unsupported('assignment target')

    def store_attr(self, o, name, v, st, node):
        self.nwrites += 1
        if isinstance(o, BitsOf):
            v = self.norm(v)
            if isinstance(v, PB):
                v = PI(If(self.truth(v, st, node), IntVal(1), IntVal(0)))
            if not isinstance(v, PI):
                raise Unsupported('flag value')
            if isinstance(o.flags, NewFlags):
                st.cells[o.flags.cid] = {**st.cells[o.flags.cid], name: simp(v.i)}
            elif isinstance(o.flags.obj, New):
                st.raw[o.flags.obj.oid][name] = simp(v.i)
            else:
                if name in NOT_NA:
                    pass
                self.write_flag(st, o.flags.obj, name, v.i, node)
            return
        if isinstance(o, New):
            if name == '_flags' and isinstance(v, NewFlags):
                st.raw[o.oid] = dict(st.cells[v.cid])
                return
            st.fields[o.oid][name] = v
            return
        if isinstance(o, FlagsOf) and name == 'asint' and isinstance(o.obj, New) and isinstance(v, FlagsInt):
            st.raw[o.obj.oid] = dict(v.d)
            return
        if isinstance(o, Obj) and name.endswith('_redirect') and isinstance(v, Bound):
            ok = isinstance(v.self_, Obj) and v.self_.oid == o.oid
            if not ok:
                raise Unsupported('redirection to another object')
            if self.redirects is not None:
                self.redirects.append((name, o.v, list(st.path), v.fn))
            st.fields.setdefault(o.oid, {})[name] = v
            return
        if isinstance(o, Obj):
            self.ob(st, 'modification of attribute %s of an existing object' % name, 'frame', BoolVal(False), node, False)
            return
        raise Unsupported('store to %s of %r' % (name, o))

    def store_sub(self, o, k, v, st, node):
        self.nwrites += 1
        v = self.norm(v)
        if isinstance(o, DataRef):
            if o.obj.oid not in st.created or o.obj.oid in st.escaped:
                self.ob(st, 'modification of the data of an existing object', 'frame', BoolVal(False), node, False)
                return
            if isinstance(k, Obj) and isinstance(v, PI):
                return self.counter_set(o, k, v, st, node)
        if isinstance(o, CellRef):
            c = st.cells[o.cid]
            if isinstance(c, Coll) and c.k == 'counter' and isinstance(k, Obj) and isinstance(v, PI):
                return self.counter_set(o, k, v, st, node)
            if isinstance(c, dict) and 'groupref' in c:
                if isinstance(k, Obj) and isinstance(v, PI):
                    self.ob(st, 'multiplicity is positive', 'value', v.i > 0, node, False)
                    return self.group_add(c, k, v.i, 'counter', st)
                raise Unsupported('value of a dictionary')
            if isinstance(c, dict):
                return self.dict_set(o, c, k, v, st, node)
        raise Unsupported('store to a subscript of %r' % o)

    def counter_set(self, o, k, v, st, node):
        """c[k] = v"""
        if isinstance(o, DataRef):
            if '%dataset' in st.log:
                st.log['%dataset'].append((o, k.v, v.i, list(st.path)))
                return
            raise Unsupported('assignment to the data of an object')
        if o.cid in st.log:
            self.ob(st, 'multiplicity is positive', 'value', v.i > 0, node, False)
            extra = self.essential(st.path, self.logbase[o.cid])
            st.log[o.cid].append(([], [], simp(And(*extra)) if extra else th.T, Obj(k.v, self.oid()), v.i, 'set'))
            return
        raise Unsupported('assignment to a counter')

    def s_AugAssign(self, s, st, fid):
        if isinstance(s.target, ast.Subscript) and isinstance(s.op, ast.Add):
            o = self.ev(s.target.value, st, fid)
            k = self.ev(s.target.slice, st, fid)
            v = self.norm(self.ev(s.value, st, fid))
            if isinstance(o, CellRef) and isinstance(st.cells[o.cid], dict) and 'groupref' in st.cells[o.cid] and isinstance(k, Obj) and isinstance(v, PI):
                self.ob(st, 'multiplicity is positive', 'value', v.i > 0, s, False)
                return self.group_add(st.cells[o.cid], k, v.i, 'counter', st) and None
            if isinstance(o, CellRef) and isinstance(st.cells[o.cid], Coll) and st.cells[o.cid].k == 'counter' and isinstance(k, Obj) and isinstance(v, PI):
                self.ob(st, 'multiplicity is positive', 'value', v.i > 0, s, False)
                return self.accumulate(o, [Branch([], [], th.T, k, v.i)], st, s) and None
            raise Unsupported('augmented assignment')
        if isinstance(s.target, ast.Name):
            l, r = self.ev(ast.Name(id=s.target.id, ctx=ast.Load()), st, fid), self.ev(s.value, st, fid)
            st.frames[fid][s.target.id] = self.binop(s.op, self.norm(l), self.norm(r), st, s)
            return
        raise Unsupported('augmented assignment')

    def s_If(self, s, st, fid):
        t = simp(self.truth(self.ev(s.test, st, fid), st, s.test))
        d = self.decide(st, t)
        if d is not None:
            return self.block(s.body if d else s.orelse, [st], fid)
        base = len(st.path)
        s1, s2 = st.copy(), st
        s1.path.append(t)
        s2.path.append(simp(Not(t)))
        o1, f1 = self.block(s.body, [s1], fid)
        o2, f2 = self.block(s.orelse, [s2], fid)
        falls = f1 + f2
        if len(f1) + len(f2) > 1:
            try:
                m, _ = self.merge(base, [(x, None) for x in falls])
                # keep the plain path when the branches cover everything
                falls = [m]
            except Unmergeable:
                pass
        return o1 + o2, falls

    def s_Break(self, s, st, fid): return [Out('break', st)], []
    def s_Continue(self, s, st, fid): return [Out('continue', st)], []

    def s_For(self, s, st, fid):
        if s.orelse:
            raise Unsupported('for-else')
        it = self.ev(s.iter, st, fid)
        g = self.genstack[-1] if self.genstack else None
        brs, distinct = self.domain(it, st, s.iter)
        if isinstance(it, (Seq, Py)):
            return self.unroll(s, brs, st, fid)
        if g is not None and g['fid'] == fid:
            return self.gen_loop(s, brs, st, fid, g)
        from .loops import loop
        return loop(self, s, it, brs, distinct, st, fid)

    def unroll(self, s, brs, st, fid):
        states, outs = [st], []
        for b in brs:
            nxt = []
            for q in states:
                self.bind(s.target, b.val, q, fid)
                o, f = self.block(s.body, [q], fid)
                for x in o:
                    if x.what == 'continue':
                        nxt.append(x.st)
                    elif x.what == 'break':
                        raise Unsupported('break')
                    else:
                        outs.append(x)
                nxt += f
            states = nxt
        return outs, states

    def gen_loop(self, s, brs, st, fid, g):
        outs = []
        for b in brs:
            q = st.copy()
            b, _ = self.rename(b, q)
            sv = (g['binders'], g['doms'], g['weight'], set(g['dompos']))
            g['binders'], g['doms'], g['weight'] = sv[0] + b.binders, sv[1] + b.doms, simp(sv[2] * b.weight)
            for d in b.doms:
                g['dompos'].add(len(q.path))
                q.path.append(d)
            if not is_true(simp(b.cond)):
                q.path.append(b.cond)
            assigned = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for n in assigned:
                if n in q.frames[fid]:
                    q.frames[fid][n] = POISON
            self.bind(s.target, b.val, q, fid)
            try:
                o, f = self.block(s.body, [q], fid)
            except PoisonRead as p:
                raise Unsupported('loop-carried variable %s in a generator' % p.name)
            for x in o:
                if x.what in ('break', 'ret'):
                    raise Unsupported('%s in a generator loop' % x.what)
                if x.what == 'raise':
                    outs.append(x)
            g['binders'], g['doms'], g['weight'], g['dompos'] = sv
            for n in assigned:
                if n in st.frames[fid]:
                    st.frames[fid][n] = POISON
            for o_ in st.created & set(q.heap):
                st.escaped.add(o_)
        return outs, [st]

    def s_While(self, s, st, fid): raise Unsupported('while')
    def s_Try(self, s, st, fid):
        """One simple statement that may raise the exception by calling a function of another library."""
        h = s.handlers
        if len(s.body) != 1 or not isinstance(s.body[0], (ast.Assign, ast.AnnAssign, ast.Return)) or s.finalbody or s.orelse or len(h) != 1 \
                or h[0].name or not all(isinstance(x, ast.Name) and x.id in ('AttributeError', 'TypeError', 'ValueError', 'Exception') for x in (
                    h[0].type.elts if isinstance(h[0].type, ast.Tuple) else [h[0].type])):
            raise Unsupported('try')
        before, n = st.copy(), len(st.path)
        self.trying.append([])
        try:
            nobs = len(self.obs)
            o1, f1 = self.block(s.body, [st], fid)
            if any(isinstance(x, ast.Call) for b in s.body for x in ast.walk(b)) and not self.trying[-1] or any(m != n for _, m in self.trying[-1]):
                raise Unsupported('try')
        finally:
            fails = self.trying.pop()
        c = simp(Or(*[f for f, _ in fails]))
        for x in [o.st for o in o1] + f1:
            x.path.append(simp(Not(c)))
        before.path.append(c)
        o2, f2 = self.block(h[0].body, [before], fid)
        return o1 + o2, f1 + f2
    def s_With(self, s, st, fid): raise Unsupported('with')


def simp_conv(it, st, v):
    """conv(v), simplified to v for what is known to be a math object or undefined."""
    if it.decide(st, kind(v) <= 4) is True:
        return v
    if v.decl().name() == 'conv':
        return v
    return conv(v)


def th_closed(e, u):
    """e has no free constants but u."""
    stack, seen = [e], set()
    while stack:
        q = stack.pop()
        if q.get_id() in seen:
            continue
        seen.add(q.get_id())
        if z3.is_app(q):
            if q.num_args() == 0 and q.decl().kind() == z3.Z3_OP_UNINTERPRETED and not q.eq(u) and q.decl().name() not in th.CONSTS:
                return False
            stack += q.children()
    return True
