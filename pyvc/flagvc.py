"""Verification of the cache of properties (C08): MathObject.cache_*, cached_* and _flags.py.

The functions are executed symbolically from the source in /repo, path by path, over an arbitrary state of the
15 bit-fields, an arbitrary integer argument, and an object that is empty or not. A call of another cache_* method
is replaced by its contract (spec/flags.py); everything else that is called is executed in place."""
import ast
import json
import os
import subprocess
import time
import z3

from spec import flags as SF

MO = 'algebraixlib/mathobjects/mathobject.py'
FL = 'algebraixlib/mathobjects/_flags.py'
CS = 'algebraixlib/cache_status.py'
PYPY = '/opt/venv/bin/python'
I = z3.IntSort()


class E:
    And = staticmethod(lambda *a: z3.And(*a) if a else z3.BoolVal(True))
    Or = staticmethod(lambda *a: z3.Or(*a) if a else z3.BoolVal(False))
    Not = staticmethod(z3.Not)
    ite = staticmethod(lambda c, a, b: z3.If(c, a, b))


class Unsupported(Exception):
    pass


class Raised(Exception):
    """The path ends with an exception."""
    def __init__(self, what):
        self.what = what


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Loop(Exception):
    pass


class Path(Exception):
    """The path is infeasible."""


SELF, FLAGS, FIELDSET, CSTAT, NONE, OBJ = 'self', 'self._flags', 'self._flags.f', 'CacheStatus', 'None', 'object'


class Source:
    def __init__(self, repo):
        self.repo = repo
        self.cls, self.fn = {}, {}
        for f in (MO, FL, CS):
            t = ast.parse(open(os.path.join(repo, f), encoding='utf-8').read())
            for d in t.body:
                if isinstance(d, ast.ClassDef):
                    self.cls[d.name] = d
                elif isinstance(d, ast.FunctionDef):
                    self.fn[f, d.name] = d
        for c in ('MathObject', '_Bitfields', 'CacheStatus'):
            if c not in self.cls:
                raise Unsupported('no class %s' % c)
        self.const = {}
        for s in self.cls['CacheStatus'].body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.const[t.id] = s.value.value

    def member(self, cls, name, kind):
        """kind: 'get', 'set' or 'def'"""
        found = None
        for d in self.cls[cls].body:
            if not isinstance(d, ast.FunctionDef) or d.name != name:
                continue
            decos = [ast.unparse(x) for x in d.decorator_list]
            if kind == 'get' and decos == ['property'] or kind == 'set' and decos == [name + '.setter'] or \
                    kind == 'def' and decos in ([], ['staticmethod']):
                found = d
        return found


class Run:
    """One path through one function."""
    def __init__(self, src, decisions, contracts):
        self.src, self.decisions, self.n = src, decisions, 0
        self.contracts = contracts
        self.pc = []
        self.solver = z3.Solver()
        self.s0 = {f: z3.Int('s_' + f) for f in SF.FIELDS}
        self.state = dict(self.s0)
        self.empty = z3.Bool('empty')
        self.used, self.inlined, self.queries = set(), set(), 0
        self.depth = 0
        self.calls = []
        for v in self.s0.values():
            self.solver.add(0 <= v, v <= 3)

    def feasible(self, c):
        self.queries += 1
        return self.solver.check(c) != z3.unsat

    def assume(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def choose(self, n):
        """Decide between n alternatives, the remaining ones are visited in later runs."""
        if self.n == len(self.decisions):
            self.decisions.append([0, n])
        k = self.decisions[self.n][0]
        self.n += 1
        return k

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        a, b = self.feasible(c), self.feasible(z3.Not(c))
        if not a and not b:
            raise Path()
        r = a if not (a and b) else self.choose(2) == 0
        self.assume(c if r else z3.Not(c))
        return r

    # --- expressions ------------------------------------------------------------------------------
    def truth(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.BoolVal(bool(v))
        if z3.is_expr(v):
            return v if v.sort() == z3.BoolSort() else v != 0
        if v is None:
            return z3.BoolVal(False)
        raise Unsupported('truth of %r' % (v,))

    def num(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if z3.is_expr(v):
            return v if v.sort() == I else z3.If(v, 1, 0)
        raise Unsupported('number %r' % (v,))

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if (a is None or isinstance(a, (str, tuple))) and (b is None or isinstance(b, (str, tuple))):
                r = a == b
                return z3.BoolVal(r if isinstance(op, (ast.Is, ast.Eq)) else not r)
            if isinstance(op, (ast.Is, ast.IsNot)) and not isinstance(a, str) and not isinstance(b, str):
                if a is None or b is None:
                    return z3.BoolVal(isinstance(op, ast.IsNot))
            raise Unsupported('comparison')
        if isinstance(op, (ast.In, ast.NotIn)):
            if not isinstance(b, tuple):
                raise Unsupported('in')
            r = z3.Or(*[self.num(a) == self.num(x) for x in b])
            return r if isinstance(op, ast.In) else z3.Not(r)
        a, b = self.num(a), self.num(b)
        t = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
             ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}.get(type(op))
        if t is None:
            raise Unsupported(type(op).__name__)
        return t()

    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, (ast.JoinedStr,)):
            return OBJ
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id == 'CacheStatus':
                return CSTAT
            if e.id in ('True', 'False', 'None'):
                return {'True': True, 'False': False, 'None': None}[e.id]
            for (f, n), d in self.src.fn.items():
                if n == e.id:
                    return ('fn', d)
            if e.id == '_Bitfields':
                return ('class', '_Bitfields')
            raise Unsupported('name ' + e.id)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return tuple(self.ev(x, env) for x in e.elts)
        if isinstance(e, ast.Attribute):
            return self.attr(self.ev(e.value, env), e.attr)
        if isinstance(e, ast.Compare):
            a, res = self.ev(e.left, env), None
            for op, r in zip(e.ops, e.comparators):
                if res is not None and not self.branch(res):
                    return z3.BoolVal(False)
                b = self.ev(r, env)
                res = self.compare(op, a, b)
                a = b
            return res
        if isinstance(e, ast.BoolOp):
            for x in e.values[:-1]:
                v = self.ev(x, env)
                t = self.branch(self.truth(v))
                if t != isinstance(e.op, ast.And):
                    return v
            return self.ev(e.values[-1], env)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return z3.Not(self.truth(self.ev(e.operand, env)))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return -self.num(self.ev(e.operand, env))
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.branch(self.truth(self.ev(e.test, env))) else e.orelse, env)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
            a, b = self.num(self.ev(e.left, env)), self.num(self.ev(e.right, env))
            return a + b if isinstance(e.op, ast.Add) else a - b if isinstance(e.op, ast.Sub) else a * b
        if isinstance(e, ast.Call):
            return self.call(e, env)
        raise Unsupported(type(e).__name__)

    def attr(self, o, name):
        if o == SELF:
            if name == '_flags':
                return FLAGS
            if name == 'is_empty':
                return self.empty
            d = self.src.member('MathObject', name, 'get')
            if d is not None:
                return self.invoke(d, [SELF])
            if self.src.member('MathObject', name, 'def') is not None:
                return ('method', 'MathObject', name, SELF)
        elif o == FLAGS and name == 'f':
            return FIELDSET
        elif o == FIELDSET:
            if name[:1] == '_' and name[1:] in self.state:
                return self.state[name[1:]]
            d = self.src.member('_Bitfields', name, 'get')
            if d is not None:
                return self.invoke(d, [FIELDSET])
            if self.src.member('_Bitfields', name, 'def') is not None:
                return ('method', '_Bitfields', name, FIELDSET)
        elif o == ('class', '_Bitfields'):
            if self.src.member('_Bitfields', name, 'def') is not None:
                return ('method', '_Bitfields', name, None)
        elif o == CSTAT:
            if name in self.src.const:
                return self.src.const[name]
            if self.src.member('CacheStatus', name, 'def') is not None:
                return ('method', 'CacheStatus', name, None)
        raise Unsupported('attribute %s of %s' % (name, o if isinstance(o, str) else type(o).__name__))

    def store(self, o, name, v):
        if o == FIELDSET:
            if name[:1] == '_' and name[1:] in self.state:
                self.state[name[1:]] = z3.simplify(self.num(v) % 4)      # two bits
                return
            d = self.src.member('_Bitfields', name, 'set')
            if d is not None:
                self.invoke(d, [FIELDSET, v])
                return
        raise Unsupported('store to %s' % name)

    def call(self, e, env):
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and isinstance(e.func.value, ast.Constant):
            return OBJ
        if isinstance(e.func, ast.Name) and e.func.id in ('getattr', 'setattr') and e.func.id not in env:
            a = [self.ev(x, env) for x in e.args]
            if not isinstance(a[1], str):
                raise Unsupported(e.func.id)
            return self.attr(*a) if e.func.id == 'getattr' else self.store(*a)
        f = self.ev(e.func, env)
        args = [self.ev(x, env) for x in e.args]
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        if None in kw or any(isinstance(x, ast.Starred) for x in e.args):
            raise Unsupported('star arguments')
        if isinstance(f, tuple) and f[0] == 'method':
            _, cls, name, o = f
            d = self.src.member(cls, name, 'def')
            if cls == 'MathObject' and name in self.contracts:
                if kw:
                    v = kw.popitem()[1]
                else:
                    v, = args
                return self.by_contract(name, v)
            static = [ast.unparse(x) for x in d.decorator_list] == ['staticmethod']
            return self.invoke(d, ([] if static or o is None else [o]) + args, kw)
        if isinstance(f, tuple) and f[0] == 'fn':
            return self.invoke(f[1], args, kw)
        raise Unsupported('call of ' + ast.unparse(e.func))

    def by_contract(self, name, v):
        """The effect of cache_P(v) according to its contract."""
        p = name[len('cache_'):]
        self.used.add('mathobjects.mathobject.MathObject.' + name)
        v = self.num(v)
        self.calls.append((list(self.pc), name, SF.measure(E, p, v)))
        refused = SF.refused(E, p, v, self.state, self.empty)
        may = SF.may_refuse(E, p, v, self.state, self.empty)
        can_return, can_refuse = self.feasible(z3.Not(refused)), self.feasible(may)
        if not can_return and not can_refuse:
            raise Path()
        ok = self.choose(2) == 0 if can_return and can_refuse else can_return
        if ok:
            self.assume(z3.Not(refused))
            self.state = {k: z3.simplify(t) if z3.is_expr(t) else z3.IntVal(t) for k, t in SF.after(E, p, v, self.state, self.empty).items()}
            return SELF
        self.assume(may)
        new = dict(self.state)
        for q in SF.FIELDS:
            new[q] = z3.FreshConst(I, 'x_' + q)
            self.assume(z3.And(0 <= new[q], new[q] <= 3))
        self.assume(z3.And(SF.kept(E, self.state, new), SF.unaffected(E, p, v, self.state, new, self.empty)))
        self.state = new
        raise Raised('refused by ' + name)

    # --- statements -------------------------------------------------------------------------------
    def invoke(self, d, args, kw=()):
        self.depth += 1
        if self.depth > 12:
            raise Unsupported('recursion')
        a = d.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            raise Unsupported('signature of ' + d.name)
        names = [x.arg for x in a.args]
        env = dict(zip(names, args))
        for k, v in dict(kw).items():
            if k not in names or k in env:
                raise Raised('TypeError')
            env[k] = v
        for n, dv in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = self.ev(dv, {})
        if len(args) > len(names) or set(env) != set(names):
            raise Raised('TypeError')
        if self.depth > 1:
            self.inlined.add(d.name)
        try:
            self.block(d.body, env)
            r = None
        except Return as e:
            r = e.v
        self.depth -= 1
        return r

    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env)
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Return):
            raise Return(None if s.value is None else self.ev(s.value, env))
        elif isinstance(s, ast.If):
            self.block(s.body if self.branch(self.truth(self.ev(s.test, env))) else s.orelse, env)
        elif isinstance(s, ast.Assert):
            if not self.branch(self.truth(self.ev(s.test, env))):
                raise Raised('AssertionError')
        elif isinstance(s, ast.Raise):
            raise Raised(ast.unparse(s.exc)[:60] if s.exc else 'raise')
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            v = self.ev(s.value, env)
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                self.assign(t, v, env)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, env)
            if not isinstance(it, tuple) or s.orelse:
                raise Unsupported('loop')
            for v in it:
                self.assign(s.target, v, env)
                self.block(s.body, env)
        else:
            raise Unsupported(type(s).__name__)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.store(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Tuple) and isinstance(v, tuple) and len(v) == len(t.elts):
            for a, b in zip(t.elts, v):
                self.assign(a, b, env)
        else:
            raise Unsupported('assignment')


def paths(src, contracts, start):
    """(run, outcome) for every path: outcome is ('return', value) or ('raise', what)."""
    stack = []
    while True:
        decisions = stack
        r = Run(src, decisions, contracts)
        try:
            out = ('return', start(r))
        except Raised as e:
            out = ('raise', e.what)
        except Path:
            out = None
        if out:
            yield r, out
        while stack and stack[-1][0] + 1 >= stack[-1][1]:
            stack.pop()
        if not stack:
            return
        stack[-1][0] += 1
        if len(stack) > 60:
            raise Unsupported('too many paths')


class Function:
    def __init__(self, key):
        self.r = dict(key=key, mode=True, status='verified', obs=[], used=[], inlined=[], note='', s=0, solver_s=0, queries=0)
        self.used, self.inlined = set(), set()

    def prove(self, name, clause, pc, goal, run, where, more=()):
        t0 = time.time()
        s = z3.Solver()
        s.add(*pc)
        s.add(*[z3.And(0 <= v, v <= 3) for v in run.s0.values()])
        s.add(z3.Not(goal))
        res = s.check()
        self.r['queries'] += 1
        self.r['solver_s'] += time.time() - t0
        o = dict(name=name, clause=clause, where=where, ok=res == z3.unsat)
        if not o['ok']:
            self.r['status'] = 'failed'
            if res == z3.sat:
                m = s.model()
                ev = lambda t: m.eval(t, model_completion=True)
                o['model'] = {'state': {f: ev(v).as_long() for f, v in run.s0.items()}, 'empty': z3.is_true(ev(run.empty)),
                              'value': ev(z3.Int('value')).as_long()}
                o['output'] = 'path: %s\ngoal: %s\nz3: sat, counterexample %s' % (run.pc, goal, o['model'])
            else:
                o['output'] = 'path: %s\ngoal: %s\nz3: unknown' % (run.pc, goal)
        self.r['obs'].append(o)


def verify_setter(src, p):
    name = 'cache_' + p
    key = 'mathobjects.mathobject.MathObject.' + name
    fn = Function(key)
    v = z3.Int('value')
    d = src.member('MathObject', name, 'def')
    if d is None:
        raise Unsupported('no method ' + name)
    contracts = {'cache_' + q for q in SF.PROPS}
    n = returns = 0
    for run, (kind, what) in paths(src, contracts, lambda r: r.invoke(d, [SELF, v])):
        n += 1
        fn.used |= run.used
        fn.inlined |= run.inlined
        fn.r['queries'] += run.queries
        where = 'path %d of %s, line %d' % (n, MO, d.lineno)
        for pc, callee, m in run.calls:
            fn.prove('recursion terminates: call of ' + callee, 'value', pc, z3.And(m >= 0, m < SF.measure(E, p, v)), run, where)
        refused, may = (f(E, p, v, run.s0, run.empty) for f in (SF.refused, SF.may_refuse))
        if kind == 'return':
            returns += 1
            fn.prove('a contradictory or impossible status is refused', 'value', run.pc, z3.Not(refused), run, where)
            want = SF.after(E, p, v, run.s0, run.empty)
            for q in SF.FIELDS:
                fn.prove('%s after recording %s' % (q, p), 'value' if want[q] is not run.s0[q] else 'frame', run.pc + [z3.Not(refused)],
                         run.state[q] == want[q], run, where)
            fn.prove('returns the object', 'value', run.pc, z3.BoolVal(isinstance(what, str) and what == SELF), run, where)
        else:
            fn.prove('a status that agrees with what is known is accepted (%s)' % what, 'value', run.pc, may, run, where)
            fn.prove('other properties stay if the status is refused', 'frame', run.pc,
                     SF.unaffected(E, p, v, run.s0, run.state, run.empty), run, where)
        fn.prove('no known property changes', 'value', run.pc, SF.kept(E, run.s0, run.state), run, where)
    if not returns:
        fn.prove('some status is accepted', 'vacuity', [], z3.BoolVal(False), Run(src, [], set()), 'no path returns')
    return finish(fn)


def finish(fn):
    fn.r.update(used=sorted(fn.used), inlined=sorted(fn.inlined), solver_s=round(fn.r['solver_s'], 3))
    return fn.r


def verify_getter(src, name, want):
    key = 'mathobjects.mathobject.MathObject.' + name
    fn = Function(key)
    d = src.member('MathObject', name, 'get')
    if d is None:
        raise Unsupported('no property ' + name)
    for n, (run, (kind, what)) in enumerate(paths(src, set(), lambda r: r.invoke(d, [SELF])), 1):
        where = 'path %d of %s, line %d' % (n, MO, d.lineno)
        fn.inlined |= run.inlined
        fn.prove('does not raise', 'value', run.pc, z3.BoolVal(kind == 'return'), run, where)
        if kind == 'return':
            w = want(run.s0)
            if w.sort() == I:
                ok = run.num(what) == w
            else:
                ok = z3.BoolVal(False) if what is None else run.truth(what) == w
            fn.prove('result', 'value', run.pc, ok, run, where)
        fn.prove('nothing changes', 'frame', run.pc, z3.And(*[run.state[q] == run.s0[q] for q in SF.FIELDS]), run, where)
    return finish(fn)


def lemmas():
    """Consequences of the contracts for histories of calls."""
    fn = Function('lemmas about histories of recording calls')
    run = type('R', (), {})()
    run.s0 = {f: z3.Int('s_' + f) for f in SF.FIELDS}
    run.empty, run.pc = z3.Bool('empty'), []
    v, w = z3.Int('value'), z3.Int('value2')
    for p in SF.PROPS:
        ref = SF.refused(E, p, v, run.s0, run.empty)
        s1 = SF.after(E, p, v, run.s0, run.empty)
        s1 = {k: t if z3.is_expr(t) else z3.IntVal(t) for k, t in s1.items()}
        fn.prove('recording %s again: nothing contradicts' % p, 'value', [z3.Not(ref)], z3.Not(SF.refused(E, p, v, s1, run.empty)), run, 'spec/flags.py')
        s2 = SF.after(E, p, v, s1, run.empty)
        fn.prove('recording %s again changes nothing' % p, 'value', [z3.Not(ref)], z3.And(*[s2[q] == s1[q] for q in SF.FIELDS]), run, 'spec/flags.py')
        fn.prove('a different status of %s is refused once one is known' % p, 'value', [z3.Not(ref), v != 0, w != v],
                 SF.refused(E, p, w, s1, run.empty), run, 'spec/flags.py')
        fn.prove('accepted calls of cache_%s keep what is known' % p, 'value', [z3.Not(ref)], SF.kept(E, run.s0, s1), run, 'spec/flags.py')
    return finish(fn)


LAYOUT = '''
import json, sys
from algebraixlib.mathobjects._flags import _Bitfields as B, Flags
import ctypes
r = {}
for f in B._fields_:
    d = getattr(B, f[0])
    r[f[0]] = [d.offset * 8 + (d.size & 0xffff), d.size >> 16]
print(json.dumps([r, ctypes.sizeof(Flags) == ctypes.sizeof(Flags.asint_type)]))
'''


def verify_layout(src):
    """The 15 fields are two bits each and disjoint (evaluated: there is one layout)."""
    fn = Function('mathobjects._flags._Bitfields')
    run = Run(src, [], set())
    p = subprocess.run([PYPY, '-B', '-c', LAYOUT], cwd='/', env=dict(os.environ, PYTHONPATH=src.repo), capture_output=True, text=True, timeout=60)
    if p.returncode:
        raise Unsupported('layout of the bit-fields')
    r, whole = json.loads(p.stdout)
    bits = [b for o, n in r.values() for b in range(o, o + n)]
    if not {'_' + f for f in SF.FIELDS} <= set(r):
        raise Unsupported('names of the bit-fields')
    fn.prove('fields have at least two bits', 'value', [], z3.BoolVal(all(n >= 2 for _, n in r.values())), run, FL)
    fn.prove('fields are disjoint', 'value', [], z3.BoolVal(len(bits) == len(set(bits))), run, FL)
    fn.prove('all fields are part of asint', 'value', [], z3.BoolVal(whole), run, FL)
    return finish(fn)


def verify_writers(src):
    """Frame: outside of _flags.py nothing replaces the flags or writes the raw bit-fields (only the write-once setters);
    except for constructors."""
    fn = Function('writers of the cached properties')
    run = Run(src, [], set())
    bad = []
    for root, dirs, files in os.walk(os.path.join(src.repo, 'algebraixlib')):
        for f in files:
            path = os.path.join(root, f)
            rel = os.path.relpath(path, src.repo)
            if not f.endswith('.py') or rel == FL:
                continue
            t = ast.parse(open(path, encoding='utf-8').read())
            inner = {id(x) for c in ast.walk(t) if isinstance(c, ast.ClassDef)
                     for d in c.body if isinstance(d, ast.FunctionDef) and d.name == '__init__' for x in ast.walk(d)}
            names = {'_flags', 'asint'}
            raw = {'_' + p for p in SF.FIELDS}
            for x in ast.walk(t):
                if id(x) in inner:
                    continue
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and \
                        (x.attr in names or x.attr in raw and ast.unparse(x.value) != 'self'):
                    bad.append('%s:%d' % (rel, x.lineno))
    if bad:
        raise Unsupported('further writers: ' + ', '.join(bad))
    fn.prove('only the setters and constructors write', 'frame', [], z3.BoolVal(True), run, 'algebraixlib')
    return finish(fn)


def run(repo):
    """{(key, mode): result} like pyvc.run.run"""
    import multiprocessing
    with multiprocessing.get_context('fork').Pool(1) as pool:
        try:
            return pool.apply_async(run_all, (repo,)).get(300)
        except multiprocessing.TimeoutError:
            k = 'mathobjects.mathobject.MathObject'
            return {(k, True): dict(key=k, mode=True, status='unsupported', obs=[], used=[], inlined=[], note='no answer in 300 s', s=300,
                                    solver_s=0, queries=0)}


def run_all(repo):
    res = {}

    def one(key, f):
        t0 = time.time()
        try:
            r = f()
        except Unsupported as e:
            r = dict(key=key, mode=True, status='unsupported', obs=[], used=[], inlined=[], note=str(e), s=0, solver_s=0, queries=0)
        except Exception as e:
            r = dict(key=key, mode=True, status='crash', obs=[], used=[], inlined=[], note='%s: %s' % (type(e).__name__, e), s=0, solver_s=0, queries=0)
        r['s'] = round(time.time() - t0, 2)
        res[r['key'], True] = r
    try:
        src = Source(repo)
    except Exception as e:
        one('mathobjects.mathobject.MathObject', lambda: (_ for _ in ()).throw(Unsupported(str(e))))
        return res
    M = 'mathobjects.mathobject.MathObject.'
    for p in SF.PROPS:
        one(M + 'cache_' + p, lambda: verify_setter(src, p))
        one(M + 'cached_' + p, lambda: verify_getter(src, 'cached_' + p, lambda s: s[p]))
        one(M + 'cached_is_' + p, lambda: verify_getter(src, 'cached_is_' + p, lambda s: s[p] == SF.IS))
        one(M + 'cached_is_not_' + p, lambda: verify_getter(src, 'cached_is_not_' + p, lambda s: s[p] == SF.IS_NOT))
    for k in SF.KINDS:
        one(M + 'is_' + k, lambda: verify_getter(src, 'is_' + k, lambda s: s[k] == SF.IS))
    one('mathobjects._flags._Bitfields', lambda: verify_layout(src))
    one('writers of the cached properties', lambda: verify_writers(src))
    one('lemmas about histories of recording calls', lemmas)
    return res


if __name__ == '__main__':
    import sys
    t0 = time.time()
    res = run(os.environ.get('VERIF_REPO', '/repo'))
    for (k, m), r in res.items():
        bad = [o for o in r['obs'] if not o['ok']]
        if bad or r['status'] != 'verified':
            print(r['status'], k, r['note'])
            for o in bad:
                print('   ', o['name'], o['where'], o.get('output'))
    print(len(res), sum(len(r['obs']) for r in res.values()), '%.1f s' % (time.time() - t0))
