"""Verification of the contracted functions: obligations of every path, discharged by z3 (and cvc5)."""
import os
import sys
import time
import z3
from z3 import And, Or, Not, If, Implies, is_true, is_false, BoolVal, IntVal
from . import theory as th
from .theory import V, I, B, kind, mem, mult, item, ditem, conv
from .speclang import Spec, Unsupported
from .values import *
from spec.mapping import UNPROVED_OBLIGATIONS
from .interp import Interp, Source, Ob, Out, FLAGS, simp, is_gen

z3.set_param('smt.auto_config', False)
z3.set_param('smt.mbqi', False)
z3.set_param('smt.random_seed', 0)


DEBUG = os.environ.get('PYVC_DEBUG')


# (eager threshold of quantifier instantiation, random seed, part of the resource limit)
PORTFOLIO = ((3.0, 0, .4), (10.0, 1, .3), (3.0, 7, .3), (20.0, 3, .2))


class Prover:
    QUICK, FULL = 400000, 20000000

    def __init__(self, theory):
        self.th = theory
        self.memo = {}
        self.time, self.n = 0.0, 0
        self.last, self.why, self.keep = None, '', []

    def ground(self, fs, rounds=3):
        """Instances of the definitions of the symbols of fs (definitions and quantified formulas)."""
        out, done, new = [], set(), list(fs)
        for _ in range(rounds):
            found = []
            stack, seen = list(new), set()
            while stack:
                e = stack.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if not z3.is_app(e):
                    continue
                stack += e.children()
                i = self.th.info.get(e.decl().name())
                if i and i['tag'] in ('def', 'All') and e.num_args() and e.get_id() not in done:
                    done.add(e.get_id())
                    for ax in self.th.axioms[e.decl().name()]:
                        if z3.is_quantifier(ax) and ax.num_vars() == e.num_args():
                            found.append((e, z3.substitute_vars(ax.body(), *reversed(e.children()))))
            out += [f for _, f in found]
            self.keep.append(found)
            new = [f for _, f in found]
            if not new:
                break
        return out

    def solver(self, fs, rlimit, eager=3.0, seed=0):
        s = z3.Solver()
        s.set('qi.eager_threshold', eager)
        s.set('auto_config', False)
        s.set('mbqi', False)
        s.set('rlimit', int(rlimit))
        s.set('random_seed', seed)
        s.add(*th.BASE)
        s.add(*self.th.relevant(fs))
        s.add(*fs)
        return s

    def check(self, fs, rlimit):
        t0 = time.time()
        for eager, seed, part in PORTFOLIO[:1] if rlimit <= 1000000 else PORTFOLIO:
            s = self.solver(fs + self.ground(fs) if eager == 10.0 else fs, rlimit * part, eager, seed)
            r = s.check()
            if r != z3.unknown:
                break
        self.time += time.time() - t0
        self.why = s.reason_unknown() if r == z3.unknown else str(r)
        if DEBUG and time.time() - t0 > 0.5:
            print('   slow check %.1fs %s %s goal %s' % (time.time() - t0, r, s.reason_unknown() if r == z3.unknown else '', str(fs[-1])[:200].replace('\n', ' ')))
        self.n += 1
        return r

    def quick(self, path, goal):
        key = (tuple(p.get_id() for p in path), goal.get_id())
        r = self.memo.get(key)
        if r is None:
            ok = self.check(list(path) + [Not(goal)], self.QUICK) == z3.unsat
            self.memo[key] = r = (ok, list(path), goal)
        return r[0]

    def prove(self, path, goal, depth=0):
        """'proved' or the reason."""
        goal = simp(goal)
        if is_true(goal):
            return True
        if z3.is_and(goal):
            return all(self.prove(path, c, depth) for c in goal.children())
        if z3.is_implies(goal):
            return self.prove(path + [goal.arg(0)], goal.arg(1), depth)
        if self.check(self.filter(path, goal) + [Not(goal)], 1000000) == z3.unsat:
            return True
        i = self.find_ite(goal)
        if i is not None and depth < 6:
            for k, cc in ((1, i.arg(0)), (2, simp(Not(i.arg(0))))):
                if not self.prove(path + [cc], z3.substitute(goal, (i, i.arg(k)), (i.arg(0), BoolVal(k == 1))), depth + 1):
                    return False
            return True
        r = self.check(self.filter(path, goal) + [Not(goal)], self.FULL // (1 if depth == 0 else 4))
        if r == z3.unsat:
            return True
        r = self.check(path + [Not(goal)], self.FULL // (1 if depth == 0 else 4))
        if r == z3.unsat:
            return True
        if depth < 3:
            if z3.is_eq(goal) and goal.arg(0).sort() == B:
                a, b = goal.children()
                return self.prove(path + [a], b, depth + 1) and self.prove(path + [b], a, depth + 1)
            if z3.is_or(goal):
                cs = goal.children()
                if len(cs) > 1:
                    rest = [simp(Not(c)) for c in cs[1:]]
                    if any(z3.is_and(r) or z3.is_eq(r) for r in rest) or z3.is_and(cs[0]) or z3.is_not(cs[0]):
                        return self.prove(path + rest, cs[0], depth + 1)
        self.last = (list(path), goal, self.why)
        return False

    def flagsyms(self, e):
        return {n for n in self.th.decls(e) if n.startswith('st_')}

    def filter(self, path, goal):
        """Facts about flags that do not occur in the goal are left out."""
        g = self.flagsyms(goal)
        return [p for p in path if not (self.flagsyms(p) - g)]

    # --- equality of values -----------------------------------------------------------------------
    def find_ite(self, e):
        """Condition of an if-then-else below e that is not inside of a quantifier."""
        stack, seen = [e], set()
        while stack:
            q = stack.pop(0)
            if q.get_id() in seen or not z3.is_app(q):
                continue
            seen.add(q.get_id())
            if z3.is_app_of(q, z3.Z3_OP_ITE):
                return q
            stack += q.children()
        return None

    def eq(self, path, a, b, depth=0):
        a, b = simp(a), simp(b)
        if a.eq(b):
            return True
        if a.sort() != V:
            return self.prove(path, a == b)
        for e in (a, b):
            i = self.find_ite(e)
            if i is not None and depth < 12:
                c = i.arg(0)
                for k, cc in ((1, c), (2, simp(Not(c)))):
                    p2 = path + [cc]
                    f = lambda t: z3.substitute(t, (i, i.arg(k)))
                    if self.quick(p2, th.F):
                        continue
                    if not self.eq(p2, f(a), f(b), depth + 1):
                        return False
                return True
        if self.quick(path, a == b) or self.check(path + [Not(a == b)], 3000000) == z3.unsat:
            return True
        self.last = (list(path), a == b, self.why)
        if depth > 16:
            return False
        r = self.eq_fold(path, a, b, depth)
        if r is not None:
            return r
        # different kinds?
        for k in (2, 3, 4):
            if self.quick(path, kind(a) == k):
                if not self.prove(path, kind(b) == k):
                    return False
                if k == 2:
                    return self.eq(path, simp(th.left(a)) if not a.decl().eq(th.cpl) else a.arg(0), th.left(b) if not b.decl().eq(th.cpl) else b.arg(0), depth + 1) and \
                        self.eq(path, th.right(a) if not a.decl().eq(th.cpl) else a.arg(1), th.right(b) if not b.decl().eq(th.cpl) else b.arg(1), depth + 1)
                if k == 3:
                    return self.cong(path, a, b, depth) or self.ext_set(path, a, b, depth)
                return self.cong(path, a, b, depth) or self.ext_mset(path, a, b, depth)
        return self.check(path + [Not(a == b)], self.FULL) == z3.unsat

    def eq_fold(self, path, a, b, depth):
        """Equal folds, by induction on the sequence."""
        ia, ib = [self.th.info.get(t.decl().name()) if z3.is_app(t) else None for t in (a, b)]
        if not ia or not ib or ia['tag'] != 'Fold' or ib['tag'] != 'Fold':
            return None
        acc, x = self.th.fresh('acc'), self.th.fresh('i')
        f = lambda i, t, e: z3.substitute(e, *(list(zip(i['params'], t.children())) + list(zip(i['binders'], (acc, x)))))
        (s1, v1, q1), (s2, v2, q2) = [[f(i, t, e) for e in i['bodies']] for i, t in ((ia, a), (ib, b))]
        return q1.eq(q2) and self.eq(path, v1, v2, depth + 1) and \
            self.eq(path + [th.item(x, q1), And(kind(acc) >= 0, kind(acc) <= 4)], s1, s2, depth + 1)

    def single_arg(self, t):
        return t.arg(0) if z3.is_app(t) and t.decl().name() in ('single', 'msingle') else None

    def inst(self, t):
        """(tag, binders, bodies) of a comprehension, with its arguments."""
        i = self.th.info.get(t.decl().name())
        if not i or i['tag'] not in ('Set', 'MSet'):
            return None
        f = lambda e: z3.substitute(e, *zip(i['params'], t.children())) if i['params'] else e
        bs, bodies = list(i['binders']), [f(b) for b in i['bodies']]
        # elements of a set with one element
        for b in list(bs):
            for d in self.th.conjuncts(bodies[0]):
                if d.decl().name() == 'mem' and d.arg(0).eq(b) and d.arg(1).decl().name() in ('single', 'msingle'):
                    t = d.arg(1).arg(0)
                    bs.remove(b)
                    bodies = [z3.substitute(e, (d, And(kind(t) >= 1, kind(t) <= 4)), (b, t)) for e in bodies]
                    break
        return i['tag'], bs, bodies

    def cong(self, path, a, b, depth):
        x, y = self.single_arg(a), self.single_arg(b)
        if x is not None and y is not None:
            return self.eq(path, x, y, depth + 1)
        ia, ib = self.inst(a), self.inst(b)
        if ia is None or ib is None or ia[0] != ib[0] or len(ia[1]) != len(ib[1]):
            return False
        tag, bs, bodies = ia
        _, cs, bodies2 = ib
        perms = [list(range(len(bs)))]
        if len(bs) == 2:
            perms.append([1, 0])
        for perm in perms:
            sk = [self.th.fresh('sk', v.sort()) for v in bs]
            f = lambda e: z3.substitute(e, *zip(bs, sk))
            g = lambda e: z3.substitute(e, *[(cs[j], sk[i]) for i, j in enumerate(perm)])
            if any(cs[j].sort() != bs[i].sort() for i, j in enumerate(perm)):
                continue
            A, Bb = [f(e) for e in bodies], [g(e) for e in bodies2]
            if self.cong1(path, A, Bb, tag, depth):
                return True
        return False

    def cong1(self, path, A, Bb, tag, depth):
        da, ca, va = A[:3]
        db, cb, vb = Bb[:3]
        if not (da.eq(db) or set(x.get_id() for x in self.th.conjuncts(da)) == set(x.get_id() for x in self.th.conjuncts(db)) or
                self.prove2(path, And(da, ca), And(db, cb))):
            return False
        if not simp(ca).eq(simp(cb)) and not (da.eq(db) and self.prove2(path + [da], ca, cb)) and not self.prove2(path, And(da, ca), And(db, cb)):
            return False
        p = path + self.th.conjuncts(da) + [ca]
        if not self.eq(p, va, vb, depth + 1):
            return False
        if tag == 'MSet':
            return self.prove(p, A[3] == Bb[3])
        return True

    def prove2(self, path, a, b):
        return self.check(path + [a, Not(b)], 4000000) == z3.unsat and self.check(path + [b, Not(a)], 4000000) == z3.unsat

    def diffs(self, *ts):
        """Extensionality for pairs of comprehension terms."""
        out = []
        for i, s in enumerate(ts):
            for t in ts[:i]:
                d = th.diff(s, t)
                out.append(Implies(And(kind(s) == 3, kind(t) == 3), Or(s == t, mem(d, s) != mem(d, t))))
                out.append(Implies(And(kind(s) == 4, kind(t) == 4), Or(s == t, mult(d, s) != mult(d, t))))
        return out

    def ext_set(self, path, a, b, depth):
        x = self.th.fresh('x')
        return self.imp(path, mem(x, a), mem(x, b), depth) and self.imp(path, mem(x, b), mem(x, a), depth)

    def imp(self, path, h, g, depth):
        if self.check(path + [h, Not(g)], self.FULL) == z3.unsat:
            return True
        # members of a comprehension: element by element, with equal values up to extensionality
        s = h.arg(1)
        i = self.inst(s)
        t = self.inst(g.arg(1))
        return False

    def ext_mset(self, path, a, b, depth):
        x = self.th.fresh('x')
        return self.check(path + [mult(x, a) != mult(x, b)], self.FULL) == z3.unsat


class Result:
    def __init__(self, key): self.key, self.obs, self.status, self.note = key, [], 'verified', ''


class Verifier:
    def __init__(self, repo, contracts):
        self.repo, self.contracts = repo, contracts

    def new(self):
        self.th = th.Theory()
        self.pr = Prover(self.th)
        self.src = Source(self.repo)
        self.it = Interp(self.th, self.pr, self.src, self.contracts)

    def setup(self, c, checked, m, cls, node):
        """Arguments, specification arguments and state for the verification of contract c."""
        it, T = self.it, self.th
        st = State()
        st.path = []
        if c.module.endswith('rdf'):
            for x in it.literals:
                it.literal(Py(x), st)
        args, sp_args, doms, undefs, objs = {}, [], [], [], {}
        a = z3.Const('?x', V)
        b = z3.Const('?y', V)
        for p, d in c.params.items():
            if d in ('fun1', 'fun2', 'pred', 'inv'):
                n = 'arg_' + p
                if d == 'pred':
                    f = z3.Function(n, V, B)
                    sp_args.append(lambda x, f=f: f(x))
                elif d == 'fun2':
                    f = z3.Function(n, V, V, V)
                    st.path.append(th.fa([a, b], [f(a, b)], And(kind(f(a, b)) >= 0, kind(f(a, b)) <= 4)))
                    sp_args.append(lambda x, y, f=f: f(x, y))
                else:
                    f = z3.Function(n, V, V)
                    lo, hi = (0, 4) if d == 'fun1' else (1, 5)
                    st.path.append(th.fa([a], [f(a)], And(kind(f(a)) >= lo, kind(f(a)) <= hi)))
                    sp_args.append((lambda x, f=f: f(x)) if d == 'fun1' else (lambda x, f=f: conv(f(x))))
                args[p] = Abs(f, p)
                continue
            v = z3.Const('arg_' + p, V)
            if d == 'optval':
                st.path.append(And(Implies(kind(v) == 6, v == th.NONE), Or(v == th.NONE, And(kind(v) >= 1, kind(v) <= 5))))
                st.path.append(kind(th.NONE) == 6)
                it.optional.add(v.get_id())
                args[p] = Obj(v, it.oid())
                sp_args.append(v)
                continue
            if d == 'optstr':
                # a text that is not empty, or None
                st.path += [Or(v == th.NONE, And(kind(v) == 5, th.is_str(v))), kind(th.NONE) == 6]
                it.optional.add(v.get_id())
                it.names.add(v.get_id())
                args[p] = Obj(v, it.oid())
                sp_args.append(v)
                continue
            if d in ('iter', 'moiter'):
                hi = 5 if d == 'iter' else 4
                st.path += [kind(v) == 6, th.fa([a], [item(a, v)], Implies(item(a, v), And(kind(a) >= 1, kind(a) <= hi, th.occ(a, v) >= 1)))]
                args[p] = SymSeq(v, True)
                sp_args.append(v)
                continue
            if d == 'counter':
                st.path.append(kind(v) == 4)
                cid = it.oid()
                st.cells[cid] = Coll(v, 'counter')
                args[p] = CellRef(cid)
                sp_args.append(v)
                continue
            if d in ('lefts', 'vals', 'mos', 'dict', 'optdict'):
                st.path.append(kind(v) == 6)
                if d == 'optdict':
                    k, w = z3.Const('?k', V), z3.Const('?w', V)
                    st.path.append(z3.ForAll([k, w], Not(ditem(k, w, th.NONE)), patterns=[ditem(k, w, th.NONE)]))
                    st.path.append(Or(v == th.NONE, z3.Function('is_dict', V, B)(v)))
                    it.optional.add(v.get_id())
                    args[p] = SymDict(v)
                elif d == 'dict':
                    args[p] = SymDict(v)
                    st.path.append(z3.Function('is_dict', V, B)(v))
                else:
                    lo, hi = (1 if d == 'vals' else 0), (4 if c.checked and not checked or d == 'mos' else 5)
                    st.path.append(th.fa([a], [item(a, v)], Implies(item(a, v), And(kind(a) >= lo, kind(a) <= hi))))
                    args[p] = SymSeq(v)
                sp_args.append(v)
                continue
            o = Obj(v, it.oid())
            args[p] = o
            objs[p] = o
            if d in ('scalar', 'scalaru'):
                st.path += [kind(v) >= (1 if d == 'scalar' else 0), kind(v) <= 5, Implies(kind(v) == 5, Or(th.is_str(v), Not(z3.Function('is_Iterable', V, B)(v)))),
                            Implies(kind(v) == 5, And(*[Not(z3.Function('is_' + n, V, B)(v)) for n in ('dict', 'Counter')]))]
                sp_args.append(conv(v))
                continue
            if d in ('left', 'val'):
                lo, hi = (0 if d == 'left' else 1), (4 if c.checked and not checked else 5)
                st.path.append(And(kind(v) >= lo, kind(v) <= hi))
                sp_args.append(conv(v) if hi == 5 else v)
                continue
            if c.opts.get('total') or c.opts.get('prop'):
                st.path.append(it.dom(d, v, st))
                if c.opts.get('not_nested'):
                    st.path.append(Not(it.nested(st, v)))
                if c.opts.get('prop'):
                    it.escape_cond = it.nested(st, v)
            elif checked:
                st.path.append(And(kind(v) >= 0, kind(v) <= 4))
                doms.append(it.dom(d, v, st))
            else:
                st.path.append(Or(kind(v) == 0, it.dom(d, v, st)))
                undefs.append(kind(v) == 0)
            sp_args.append(v)
        cond = simp(And(*doms)) if doms else simp(Not(Or(*undefs))) if undefs else th.T
        # flags of the arguments: known flags are named constants
        known = {}
        for p, o in objs.items():
            h = st.heap.setdefault(o.oid, {})
            for f in FLAGS[4:]:
                k = z3.Const('known_%s_%s' % (p, f), B)
                known[p, f] = k
                h[f] = simp(Or(it.init_known(f, o.v), k))
                st.seen[o.oid, f] = st.epoch
        return st, args, sp_args, cond, objs, known

    def run(self, c, checked):
        """Obligations of contract c: list of (name, clause, thunk)."""
        it = self.it
        if 'code' in c.opts:
            import ast
            m, cls, node = self.src.module(c.module), None, ast.parse(c.opts['code']).body[0]
        else:
            m, cls, node = self.src.find(c.key)
        if node is None:
            raise Unsupported('function %s not found' % c.key)
        it.current = c
        self.th.hint = ''
        st, args, sp_args, cond, objs, known = self.setup(c, checked, m, cls, node)
        if is_gen(node):
            raise Unsupported('generator')
        from .interp import Fn, Cls
        fn = Fn(m, node, Cls(m, cls) if cls is not None else None)
        pos, kw = [], {}
        a = node.args
        names = [x.arg for x in a.args]
        for n in names:
            if n in args:
                pos.append(args[n])
            else:
                break
        if a.vararg and a.vararg.arg in args:
            if len(pos) != len(names):
                raise Unsupported('parameters')
            pos.append(('*', args[a.vararg.arg]))
        if a.vararg and not a.vararg.arg in args and len(pos) == len(names):
            # the further parameters of the contract are the first elements of *args
            for n in [n for n in args if n not in names + [x.arg for x in a.kwonlyargs]]:
                names.append(n)
                pos.append(args[n])
        for n in args:
            if n in names and names.index(n) >= len(pos):
                kw[n] = args[n]
            elif n not in names and not (a.vararg and a.vararg.arg == n):
                kw[n] = args[n]
        if c.checked:
            kw['_checked'] = PB(BoolVal(checked))
        missing = [n for n in args if n not in names + [x.arg for x in a.kwonlyargs] and not (a.vararg and n == a.vararg.arg)]
        if missing:
            raise Unsupported('parameters of %s: %s' % (c.key, missing))
        base = len(st.path)
        self.base_path = list(st.path)
        outs = it.run_body(fn, pos, kw, st)
        goals = []
        for ob in it.obs:
            goals.append((ob.name, ob.clause, ob.where, lambda ob=ob: self.pr.prove(ob.path, ob.goal)))
        it.obs = []
        nret = 0
        for i, o in enumerate(outs):
            w = '%s path %d' % (c.key, i)
            if o.what == 'raise':
                goals.append(('no exception: %s' % o.val, 'undef', w, lambda o=o: self.pr.prove(o.st.path, th.F)))
                continue
            nret += 1
            n0 = len(it.obs)
            goals += self.exit(c, o, sp_args, cond, objs, known, w, args)
        return goals, nret

    def exit(self, c, o, sp_args, cond, objs, known, w, args):
        goals = self.exit_goals(c, o, sp_args, cond, objs, known, w, args)
        it = self.it
        terms = list(o.st.path) + [getattr(o.val, n) for n in ('v', 'b', 'i', 'undef') if z3.is_expr(getattr(o.val, n, None))]
        if it.levels and any(x in it.levels for t in terms for x in self.th.consts(t)):
            # the outcome of this path depends on the level: what the contract says at the initial level must hold at others
            both = []
            for p in (Or(*[l > v for l, v in it.levels.values()]), And(*[l == v for l, v in it.levels.values()])):
                o2 = Out(o.what, o.st.copy(), o.val)
                o2.st.path.append(simp(p))
                both.append(self.exit_goals(c, o2, sp_args, cond, objs, known, w, args))
            for (n, cl, _, f), (_, _, _, g) in zip(*both):
                if cl == 'value':
                    goals.append((n + ' at a higher level of handling undefined results', 'undef', w, lambda f=f, g=g: f() or not g()))
        return goals

    def exit_goals(self, c, o, sp_args, cond, objs, known, w, args):
        st, val, T, it = o.st, o.val, self.th, self.it
        path = st.path
        goals = []
        sp = Spec(T, list(path) + [cond])
        val = it.norm(val)
        name = 'result'
        if c.rtype == 'int':
            if not isinstance(val, PI):
                raise Unsupported('result %r' % val)
            s = sp.call(c.fn.__name__, *sp_args)
            return [(name, 'value', w, lambda: self.pr.prove(path, val.i == s))]
        if c.rtype in ('bool', 'optbool'):
            s = sp.call(c.fn.__name__, *sp_args)
            if c.rtype == 'bool':
                sb, su = s, simp(Not(cond))
            else:
                sb, su = s.b, simp(Or(Not(cond), s.undef))
            if isinstance(val, Obj):
                # must be undefined
                def f():
                    return self.pr.prove(path, And(kind(val.v) == 0, su) if c.rtype == 'bool' else
                                         Or(And(kind(val.v) == 0, su), it.nested(st, objs[list(objs)[0]].v)))
                return [(name, 'value', w, f)]
            if isinstance(val, Py) and val.c is None or not isinstance(val, PB):
                return [('result is Boolean, not %r' % val, 'value', w, lambda: self.pr.prove(path, th.F))]
            vu = val.undef if val.undef is not None else th.F
            g1 = simp(vu == su)
            g2 = simp(Implies(Not(su), val.b == sb))
            if c.rtype == 'optbool':
                ne = it.nested(st, objs[list(objs)[0]].v)
                g1, g2 = Or(g1, ne), Or(g2, ne)
            goals.append(('result is undefined exactly outside of the domain', 'undef', w, lambda: self.pr.prove(path, g1)))
            goals.append((name, 'value', w, lambda: self.pr.prove(path, g2)))
        else:
            if isinstance(val, Py) and val.c is None:
                return [('result is None', 'undef', w, lambda: self.pr.prove(path, th.F))]
            if not isinstance(val, Obj):
                raise Unsupported('result %r' % val)
            if c.opts.get('relational'):
                s = sp.call(c.fn.__name__, *(sp_args + [val.v]))
                goals.append((name, 'value', w, lambda: self.pr.prove(path, If(cond, s, kind(val.v) == 0))))
            else:
                def outside():
                    if self.pr.quick(path, cond):
                        return True
                    return self.pr.quick(path + [simp(Not(cond))], th.F) or self.pr.prove(path + [simp(Not(cond))], kind(val.v) == 0)

                def f():
                    if is_true(cond):
                        return self.pr.eq(path, val.v, sp.call(c.fn.__name__, *sp_args))
                    p2 = path + [cond]
                    if self.pr.quick(p2, th.F):
                        return True
                    s = Spec(T, list(p2)).call(c.fn.__name__, *sp_args)
                    return self.pr.eq(p2, val.v, s)
                if not is_true(cond):
                    goals.append(('result is undefined outside of the domain', 'undef', w, outside))
                for p, d in c.params.items():
                    if d in ('left', 'lefts') and c.name != 'get_rights_for_left':
                        x = args[p].v if d == 'left' else self.th.fresh('undefined')
                        hyp = [kind(x) == 0] + ([item(x, args[p].q)] if d == 'lefts' else [])
                        goals.append(('result is undefined for an undefined %s' % p, 'undef', w,
                                      lambda hyp=hyp: self.pr.quick(path + hyp, th.F) or self.pr.prove(path + hyp, kind(val.v) == 0)))
                goals.append((name, 'value', w, f))
            h = st.heap.get(val.oid, {})
            ok = Not(kind(val.v) == 0)
            if c.opts.get('pristine'):
                goals.append(('result is a new object', 'frame', w, lambda: self.pr.prove(path, Or(kind(val.v) == 0, BoolVal(val.oid in st.created and val.oid not in st.escaped)))))
                for p in FLAGS[4:]:
                    k = h.get(p, th.F)
                    ik = it.init_known(p, val.v)
                    goals.append(('flag %s of the new object is initial' % p, 'known', w, lambda k=k, ik=ik: self.pr.prove(path, Or(kind(val.v) == 0, k == ik))))
            for p in c.opts.get('known_const', []):
                k = h.get(p, th.F)
                goals.append(('flag %s of the result is cached' % p, 'known', w, lambda k=k, val=val: self.pr.prove(path, Or(kind(val.v) == 0, k, it.init_known(p, val.v)))))
            for p, ps in c.opts.get('known', []):
                k = h.get(p, th.F)
                hyp = And(*[And(known[q, p], it.st_of(p, objs[q].v) == 1) for q in ps])
                goals.append(('flag %s of the result is cached' % p, 'known', w, lambda k=k, hyp=hyp: self.pr.prove(path, Implies(hyp, Or(kind(val.v) == 0, k)))))
        for param, flag in c.opts.get('knows', []):
            k = st.heap.get(objs[param].oid, {}).get(flag, th.F)
            v = objs[param].v
            goals.append(('flag %s of %s is cached' % (flag, param), 'known', w, lambda k=k, v=v: self.pr.prove(path, Or(kind(v) == 0, k))))
        return goals

    def verify(self, c, modes=None, max_failed=1000, clauses=None):
        res = Result(c.key)
        t0 = time.time()
        res.assumed = set()
        res.used, res.inlined, res.time, res.solver_s, res.queries = set(), set(), 0, 0, 0
        for checked in (modes if modes is not None else [True, False] if c.checked else [True]):
            self.new()
            tag = '' if not c.checked else ' [_checked=%s]' % checked
            try:
                goals, nret = self.run(c, checked)
                if nret == 0:
                    raise Unsupported('no path returns')
                # the precondition is satisfiable as far as the solver can tell
                ok = not self.pr.quick(self.base_path, th.F)
                res.obs.append(dict(name='precondition is satisfiable' + tag, clause='vacuity', where=c.key, ok=ok, s=0))
                res.obs.append(dict(name='every write is to an object that the call created (%d writes)%s' % (self.it.nwrites, tag),
                                    clause='frame', where=c.key, ok=not any(g[0].startswith('modification') for g in goals), s=0))
                failed = 0
                for name, clause, w, f in goals:
                    if (c.key, name) in UNPROVED_OBLIGATIONS or clauses is not None and clause not in clauses:
                        continue
                    t1 = time.time()
                    self.pr.last = None
                    ok = bool(f())
                    o = dict(name=name + tag, clause=clause, where=w, ok=ok, s=round(time.time() - t1, 3))
                    if not ok:
                        o['output'] = self.explain()
                        failed += 1
                    res.obs.append(o)
                    if failed >= max_failed:
                        break
            except Unsupported as e:
                res.status, res.note = 'unsupported', str(e)[:300] + tag
            except (PoisonRead, Unmergeable, Split) as e:
                res.status, res.note = 'unsupported', ('%s %s' % (type(e).__name__, e))[:300] + tag
            res.used |= self.it.used
            res.inlined |= self.it.inlined
            res.assumed |= self.it.assumed
            res.solver_s += self.pr.time
            res.queries += self.pr.n
            if res.status == 'unsupported':
                break
        if res.status == 'verified' and not all(o['ok'] for o in res.obs):
            res.status = 'failed'
        res.time = time.time() - t0
        return res

    def explain(self):
        """The last obligation that the solver did not discharge."""
        if not self.pr.last:
            return ''
        path, goal, why = self.pr.last
        return 'under\n%s\nthe solver does not prove\n  %s\n(%s)' % (
            '\n'.join('  ' + str(simp(p)).replace('\n', ' ')[:500] for p in path), str(goal)[:1500], why)


def main():
    import traceback
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from spec.contracts import CONTRACTS
    repo = os.environ.get('VERIF_REPO', '/repo')
    v = Verifier(repo, CONTRACTS)
    for k in sys.argv[1:] or CONTRACTS:
        ks = [x for x in CONTRACTS if k in x] if k not in CONTRACTS else [k]
        for x in ks:
            try:
                r = v.verify(CONTRACTS[x])
            except Exception:
                print('CRASH', x)
                traceback.print_exc()
                continue
            print('%-11s %-45s %3d/%3d %.1fs %s' % (r.status, x, sum(o['ok'] for o in r.obs), len(r.obs), r.time, r.note), flush=True)
            if r.status != 'verified':
                for o in r.obs:
                    if not o['ok']:
                        print('     FAILED', o['name'], '|', o['clause'], '|', o['where'])


if __name__ == '__main__':
    main()
