"""Loops over collections of any size.

A loop is executed once for an arbitrary element (and, where needed, an arbitrary state of the variables that it
carries); what holds after the loop follows from one of these rules, whose side conditions are checked here or become
obligations. D is the ghost set of the elements that have been visited.
  search      nothing carried: an exit happens at some element; after the loop no element had one.
  phase       a variable with a constant initial value that is written at most in one way: invariant `it has the
              initial value and no element of D wrote it, or some element of D did`.
  fold        a carried collection: invariant `acc = v0 + sum of G(e) for e in D` for union, intersection, sum, maximum
              or minimum; the step is an obligation of the prover, the closed form is an instance of lean/Lemmas.lean.
              Over a sequence also any other step: the value is a term Fold(step, v0, sequence); two such terms are equal
              if the initial values are and the steps are, for every item and accumulator (induction).
  accumulate  a container that the loop only adds to: invariant `content = what the elements of D added`.
  update      d[k] = w for every key k of d while iterating over d: content = {k: w(k)}.
  group       a dictionary of containers: invariant `d[k] = the elements of D with label k`."""
import ast
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal, is_true, is_false
from . import theory as th
from .theory import V, I, B, kind, mem, mult
from .speclang import Spec, Unsupported
from .values import *

simp = z3.simplify


class Again(Exception):
    pass


def stored_names(body):
    return {n.id for x in body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def fresh_in(it, e, start, bids):
    stack, seen = [e], set()
    while stack:
        q = stack.pop()
        if q.get_id() in seen:
            continue
        seen.add(q.get_id())
        if z3.is_quantifier(q):
            stack.append(q.body())
        elif z3.is_app(q):
            if q.num_args() == 0 and q.get_id() not in bids and '!' in q.decl().name():
                n = q.decl().name().rsplit('!', 1)[1]
                if n.isdigit() and int(n) > start:
                    return True
            stack += q.children()
    return False


class Run:
    """One symbolic iteration."""
    def __init__(self, loop, st, b, name=None, val=None, extra=()):
        it = loop.it
        self.loop, self.b = loop, b
        self.start = it.th.nfresh
        q = st.copy()
        q.epoch = it.oid()
        q.path += b.doms
        c = simp(b.cond)
        if not is_true(c):
            q.path.append(c)
        q.path += list(extra)
        self.base = len(q.path)
        for n in loop.assigned:
            if n in q.frames[loop.fid]:
                q.frames[loop.fid][n] = POISON
        for n, v in loop.consts.items():
            q.frames[loop.fid][n] = v
        if name is not None:
            q.frames[loop.fid][name] = val
        loop.open_logs(st, q, self.base)
        it.bind(loop.s.target, b.val, q, loop.fid, loop.s)
        outs, falls = it.block(loop.s.body, [q], loop.fid)
        self.falls = falls + [o.st for o in outs if o.what == 'continue']
        self.exits = [o for o in outs if o.what in ('ret', 'raise')]
        self.breaks = [o.st for o in outs if o.what == 'break']
        for s in self.falls + self.breaks + [o.st for o in self.exits]:
            loop.check_frame(st, s)

    def cond(self, s):
        e = self.essential(s)
        return simp(And(*e)) if e else th.T

    def essential(self, s): return self.loop.it.essential(s.path, self.base)

    def normal(self, falls=None):
        """Condition on the element: none of the exits (or: one of the given falls)."""
        it, b = self.loop.it, self.b
        bids = {x.get_id() for x in b.binders}
        if falls is None:
            ex = [self.cond(s) for s in self.breaks + [o.st for o in self.exits]]
            if not ex:
                return th.T
            e = simp(Not(Or(*ex)))
            if not fresh_in(it, e, self.start, bids):
                return e
            falls = self.falls
        return it.skolemize([simp(Or(*[self.cond(s) for s in falls])) if falls else th.F], b.binders, self.start)[0]


class Loop:
    def __init__(self, it, s, coll, brs, distinct, st, fid):
        self.it, self.s, self.coll, self.brs, self.distinct, self.st, self.fid = it, s, coll, brs, distinct, st, fid
        self.assigned = stored_names(s.body) | stored_names([ast.Expr(s.target)] if False else []) | \
            {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        self.consts = {}
        self.escape = set()

    # --- frame ------------------------------------------------------------------------------------
    def open_logs(self, st, q, base):
        it = self.it
        self.logged = [c for c, v in st.cells.items() if isinstance(v, Coll) or isinstance(v, dict) and ('list' in v or 'newdict' in v)]
        for c in self.logged:
            q.log[c] = []
            it.logbase[c] = base
        q.log['%dataset'] = []
        it.logbase['%dataset'] = base

    def check_frame(self, st, s):
        """Objects and containers that exist before the loop change only in ways that the rules know."""
        for c, v in st.cells.items():
            if c in s.cells and s.cells[c] is not v and c not in self.logged:
                raise Unsupported('container changed in a loop')
            if c in s.cells and c in self.logged and s.cells[c] is not v:
                raise Unsupported('container changed in a loop')
        for o, f in st.fields.items():
            g = s.fields.get(o)
            if g is not f and g != f:
                raise Unsupported('attribute of a new object changed in a loop')
        for o, f in st.raw.items():
            g = s.raw.get(o, {})
            if any(not g[p].eq(f[p]) for p in f):
                raise Unsupported('flags of a new object changed in a loop')
        for o, h in st.heap.items():
            if o in st.created and o not in st.escaped:
                g = s.heap.get(o, {})
                if o in s.escaped or any(not (p in h and g[p].eq(h[p])) for p in g):
                    self.escape.add(o)
        for f, fr in st.frames.items():
            g = s.frames.get(f)
            if g is None:
                continue
            for n, v in fr.items():
                if g.get(n) is not v and not (f == self.fid and n in self.assigned):
                    a, b2 = g.get(n), v
                    if isinstance(a, Obj) and isinstance(b2, Obj) and a.oid == b2.oid:
                        continue
                    if f == self.fid and n in self.assigned:
                        continue
                    raise Unsupported('variable %s of another function changed in a loop' % n)

    # --- main -------------------------------------------------------------------------------------
    def execute(self):
        it = self.it
        saved = dict(it.logbase)
        for attempt in range(6):
            n = len(it.obs)
            st = self.st.copy()
            for o in self.escape:
                st.escaped.add(o)
            esc = set(self.escape)
            it.logbase = dict(saved)
            try:
                r = self.attempt(st)
                if self.escape - esc:
                    raise Again()
                return r
            except PoisonRead as p:
                del it.obs[n:]
                v = self.st.frames[self.fid].get(p.name)
                if v is None or v is POISON or p.name not in self.assigned or getattr(self, 'carried', None):
                    raise Unsupported('loop-carried variable ' + p.name)
                self.carried = p.name
            except Again:
                del it.obs[n:]
            finally:
                it.logbase = saved
        raise Unsupported('loop')

    def attempt(self, st):
        it, fr = self.it, st.frames[self.fid]
        brs = []
        for b in self.brs:
            b, _ = it.rename(b, st)
            brs.append(b)
        carried = getattr(self, 'carried', None)
        self.consts = {}
        phase = None
        for n in sorted(self.assigned):
            v = fr.get(n)
            if n == carried or v is None or v is POISON:
                continue
            if isinstance(it.norm(v), PB) and (is_true(simp(it.norm(v).b)) or is_false(simp(it.norm(v).b))) and it.norm(v).undef is None \
                    or isinstance(v, Py) and v.c is None:
                self.consts[n] = it.norm(v)
        if carried is not None:
            return self.fold(st, brs, carried)
        return self.search(st, brs)

    def after(self, st, facts, runs):
        """State after the loop."""
        it = self.it
        s = st.copy()
        s.epoch = it.oid()
        s.path += [f for f in facts if not is_true(f)]
        for n in self.assigned:
            if n in s.frames[self.fid] and n not in self.consts:
                s.frames[self.fid][n] = POISON
        return s

    def every(self, b, cond, skip=None):
        """For every element but `skip`: cond."""
        c = b.cond
        if skip is not None:
            c = simp(And(c, Or(*[x != y for x, y in zip(b.binders, skip)])))
        if is_true(simp(cond)):
            return th.T
        if not b.binders:
            return simp(Implies(c, cond))
        return self.it.th.all(b.binders, b.doms, c, cond)

    def partial(self, s, runs):
        """An exit state: containers that the loop fills are unknown."""
        for r in runs:
            for q in r.falls + r.breaks:
                for c in self.logged:
                    if q.log.get(c):
                        s.cells[c] = Opaque(('partial',))
        s.log = {k: list(v) for k, v in self.st.log.items()}
        return s

    def search(self, st, brs):
        it = self.it
        outs, finals, facts = [], [], []
        runs = [Run(self, st, b) for b in brs]
        writes = []
        for r in runs:
            quiet = []
            for s in r.falls:
                n = self.changed(s)
                if n is None:
                    quiet.append(s)
                    continue
                for c, q in self.split(s, n):
                    if c:
                        writes.append((r, q, n))
                    else:
                        quiet.append(q)
            r.quiet = quiet
            facts.append(self.every(r.b, r.normal(quiet if any(w[0] is r for w in writes) else None)))
        if writes and len(brs) != 1:
            raise Unsupported('several generators')
        for r in runs:
            outs += [it_out(o, self.partial(o.st, runs)) for o in r.exits]
            finals += [self.partial(s, runs) for s in r.breaks]
        end = self.after(st, facts, runs)
        self.apply_logs(end, runs)
        finals.append(end)
        seen = {}
        for r, w, n in writes:
            o2, f2 = self.phase1(st, r, w, n, runs)
            outs += o2
            finals += f2
        return outs, finals

    def changed(self, s):
        """The constant-initialised variable that the state has changed."""
        res = []
        for n, v in self.consts.items():
            w = s.frames[self.fid].get(n)
            w = self.it.norm(w) if w is not None and w is not POISON else w
            if w is v:
                continue
            if isinstance(v, PB) and isinstance(w, PB) and w.undef is None and simp(w.b).eq(simp(v.b)):
                continue
            if isinstance(v, Py) and isinstance(w, Py) and v.c is w.c:
                continue
            res.append(n)
        if len(res) > 1:
            raise Unsupported('several variables change in a loop')
        return res[0] if res else None

    def split(self, s, n):
        """[(changed?, state)]"""
        it, v, w = self.it, self.consts[n], it_norm(self.it, s.frames[self.fid][n])
        if isinstance(v, PB) and isinstance(w, PB) and w.undef is None:
            b = simp(w.b)
            if is_true(b) or is_false(b):
                return [(True, s)]
            same = simp(b == v.b)
            out = []
            for c, k in ((same, False), (simp(Not(same)), True)):
                q = s.copy()
                q.path.append(c)
                if it.feasible(q):
                    q.frames[self.fid][n] = PB(simp(Not(v.b)) if k else v.b)
                    out.append((k, q))
            return out
        if isinstance(v, Py) and isinstance(w, (Obj, PB, Py)):
            return [(True, s)]
        raise Unsupported('variable %s in a loop' % n)

    def phase1(self, st, r, w, n, runs):
        """Some element (the binders of r) has written variable n; the state after that is w. The rest of the loop."""
        it = self.it
        val = w.frames[self.fid][n]
        start = w.copy()
        start.log = {k: list(v) for k, v in st.log.items()}
        b, _ = it.rename(r.b, start)
        extra = []
        if self.distinct:
            extra = [Or(*[x != y for x, y in zip(b.binders, r.b.binders)])]
        saved = dict(self.consts)
        self.consts[n] = val
        outs, finals = [], []
        try:
            r1 = Run(self, start, b, extra=extra)
            for s in r1.falls:
                m = self.changed(s)
                if m is not None:
                    for c, q in self.split(s, m):
                        if c:
                            raise Unsupported('variable %s is written again' % n)
            outs += [it_out(o, self.partial(o.st, runs + [r1])) for o in r1.exits]
            finals += [self.partial(s, runs + [r1]) for s in r1.breaks]
            f = self.every(b, simp(Or(self.rebind(r, b, r.normal(r.quiet)), r1.normal())), r.b.binders if self.distinct else None)
        finally:
            self.consts = saved
        if any(q.log.get(c) for q in r.falls + r1.falls for c in self.logged):
            raise Unsupported('accumulation and phases')
        end = self.after(start, [f], [r])
        end.frames[self.fid][n] = val
        finals.append(end)
        return outs, finals

    def rebind(self, r, b, e):
        return z3.substitute(e, *zip(r.b.binders, b.binders))

    # --- containers -------------------------------------------------------------------------------
    def apply_logs(self, end, runs):
        it = self.it
        end.log = {k: list(v) for k, v in self.st.log.items()}
        for c in self.logged:
            adds = []
            kinds = set()
            for r in runs:
                entries = []
                for s in r.falls:
                    for e in s.log.get(c, []):
                        if not any(e is f for f in entries):
                            entries.append(e)
                if any(e[5:6] in (('group',), ('init',)) for e in entries):
                    if c in self.st.log:
                        raise Unsupported('grouping in nested loops')
                    adds.append(None)
                    kinds.add('group')
                    continue
                for e in entries:
                    bs, ds, cond, val, weight = e[:5]
                    kinds.add(e[5] if len(e) > 5 else 'add')
                    terms = []
                    it.val_terms(val, terms)
                    ex = it.skolemize([simp(And(r.b.cond, cond)), weight] + terms, r.b.binders + bs, r.start)
                    val = it.rebuild(val, iter(ex[2:]), end)
                    w = ex[1] if e[5:] == ('set',) or e[5:] == ('group',) else simp(ex[1] * r.b.weight)
                    adds.append((Branch(r.b.binders + bs, r.b.doms + ds, ex[0], val, w), r))
                if r.breaks and entries:
                    raise Unsupported('break in a loop that fills a container')
            if not adds:
                continue
            if c in it.logreads and 'group' not in kinds:
                raise Unsupported('container is read while a loop fills it')
            if 'group' in kinds:
                self.group(end, c, adds, runs)
                continue
            if c in self.st.log:
                # an enclosing loop collects
                if kinds != {'add'}:
                    raise Unsupported('assignment in nested loops')
                extra = it.essential(self.st.path, self.outer[c])
                for b, r in adds:
                    end.log[c].append((b.binders, b.doms, simp(And(b.cond, *extra)), b.val, b.weight))
                continue
            if 'set' in kinds:
                if len(adds) != 1 or len(runs) != 1:
                    raise Unsupported('assignments to a container')
                b, r = adds[0]
                inj = len(b.binders) == 1 and isinstance(b.val, Obj) and b.val.v.eq(b.binders[0]) and self.distinct
                if not inj and not (self.distinct and self.injective(end, b)):
                    raise Unsupported('keys of assignments to a container')
            it.apply_adds(CellRef(c), [b for b, _ in adds], end, self.s)
        ds = []
        for r in runs:
            for s in r.falls + r.breaks + [o.st for o in r.exits]:
                for e in s.log.get('%dataset', []):
                    ds.append((e, r, s))
        if ds:
            self.update(end, ds, runs)

    def injective(self, st, b):
        it = self.it
        if not isinstance(b.val, Obj) or len(b.binders) != 1:
            return False
        y = it.th.fresh('e')
        f = lambda e: z3.substitute(e, (b.binders[0], y))
        p = st.path + b.doms + [b.cond] + [f(d) for d in b.doms] + [f(b.cond)]
        return it.pr.prove(p, Implies(b.val.v == f(b.val.v), y == b.binders[0]))

    def update(self, end, ds, runs):
        """d[k] = w(k) for every key k of the data d of a new object."""
        it = self.it
        if len(runs) != 1 or runs[0].exits or runs[0].breaks or len(runs[0].falls) != 1 or len(ds) != 1:
            raise Unsupported('update of a container')
        (o, k, w, path), r, s = ds[0]
        obj = o.obj
        b = r.b
        src = self.coll
        while isinstance(src, (View, IterV)):
            src = src.coll if isinstance(src, View) else it.bad()
        if not (isinstance(src, DataRef) and src.obj.oid == obj.oid and len(b.binders) == 1 and k.eq(b.binders[0]) and
                not r.essential(s)):
            raise Unsupported('update of a container')
        if obj.oid not in end.created or obj.oid in end.escaped:
            raise Unsupported('update of an existing object')
        h = end.heap.get(obj.oid, {})
        for p, t in h.items():
            if not simp(t).eq(simp(it.init_known(p, obj.v))):
                raise Unsupported('update of an object with cached properties')
        q = end.copy()
        q.path += b.doms + [b.cond]
        it.ob(q, 'multiplicity is positive', 'value', w > 0, self.s, False)
        v2 = it.th.msetby(b.binders[0], w, simp(And(*b.doms)))
        n = Obj(v2, it.oid())
        end.created.add(n.oid)
        end.heap[n.oid] = {p: it.init_known(p, v2) for p in h}
        for fr in end.frames.values():
            for name, val in list(fr.items()):
                if isinstance(val, Obj) and val.oid == obj.oid:
                    fr[name] = n
        for c, val in end.cells.items():
            if isinstance(val, Obj) and val.oid == obj.oid or isinstance(val, tuple) and any(isinstance(x, Obj) and x.oid == obj.oid for x in val):
                raise Unsupported('update of a shared object')

    def group(self, end, c, adds, runs):
        """d[label(e)] gets e, for every element e."""
        it = self.it
        if len(runs) != 1 or runs[0].exits or runs[0].breaks:
            raise Unsupported('grouping')
        r = runs[0]
        want, kinds = None, set()
        if 'default' in end.cells[c]:
            kinds.add(end.cells[c]['default'])
        for s in r.falls:
            log = s.log.get(c, [])
            kinds |= {e[6] for e in log if len(e) > 6}
            es = [e for e in log if e[5:6] != ('init',)]
            if len(es) != 1 or es[0][5:6] != ('group',):
                raise Unsupported('grouping')
            sig = (es[0][3].items[0].v, es[0][3].items[1].v, es[0][4], es[0][6])
            if want is not None and not all(x.eq(y) if z3.is_expr(x) else x == y for x, y in zip(sig, want)):
                raise Unsupported('grouping')
            want = sig
        if len(kinds) != 1:
            raise Unsupported('grouping')
        if len(r.b.binders) != 1 or not want[1].eq(r.b.binders[0]) or not self.distinct:
            raise Unsupported('grouping')
        key = it.skolemize([want[0]], r.b.binders, r.start)[0]
        if key is not want[0] and not key.eq(want[0]):
            raise Unsupported('grouping')
        end.cells[c] = dict(group=True, branch=r.b, key=key, weight=want[2], kindname=want[3])

    # --- folds ------------------------------------------------------------------------------------
    def fold(self, st, brs, name):
        it = self.it
        v0 = st.frames[self.fid][name]
        if len(brs) != 1:
            raise Unsupported('fold over several generators')
        if not isinstance(v0, Obj) and not isinstance(v0, Coll):
            raise Unsupported('loop-carried variable %s' % name)
        iscoll = isinstance(v0, Coll)
        t0 = v0.v if not iscoll else v0.t
        k = it.kindof(t0, st)
        if k not in (3, 4):
            return self.fold_any(st, brs[0], name, v0)
        A = it.th.fresh('acc')
        wrap = (lambda t: Coll(t, v0.k)) if iscoll else (lambda t: Obj(t, it.oid()))
        q = st.copy()
        q.path.append(kind(A) == k)
        b = brs[0]
        r = Run(self, q, b, name, wrap(A))
        if r.breaks or any(self.changed(s) for s in r.falls) or any(s.log.get(c) for s in r.falls for c in self.logged):
            raise Unsupported('fold with break or several variables')
        ne = self.no_exit(r, A)
        parts = []
        for s in r.falls:
            w = s.frames[self.fid][name]
            if w is POISON or type(w) is not type(v0):
                raise Unsupported('loop-carried variable %s' % name)
            F = w.v if not iscoll else w.t
            if not it.pr.prove(s.path, kind(F) == k):
                raise Unsupported('fold: kind')
            cs = []
            for p in r.essential(s):
                if contains(p, A):
                    if not it.pr.quick(s.path[:r.base], p):
                        raise Unsupported('fold: condition on the accumulator')
                else:
                    cs.append(p)
            if fresh_in(it, F, r.start, {A.get_id()}) or any(fresh_in(it, c, r.start, {A.get_id()}) for c in cs):
                raise Unsupported('fold: fresh values')
            cs = [c for c in cs if not it.pr.quick(s.path[:r.base] + [ne], c)]
            parts.append((s, simp(And(*cs)) if cs else th.T, F))
        y = it.th.fresh('y')
        res = None
        if k == 3:
            res = self.fold_union(st, r, b, parts, A, y, t0)
            if res is None:
                res = self.fold_intersect(st, r, b, parts, A, y, t0)
        else:
            res = self.fold_mset(st, r, b, parts, A, y, t0)
        if res is None:
            raise Unsupported('fold')
        outs = [it_out(o, self.partial(o.st, [r])) for o in r.exits]
        end = self.after(st, [self.every(b, ne)], [r])
        end.log = {kk: list(v) for kk, v in self.st.log.items()}
        end.frames[self.fid][name] = wrap(res)
        return outs, [end]

    def fold_any(self, st, b, name, v0):
        """acc = F(acc, x) for the items of a sequence, in order: the value is a term Fold(F, v0, sequence)."""
        it, T = self.it, self.it.th
        if not isinstance(v0, Obj) or not isinstance(self.coll, SymSeq) or len(b.binders) != 1 or not is_true(simp(b.cond)):
            raise Unsupported('loop-carried variable %s' % name)
        A = T.fresh('acc')
        q = st.copy()
        q.path.append(And(kind(A) >= 0, kind(A) <= 4))
        it.ob(st, 'invariant: the accumulator is a math object or undefined', 'pre', And(kind(v0.v) >= 0, kind(v0.v) <= 4), self.s, False)
        r = Run(self, q, b, name, Obj(A, it.oid()))
        if r.breaks or r.exits or any(self.changed(s) for s in r.falls) or any(s.log.get(c) for s in r.falls for c in self.logged):
            raise Unsupported('fold with exits or several variables')
        F = None
        for s in r.falls:
            w = s.frames[self.fid][name]
            if not isinstance(w, Obj):
                raise Unsupported('loop-carried variable %s' % name)
            it.ob(s, 'invariant: the accumulator is a math object or undefined', 'pre', And(kind(w.v) >= 0, kind(w.v) <= 4), self.s, False)
            F = w.v if F is None else If(r.cond(s), w.v, F)
        F = simp(F)
        if fresh_in(it, F, r.start, {A.get_id(), b.binders[0].get_id()}):
            raise Unsupported('fold: fresh values')
        t = T.fold(A, b.binders[0], F, v0.v, self.coll.q)
        end = self.after(st, [And(kind(t) >= 0, kind(t) <= 4)], [r])
        end.log = {kk: list(v) for kk, v in self.st.log.items()}
        end.frames[self.fid][name] = Obj(t, it.oid())
        return [], [end]

    def no_exit(self, r, A):
        ex = [r.cond(o.st) for o in r.exits]
        if any(contains(c, A) for c in ex):
            return th.T
        e = simp(Not(Or(*ex))) if ex else th.T
        return e if not fresh_in(self.it, e, r.start, {x.get_id() for x in r.b.binders}) else th.T

    def step(self, s, goal): return self.it.pr.check(s.path + [Not(goal)], 4000000) == z3.unsat

    def fold_union(self, st, r, b, parts, A, y, t0):
        it, T = self.it, self.it.th
        G = [z3.substitute(F, (A, th.EMPTY)) for _, _, F in parts]
        for (s, c, F), g in zip(parts, G):
            if not self.step(s, mem(y, F) == Or(mem(y, A), mem(y, g))):
                return None
        ts = [t0]
        for (s, c, F), g in zip(parts, G):
            for bs, ds, cc, val in self.members(g, y):
                ts.append(T.setof(b.binders + bs, b.doms + ds, simp(And(b.cond, c, cc)), val))
        return it.union([t for t in ts if not t.eq(th.EMPTY)])

    def members(self, g, y):
        """The set g as comprehensions (binders, domains, condition, value)."""
        T = self.it.th
        i = T.info.get(g.decl().name())
        if g.eq(th.EMPTY):
            return []
        if i and i['tag'] in ('Set', 'SetBy'):
            f = lambda e: z3.substitute(e, *zip(i['params'], g.children())) if i['params'] else e
            bodies = [f(e) for e in i['bodies']]
            if i['tag'] == 'Set':
                bs = [T.fresh('e', x.sort()) for x in i['binders']]
                h = lambda e: z3.substitute(e, *zip(i['binders'], bs))
                return [(bs, [h(d) for d in T.conjuncts(bodies[0])], h(bodies[1]), h(bodies[2]))]
            v = i['binders'][0]
            cs = list(bodies[0].children()) if z3.is_or(bodies[0]) else [bodies[0]]
            if all(z3.is_app(c) and c.decl().eq(mem) and c.arg(0).eq(v) for c in cs):
                return [m for c in cs for m in self.members(c.arg(1), self.it.th.fresh('y'))]
        return [([y], [mem(y, g)], th.T, y)]

    def fold_intersect(self, st, r, b, parts, A, y, t0):
        T = self.it.th
        body = []
        for s, c, F in parts:
            H = mem(y, z3.substitute(F, (A, th.single(y))))
            if not self.step(s, Implies(And(kind(y) >= 1, kind(y) <= 4), mem(y, F) == And(mem(y, A), H))):
                return None
            body.append(Implies(c, H))
        return T.setby(y, simp(And(mem(y, t0), T.all(b.binders, b.doms, b.cond, simp(And(*body))))), simp(mem(y, t0)))

    def fold_mset(self, st, r, b, parts, A, y, t0):
        it, T = self.it, self.it.th
        G = [z3.substitute(F, (A, th.MEMPTY)) for _, _, F in parts]
        mx = lambda p, q: If(p >= q, p, q)
        mn = lambda p, q: If(p <= q, p, q)
        full = self.full(st, b, t0, parts, G)
        if full is None:
            return None
        fb = full
        if len(parts) != 1 or not is_true(simp(parts[0][1])):
            return None
        s, c, F = parts[0]
        g = G[0]
        sub = lambda e: z3.substitute(e, *zip(b.binders, fb.binders))
        if self.step(s, mult(y, F) == mult(y, A) + mult(y, g)):
            gg = sub(g)
            return T.msetof(fb.binders + [y], fb.doms + [mem(y, gg)], fb.cond, y, simp(fb.weight * mult(y, gg)))
        if self.step(s, mult(y, F) == mx(mult(y, A), mult(y, g))):
            gg = sub(g)
            val = T.extremum(fb.binders, fb.doms, fb.cond, mult(y, gg), 1)
            return T.msetby(y, val, T.any(fb.binders, fb.doms, fb.cond, mem(y, gg)))
        # minimum: F(acc, e)(y) = min(acc(y), h(e)(y)) with h(e) = the loop's e itself
        if len(b.binders) == 1 and self.step(s, mult(y, F) == mn(mult(y, A), mult(y, b.binders[0]))):
            val = T.extremum(fb.binders, fb.doms, fb.cond, mult(y, fb.binders[0]), -1)
            return T.msetby(y, val, T.any(fb.binders, fb.doms, fb.cond, mem(y, fb.binders[0])))
        return None

    def full(self, st, b, t0, parts, G):
        """The loop continues an iterator after its first element f, and the initial value is G(f): the branch of the
        whole iteration (lemma fold_first); or the initial value is empty."""
        it = self.it
        if t0.eq(th.MEMPTY):
            return b
        src = self.coll
        if not isinstance(src, IterV):
            return None
        coll, first = st.cells[src.cid]
        if first is None or len(b.binders) != 1:
            return None
        brs, dist = it.domain(coll, st, self.s)
        if len(brs) != 1 or len(brs[0].binders) != 1:
            return None
        g1 = z3.substitute(G[0], (b.binders[0], first))
        if t0.eq(first) or it.pr.eq(st.path, t0, g1):
            pass
        else:
            return None
        if t0.eq(first) and not it.pr.eq(st.path, t0, g1):
            # minimum only: G is empty; the value of the first element is the element itself
            pass
        b2, _ = it.rename(brs[0], st)
        return b2


def contains(e, c):
    stack, seen = [e], set()
    while stack:
        q = stack.pop()
        if q.get_id() in seen:
            continue
        seen.add(q.get_id())
        if q.eq(c):
            return True
        if z3.is_quantifier(q):
            stack.append(q.body())
        else:
            stack += q.children()
    return False


def it_norm(it, v): return it.norm(v) if v is not POISON else v


def it_out(o, s):
    o.st = s
    return o


def loop(it, s, coll, brs, distinct, st, fid):
    l = Loop(it, s, coll, brs, distinct, st, fid)
    l.outer = dict(it.logbase)
    if not st.log:
        it.logreads = set()
    return l.execute()
