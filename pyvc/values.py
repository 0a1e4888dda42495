"""Symbolic values and states of the interpreter."""
import z3
from z3 import And, Or, Not, If, is_true, is_false
from .speclang import Unsupported


class Split(Exception):
    """The statement must be executed separately for cond and not cond."""
    def __init__(self, cond): self.cond = cond


class Unmergeable(Exception):
    pass


class PoisonRead(Exception):
    def __init__(self, name): self.name = name


class Val:
    def __repr__(self): return '%s(%s)' % (type(self).__name__, ', '.join('%s' % (x,) for x in self.__dict__.values()))[:200]


class Obj(Val):
    """A math object, Undef() or a plain value: value term and identity."""
    def __init__(self, v, oid): self.v, self.oid = v, oid


class PB(Val):
    """A Boolean; undefined under `undef`."""
    def __init__(self, b, undef=None): self.b, self.undef = b, undef


class PI(Val):
    def __init__(self, i): self.i = i


class Py(Val):
    """A constant."""
    def __init__(self, c): self.c = c


class Seq(Val):
    def __init__(self, items, islist=False): self.items, self.islist = items, islist


class SymSeq(Val):
    """A tuple of unknown length; items are raw values."""
    def __init__(self, q, counted=False): self.q, self.counted = q, counted


class Triples(Val):
    """The triples of an RDF graph of the RDF library."""
    def __init__(self, q): self.q = q


class SymDict(Val):
    def __init__(self, q): self.q = q


class Coll(Val):
    """A frozenset ('fset'), Counter ('counter') without identity."""
    def __init__(self, t, k): self.t, self.k = t, k


class CellRef(Val):
    """A mutable container; the content is in State.cells."""
    def __init__(self, cid): self.cid = cid


class DataRef(Val):
    """The mutable `_data` of a math object."""
    def __init__(self, obj): self.obj = obj


class View(Val):
    def __init__(self, coll, which): self.coll, self.which = coll, which


class Branch:
    def __init__(self, binders, doms, cond, val, weight):
        self.binders, self.doms, self.cond, self.val, self.weight = binders, doms, cond, val, weight


class GenV(Val):
    def __init__(self, branches): self.branches = branches


class IterV(Val):
    """An iterator: cell with (iterable, first element or None)."""
    def __init__(self, cid): self.cid = cid


class Fn(Val):
    def __init__(self, mod, node, cls=None, closure=None): self.mod, self.node, self.cls, self.closure = mod, node, cls, closure


class Partial(Val):
    def __init__(self, fn, args, kwargs): self.fn, self.args, self.kwargs = fn, args, kwargs


class Bound(Val):
    def __init__(self, fn, self_): self.fn, self.self_ = fn, self_


class Abs(Val):
    """An abstract callable (parameter of the verified function)."""
    def __init__(self, f, name): self.f, self.name = f, name


class Cls(Val):
    def __init__(self, mod, node): self.mod, self.node = mod, node


class Mod(Val):
    def __init__(self, name): self.name = name


class Bi(Val):
    """A builtin, or method of a builtin type."""
    def __init__(self, name, self_=None): self.name, self.self_ = name, self_


class FlagsOf(Val):
    def __init__(self, obj): self.obj = obj


class BitsOf(Val):
    def __init__(self, flags): self.flags = flags


class NewFlags(Val):
    def __init__(self, cid): self.cid = cid


class FlagsInt(Val):
    def __init__(self, d): self.d = d


class New(Val):
    """An object under construction."""
    def __init__(self, cls, oid): self.cls, self.oid = cls, oid


class SuperOf(Val):
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_


class Opaque(Val):
    def __init__(self, what): self.what = what


POISON = Opaque('poison')


def ite(c, a, b):
    if a.eq(b) or is_true(c):
        return a
    if is_false(c):
        return b
    if a.sort() == z3.BoolSort():
        return z3.simplify(If(c, a, b))
    return If(c, a, b)


class State:
    def __init__(self):
        self.path, self.frames, self.heap, self.created, self.escaped = [], {}, {}, set(), set()
        self.cells, self.fields, self.raw, self.log, self.gens = {}, {}, {}, {}, []
        self.sub, self.epoch, self.seen = {}, 0, {}

    def copy(self):
        n = State.__new__(State)
        n.path = list(self.path)
        n.frames = {k: dict(v) for k, v in self.frames.items()}
        n.heap = {k: dict(v) for k, v in self.heap.items()}
        n.created, n.escaped = set(self.created), set(self.escaped)
        n.cells = dict(self.cells)
        n.fields = {k: dict(v) for k, v in self.fields.items()}
        n.raw = {k: dict(v) for k, v in self.raw.items()}
        n.log = {k: list(v) for k, v in self.log.items()}
        n.gens = self.gens
        n.sub, n.epoch, n.seen = self.sub, self.epoch, dict(self.seen)
        return n

    def assign(self, o):
        p = self.path
        self.__dict__.update(o.__dict__)
        p[:] = o.path
        self.path = p
