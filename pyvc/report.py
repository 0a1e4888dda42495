"""Which contracts decide which property, and what a run proved."""
import z3
from spec.contracts import CONTRACTS
from spec.flags import PROPS as FLAG_PROPS
from spec.mapping import group, UNPROVED, UNPROVED_OBLIGATIONS

VALUE = {'value', 'undef', 'pre', 'assert', 'vacuity'}
TRUSTED = [
    'z3 %s (discharges every obligation; deterministic resource limits)' % z3.get_version_string(),
    'pyvc: symbolic execution of the Python subset (pyvc/interp.py, loops.py) over the ast of the source in /repo at each run; '
    'nothing of the function bodies is dropped except docstrings, annotations and the messages of assertions',
    'pyvc/theory.py: first-order axioms of finite sets, multisets, couplets, atoms and of comprehensions over them; '
    'those that are not definitions (cardinality of images, folds) are proved in lean/Lemmas.lean',
    'semantics of the builtins that appear: frozenset, Counter, dict, iterators, generators, itertools.product/chain/combinations, '
    'functools.partial/reduce, all/any/len/sum/min/max/next/isinstance',
]
ASSUME = [
    'math objects are built by the constructors of the library (their __init__ are executed in place by the verifier); equality of '
    'values is structural (eq and hash of the classes: C12)',
    'callables passed as arguments are deterministic, free of side effects and total (they may return Undef())',
    'arguments that are iterables (*lefts, *values, dicts) are finite; plain values convert to atoms that are equal exactly if the '
    'values are',
    'recursion through nested values terminates (values are finite trees); stack depth and memory are unbounded',
    'assertions are enabled or not: assertions are obligations, never assumptions about callers outside of the contracts',
]
INVARIANT = ('class invariant: every cached property that is known of an argument is the truth (each function is proved to '
             'preserve it: obligations of kind `flags`, decided by C07)')


VALUES = ('the values that called functions return are those of their contracts (decided by C01 to C06, C09, C10, C13, C15; '
          'only the obligations of this property are discharged here)')


C08_TRUSTED = [
    TRUSTED[0],
    'pyvc/flagvc.py: symbolic execution of MathObject.cache_*, cached_*, is_* and of _flags.py from the ast of the source in /repo at '
    'each run, all paths; calls of cache_* go through their contracts (spec/flags.py); nothing is dropped except docstrings, annotations '
    'and the messages of exceptions',
    'ctypes bit-fields keep the low bits of an integer; their layout is evaluated with the real class',
]
C08_ASSUME = [
    'statuses are integers (not other types); is_empty of an object never changes',
    'nobody writes obj._flags from outside of the library; within it, the absence of other writers is a syntactic frame obligation',
    'assertions are enabled (python without -O)',
]


C16_TRUSTED = [
    TRUSTED[0],
    'pyvc/structvc.py: symbolic execution of structure.py, MathObject.get_ground_set and get_ground_set of the algebras from the ast '
    'of the source in /repo at each run, all paths; calls of is_subset, is_same, get_powerset_level and of get_ground_set of parts go '
    'through their contracts (spec/structures.py) with a termination measure; nothing is dropped except docstrings, annotations and the '
    'messages of assertions',
    'spec/structures.py: membership of an item in a structure, the definition of the ground set of a value, the invariants of the classes '
    '(obligations of the constructors)',
    'semantics of frozenset, set, isinstance, type, any, all, hash, zip that appear; the hash of a frozenset depends on the hashes of its '
    'elements only, and equal elements with equal hashes make equal frozensets',
]
C16_ASSUME = [
    'structures and math objects are finite trees (built by their constructors); unions are built from a non-empty finite iterable of '
    'structures; stack depth and memory are unbounded',
    'callers pass structures to is_subset, is_same, get_powerset_level and to the constructors',
    'nobody writes the components of a structure from outside of structure.py; within it, the absence of other writers is a syntactic '
    'frame obligation; data, left, right of math objects: C12',
    'the properties of ground sets are stated for objects without empty sets and multisets inside (as in the property)',
]
C12_TRUSTED = [
    'pyvc/valuevc.py: symbolic execution of __eq__, __ne__, __hash__, the properties value, left, right, data and the constructor of '
    'atoms from the ast of the source in /repo at each run, all paths; ==, != and hash of components go through their contracts '
    '(spec/values.py) with a termination measure; get_hash is executed in place; nothing is dropped except docstrings and annotations',
    'semantics of frozenset, Counter: == compares the elements (and multiplicities) by ==, none of several equal elements is kept twice, '
    'hash depends on the hashes of the elements only; a loop over a collection whose step commutes (obligation) gives the same for equal '
    'collections',
]
C12_ASSUME = [
    'plain values of one type: == is an equivalence, != its negation, equal values have equal hashes (not so for NaN); math objects are '
    'finite trees; no subclasses of Atom, Couplet, Set, Multiset',
    'the hash is computed before or after with the same hash of the components (python hash seed of the process)',
]
C17_TRUSTED = [
    TRUSTED[0],
    'pyvc/jsonvc.py: symbolic execution of encode, decode, object_hook_f, ExportJson.default, ImportJson.__init__ from the ast of the '
    'source in /repo at each run, all paths, for a value of each type; encode of a part and decode of what is not a dictionary anymore '
    'go through their contracts (structural induction over the value); nothing is dropped except docstrings and annotations',
    'the json library: arrays and objects of strings, numbers, Booleans and null come back as lists and dictionaries of the same, tuples as '
    'lists; the encoder calls default for every object of another type; the decoder replaces dictionaries by what the object hook gives, '
    'innermost first',
    'bytes, frozenset, list, tuple, range of their elements or parts, complex of its text, and math objects of their parts are equal to '
    'the original (C12)',
]
C17_ASSUME = [
    'values are finite trees of the listed types, not of subclasses of them (named tuples, enumerations), and contain no dictionaries',
    'floats are no NaN; a part that is a list or tuple below an atom is encoded by encode, not by the json library',
    'that different objects have different encodings follows from the round trip',
]
C19_TRUSTED = [
    TRUSTED[0],
    'pyvc/importvc.py: symbolic execution of import_json, import_xml, their local functions and get_left_cached from the ast of the source '
    'in /repo at each run, all paths, for any node of any document; the recursive generators go through their contracts for the parts of '
    'a node (structural induction, the part is smaller); a loop or comprehension is executed for any element, what it gives for all of '
    'them is described by a formula; nothing is dropped except docstrings and annotations',
    'json.load gives the document as dictionaries, lists and scalars, xml.dom.minidom.parse as nodes with nodeType, tagName, attributes, '
    'childNodes and data; open, and that both accept a file or what is opened',
    'set, list, union, len, iteration contain each element; atoms, couplets and sets have the given components (C12)',
]
C19_ASSUME = [
    'documents are finite trees; JSON: the root is an object or array, arrays have objects and arrays only, no null; XML: elements, '
    'attributes and text only (no comments, processing instructions, CDATA sections)',
    'int(), float(), strip() of a text are uninterpreted functions (int, then float, then the text itself is what is specified)',
]
C18_TRUSTED = [
    TRUSTED[0],
    'pyvc/csvvc.py: symbolic execution of import_csv (with and without types, index column, duplicates), export_csv (with and without given '
    'columns), their local functions and get_left_cached from the ast of the source in /repo at each run, all paths, for any number of '
    'rows, columns and cells; the loop over the rows by invariants that are selected among candidates and checked by the solver; nothing '
    'is dropped except docstrings and annotations',
    'csv.DictReader gives for each row a dictionary of the given columns or those of the header line; csv.DictWriter writes the columns '
    'as header line and of each row what is in these columns; that what csv writes it reads back (delimiters, quotes, line breaks); open',
    'Set and Multiset contain or count each element they are built from, iteration of a multiset repeats it by its multiplicity (C12); '
    'the contracts of is_member, is_absolute_member, is_regular, get_right and get_left_set (C02, C09, C10)',
]
C18_ASSUME = [
    'no row has more cells than there are columns; the functions of the column types always give the same value for the same text; '
    'exported are clans and multiclans of relations of plain values that are read back as text',
]
C14_TRUSTED = [
    TRUSTED[0],
    'pyvc/slicevc.py: symbolic execution of order_slice, order_slice_to_listgen, multiclan_to_listgen and their helpers from the ast of '
    'the source in /repo at each run, all paths, for every shape of the arguments (atom, plain number, infinity, undefined, anything '
    'else; checked and unchecked); loops by invariants that are selected among candidates and checked by the solver; calls of each other, '
    'of is_member (C10) and of make_or_raise_undef (C11) go through their contracts; nothing is dropped except docstrings, annotations '
    'and the messages of assertions',
    'the specified list is defined by the prefix sums of the multiplicities; the facts about it are lemmas proved by induction at each run, '
    'that an item has as many positions in a window as specified is window_positions in lean/Lemmas.lean',
    'list.sort and sorted give a stable sorted permutation for the comparison of their keys (obligation: it is less_than_f)',
]
C14_ASSUME = [
    'offset and limit are integers and not negative (a limit may be infinite); less_than_f gives an atom of a truth value and is a strict '
    'weak order; multiplicities are positive',
    'the items of a dictionary come in the same order each time; Multiset(d, direct_load=True) has the elements and multiplicities of d (C12)',
]
# properties that an engine of their own decides: engine, what is trusted, what is assumed
ENGINES = {'C08': ('flagvc', C08_TRUSTED, C08_ASSUME), 'C14': ('slicevc', C14_TRUSTED, C14_ASSUME), 'C16': ('structvc', C16_TRUSTED, C16_ASSUME),
           'C17': ('jsonvc', C17_TRUSTED, C17_ASSUME), 'C18': ('csvvc', C18_TRUSTED, C18_ASSUME),
           'C19': ('importvc', C19_TRUSTED, C19_ASSUME)}


C20_TRUSTED = [
    'pyvc/textvc.py: symbolic execution of export_table and of the writer classes that it uses (methods, super, local and abstract '
    'classes resolved as Python does) from the ast of the source in /repo at each run, all paths, for csv and json, any number of '
    'relations and any positive number of columns; a loop that writes is verified by induction over its elements, the values of the '
    'variables it changes by invariants that are selected among candidates; what is written is compared with the specified document '
    'token by token; nothing is dropped except docstrings, annotations and the messages of assertions',
    'json.dumps of a text gives a JSON string of it, write adds to the file, str of a value, replace and other text methods are '
    'uninterpreted functions; sorted, iter, next, enumerate, open; rdflib.Literal(x).datatype is a property of x',
    'the contracts of is_member, is_absolute_member (C10) and get_right (C09)',
]
C20_ASSUME = [
    'export_table: there is a column, the table is an absolute clan; iterating a set twice gives the same order; a datatype is None or a '
    'URI without quotes, backslashes and control characters; the same text for different values and the order of the rows are not judged',
]
# properties that an engine decides in addition to the contracts: engine, what is trusted, what is assumed, cases of its functions
EXTRA = {'C12': ('valuevc', C12_TRUSTED, C12_ASSUME, 'case:c12_equal'), 'C20': ('textvc', C20_TRUSTED, C20_ASSUME, 'case:c20_table')}


def engine(prop):
    import importlib
    return importlib.import_module('pyvc.' + ENGINES[prop][0]) if prop in ENGINES else None


def extra(prop):
    import importlib
    return importlib.import_module('pyvc.' + EXTRA[prop][0]) if prop in EXTRA else None


def prop_of(key):
    return group(CONTRACTS[key]) if key in CONTRACTS else None


class Proof:
    def __init__(self, prop):
        self.prop = prop
        cs = CONTRACTS.values()
        self.results = {}
        self.closure, self.only = True, None
        if prop == 'C07':
            self.clauses, keys = {'flags'}, [c.key for c in cs]
        elif prop == 'C11':
            self.clauses, keys = {'undef', 'vacuity'}, [c.key for c in cs if c.checked]
        elif prop == 'C12':
            self.clauses, keys = {'frame'}, [c.key for c in cs]
        elif prop in ENGINES:
            self.clauses, keys = VALUE | {'frame'}, []
        else:
            # the answer of a query is what it caches: a write that is not the truth is a wrong answer
            self.clauses, keys = VALUE | ({'frame'} if prop == 'C23' else {'flags'} if prop in ('C09', 'C10') else set()), [c.key for c in cs if group(c) == prop]
        if prop in ('C07', 'C11', 'C12'):
            self.only, self.closure = self.clauses, False
        self.bounded = {k: UNPROVED[k] for k in keys if k in UNPROVED}
        self.keys = [k for k in keys if k not in UNPROVED]
        if prop == 'C08':
            self.keys = ['mathobjects.mathobject.MathObject.cache_' + p for p in FLAG_PROPS]
        elif prop in ENGINES:
            self.keys = engine(prop).keys()
        self.extra = set(extra(prop).keys()) if prop in EXTRA else set()
        self.own = set(self.keys) | self.extra
        if prop == 'C07':
            self.bounded.update({'%s: %s' % o: 'the solver does not discharge it reliably' for o in UNPROVED_OBLIGATIONS})

    def evaluate(self):
        self.failed, self.lost, self.notes = [], [], []
        self.obligations = self.discharged = 0
        by = {}
        proved = set()
        for (k, m), r in sorted(self.results.items()):
            by.setdefault(k, []).append(r)
        for k, rs in by.items():
            un = [r for r in rs if r['status'] in ('unsupported', 'crash')]
            other = []
            for r in rs:
                for o in r['obs']:
                    if o['clause'] not in self.clauses and k not in self.extra or o['clause'] == 'flags' and prop_of(k) != self.prop and self.prop != 'C07':
                        if not o['ok']:
                            other.append(o)
                        continue
                    self.obligations += 1
                    self.discharged += o['ok']
                    if not o['ok']:
                        self.failed.append(dict(o, function=k, mode=r['mode']))
            if un:
                self.lost.append((k, un[0]['note']))
            elif not other and not any(f['function'] == k for f in self.failed):
                proved.add(k)
            for o in other:
                self.notes.append('%s: %s (%s)' % (k, o['name'], o['where']))
        self.proved = proved
        self.functions = len(by)

    def coverage(self, cmd):
        rs = list(self.results.values())
        kinds = {}
        for r in rs:
            for o in r['obs']:
                if (o['clause'] in self.clauses and not (o['clause'] == 'flags' and self.prop != 'C07' and prop_of(r['key']) != self.prop)
                        or r['key'] in self.extra):
                    kinds[o['clause']] = kinds.get(o['clause'], 0) + 1
        return {
            'obligations': self.obligations, 'discharged': self.discharged, 'checker_cmd': cmd,
            'trusted_base': ENGINES[self.prop][1] if self.prop in ENGINES else TRUSTED + (EXTRA[self.prop][1] if self.prop in EXTRA else []),
            'obligations_by_kind': kinds, 'back_end': 'z3 ' + z3.get_version_string(),
            'solver_s': round(sum(r['solver_s'] for r in rs), 1), 'solver_queries': sum(r['queries'] for r in rs),
            'functions_under_contract': sorted(self.proved),
            'functions_of_the_property': sorted(self.own),
            'functions_executed_in_place': sorted({f for r in rs for f in r['inlined']}),
            'bounded_only': {**self.bounded, **dict(self.lost)},
            'other_obligations_not_discharged': self.notes,
        }

    def assumptions(self):
        if not self.keys:
            return []
        if self.prop in ENGINES:
            return ENGINES[self.prop][2] + (['bounded only, not proved: ' + ', '.join(sorted(k for k, _ in self.lost))] if self.lost else [])
        out = list(ASSUME) + (EXTRA[self.prop][2] if self.prop in EXTRA else [])
        if self.prop != 'C07':
            out.insert(0, INVARIANT)
        if self.only:
            out.insert(0, VALUES)
        b = {**self.bounded, **dict(self.lost)}
        if b:
            out.append('bounded only, not proved: ' + ', '.join(sorted(b)))
        ground = sorted({a for r in self.results.values() for a in r.get('assumed', [])})
        if ground:
            out.append('contracts of ground sets (proved by C16): ' + ', '.join(ground))
        if any(self.own & {k} and CONTRACTS[k].opts.get('not_nested') for k in CONTRACTS):
            out.append('get_left_set, get_right_set: not specified for nested values (sets of sets that are no clans)')
        rel = sorted({k for r in self.results.values() for k in r['used']} & set(UNPROVED))
        if rel:
            out.append('contracts assumed, checked only in a bounded way: ' + ', '.join(rel))
        return out
