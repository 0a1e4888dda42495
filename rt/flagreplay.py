"""Replay counterexamples of the verifier about the cache of properties (C08) on the real code: flagreplay.py FILE
FILE: {'failed_obligations': [{'function': .., 'model': {'state', 'empty', 'value'}}]}; exit status 1 if one is reproduced."""
import json
import sys

import algebraixlib.mathobjects as mo
from algebraixlib.mathobjects._flags import Flags
from spec import flags as SF
P = SF.Plain


def make(state, empty):
    o = mo.Set() if empty else mo.Set(mo.Atom(1))
    o._flags = Flags()
    for f, s in state.items():
        setattr(o._flags.f, '_' + f, s)
    return o


def state(o): return {f: getattr(o._flags.f, '_' + f) for f in SF.FIELDS}


def broken(function, model):
    """What the real code does wrong from this state, or None."""
    s, empty, v = model['state'], model['empty'], model['value']
    name = function.rsplit('.', 1)[1]
    o = make(s, empty)
    if state(o) != s:
        return 'bit-fields do not hold their values: %s' % state(o)
    if name.startswith('cache_'):
        p = name[6:]
        try:
            r = getattr(o, name)(v)
            refused = False
        except Exception as e:
            refused, r = True, e
        n = state(o)
        if not SF.kept(P, s, n):
            return 'a known property changed: %s' % n
        if refused:
            if not SF.may_refuse(P, p, v, s, empty):
                return 'refused: %r' % r
            if not SF.unaffected(P, p, v, s, n, empty):
                return 'refused, but recorded other properties: %s' % n
        else:
            if SF.refused(P, p, v, s, empty):
                return 'accepted'
            if n != SF.after(P, p, v, s, empty):
                return 'recorded: %s' % n
            if r is not o:
                return 'returned %r' % (r,)
        return None
    p = name.replace('cached_is_not_', '').replace('cached_is_', '').replace('cached_', '')
    if name.startswith('is_'):
        p = name[3:]
    want = s[p] == 2 if 'is_not_' in name else s[p] == 1 if 'is_' in name else s[p]
    try:
        got = getattr(o, name)
    except Exception as e:
        return 'raised %r' % e
    if bool(got) != want if isinstance(want, bool) else got != want:
        return '%s is %r' % (name, got)
    return None


def main():
    rc = 0
    for ob in json.load(open(sys.argv[1]))['failed_obligations']:
        if ob.get('model') and ob['function'].startswith('mathobjects.mathobject.MathObject.'):
            b = broken(ob['function'], ob['model'])
            if b:
                known = {k: v for k, v in ob['model']['state'].items() if v}
                print('%s(%d) of an object that is %s with %s: %s' % (
                    ob['function'].rsplit('.', 1)[1], ob['model']['value'], 'empty' if ob['model']['empty'] else 'not empty', known, b))
                rc = 1
    return rc


if __name__ == '__main__':
    sys.exit(main())
