"""Canonical form of a live Python object graph, for sound state merging.

Two objects with equal canonical forms have isomorphic reachable attribute graphs (identity and cycles
included), so any deterministic operation sequence behaves the same on both."""
import types
import numpy as np


def canon(root, skip=()):
    seen, keep, out = {}, [], []

    def walk(x):
        if x is None or isinstance(x, (bool, str, bytes)):
            out.append(repr(x))
            return
        t = type(x)
        if t is int or t is float or t is complex:
            out.append(repr(x))
            return
        i = id(x)
        if i in seen:
            out.append('#%d' % seen[i])
            return
        if isinstance(x, type):
            out.append('class ' + x.__module__ + '.' + x.__qualname__)
            return
        if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, np.ufunc)):
            out.append('fn ' + getattr(x, '__name__', '?'))
            return
        if isinstance(x, types.MethodType):
            out.append('method ' + x.__func__.__name__)
            walk(x.__self__)
            return
        seen[i] = len(seen)
        keep.append(x)
        if isinstance(x, np.ndarray):
            out.append('nd%s%s' % (x.dtype, x.shape))
            if x.dtype == object:
                for y in x.ravel():
                    walk(y)
            else:
                out.append(x.tobytes().hex() if x.size < 64 else str(hash(x.tobytes())))
            return
        if isinstance(x, np.generic):
            out.append(repr(x.item()))
            return
        out.append('<' + t.__name__)
        if isinstance(x, float):
            out.append(float.__repr__(x))
        elif isinstance(x, int):
            out.append(int.__repr__(x))
        if isinstance(x, dict):
            for k, v in x.items():
                walk(k)
                out.append(':')
                walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                walk(v)
        elif isinstance(x, (set, frozenset)):
            out.append(repr(sorted(map(repr, x))))
        try:
            d = object.__getattribute__(x, '__dict__')
        except AttributeError:
            d = None
        if d:
            for k in sorted(d):
                if k in skip:
                    continue
                out.append('.' + k + '=')
                walk(d[k])
        out.append('>')

    walk(root)
    return ' '.join(out)
