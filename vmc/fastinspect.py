"""Cache source lookups of the harness's own classes (pure functions of files that do not change during a run)."""
import inspect
_find, _lines, _cache = inspect.findsource, inspect.getsourcelines, {}


def findsource(o):
    k = ('f', o)
    if isinstance(o, type) and o.__module__.startswith('vmc.'):
        if k not in _cache:
            _cache[k] = _find(o)
        a, b = _cache[k]
        return list(a), b
    return _find(o)


def getsourcelines(o):
    k = ('l', o)
    if isinstance(o, type) and o.__module__.startswith('vmc.'):
        if k not in _cache:
            _cache[k] = _lines(o)
        a, b = _cache[k]
        return list(a), b
    return _lines(o)


inspect.findsource, inspect.getsourcelines = findsource, getsourcelines
