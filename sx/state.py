"""Module- and class-level mutable state of the library, put back before every path and every replay."""

import functools
import sys

LRU = type(functools.lru_cache(lambda: None))
MEMO = {}  # caches of functions wrapped by functools.lru_cache, during symbolic execution
_containers, _spaces, _caches = [], [], []
_PLAIN = (type(None), bool, int, float, str, tuple, frozenset, dict, list, set)


def _skip(k):
    return k.startswith(("__", "sxh_", "_abc", "model_"))


def snapshot():
    _containers.clear()
    _spaces.clear()
    _caches.clear()
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] != "asyncapi3" or m is None:
            continue
        spaces = [m] + [v for v in m.__dict__.values() if isinstance(v, type) and v.__module__ == name]
        for sp in spaces:
            plain = {}
            for k, v in list(vars(sp).items()):
                v = getattr(v, "__func__", v) if isinstance(v, (staticmethod, classmethod)) else v
                if type(v) is LRU:
                    _caches.append(v)
                if _skip(k):
                    continue
                if type(v) in (dict, list, set):
                    _containers.append((v, type(v)(v)))
                if isinstance(v, _PLAIN):
                    plain[k] = v
            _spaces.append((sp, plain, set(vars(sp))))


def restore():
    for obj, content in _containers:
        if type(obj) is list:
            obj[:] = content
        elif len(obj) != len(content) or obj != content:
            obj.clear()
            obj.update(content)
    for sp, plain, names in _spaces:
        now = vars(sp)
        for k, v in plain.items():
            if now.get(k) is not v:
                setattr(sp, k, v)
        if len(now) != len(names):
            for k in [k for k in now if k not in names and not _skip(k) and isinstance(now[k], _PLAIN)]:
                delattr(sp, k)
    for f in _caches:
        f.cache_clear()
    MEMO.clear()
