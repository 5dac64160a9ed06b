"""Snapshots of the objects a caller hands over."""
import copy

import numpy as np

from vlib.core import check


def freeze(o):
    """A description that changes whenever the object is modified."""
    if isinstance(o, np.ndarray):
        return ("array", o.dtype.str, o.shape, o.strides, o.flags.writeable, o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [freeze(v) for v in o])
    if isinstance(o, dict):
        return ("dict", [(repr(k), freeze(v)) for k, v in o.items()])
    if isinstance(o, (int, float, str, bool, type(None), np.generic)):
        return (type(o).__name__, repr(o))
    return ("object", id(o))


class Guard:
    """Named objects that must stay as they are."""

    def __init__(self):
        self.items = []

    def add(self, name, obj):
        self.items.append((name, lambda: obj, freeze(obj), copy.deepcopy(obj)))
        return obj

    def meta(self, name, problem):
        """The public data attributes of an object."""
        for k in dir(problem):
            if not k.startswith("_"):
                v = getattr(problem, k)
                if isinstance(v, (np.ndarray, list, tuple, dict, int, float, str)):
                    self.items.append((f"{name}.{k}", lambda k=k: getattr(problem, k), freeze(v), copy.deepcopy(v)))
        return problem

    def verify(self, after):
        for name, get, was, old in self.items:
            now = get()
            check(freeze(now) == was, f"{name} is modified by {after}", was=repr(old)[:200], now=repr(now)[:200])
