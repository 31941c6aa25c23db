"""Value trees, locations and states of the symbolic executor."""
import z3
from terms import *


class Unsupported(Exception):
    """A construct outside the verified subset (reported as such, never as a violation)."""


class Rec:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f


class Seq:
    """valarray / vector / raw array: size and element tree lifted over an index"""
    __slots__ = ("elt", "size", "data", "kind")

    def __init__(self, elt, size, data, kind="valarray"):
        self.elt, self.size, self.data, self.kind = elt, size, data, kind


class LV:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def fld(self, n):
        return LV(self.cell, self.path + (("f", n),))

    def idx(self, i):
        return LV(self.cell, self.path + (("i", i),))

    def same(self, o):
        if not isinstance(o, LV) or self.cell != o.cell or len(self.path) != len(o.path):
            return False
        for a, b in zip(self.path, o.path):
            if a[0] != b[0]:
                return False
            if a[0] == "f":
                if a[1] != b[1]:
                    return False
            elif not a[1].eq(b[1]):
                return False
        return True

    def __repr__(self):
        return "LV(%s%s)" % (self.cell, "".join("." + a[1] if a[0] == "f" else "[%s]" % a[1] for a in self.path))


class Ptr:
    """pointer / iterator: off is None for a pointer to a single object"""
    __slots__ = ("lv", "off")

    def __init__(self, lv, off=None):
        self.lv, self.off = lv, off


class Fn:
    """a function (pointer) value: declaration id or a python callable"""
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref


class Closure:
    __slots__ = ("node", "env", "this", "method")

    def __init__(self, node, env, this, method):
        self.node, self.env, self.this, self.method = node, env, this, method


class Opaque:
    """python-level constant without data (functor tags, strings literals, ...)"""
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag


NULL = Opaque("nullptr")


def isleaf(v):
    return isinstance(v, (z3.ExprRef, CArr))


def tmap(f, v, path=()):
    if isleaf(v):
        return f(v)
    if isinstance(v, Rec):
        return Rec(v.cls, {k: tmap(f, x) for k, x in v.f.items()})
    if isinstance(v, Seq):
        return Seq(v.elt, f(v.size), tmap(f, v.data), v.kind)
    if isinstance(v, Ptr):
        return Ptr(LV(v.lv.cell, tuple((a, f(b)) if a == "i" else (a, b) for a, b in v.lv.path)),
                   None if v.off is None else f(v.off))
    return v


def index(v, i):
    return tmap(lambda l: sel(l, i), v)


def tzip(f, a, b):
    if isleaf(a) and isleaf(b):
        return f(a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        return Rec(a.cls, {k: tzip(f, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq(a.elt, f(a.size, b.size), tzip(f, a.data, b.data), a.kind)
    if a is b:
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv.same(b.lv):
        if a.off is None and b.off is None:
            return a
        return Ptr(a.lv, f(a.off, b.off))
    if isinstance(a, LV) and a.same(b):
        return a
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag:
        return a
    if isinstance(a, Fn) and isinstance(b, Fn) and a.ref == b.ref:
        return a
    if isinstance(a, Closure) and isinstance(b, Closure) and a.node is b.node:
        return a
    raise Unsupported("cannot combine values %s / %s" % (type(a).__name__, type(b).__name__))


def setindex(v, i, x):
    return tzip(lambda l, y: store(l, i, y), v, x)


def leaves(v, path=()):
    """(access path, leaf) of a value tree"""
    if isleaf(v):
        yield path, v
    elif isinstance(v, Rec):
        for k in v.f:
            yield from leaves(v.f[k], path + (("f", k),))
    elif isinstance(v, Seq):
        yield path + (("size",),), v.size
        yield from leaves(v.data, path + (("data",),))
    elif isinstance(v, Ptr) and v.off is not None:
        yield path + (("off",),), v.off


def getleaf(v, path):
    for p in path:
        if p[0] == "f":
            v = v.f[p[1]]
        elif p[0] == "size":
            v = v.size
        elif p[0] == "data":
            v = v.data
        elif p[0] == "off":
            v = v.off
    return v


def setleaf(v, path, x):
    if not path:
        return x
    p, rest = path[0], path[1:]
    if p[0] == "f":
        f = dict(v.f)
        f[p[1]] = setleaf(f[p[1]], rest, x)
        return Rec(v.cls, f)
    if p[0] == "size":
        return Seq(v.elt, x, v.data, v.kind)
    if p[0] == "data":
        return Seq(v.elt, v.size, setleaf(v.data, rest, x), v.kind)
    if p[0] == "off":
        return Ptr(v.lv, x)


class State:
    __slots__ = ("store", "pc")

    def __init__(self, store=None, pc=None):
        self.store = store if store is not None else {}
        self.pc = pc if pc is not None else []

    def fork(self):
        return State(dict(self.store), list(self.pc))

    def become(self, o):
        self.store, self.pc = o.store, o.pc


def value_at(v, path):
    for a in path:
        if a[0] == "f":
            if not isinstance(v, Rec):
                raise Unsupported("field %s of %s" % (a[1], type(v).__name__))
            v = v.f[a[1]]
        else:
            if not isinstance(v, Seq):
                raise Unsupported("index into %s" % type(v).__name__)
            v = index(v.data, a[1])
    return v


def update_at(v, path, x):
    if not path:
        return x
    a, rest = path[0], path[1:]
    if a[0] == "f":
        f = dict(v.f)
        f[a[1]] = update_at(f[a[1]], rest, x)
        return Rec(v.cls, f)
    old = index(v.data, a[1])
    new = update_at(old, rest, x)
    return Seq(v.elt, v.size, setindex(v.data, a[1], new), v.kind)


def merge_values(c, a, b):
    if a is b:
        return a
    return tzip(lambda x, y: ite(c, x, y), a, b)
