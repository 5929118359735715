"""Iterators over symbolic sequences.

An iterator answers has_next() (bool or SymBool) and next() (a value, or SKIP when a filter rejected the element).
Its only mutable state is the position of the underlying VIter, which loop cutting treats as an integer.
"""
import z3
from .core import engine, OutOfSubset, Control
from .values import (Sym, SymInt, SymBool, SymStr, SymObj, VList, VSet, mkint, mkbool, mkand, zint, isint,
                     determined_int, is_sym)

SKIP = object()


class It(Sym):
    pytype = object

    def __iter__(self):
        return self

    def __next__(self):
        while True:
            h = self.has_next()
            if not bool(h):
                raise StopIteration
            x = self.next()
            if x is not SKIP:
                return x

    __hash__ = None

    def py_getattr(self, name):
        if name == "__next__":
            return self.__next__
        if name == "__iter__":
            return self.__iter__
        raise AttributeError(name)


class VIter(It):
    """position in an indexable source"""
    __slots__ = ("src", "pos")

    def __init__(self, src, pos=0):
        self.src, self.pos = src, pos

    def length(self):
        return seq_len(self.src)

    def has_next(self):
        n = self.length()
        p = self.pos
        return p < n if isinstance(p, int) and isinstance(n, int) else mkbool(zint(p) < zint(n))

    def next(self):
        x = seq_at(self.src, self.pos)
        self.pos = self.pos + 1
        return x


def seq_len(s):
    if isinstance(s, (VList, SymStr, SymRange, Reversed)):
        return s.length()
    return len(s)


def seq_at(s, i):
    if isinstance(s, (Reversed, SymRange)):
        return s.at(i)
    if isinstance(i, SymInt) and not is_sym(s):
        s = VList(list(s), "tuple")
    return s[i]


class SymRange(Sym):
    pytype = range

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        a, b = zint(self.start), zint(self.stop)
        d = b - a if self.step > 0 else a - b
        k = abs(self.step)
        n = d if k == 1 else (d + (k - 1)) / k
        return mkint(z3.If(d > 0, n, z3.IntVal(0)))

    def at(self, i):
        return mkint(zint(self.start) + zint(i) * self.step)

    def __getitem__(self, i):
        if isint(i):
            n = self.length()
            if not bool(mkand(mkbool(zint(i) >= 0), mkbool(zint(i) < zint(n)))):
                if bool(mkbool(z3.And(zint(i) < 0, zint(i) >= -zint(n)))):
                    return self.at(n + i)
                raise IndexError("range object index out of range")
            return self.at(i)
        raise OutOfSubset("slice of a symbolic range")

    def __len__(self):
        return self.length().__index__()

    def has(self, x):
        if not isint(x):
            return False
        if abs(self.step) != 1:
            raise OutOfSubset("membership in stepped range")
        lo, hi = (self.start, self.stop) if self.step > 0 else (self.stop + 1, self.start + 1)
        return mkbool(z3.And(zint(x) >= zint(lo), zint(x) < zint(hi)))

    def __iter__(self):
        raise OutOfSubset("native iteration over a symbolic range")

    def py_getattr(self, name):
        if name in ("start", "stop", "step"):
            return getattr(self, name)
        raise AttributeError(name)


class Reversed(Sym):
    def __init__(self, src):
        self.src = src

    def length(self):
        return seq_len(self.src)

    def at(self, i):
        return seq_at(self.src, mkint(zint(seq_len(self.src)) - 1 - zint(i)))


class EnumIt(It):
    def __init__(self, base, start=0):
        self.base, self.start = base, start
        self.pos0 = base.pos if isinstance(base, VIter) else None
        self.k = 0

    def has_next(self):
        return self.base.has_next()

    def next(self):
        if self.pos0 is not None:
            i = mkint(zint(self.start) + zint(self.base.pos) - zint(self.pos0))
            return (i, self.base.next())
        x = self.base.next()
        if x is SKIP:
            return SKIP
        i = self.start + self.k
        self.k = self.k + 1
        return (i, x)


class ZipIt(It):
    def __init__(self, its):
        self.its = its

    def has_next(self):
        r = True
        for i in self.its:
            r = mkand(r, i.has_next())
        return r if self.its else False

    def next(self):
        out = []
        for i in self.its:
            x = i.next()
            if x is SKIP:
                raise OutOfSubset("zip over a filtered iterator")
            out.append(x)
        return tuple(out)


class MapIt(It):
    def __init__(self, call, f, its):
        self.call, self.f, self.its = call, f, its

    def has_next(self):
        r = True
        for i in self.its:
            r = mkand(r, i.has_next())
        return r

    def next(self):
        args = []
        for i in self.its:
            x = i.next()
            if x is SKIP:
                if len(self.its) > 1:
                    raise OutOfSubset("map over several filtered iterators")
                return SKIP
            args.append(x)
        return self.call(self.f, *args)


class FilterIt(It):
    def __init__(self, pred, it):
        self.pred, self.it = pred, it

    def has_next(self):
        return self.it.has_next()

    def next(self):
        x = self.it.next()
        if x is SKIP or not self.pred(x):
            return SKIP
        return x


class GenIt(It):
    """generator expression with a single `for`"""

    def __init__(self, interp, frame, gen, elt, it):
        self.interp, self.frame, self.gen, self.elt, self.it = interp, frame, gen, elt, it

    def has_next(self):
        return self.it.has_next()

    def next(self):
        x = self.it.next()
        if x is SKIP:
            return SKIP
        self.interp.assign(self.gen.target, x, self.frame)
        for c in self.gen.ifs:
            if not self.interp.truth(self.interp.ev(c, self.frame)):
                return SKIP
        return self.interp.ev(self.elt, self.frame)


class NativeIt(It):
    """concrete Python iterator with one element of look-ahead"""
    __slots__ = ("it", "buf", "done")

    def __init__(self, it):
        self.it, self.buf, self.done = it, [], False

    def has_next(self):
        if self.buf:
            return True
        if self.done:
            return False
        try:
            self.buf.append(next(self.it))
            return True
        except StopIteration:
            self.done = True
            return False

    def next(self):
        self.has_next()
        return self.buf.pop()


def as_iter(x):
    """Python iter() on any value"""
    if isinstance(x, It):
        return x
    if isinstance(x, VSet):
        return VIter(VList(x.elements(), "tuple"))
    if isinstance(x, (VList, SymStr, SymRange)):
        return VIter(x)
    if isinstance(x, Reversed):
        return VIter(x)
    if isinstance(x, SymObj):
        return x.model.iter_(x)
    if isinstance(x, Sym):
        raise TypeError(f"'{x.pytype.__name__}' object is not iterable")
    if isinstance(x, (list, tuple, str, range)):
        return VIter(x)
    return NativeIt(iter(x))


COLLECT = None           # set by the interpreter: drains an iterator through a (cut) loop


def drain(it):
    it = as_iter(it)
    if isinstance(it, VIter) and isinstance(it.pos, int):
        s = it.src
        if isinstance(s, Reversed) and isinstance(s.src, VList) and it.pos == 0:
            it.pos = it.length()
            return s.src.reversed_list().parts
        if isinstance(s, VList) and (it.pos == 0 or s.concrete()):
            r = list(s.parts)[it.pos:] if s.concrete() else list(s.parts)
            it.pos = it.length()
            return r
    if isinstance(it, VIter) and isinstance(it.src, VList):
        r = VList(it.src.parts, "list")[it.pos:]
        it.pos = it.length()
        return r.parts
    return COLLECT(it).parts
