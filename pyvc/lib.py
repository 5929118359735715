"""Contracts of builtins and library functions on symbolic arguments."""
import builtins
import collections
import functools
import io
import itertools
import logging
import re
import string
import types
import unicodedata
import warnings

import z3

from . import core, values, views
from .core import engine, OutOfSubset, PathEnd, SEQV, SEQI, INT
from .values import (Sym, SymBool, SymInt, SymStr, SymObj, VList, VSet, Seg, STRING_MODEL, is_sym, deep_sym, mkbool, mkint,
                     mkstr, mkand, mkor, mknot, zint, zstr, zconcat, isint, determined_int, eq_formula, F_REESCAPE, F_INTSTR,
                     F_NORMALIZE, F_INTOF, F_ISINT, STROF, listparts)
from .views import It, VIter, EnumIt, ZipIt, MapIt, FilterIt, Reversed, SymRange, as_iter, SKIP


class TextIO:
    """contract of io.StringIO used as an accumulator"""
    _vc_track = True

    def __init__(self, initial="", newline="\n"):
        if initial not in ("", None) or newline != "\n":
            raise OutOfSubset("StringIO with initial text")
        self.text = ""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def write(self, s):
        if not isinstance(s, (str, SymStr)):
            raise OutOfSubset("StringIO.write of a value not known to be text")
        self.text = self.text + s
        return len(s) if isinstance(s, str) else s.length()

    def getvalue(self):
        return self.text

    def close(self):
        pass


for _n in ("__enter__", "__exit__", "write", "getvalue", "close"):
    getattr(TextIO, _n)._vc_native = True


def opaque_text(what):
    return SymStr(engine().const("text_" + what, SEQI))


def int_str(v):
    return mkstr(F_INTSTR(v.z))


def f_join(sep):
    return z3.Function("join[" + sep.encode("unicode_escape").decode() + "]", SEQV, SEQI)


def join(interp, sep, it):
    if not isinstance(sep, str):
        raise OutOfSubset("symbolic separator")
    if isinstance(it, VList):
        parts = it.parts
    elif isinstance(it, str):
        parts = list(it)
    else:
        parts = VList(listparts(it)).parts
    e = engine()
    if all(isinstance(p, str) for p in parts):
        return sep.join(str.__str__(p) for p in parts)
    segs = [p for p in parts if isinstance(p, Seg)]
    for p in parts:
        if isinstance(p, Seg):
            if p.model is not STRING_MODEL:
                if e.entails(z3.Length(p.fwd) == 0):
                    continue
                raise OutOfSubset("join of values not known to be text")
        elif not isinstance(p, (str, SymStr)):
            if is_sym(p):
                raise OutOfSubset("join of values not known to be text")
            raise TypeError("sequence item: expected str instance")
    f = f_join(sep)
    for p in segs:
        t = f(p.fwd)
        e.axiom(("join", sep, str(p.fwd)), z3.And(z3.Implies(z3.Length(p.fwd) == 0, t == z3.Empty(SEQI)),
                                                  z3.Implies(z3.Length(p.fwd) == 1, t == STROF(p.fwd[0]))))
    if sep == "":
        return mkstr(zconcat(*[f(p.fwd) if isinstance(p, Seg) else zstr(p) for p in parts if not
                               (isinstance(p, Seg) and p.model is not STRING_MODEL)]))
    out, have = None, False           # have: bool or z3 condition "something was written already"
    zs = zstr(sep)
    for p in parts:
        if isinstance(p, Seg):
            ne = z3.Length(p.fwd) > 0
            t = f(p.fwd)
            if out is None:
                out, have = t, ne
            else:
                hv = have if not isinstance(have, bool) else z3.BoolVal(have)
                out = zconcat(out, z3.If(z3.And(hv, ne), zs, z3.Empty(SEQI)), t)
                have = True if have is True else z3.Or(hv, ne)
        else:
            t = zstr(p)
            if out is None:
                out = t
            elif have is True:
                out = zconcat(out, zs, t)
            else:
                out = zconcat(out, z3.If(have, zs, z3.Empty(SEQI)), t)
            have = True
    return mkstr(out if out is not None else z3.Empty(SEQI))


def isinst(interp, o, cls):
    if isinstance(cls, tuple):
        r = False
        for c in cls:
            r = mkor(r, isinst(interp, o, c))
        return r
    if isinstance(o, SymObj):
        return o.model.isinstance_(o, cls)
    if isinstance(cls, SymObj):
        return cls.model.instancecheck(cls, o)
    if isinstance(o, Sym):
        return issubclass(o.pytype, cls)
    if isinstance(cls, Sym):
        raise OutOfSubset("isinstance with symbolic class")
    return isinstance(o, cls)


HEX = [(48, 57, 0), (97, 102, 10), (65, 70, 10)]


def to_int(interp, x=0, base=None):
    e = engine()
    if isinstance(x, (SymInt, SymBool)) and base is None:
        return x if isinstance(x, SymInt) else x.as_int()
    if isinstance(x, SymStr):
        if base in (None, 10):
            if base == 10 or base is None:
                if e.branch(F_ISINT(x.z)):
                    return SymInt(F_INTOF(x.z))
                raise ValueError("invalid literal for int() with base 10")
        b = base if isinstance(base, int) else determined_int(base)
        if b is None or not (2 <= b <= 16):
            raise OutOfSubset("int() with this base")
        n = determined_int(x.length()) if is_sym(x.length()) else x.length()
        if n is None or n > 16:
            raise OutOfSubset("int() of symbolic text of unknown length")
        if n == 0:
            raise ValueError("invalid literal for int()")

        def isdigit(c):
            fs = [z3.And(c >= 48, c <= min(57, 47 + b))]
            if b > 10:
                fs += [z3.And(c >= 97, c <= 96 + b - 10), z3.And(c >= 65, c <= 64 + b - 10)]
            return z3.Or(*fs)

        parts = values.text_parts(x.z)
        if parts and len(parts) == n and all(values.is_unit(p) for p in parts):
            cs = [p.arg(0) for p in parts]
        else:
            cs = [x.z[k] for k in range(n)]
        if e.branch(z3.And(*[isdigit(c) for c in cs])):
            v = z3.IntVal(0)
            for c in cs:
                v = v * b + values.digit_value(c)
            return mkint(v)
        if n > 1:
            raise OutOfSubset("int() of symbolic text that is not all digits")
        c = cs[0]
        if e.branch(c < 128):
            raise ValueError("invalid literal for int()")
        # other decimal digits of Unicode are accepted by int() too
        d = e.const("digit", INT)
        if e.branch(e.const("is_unicode_digit", z3.BoolSort())):
            e.assume(z3.And(d >= 0, d < min(b, 10)))
            return SymInt(d)
        raise ValueError("invalid literal for int()")
    if isinstance(x, Sym):
        raise OutOfSubset("int() of a symbolic value")
    if base is None:
        return int(x)
    return int(x, base)


def install(I):
    H = I.handlers
    M = I.method_handlers
    S = I.stubs

    def h(f):
        def reg(g):
            H[id(f)] = g
            I.keepalive.append(f)
            return g
        return reg

    def stub(f):
        def reg(g):
            S[f.__code__] = g
            return g
        return reg

    @h(len)
    def _(I, a, k):
        x, = a
        if isinstance(x, (VList, SymStr, VSet, SymRange, Reversed)):
            return x.length()
        if isinstance(x, SymObj):
            return x.model.len_(x)
        if isinstance(x, Sym):
            raise TypeError(f"object of type '{x.pytype.__name__}' has no len()")
        n = getattr(type(x), "__len__", None)
        if isinstance(n, types.FunctionType):
            return I.call_(n, (x,), {})
        return len(x)

    @h(isinstance)
    def _(I, a, k):
        return isinst(I, *a)

    @h(range)
    def _(I, a, k):
        a = [int(x) if isinstance(x, bool) else x for x in a]
        if not any(is_sym(x) for x in a):
            return range(*a)
        d = [determined_int(x) if is_sym(x) else x for x in a]
        if all(x is not None for x in d):
            return range(*d)
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        st = a[2] if len(a) == 3 else 1
        if is_sym(st):
            raise OutOfSubset("range with symbolic step")
        return SymRange(a[0], a[1], st)

    def seq(kind):
        def f(I, a, k):
            if not a:
                return VList([], kind)
            x = a[0]
            if kind == "deque" and (len(a) > 1 or k):
                raise OutOfSubset("bounded deque")
            if isinstance(x, SymObj):
                x = x.model.iter_(x)
            if kind == "tuple" and isinstance(x, tuple):
                return x
            r = VList(listparts(x), kind)
            if kind == "tuple" and r.concrete():
                return tuple(r.parts)
            return r
        return f
    h(list)(seq("list"))
    h(tuple)(seq("tuple"))
    h(collections.deque)(seq("deque"))

    def mkset(frozen):
        def f(I, a, k):
            r = VSet(frozen=frozen)
            if a:
                x = a[0]
                if isinstance(x, (VSet, set, frozenset, dict)):
                    from .values import set_items
                    r.m = {k: v for k, v in set_items(x) if v is not False}
                    return r
                if isinstance(x, SymObj):
                    x = x.model.iter_(x)
                it = as_iter(x)
                if isinstance(it, VIter) and isinstance(it.src, SymStr):
                    return I.lib_charset(it.src, frozen)
                for p in VList(listparts(x)).parts:
                    if isinstance(p, Seg) or is_sym(p):
                        raise OutOfSubset("set of symbolic elements")
                    r.m[p] = True
            return r
        return f
    h(set)(mkset(False))
    h(frozenset)(mkset(True))

    def charset(s, frozen=False):
        raise OutOfSubset("set of the characters of a symbolic text")
    I.lib_charset = charset

    @h(enumerate)
    def _(I, a, k):
        return EnumIt(as_iter(a[0]), a[1] if len(a) > 1 else k.get("start", 0))

    @h(reversed)
    def _(I, a, k):
        x, = a
        if isinstance(x, (VList, SymStr, SymRange, list, tuple, str, range)):
            return VIter(Reversed(x))
        if isinstance(x, It):
            raise TypeError("object is not reversible")
        return as_iter(reversed(x))

    @h(zip)
    def _(I, a, k):
        if k:
            raise OutOfSubset("zip(strict)")
        return ZipIt([as_iter(x) for x in a])

    @h(map)
    def _(I, a, k):
        if len(a) == 2 and isinstance(a[1], (VList, VIter)) and a[0] is str:
            l = a[1] if isinstance(a[1], VList) else (a[1].src if isinstance(a[1].src, VList) and a[1].pos == 0 else None)
            if l is not None and not l.concrete():
                parts = []
                for p in l.parts:
                    if isinstance(p, Seg):
                        m = getattr(p.model, "mapstr", None)
                        if m is None:
                            parts = None
                            break
                        parts.append(Seg(m(p.fwd), STRING_MODEL))
                        engine().assume(z3.Length(parts[-1].fwd) == z3.Length(p.fwd))
                    else:
                        parts.append(I.str(p))
                if parts is not None:
                    return VIter(VList(parts, "list"))
        return MapIt(lambda f, *x: I.call_(f, x, {}), a[0], [as_iter(x) for x in a[1:]])

    @h(filter)
    def _(I, a, k):
        f = a[0]
        return FilterIt((lambda x: I.truth(x)) if f is None else (lambda x: I.truth(I.call_(f, (x,), {}))), as_iter(a[1]))

    def search(I, it, want, label):
        from .interp import BreakEx
        found = []

        def fn(x, fr):
            if I.truth(x) == want:
                found.append(1)
                raise BreakEx()
        I.foreach(it, fn, label)
        return bool(found)

    @h(any)
    def _(I, a, k):
        return search(I, a[0], True, "any")

    @h(all)
    def _(I, a, k):
        return not search(I, a[0], False, "all")

    @h(next)
    def _(I, a, k):
        from .interp import BreakEx
        got = []
        it = a[0]
        if not isinstance(it, It):
            return next(*a)

        def fn(x, fr):
            got.append(x)
            raise BreakEx()
        I.foreach(it, fn, "next")
        if got:
            return got[0]
        if len(a) > 1:
            return a[1]
        raise StopIteration

    @h(iter)
    def _(I, a, k):
        if len(a) != 1:
            raise OutOfSubset("iter(callable, sentinel)")
        return as_iter(a[0])

    @h(sum)
    def _(I, a, k):
        it = as_iter(a[0])
        r = a[1] if len(a) > 1 else k.get("start", 0)
        if isinstance(it, VIter) and isinstance(it.src, VList) and not it.src.concrete():
            raise OutOfSubset("sum over unknown length")
        for x in VList(views.drain(it)).parts:
            if isinstance(x, Seg):
                raise OutOfSubset("sum over unknown length")
            r = r + (x.as_int() if isinstance(x, SymBool) else x)
        return r

    def minmax(ismin):
        def f(I, a, k):
            xs = VList(views.drain(a[0])) if len(a) == 1 else VList(list(a))
            if not xs.concrete():
                raise OutOfSubset("min/max over unknown length")
            if not xs.parts:
                if "default" in k:
                    return k["default"]
                raise ValueError("empty sequence")
            if k.get("key") is not None:
                raise OutOfSubset("min/max with key")
            r = xs.parts[0]
            for y in xs.parts[1:]:
                if isint(r) and isint(y):
                    c = zint(y) < zint(r) if ismin else zint(y) > zint(r)
                    r = mkint(z3.If(c, zint(y), zint(r)))
                elif not is_sym(r) and not is_sym(y):
                    r = (min if ismin else max)(r, y)
                else:
                    raise OutOfSubset("min/max of symbolic values")
            return r
        return f
    h(min)(minmax(True))
    h(max)(minmax(False))

    @h(sorted)
    def _(I, a, k):
        l = VList(listparts(a[0]))
        if not l.concrete() or deep_sym(l.parts):
            raise OutOfSubset("sorting symbolic values")
        return VList(sorted(l.parts, **k))

    @h(bool)
    def _(I, a, k):
        return I.truth_(a[0]) if a else False

    @h(int)
    def _(I, a, k):
        return to_int(I, *a, **k)

    @h(str)
    def _(I, a, k):
        if not a:
            return ""
        if len(a) > 1:
            return str(*a, **k)
        return I.str(a[0])

    @h(repr)
    def _(I, a, k):
        return I.repr(a[0])

    @h(format)
    def _(I, a, k):
        return I.format(*a)

    @h(chr)
    def _(I, a, k):
        x, = a
        if not is_sym(x):
            return chr(x)
        t = zint(x)
        e = engine()
        if e.branch(z3.And(t >= 0, t <= 0x10FFFF)):
            return mkstr(z3.Unit(t))
        if e.branch(z3.And(t >= -2 ** 31, t < 2 ** 31)):
            raise ValueError("chr() arg not in range(0x110000)")
        raise OverflowError("Python int too large to convert to C int")

    @h(ord)
    def _(I, a, k):
        x, = a
        if isinstance(x, SymStr):
            if not bool(mkbool(z3.Length(x.z) == 1)):
                raise TypeError("ord() expected a character")
            return mkint(x.z[0])
        return ord(x)

    @h(abs)
    def _(I, a, k):
        return abs(a[0])

    @h(getattr)
    def _(I, a, k):
        if not isinstance(a[1], str):
            raise OutOfSubset("symbolic attribute name")
        if len(a) > 2:
            try:
                return I.getattr(a[0], a[1])
            except AttributeError:
                return a[2]
        return I.getattr(a[0], a[1])

    @h(hasattr)
    def _(I, a, k):
        if not isinstance(a[1], str):
            raise OutOfSubset("symbolic attribute name")
        try:
            I.getattr(a[0], a[1])
            return True
        except AttributeError:
            return False

    @h(setattr)
    def _(I, a, k):
        I.setattr(*a)

    @h(type)
    def _(I, a, k):
        if len(a) != 1:
            raise OutOfSubset("type() with three arguments")
        x, = a
        if isinstance(x, SymObj):
            return x.model.type_(x)
        if isinstance(x, Sym):
            return x.pytype
        return type(x)

    @h(callable)
    def _(I, a, k):
        if isinstance(a[0], Sym):
            return False
        return callable(a[0])

    @h(id)
    def _(I, a, k):
        if isinstance(a[0], (SymObj,)):
            raise OutOfSubset("id of a symbolic object")
        return id(a[0])

    @h(print)
    def _(I, a, k):
        return None

    @h(dict)
    def _(I, a, k):
        if a and isinstance(a[0], Sym):
            d = {}
            for p in VList(listparts(a[0])).parts:
                x, y = p
                if is_sym(x):
                    raise OutOfSubset("symbolic dictionary key")
                d[x] = y
            d.update(k)
            return d
        return dict(*a, **k)

    @h(itertools.chain)
    def _(I, a, k):
        out = []
        for x in a:
            out.extend(listparts(x))
        return VIter(VList(out))

    @h(itertools.islice)
    def _(I, a, k):
        l = VList(listparts(a[0]))
        if len(a) == 2:
            return VIter(l[slice(0, a[1])])
        if len(a) == 3:
            return VIter(l[slice(a[1], a[2])])
        raise OutOfSubset("islice with step")

    # ---- library
    h(io.StringIO)(lambda I, a, k: TextIO(*a, **k))

    @stub(re.escape)
    def _(I, f, a, k):
        x, = a
        if not is_sym(x):
            return re.escape(x)
        if not isinstance(x, SymStr):
            raise OutOfSubset("re.escape of a value not known to be text")
        return SymStr(F_REESCAPE(x.z))

    @h(unicodedata.normalize)
    def _(I, a, k):
        form, s = a
        if isinstance(form, SymObj) and hasattr(form.model, "known_text"):
            form = form.model.known_text(form)
        if not is_sym(form) and not is_sym(s):
            return unicodedata.normalize(form, s)
        return SymStr(F_NORMALIZE(zstr(form), zstr(s)))

    @stub(logging.Logger.isEnabledFor)
    def _(I, f, a, k):
        engine().assumptions.add("debug logging is disabled (log records have no effect on results)")
        return False
    for nm in ("debug", "info", "warning", "error", "exception", "critical", "log"):
        stub(getattr(logging.Logger, nm))(lambda I, f, a, k: None)
    h(warnings.warn)(lambda I, a, k: None)

    # ---- methods of concrete objects with symbolic arguments
    def m(t, name):
        def reg(g):
            M[(t, name)] = g
            return g
        return reg

    @m(str, "join")
    def _(I, s, a, k):
        return join(I, s, a[0])

    @m(str, "startswith")
    def _(I, s, a, k):
        if deep_sym(a):
            return SymStr(zstr(s)).startswith(*a)
        return str(s).startswith(*a)

    @m(str, "endswith")
    def _(I, s, a, k):
        if deep_sym(a):
            return SymStr(zstr(s)).endswith(*a)
        return str(s).endswith(*a)

    @m(str, "format")
    def _(I, s, a, k):
        if not deep_sym((a, k)):
            return s.format(*a, **k)
        out, auto = "", 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            out = out + lit
            if field is None:
                continue
            if field == "":
                v, auto = a[auto], auto + 1
            elif field.isdigit():
                v = a[int(field)]
            elif field in k:
                v = k[field]
            else:
                raise OutOfSubset("format field")
            if conv == "s":
                v = I.str(v)
            elif conv:
                v = I.repr(v)
            out = out + I.format(v, spec or "")
        return out

    @m(str, "__str__")
    def _(I, s, a, k):
        return str.__str__(s)

    @m(dict, "get")
    def _(I, d, a, k):
        if not is_sym(a[0]):
            return d.get(*a)
        for key, v in d.items():
            if bool(I.truth(I.eq(key, a[0]))):
                return v
        return a[1] if len(a) > 1 else None

    def store_only(t, name):
        @m(t, name)
        def _(I, o, a, k):
            if any(isinstance(x, Seg) for x in a):
                raise OutOfSubset("internal")
            return getattr(t, name)(o, *a, **k)
    for t, names in ((list, ("append", "insert", "pop", "clear", "copy", "reverse")),
                     (collections.deque, ("append", "appendleft", "pop", "popleft", "clear", "copy")),
                     (dict, ("setdefault", "items", "values", "keys", "pop", "update", "copy", "clear"))):
        for n in names:
            store_only(t, n)

    @m(list, "extend")
    def _(I, o, a, k):
        l = VList(listparts(a[0]))
        if not l.concrete():
            raise OutOfSubset("native list extended by unknown length")
        list.extend(o, l.parts)
