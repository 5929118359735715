"""Symbolic interpreter for the Python source of the functions under contract.

The AST is taken from the files in /repo (and the pure-Python ANTLR runtime) on every run; nothing is translated by
hand.  Concrete values are ordinary Python objects, symbolic ones the proxies of values.py.  Loops whose trip count is
not determined are cut at an inferred, checked invariant (loops.py).
"""
import ast
import builtins
import collections
import inspect
import os
import types
import typing

from . import core, views
from .core import engine, Control, OutOfSubset, PathEnd
from .values import (Sym, SymBool, SymInt, SymStr, SymObj, VList, VSet, Seg, is_sym, deep_sym, mknot, mkbool, mkand, mkor,
                     eq_formula, zint, zstr, isint, determined_int)
from .views import It, VIter, as_iter, SKIP


class Flow(BaseException):
    pass


class BreakEx(Flow):
    pass


class ContinueEx(Flow):
    pass


class ReturnEx(Flow):
    def __init__(self, value):
        self.value = value


class Frame:
    __slots__ = ("locals", "parent", "closure", "globals", "localnames", "globalnames", "nonlocals", "func", "first",
                 "chain", "yields", "node")

    def __init__(self, parent=None, closure=None, globals_=None, localnames=(), func="?"):
        self.locals = {}
        self.parent = parent
        self.closure = closure or {}
        self.globals = globals_
        self.localnames = localnames
        self.globalnames = ()
        self.nonlocals = ()
        self.func = func
        self.first = None
        self.chain = ()
        self.yields = None
        self.node = None


class IFunc:
    """function defined inside interpreted code"""
    _vc_ifunc = True

    def __init__(self, interp, node, frame, defaults, kwdefaults, name):
        self.interp, self.node, self.frame = interp, node, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = name
        self.__qualname__ = name

    def __call__(self, *a, **k):
        return self.interp.call_node(self, a, k)

    def __get__(self, obj, objtype=None):
        return self if obj is None else types.MethodType(self, obj)


_LOCALS = {}


def local_names(node):
    """names bound in a function/lambda/comprehension body"""
    r = _LOCALS.get(node)
    if r is not None:
        return r
    names, glob, nonl = set(), set(), set()
    a = getattr(node, "args", None)
    if isinstance(a, ast.arguments):
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                names.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr):
                        names.add(w.target.id)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                names.add(c.id)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                names.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    names.add((al.asname or al.name).split(".")[0])
            elif isinstance(c, ast.Global):
                glob.update(c.names)
            elif isinstance(c, ast.Nonlocal):
                nonl.update(c.names)
            walk(c)
    if isinstance(node, ast.Lambda):
        walk(node.body) if False else walk(ast.Expression(body=node.body))
    else:
        for s in node.body:
            walk(ast.Module(body=[s], type_ignores=[]))
    r = (frozenset(names - glob - nonl), frozenset(glob), frozenset(nonl))
    _LOCALS[node] = r
    return r


def assigned_in(stmts):
    """names (re)bound by the statements, including nested loops but not nested functions"""
    m = ast.Module(body=list(stmts), type_ignores=[])
    fake = ast.FunctionDef(name="_", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                                                        defaults=[]), body=m.body, decorator_list=[])
    n, g, nl = local_names(fake)
    return set(n), set(g), set(nl)


def has_yield(node):
    r = YIELDS.get(id(node))
    if r is None:
        r = YIELDS[id(node)] = (has_yield_(node), node)
    return r[0]


YIELDS = {}


def has_yield_(node):
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                return True
            if walk(c):
                return True
        return False
    return any(walk(ast.Module(body=[s], type_ignores=[])) for s in node.body)


def dead_targets(fn, loop, names):
    """loop targets that nothing but the loop's body reads: each iteration assigns them before it reads them"""
    if fn is None:
        return set()

    def loads(nodes):
        return [w.id for n in nodes for w in ast.walk(n) if isinstance(w, ast.Name) and isinstance(w.ctx, (ast.Load, ast.Del))]
    inner = [w for n in loop.body for w in ast.walk(n)
             if isinstance(w, (ast.Lambda, ast.FunctionDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))]
    nested = set(loads(inner))
    everywhere, here = loads([fn]), loads(loop.body)
    calls = set(everywhere)
    if "locals" in calls or "vars" in calls or "eval" in calls:
        return set()
    return {n for n in names if n not in nested and everywhere.count(n) == here.count(n)}


class Sources:
    """function bodies by code object"""

    def __init__(self, prefixes):
        self.prefixes = [os.path.realpath(p) for p in prefixes]
        self.files = {}
        self.cache = {}

    def covers(self, filename):
        f = os.path.realpath(filename)
        return any(f == p or f.startswith(p.rstrip("/") + "/") for p in self.prefixes)

    def load(self, filename):
        if filename not in self.files:
            with open(filename, encoding="utf-8") as fh:
                tree = ast.parse(fh.read(), filename)
            idx = {}
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    line = n.lineno
                    if isinstance(n, ast.FunctionDef) and n.decorator_list:
                        line = min(line, min(d.lineno for d in n.decorator_list))
                    idx.setdefault((getattr(n, "name", "<lambda>"), line), []).append(n)
            self.files[filename] = idx
        return self.files[filename]

    def node(self, code):
        r = self.cache.get(code)
        if r is None:
            r = False
            if self.covers(code.co_filename):
                ns = self.load(code.co_filename).get((code.co_name, code.co_firstlineno))
                if ns and len(ns) == 1:
                    r = ns[0]
                elif ns:
                    raise OutOfSubset(f"several functions on line {code.co_firstlineno}")
            self.cache[code] = r
        return r or None


class Interp:
    MAX_UNROLL = 300
    MAX_SOFT = 6
    MAX_DEPTH = 90

    def __init__(self, sources):
        self.src = sources
        self.handlers = {}          # id(callable) -> handler(interp, args, kw)
        self.method_handlers = {}   # (type, name) -> handler(interp, self, args, kw)
        self.stubs = {}             # code object -> contract(interp, fn, args, kw)
        self.depth = 0
        self.chain = ()
        self.tick, self.at = 0, None    # statement being executed
        self.seen = {}
        self.keepalive = []
        from . import lib
        lib.install(self)
        views.COLLECT = self.collect

    # ------------------------------------------------------------ calls
    def call(self, f, *args, **kw):
        return self.call_(f, args, kw)

    def call_(self, f, args, kw):
        while True:
            if isinstance(f, types.MethodType):
                if isinstance(f.__self__, Sym):
                    return f(*args, **kw)
                args = (f.__self__,) + tuple(args)
                f = f.__func__
                continue
            break
        if isinstance(f, IFunc):
            return self.call_node(f, args, kw)
        h = self.handlers.get(id(f))
        if h is not None:
            return h(self, args, kw)
        if isinstance(f, SymObj):
            return f.model.call(f, args, kw)
        if isinstance(f, types.FunctionType):
            st = self.stubs.get(f.__code__)
            if st is not None:
                key = f"{f.__module__}.{f.__qualname__}"
                engine().stub_uses[key] = engine().stub_uses.get(key, 0) + 1
                return st(self, f, args, kw)
            node = self.src.node(f.__code__)
            if node is not None:
                return self.call_function(f, node, args, kw)
            if getattr(f, "_vc_native", False) or f.__module__.startswith(("pyvc.", "contracts.")) or not deep_sym((args, kw)) or self.native_ok(f):
                return f(*args, **kw)
            raise OutOfSubset(f"symbolic arguments for library function {f.__module__}.{f.__qualname__}")
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        if isinstance(f, (types.BuiltinFunctionType, types.MethodWrapperType, types.BuiltinMethodType)):
            slf = getattr(f, "__self__", None)
            if slf is not None and not isinstance(slf, types.ModuleType):
                if isinstance(slf, (SymStr, VList, VSet, It)):
                    return f(*args, **kw)
                for t in type(slf).__mro__:
                    h = self.method_handlers.get((t, f.__name__))
                    if h is not None:
                        return h(self, slf, args, kw)
            if f.__name__ == "__init__" and isinstance(slf, BaseException):
                return f(*args, **kw)
            if not deep_sym((args, kw)) and not (isinstance(slf, (list, tuple, dict)) and deep_sym(slf)):
                return self.native(f, args, kw)
            raise OutOfSubset(f"symbolic arguments for builtin {getattr(f, '__qualname__', f)}")
        if isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType, types.ClassMethodDescriptorType)):
            if args:
                for t in type(args[0]).__mro__:
                    h = self.method_handlers.get((t, f.__name__))
                    if h is not None:
                        return h(self, args[0], args[1:], kw)
                if isinstance(args[0], Sym) and f.__objclass__ in (str, list, set, frozenset) or \
                        isinstance(args[0], (VList, VSet, SymStr)):
                    return self.call_(self.getattr(args[0], f.__name__), args[1:], kw)
            if f.__name__ == "__init__" and f.__objclass__ in (object, BaseException, Exception):
                return f(*args, **kw)
            if f.__name__ in ("__setattr__",):
                return f(*args, **kw)
            if not deep_sym((args, kw)):
                return self.native(f, args, kw)
            raise OutOfSubset(f"symbolic arguments for {f.__qualname__}")
        if isinstance(f, (staticmethod, classmethod)):
            return self.call_(f.__func__, args, kw)
        if getattr(f, "_vc_native", False):
            return f(*args, **kw)
        c = getattr(type(f), "__call__", None)
        if isinstance(c, types.FunctionType):
            return self.call_(c, (f,) + tuple(args), kw)
        if not callable(f):
            raise TypeError(f"'{type(f).__name__}' object is not callable")
        if not deep_sym((args, kw)):
            return self.native(f, args, kw)
        raise OutOfSubset(f"call of {f!r}")

    def native(self, f, args, kw):
        return f(*args, **kw)

    def native_ok(self, f):
        # code generated by dataclasses / enum, which only stores its arguments
        return f.__code__.co_filename.startswith("<") and f.__name__ in ("__init__", "__setattr__", "__delattr__",
                                                                         "__eq__", "__create_fn__")

    def instantiate(self, cls, args, kw):
        h = self.handlers.get(id(cls))
        if h is not None:
            return h(self, args, kw)
        if cls is slice and not kw:
            return slice(*args)
        import enum
        if isinstance(cls, enum.EnumMeta):
            if not deep_sym((args, kw)):
                return cls(*args, **kw)
            for m in cls:
                if bool(eq_formula(m.value, args[0])):
                    return m
            raise ValueError(f"not a valid {cls.__name__}")
        if type(cls).__call__ is not type.__call__:
            if not deep_sym((args, kw)):
                return cls(*args, **kw)
            raise OutOfSubset(f"instantiation of {cls.__name__}")
        new = cls.__new__
        if new is object.__new__:
            obj = object.__new__(cls)
        elif issubclass(cls, BaseException) and isinstance(new, types.BuiltinFunctionType):
            obj = new(cls, *args)
        elif isinstance(new, types.FunctionType) and self.src.node(new.__code__) is not None:
            obj = self.call_(new, (cls,) + tuple(args), kw)
            if not isinstance(obj, cls):
                return obj
        elif not deep_sym((args, kw)):
            return cls(*args, **kw)
        else:
            raise OutOfSubset(f"instantiation of {cls.__module__}.{cls.__qualname__} with symbolic arguments")
        init = cls.__init__
        if init is object.__init__:
            if args or kw:
                if cls.__new__ is object.__new__:
                    raise TypeError(f"{cls.__name__}() takes no arguments")
            return obj
        if isinstance(init, types.FunctionType):
            self.call_(init, (obj,) + tuple(args), kw)
        elif issubclass(cls, BaseException):
            init(obj, *args, **kw)
        elif not deep_sym((args, kw)):
            init(obj, *args, **kw)
        else:
            raise OutOfSubset(f"instantiation of {cls.__qualname__}")
        return obj

    def call_function(self, f, node, args, kw):
        closure = {}
        if f.__closure__:
            for name, cell in zip(f.__code__.co_freevars, f.__closure__):
                closure[name] = cell
        key = f"{f.__module__}.{f.__qualname__}"
        engine().inlined.add(key)
        fr = Frame(None, closure, f.__globals__, func=f.__qualname__)
        return self.run(node, fr, args, kw, f.__defaults__ or (), f.__kwdefaults__ or {}, f.__qualname__)

    def call_node(self, fn, args, kw):
        fr = Frame(fn.frame, fn.frame.closure, fn.frame.globals, func=fn.__name__)
        return self.run(fn.node, fr, args, kw, fn.defaults, fn.kwdefaults, fn.__name__)

    def bind(self, node, fr, args, kw, defaults, kwdefaults, name):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npos = len(a.posonlyargs)
        L = fr.locals
        args = list(args)
        for n, v in zip(pos, args):
            L[n] = v
        extra = args[len(pos):]
        if a.vararg:
            L[a.vararg.arg] = tuple(extra)
        elif extra:
            raise TypeError(f"{name}() takes {len(pos)} positional arguments but {len(args)} were given")
        rest = {}
        names = set(pos[npos:]) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in L and k in pos[:len(args)]:
                    raise TypeError(f"{name}() got multiple values for argument '{k}'")
                L[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            L[a.kwarg.arg] = rest
        elif rest:
            raise TypeError(f"{name}() got an unexpected keyword argument '{next(iter(rest))}'")
        for n, d in zip(pos[len(pos) - len(defaults):], defaults):
            if n not in L:
                L[n] = d
        for x in a.kwonlyargs:
            if x.arg not in L and x.arg in kwdefaults:
                L[x.arg] = kwdefaults[x.arg]
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in L:
                raise TypeError(f"{name}() missing required argument: '{n}'")
        if pos:
            fr.first = pos[0]

    def run(self, node, fr, args, kw, defaults, kwdefaults, name):
        fr.localnames, fr.globalnames, fr.nonlocals = local_names(node)
        fr.node = node
        self.bind(node, fr, args, kw, defaults, kwdefaults, name)
        if isinstance(node, ast.FunctionDef) and has_yield(node):
            return self.generator(node, fr)
        self.depth += 1
        saved = self.chain
        self.chain = saved + (f"{name}:{getattr(node, 'lineno', 0)}",)
        try:
            if self.depth > self.MAX_DEPTH:
                raise OutOfSubset("recursion without a contract: " + " > ".join(self.chain[-6:]))
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            try:
                self.block(node.body, fr)
            except ReturnEx as r:
                return r.value
            return None
        finally:
            self.depth -= 1
            self.chain = saved

    def generator(self, node, fr):
        """generator function: run eagerly on concrete control, recording what is yielded"""
        out = VList([], "list")
        fr.yields = out
        saved = self.chain
        self.chain = saved + (f"gen {node.name}:{node.lineno}",)
        try:
            self.block(node.body, fr)
        except ReturnEx:
            pass
        finally:
            self.chain = saved
        engine().assumptions.add("generator functions are evaluated eagerly (their bodies have no side effects "
                                 "interleaved with the consumer)")
        return VIter(out)

    # ------------------------------------------------------------ names
    def load(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                return f.locals[name]
            if name in f.localnames:
                raise UnboundLocalError(f"cannot access local variable '{name}' where it is not associated with a value")
            if name in f.globalnames:
                break
            f = f.parent
        if name in fr.closure:
            return fr.closure[name].cell_contents
        if fr.globals is not None and name in fr.globals:
            return fr.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise NameError(f"name '{name}' is not defined")

    def store(self, name, value, fr):
        if name in fr.globalnames:
            fr.globals[name] = value
            return
        if name in fr.nonlocals or name not in fr.localnames:
            f = fr.parent
            while f is not None:
                if name in f.localnames:
                    f.locals[name] = value
                    return
                f = f.parent
            if name in fr.closure:
                fr.closure[name].cell_contents = value
                return
        fr.locals[name] = value

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise OutOfSubset(f"assignment target {type(t).__name__}")

    def unpack(self, elts, v, fr):
        if isinstance(v, SymObj):
            items = v.model.unpack(v, len(elts))
        else:
            src = VList(views.drain(v)) if not isinstance(v, (tuple, list, VList)) else (
                v if isinstance(v, VList) else VList(list(v)))
            if not src.concrete():
                if any(isinstance(e, ast.Starred) for e in elts):
                    raise OutOfSubset("starred unpacking of unknown length")
                if not bool(mkbool(zint(src.length()) == len(elts))):
                    raise ValueError("wrong number of values to unpack")
                items = [src[i] for i in range(len(elts))]
            else:
                items = list(src.parts)
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if stars:
            k = stars[0]
            after = len(elts) - k - 1
            if len(items) < len(elts) - 1:
                raise ValueError("not enough values to unpack")
            mid = items[k:len(items) - after]
            items = items[:k] + [VList(mid)] + items[len(items) - after:]
        if len(items) != len(elts):
            raise ValueError("wrong number of values to unpack")
        for e, x in zip(elts, items):
            self.assign(e, x, fr)

    # ------------------------------------------------------------ attributes and items
    def getattr(self, o, name):
        if isinstance(o, Sym):
            if name == "__class__":
                return o.pytype
            return o.py_getattr(name)
        if not isinstance(o, (type, types.ModuleType, super)):
            for t in type(o).__mro__:
                if name in t.__dict__:
                    d = t.__dict__[name]
                    if isinstance(d, property) and isinstance(d.fget, (types.FunctionType, IFunc)):
                        return self.call_(d.fget, (o,), {})
                    break
            else:
                try:
                    return object.__getattribute__(o, name) if type(o).__getattribute__ is object.__getattribute__ \
                        else getattr(o, name)
                except AttributeError:
                    for t in type(o).__mro__:
                        if "__getattr__" in t.__dict__ and isinstance(t.__dict__["__getattr__"], types.FunctionType):
                            return self.call_(t.__dict__["__getattr__"], (o, name), {})
                    raise
        elif isinstance(o, super):
            for t in o.__self_class__.__mro__[o.__self_class__.__mro__.index(o.__thisclass__) + 1:]:
                if name in t.__dict__:
                    d = t.__dict__[name]
                    if isinstance(d, property):
                        return self.call_(d.fget, (o.__self__,), {})
                    break
        return getattr(o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Sym):
            if isinstance(o, SymObj):
                return o.py_setattr(name, v)
            raise AttributeError(f"'{o.pytype.__name__}' object attribute '{name}' is read-only")
        for t in type(o).__mro__:
            d = t.__dict__.get(name)
            if isinstance(d, property):
                if d.fset is None:
                    raise AttributeError(f"property '{name}' of '{type(o).__name__}' object has no setter")
                return self.call_(d.fset, (o, v), {})
            d = t.__dict__.get("__setattr__")
            if isinstance(d, types.FunctionType):
                return self.call_(d, (o, name, v), {})
        setattr(o, name, v)

    def getitem(self, o, i):
        if isinstance(o, (VList, SymStr, views.SymRange)):
            return o[i]
        if isinstance(o, SymObj):
            return o.model.getitem(o, i)
        if isinstance(o, Sym):
            raise TypeError(f"'{o.pytype.__name__}' object is not subscriptable")
        if is_sym(i) or (isinstance(i, slice) and (is_sym(i.start) or is_sym(i.stop) or is_sym(i.step))):
            if isinstance(o, str):
                return SymStr(zstr(o))[i]
            if isinstance(o, tuple) or isinstance(o, list):
                r = VList(list(o), "tuple" if isinstance(o, tuple) else "list")[i]
                return r
            if isinstance(o, dict):
                for k, v in o.items():
                    if bool(eq_formula(k, i)):
                        return v
                raise KeyError(i)
            raise OutOfSubset(f"symbolic index into {type(o).__name__}")
        if isinstance(o, type) or not hasattr(type(o), "__getitem__"):
            return o[i]
        g = type(o).__getitem__
        if isinstance(g, types.FunctionType):
            return self.call_(g, (o, i), {})
        return o[i]

    def setitem(self, o, i, v):
        if isinstance(o, VList):
            o[i] = v
            return
        if isinstance(o, Sym):
            raise TypeError(f"'{o.pytype.__name__}' object does not support item assignment")
        if is_sym(i):
            raise OutOfSubset("symbolic key or index in item assignment")
        s = getattr(type(o), "__setitem__", None)
        if isinstance(s, types.FunctionType):
            return self.call_(s, (o, i, v), {})
        o[i] = v

    def delitem(self, o, i):
        if isinstance(o, VList):
            del o[i]
            return
        if is_sym(i) or isinstance(o, Sym):
            raise OutOfSubset("symbolic deletion")
        del o[i]

    # ------------------------------------------------------------ truth, comparison
    def truth_(self, v):
        """bool or SymBool"""
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, SymBool):
            return v
        if isinstance(v, SymInt):
            return mkbool(v.z != 0)
        if isinstance(v, SymStr):
            return mkbool(core.z3.Length(v.z) > 0)
        if isinstance(v, VList):
            n = v.length()
            return n > 0
        if isinstance(v, VSet):
            return v.nonempty()
        if isinstance(v, SymObj):
            return v.model.truth(v)
        if isinstance(v, Sym):
            if isinstance(v, (views.SymRange,)):
                return v.length() > 0
            return True
        b = getattr(type(v), "__bool__", None)
        if isinstance(b, types.FunctionType):
            return self.truth_(self.call_(b, (v,), {}))
        if b is None:
            n = getattr(type(v), "__len__", None)
            if isinstance(n, types.FunctionType):
                return self.truth_(self.call_(n, (v,), {}))
        return bool(v)

    def truth(self, v):
        r = self.truth_(v)
        return r if isinstance(r, bool) else engine().branch(r.z)

    def is_(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SymObj):
                if y is None:
                    return x.model.is_none(x)
                if isinstance(y, SymObj):
                    return mkbool(x.term == y.term)
                from .values import emb
                return mkbool(x.term == emb(y)) if not is_sym(y) else False
            if isinstance(x, SymBool) and isinstance(y, (bool, SymBool)):
                return x == y
            if isinstance(x, SymInt) and isint(y):
                raise OutOfSubset("identity of integers")
            if isinstance(x, SymStr) and isinstance(y, (str, SymStr)):
                raise OutOfSubset("identity of strings")
        return False

    def contains(self, c, x):
        if isinstance(c, SymStr):
            return c.has(x)
        if isinstance(c, (VList, VSet, views.SymRange)):
            return c.has(x)
        if isinstance(c, SymObj):
            return c.model.contains(c, x)
        if isinstance(c, It):
            raise OutOfSubset("membership in an iterator")
        if isinstance(c, str) and is_sym(x):
            return SymStr(zstr(c)).has(x)
        if is_sym(x) or (isinstance(c, (list, tuple)) and deep_sym(c)):
            if isinstance(c, (list, tuple, set, frozenset, dict)) or type(c).__name__ in ("dict_keys", "dict_values",
                                                                                        "deque"):
                r = False
                for y in c:
                    r = mkor(r, self.eq(y, x))
                return r
            raise OutOfSubset(f"symbolic membership in {type(c).__name__}")
        m = getattr(type(c), "__contains__", None)
        if isinstance(m, types.FunctionType):
            return self.truth_(self.call_(m, (c, x), {}))
        return x in c

    def eq(self, a, b):
        if not is_sym(a):
            e = getattr(type(a), "__eq__", None)
            if isinstance(e, types.FunctionType) and self.src.node(e.__code__) is not None:
                r = self.call_(e, (a, b), {})
                if r is not NotImplemented:
                    return r
        if isinstance(a, tuple) and isinstance(b, tuple) and (deep_sym(a) or deep_sym(b)):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = mkand(r, self.eq(x, y))
            return r
        return eq_formula(a, b)

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            return mknot(self.eq(a, b))
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return mknot(self.is_(a, b))
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return mknot(self.contains(b, a))
        if isinstance(b, Sym) and not isinstance(a, Sym) and isinstance(a, str):
            a = SymStr(zstr(a))
        if t is ast.Lt:
            return a < b
        if t is ast.LtE:
            return a <= b
        if t is ast.Gt:
            return a > b
        if t is ast.GtE:
            return a >= b
        raise OutOfSubset("comparison")

    BIN = {
        ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
        ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
        ast.Pow: lambda a, b: a ** b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
        ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.BitXor: lambda a, b: a ^ b,
    }

    def binop(self, op, a, b):
        if isinstance(op, ast.Mod) and isinstance(a, (str, SymStr)):
            return self.percent(a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, VList):
                a = VList(list(a), "tuple")
            if isinstance(a, list) and isinstance(b, VList):
                a = VList(a, "list")
        return self.BIN[type(op)](a, b)

    def percent(self, f, args):
        if not isinstance(f, str):
            raise OutOfSubset("symbolic format string")
        if not deep_sym(args):
            return f % args
        if not isinstance(args, tuple):
            args = (args,)
        out, k, i = "", 0, 0
        while i < len(f):
            if f[i] == "%":
                c = f[i + 1:i + 2]
                if c == "%":
                    out = self.concat(out, "%")
                elif c in ("s", "r", "d"):
                    out = self.concat(out, self.repr(args[k]) if c == "r" else self.str(args[k]))
                    k += 1
                else:
                    raise OutOfSubset("format specification")
                i += 2
            else:
                out = self.concat(out, f[i])
                i += 1
        if k != len(args):
            raise TypeError("not all arguments converted during string formatting")
        return out

    def concat(self, a, b):
        return a + b

    # ------------------------------------------------------------ text conversion
    def str(self, v):
        if isinstance(v, SymStr):
            return v
        if isinstance(v, SymInt):
            from .lib import int_str
            return int_str(v)
        if isinstance(v, SymBool):
            return "True" if bool(v) else "False"
        if isinstance(v, SymObj):
            return v.model.str_(v)
        if isinstance(v, (VList, VSet)):
            return self.repr(v)
        if isinstance(v, Sym):
            raise OutOfSubset("str of iterator")
        s = type(v).__str__
        if isinstance(s, types.FunctionType):
            return self.call_(s, (v,), {})
        if isinstance(v, BaseException):
            if len(v.args) == 0:
                return ""
            return self.str(v.args[0]) if len(v.args) == 1 else self.repr(v.args)
        if s is object.__str__:
            return self.repr(v)
        if deep_sym(v):
            return self.repr(v)
        return str(v)

    def repr(self, v):
        from .lib import opaque_text
        if isinstance(v, SymInt):
            return self.str(v)
        if isinstance(v, SymStr):
            from .values import F_REPR, mkstr
            return mkstr(F_REPR(v.z))
        if isinstance(v, Sym) or deep_sym(v):
            return opaque_text("repr")
        s = type(v).__repr__
        if isinstance(s, types.FunctionType):
            return self.call_(s, (v,), {})
        if s is object.__repr__ or type(v).__module__ not in ("builtins", "enum", "collections"):
            return opaque_text("repr")
        return repr(v)

    def format(self, v, spec=""):
        if isinstance(spec, Sym):
            raise OutOfSubset("symbolic format specification")
        if isinstance(v, Sym):
            if spec == "":
                return self.str(v)
            if isinstance(v, SymInt):
                from .lib import opaque_text
                return opaque_text("format")
            if isinstance(v, SymStr) and spec == "s":
                return v
            raise OutOfSubset("format specification")
        if spec == "":
            if isinstance(type(v).__format__, types.FunctionType) and self.src.node(type(v).__format__.__code__):
                return self.call_(type(v).__format__, (v, spec), {})
            return self.str(v) if type(v).__str__ is not str.__str__ or not isinstance(v, str) else str.__str__(v)
        return format(v, spec)

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        return getattr(self, "e_" + type(n).__name__, self.e_unknown)(n, fr)

    def e_unknown(self, n, fr):
        raise OutOfSubset(f"expression {type(n).__name__}")

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.load(n.id, fr)

    def e_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        name = n.attr
        if name.startswith("__") and not name.endswith("__"):
            c = fr
            cls = None
            while c is not None:
                if "__class__" in c.closure:
                    cls = c.closure["__class__"].cell_contents
                c = c.parent
            if cls is None and "." in fr.func:
                cls = type("X", (), {})
                cls.__name__ = fr.func.split(".")[-2]
            if cls is not None:
                name = f"_{cls.__name__.lstrip('_')}{name}"
        return self.getattr(o, name)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        return self.getitem(o, self.ev(n.slice, fr))

    def e_Slice(self, n, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        return slice(g(n.lower), g(n.upper), g(n.step))

    def e_Call(self, n, fr):
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id in ("super", "locals", "globals", "vars", "eval", "exec") \
                and self.load(fn.id, fr) is getattr(builtins, fn.id):
            if fn.id == "super" and not n.args:
                c = fr
                while c is not None and "__class__" not in c.closure:
                    c = c.parent
                f0 = fr
                while f0.parent is not None:
                    f0 = f0.parent
                if c is None:
                    raise RuntimeError("super(): __class__ cell not found")
                return super(c.closure["__class__"].cell_contents, f0.locals[f0.first])
            if fn.id != "super":
                raise OutOfSubset(f"{fn.id}()")
        f = self.ev(fn, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                if isinstance(v, (tuple, list)):
                    args.extend(v)
                else:
                    l = VList(views.drain(v) if not isinstance(v, VList) else v.parts)
                    if not l.concrete():
                        raise OutOfSubset("argument list of unknown length")
                    args.extend(l.parts)
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, fr))
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call_(f, tuple(args), kw)

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        return self.binop(n.op, a, self.ev(n.right, fr))

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return mknot(self.truth_(v))
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        return ~v

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for k, x in enumerate(n.values):
            v = self.ev(x, fr)
            if k == len(n.values) - 1:
                return v
            t = self.truth(v)
            if t != isand:
                return v if not isinstance(v, SymBool) else t
        return v

    def e_Compare(self, n, fr):
        a = self.ev(n.left, fr)
        r = None
        for k, (op, c) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(c, fr)
            r = self.compare(op, a, b)
            if k == len(n.ops) - 1:
                return r
            if not self.truth(r):
                return False
            a = b

    def e_IfExp(self, n, fr):
        return self.ev(n.body, fr) if self.truth(self.ev(n.test, fr)) else self.ev(n.orelse, fr)

    def e_Lambda(self, n, fr):
        return self.mkfunc(n, fr, "<lambda>")

    def mkfunc(self, n, fr, name):
        d = tuple(self.ev(x, fr) for x in n.args.defaults)
        kd = {a.arg: self.ev(x, fr) for a, x in zip(n.args.kwonlyargs, n.args.kw_defaults) if x is not None}
        return IFunc(self, n, fr, d, kd, name)

    def elts(self, n, fr):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                out.extend(v.parts if isinstance(v, VList) else views.drain(v))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, n, fr):
        return VList(self.elts(n, fr), "list")

    def e_Tuple(self, n, fr):
        out = self.elts(n, fr)
        if any(isinstance(p, Seg) for p in out):
            return VList(out, "tuple")
        return tuple(out)

    def e_Set(self, n, fr):
        s = VSet()
        for x in self.elts(n, fr):
            if isinstance(x, Sym):
                raise OutOfSubset("symbolic set element")
            s.m[x] = True
        return s

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                if is_sym(kk):
                    raise OutOfSubset("symbolic dictionary key")
                d[kk] = self.ev(v, fr)
        return d

    def e_JoinedStr(self, n, fr):
        out = ""
        for v in n.values:
            if isinstance(v, ast.Constant):
                x = v.value
            else:
                x = self.ev(v, fr)
            out = self.concat(out, x)
        return out

    def e_FormattedValue(self, n, fr):
        v = self.ev(n.value, fr)
        if n.conversion == 115:
            v = self.str(v)
        elif n.conversion in (114, 97):
            v = self.repr(v)
        spec = self.ev(n.format_spec, fr) if n.format_spec is not None else ""
        return self.format(v, spec)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        while f.func == "<comp>" and f.parent is not None:
            f = f.parent
        self.store(n.target.id, v, f)
        return v

    def e_Starred(self, n, fr):
        raise OutOfSubset("starred expression")

    def comp_frame(self, n, fr):
        f = Frame(fr, fr.closure, fr.globals, func="<comp>")
        names = set()
        for g in n.generators:
            for w in ast.walk(g.target):
                if isinstance(w, ast.Name):
                    names.add(w.id)
        f.localnames = frozenset(names)
        return f

    def comp(self, n, fr, add):
        """run a comprehension as nested for loops; `add` receives the frame for each element"""
        f = self.comp_frame(n, fr)

        def level(k, first_iter=None):
            if k == len(n.generators):
                add(f)
                return
            g = n.generators[k]
            it = first_iter if first_iter is not None else as_iter(self.ev(g.iter, f))

            def body():
                for c in g.ifs:
                    if not self.truth(self.ev(c, f)):
                        return
                level(k + 1)
            self.for_loop(f, it, g.target, body, [], f"comp@{n.lineno}:{n.col_offset}:{k}",
                          ({w.id for w in ast.walk(g.target) if isinstance(w, ast.Name)} |
                           {w.id for gg in n.generators[k + 1:] for w in ast.walk(gg.target)
                            if isinstance(w, ast.Name)}))
        level(0, as_iter(self.ev(n.generators[0].iter, fr)))

    def e_ListComp(self, n, fr):
        out = VList([], "list")

        def add(f):
            f.locals["@out"] = out
            out.append(self.ev(n.elt, f))
        fr_out = fr.locals.get("@out")
        fr.locals["@out"] = out          # reachable for frame discovery
        try:
            self.comp(n, fr, add)
        finally:
            if fr_out is None:
                fr.locals.pop("@out", None)
            else:
                fr.locals["@out"] = fr_out
        return out

    def e_SetComp(self, n, fr):
        out = VSet()

        def add(f):
            out.add(self.ev(n.elt, f))
        old = fr.locals.get("@out")
        fr.locals["@out"] = out
        try:
            self.comp(n, fr, add)
        finally:
            fr.locals.pop("@out", None)
            if old is not None:
                fr.locals["@out"] = old
        return out

    def e_DictComp(self, n, fr):
        out = {}

        def add(f):
            k = self.ev(n.key, f)
            if is_sym(k):
                raise OutOfSubset("symbolic dictionary key")
            out[k] = self.ev(n.value, f)
        self.comp(n, fr, add)
        return out

    def e_GeneratorExp(self, n, fr):
        it = as_iter(self.ev(n.generators[0].iter, fr))
        if len(n.generators) == 1:
            return views.GenIt(self, self.comp_frame(n, fr), n.generators[0], n.elt, it)
        l = ast.ListComp(elt=n.elt, generators=n.generators)
        ast.copy_location(l, n)
        return VIter(self.e_ListComp(l, fr))

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.tick += 1
            self.at = (s, fr, self.tick)
            getattr(self, "s_" + type(s).__name__, self.s_unknown)(s, fr)

    def s_unknown(self, s, fr):
        raise OutOfSubset(f"statement {type(s).__name__}")

    def s_Expr(self, s, fr):
        v = s.value
        if isinstance(v, ast.Yield):
            self.find_yields(fr).append(self.ev(v.value, fr) if v.value is not None else None)
            return
        if isinstance(v, ast.YieldFrom):
            self.find_yields(fr).extend(self.ev(v.value, fr))
            return
        self.ev(v, fr)

    def find_yields(self, fr):
        if fr.yields is None:
            raise OutOfSubset("yield")
        fr.locals["@yields"] = fr.yields
        return fr.yields

    def s_Pass(self, s, fr):
        pass

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, fr)
            self.store(t.id, self.augop(s.op, cur, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.setattr(o, t.attr, self.augop(s.op, self.getattr(o, t.attr), self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, fr), self.ev(t.slice, fr)
            self.setitem(o, i, self.augop(s.op, self.getitem(o, i), self.ev(s.value, fr)))
        else:
            raise OutOfSubset("augmented assignment")

    def augop(self, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, VList):
            return a.__iadd__(b)
        if isinstance(op, ast.BitOr) and isinstance(a, VSet):
            return a.__ior__(b)
        if isinstance(op, ast.Add) and isinstance(a, list):
            a += list(b)
            return a
        return self.binop(op, a, b)

    def s_Return(self, s, fr):
        raise ReturnEx(self.ev(s.value, fr) if s.value is not None else None)

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = self.handling[-1] if self.handling else None
            if cur is None:
                raise RuntimeError("No active exception to reraise")
            raise cur
        e = self.ev(s.exc, fr)
        if isinstance(e, type):
            e = self.call_(e, (), {})
        if not isinstance(e, BaseException):
            raise TypeError("exceptions must derive from BaseException")
        try:
            e._vc_raised = True
        except AttributeError:
            pass
        if s.cause is not None:
            c = self.ev(s.cause, fr)
            raise e from c
        raise e

    handling = []

    def s_Try(self, s, fr):
        if not s.finalbody:
            return self.try_inner(s, fr)
        pending = None
        try:
            self.try_inner(s, fr)
        except Control:
            raise
        except BaseException as ex:
            pending = ex
        if pending is not None and not isinstance(pending, Flow):
            self.handling.append(pending)
        try:
            self.block(s.finalbody, fr)
        finally:
            if pending is not None and not isinstance(pending, Flow):
                self.handling.pop()
        if pending is not None:
            raise pending

    def try_inner(self, s, fr):
        if not s.handlers:
            self.block(s.body, fr)
            self.block(s.orelse, fr)
            return
        try:
            self.block(s.body, fr)
        except (Control, Flow):
            raise
        except BaseException as ex:
            ex.__traceback__ = None
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    t = self.ev(h.type, fr)
                    ok = isinstance(ex, t)
                if ok:
                    if h.name:
                        self.store(h.name, ex, fr)
                    self.handling.append(ex)
                    try:
                        self.block(h.body, fr)
                    finally:
                        self.handling.pop()
                        if h.name:
                            fr.locals.pop(h.name, None)
                    return
            raise
        self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            if s.msg is not None:
                raise AssertionError(self.ev(s.msg, fr))
            raise AssertionError()

    def s_With(self, s, fr):
        if len(s.items) != 1:
            inner = ast.With(items=s.items[1:], body=s.body)
            ast.copy_location(inner, s)
            s2 = ast.With(items=s.items[:1], body=[inner])
            ast.copy_location(s2, s)
            return self.s_With(s2, fr)
        cm = self.ev(s.items[0].context_expr, fr)
        if type(cm).__module__ == "contextlib":
            if type(cm).__name__ == "suppress":
                try:
                    self.block(s.body, fr)
                except (Control, Flow):
                    raise
                except BaseException as ex:
                    if not issubclass(type(ex), cm._exceptions):
                        raise
                return
            raise OutOfSubset("context manager")
        v = self.call_(self.getattr(cm, "__enter__"), (), {})
        if s.items[0].optional_vars is not None:
            self.assign(s.items[0].optional_vars, v, fr)
        ex_ = self.getattr(cm, "__exit__")
        try:
            self.block(s.body, fr)
        except Control:
            raise
        except Flow:
            self.call_(ex_, (None, None, None), {})
            raise
        except BaseException as ex:
            if not self.truth(self.call_(ex_, (type(ex), ex, None), {})):
                raise
            return
        self.call_(ex_, (None, None, None), {})

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.locals:
                    raise UnboundLocalError(t.id)
                del fr.locals[t.id]
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if is_sym(o):
                    raise OutOfSubset("attribute deletion")
                delattr(o, t.attr)
            else:
                raise OutOfSubset("del target")

    def s_Global(self, s, fr):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for part in a.name.split(".")[1:]:
                    m = getattr(m, part)
                self.store(a.asname, m, fr)
            else:
                self.store(a.name.split(".")[0], m, fr)

    def s_ImportFrom(self, s, fr):
        import importlib
        pk = fr.globals.get("__package__") if fr.globals else None
        m = importlib.import_module("." * s.level + (s.module or ""), pk)
        for a in s.names:
            self.store(a.asname or a.name, getattr(m, a.name), fr)

    def s_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call_(self.ev(d, fr), (f,), {})
        self.store(s.name, f, fr)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        for c in s.cases:
            if self.match(c.pattern, v, fr) and (c.guard is None or self.truth(self.ev(c.guard, fr))):
                self.block(c.body, fr)
                return

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.store(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.call_(isinstance, (v, self.ev(p.cls, fr)), {}))
        raise OutOfSubset("match pattern")

    # ------------------------------------------------------------ loops
    def s_While(self, s, fr):
        def cond():
            return self.truth_(self.ev(s.test, fr))

        def body():
            self.block(s.body, fr)
        from . import loops
        loops.run(self, fr, cond, body, lambda: self.block(s.orelse, fr), self.key(fr, f"while@{s.lineno}", s),
                  s.body, None, s.test)

    def key(self, fr, where, node):
        return self.chain + (fr.func, where)

    def s_For(self, s, fr):
        it = as_iter(self.ev(s.iter, fr))

        def body():
            self.block(s.body, fr)
        names = {w.id for w in ast.walk(s.target) if isinstance(w, ast.Name)}
        self.for_loop(fr, it, s.target, body, s.orelse, f"for@{s.lineno}", names, s.body,
                      dead_targets(fr.node, s, names & set(fr.localnames)))

    def for_loop(self, fr, it, target, body, orelse, where, names, stmts=(), dead=()):
        from . import loops
        h = f"@it{where}"
        saved = fr.locals.get(h)
        fr.locals[h] = it

        def step():
            x = it.next()
            if x is SKIP:
                return
            self.assign(target, x, fr)
            body()
        try:
            loops.run(self, fr, it.has_next, step, lambda: self.block(orelse, fr), self.chain + (fr.func, where), stmts,
                      it, None, names, dead)
        finally:
            if saved is None:
                fr.locals.pop(h, None)
            else:
                fr.locals[h] = saved

    def collect(self, it):
        out = VList([], "list")
        fr = Frame(None, {}, {}, func="@collect")
        fr.localnames = frozenset(["x", "out"])
        fr.locals["out"] = out
        self.for_loop(fr, it, ast.Name(id="x", ctx=ast.Store()), lambda: out.append(fr.locals["x"]), [], "collect",
                      {"x"})
        return out

    def foreach(self, it, fn, label):
        """call fn(x) for every element; fn may raise BreakEx"""
        fr = Frame(None, {}, {}, func="@" + label)
        fr.localnames = frozenset(["x"])
        self.for_loop(fr, as_iter(it), ast.Name(id="x", ctx=ast.Store()), lambda: fn(fr.locals["x"], fr), [], label, {"x"})
        return fr
