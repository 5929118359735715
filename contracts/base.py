"""Common vocabulary of the contract harnesses."""
import enum
import importlib
import os
import sys
import types

import z3

from pyvc import core, interp, lib, loops, values, views
from pyvc.core import Engine, OutOfSubset, PathEnd, INT, SEQI, SEQV, V, engine, set_engine
from pyvc.values import (Model, Seg, SymBool, SymInt, SymObj, SymStr, VList, VSet, STRING_MODEL, OPAQUE, emb, is_sym, mkbool,
                         mkint, mkstr, vconcat, zconcat, zint, zstr)

REPO = os.environ.get("FCSQL_REPO", "/repo")
ANTLR = "/opt/venv/lib/python3.12/site-packages/antlr4"

for _p in (f"{REPO}/src", "/opt/venv/lib/python3.12/site-packages"):
    if _p not in sys.path:
        sys.path.append(_p) if "venv" in _p else sys.path.insert(0, _p)
sys.dont_write_bytecode = True

REG = []
BOOL = z3.BoolSort()


class Harness:
    def __init__(self, fn, tags, name, templates, prefixes, case):
        self.fn, self.tags, self.name, self.templates, self.prefixes = fn, tags.split(), name, templates, prefixes
        self.case = case


def harness(tags, name=None, templates=(), prefixes=(), cases=None):
    """register a contract; with `cases` one independent verification task per case (e.case)"""
    def reg(fn):
        for c in cases or (None,):
            n = name or fn.__name__
            REG.append(Harness(fn, tags, n if c is None else f"{n} [{c}]", templates, prefixes, c))
        return fn
    return reg


# functions taken from the sources; everything else of antlr4 is native or under an assumed contract
SOURCES = [f"{REPO}/src/fcsql", f"{ANTLR}/ParserRuleContext.py", f"{ANTLR}/RuleContext.py", f"{ANTLR}/tree/Tree.py",
           f"{ANTLR}/Token.py", f"{ANTLR}/error/ErrorListener.py"]


def new_interp(extra=()):
    I = interp.Interp(interp.Sources(SOURCES + list(extra)))
    return I


def fcsql(mod="parser"):
    return importlib.import_module("fcsql" if not mod else f"fcsql.{mod}")


# ------------------------------------------------------------------ outcomes
SEMANTIC = (IndexError, KeyError, ValueError, StopIteration, UnboundLocalError, AssertionError, OverflowError)


class Unexpected(Exception):
    pass


def attempt(e, I, tags, label, f, *args, allowed=(), **kw):
    """run code under contract; an exception outside `allowed` fails a named obligation"""
    try:
        return "ok", I.call(f, *args, **kw)
    except core.Control:
        raise
    except allowed as ex:
        return "exc", ex
    except interp.Flow:
        raise
    except Exception as ex:
        if getattr(ex, "_vc_raised", False) or isinstance(ex, SEMANTIC):
            e.fail(tags, f"{label}: no exception outside the contract", f"{type(ex).__name__}: {safe(ex)}")
            rest = [t for t in e.htags if t not in (tags.split() if isinstance(tags, str) else tags)]
            if rest:
                undecided(e, rest, f"{label}: no exception outside the contract", f"{type(ex).__name__}: {safe(ex)}")
            raise PathEnd()
        raise OutOfSubset(f"{label}: {type(ex).__name__}: {safe(ex)}")


def safe(ex):
    try:
        return str(ex)[:300]
    except BaseException:
        return "?"


# ------------------------------------------------------------------ node model
def no_custom_truth():
    p = fcsql("parser")
    for c in node_classes().values():
        for t in c.__mro__:
            if t.__module__.startswith("fcsql") and ("__bool__" in t.__dict__ or "__len__" in t.__dict__):
                raise OutOfSubset(f"{t.__name__} defines its own truth value")
    return True


INST = z3.Function("INST", V, BOOL)                    # isinstance(node, the requested class)
NODESTR = z3.Function("NODESTR", V, SEQI)              # str(node)
MAPSTR = z3.Function("MAPSTR", SEQV, SEQV)             # map(str, nodes)


class NodeModel(Model):
    """an existing query node of any class: attributes live in the heap"""
    name = "node"

    def __init__(self):
        self.on_accept = None
        self.fields = {}

    def getattr(self, o, name):
        if name == "accept":
            if self.on_accept is None:
                raise OutOfSubset("accept of an unconstrained node")
            h = self.on_accept

            def accept(visitor):
                return h(o, visitor)
            accept._vc_native = True
            return accept
        if name in self.fields:
            return self.fields[name](o)
        if name == "parent":
            # None, a node made in the code under contract, or any other node
            e = engine()
            t = z3.simplify(z3.Select(loops.heap_array("parent"), o.term))
            emb(None)
            for c, x in list(e.const_ids.values()):
                if x is None or isinstance(x, fcsql("parser").QueryNode):
                    if e.branch(t == c):
                        return x
            return SymObj(t, NODE)
        raise OutOfSubset(f"attribute {name!r} of an unconstrained node")

    def setattr(self, o, name, value):
        e = engine()
        e.heap[name] = z3.Store(loops.heap_array(name), o.term, emb(value))

    def truth(self, o):
        return no_custom_truth()

    def is_none(self, o):
        return False

    def isinstance_(self, o, cls):
        if isinstance(cls, SymObj):
            return mkbool(INST(o.term))
        if cls is fcsql("parser").QueryNode or cls is object:
            return True
        if isinstance(cls, type) and not issubclass(cls, fcsql("parser").QueryNode):
            return False
        f = z3.Function(f"isinst_{cls.__name__}", V, BOOL)
        return mkbool(f(o.term))

    def type_(self, o):
        return SymObj(z3.Function("TYPEOF", V, V)(o.term), OPAQUE)

    def str_(self, o):
        return SymStr(NODESTR(o.term))

    def mapstr(self, seq):
        e = engine()
        t = MAPSTR(seq)
        n = z3.Length(seq)
        e.axiom(("mapstr", str(seq)), z3.And(z3.Length(t) == n,
                                             z3.Implies(n == 1, values.STROF(t[0]) == NODESTR(seq[0]))))
        return t

    def covers(self, other):
        return isinstance(other, NodeModel)


class ClassModel(Model):
    """an arbitrary class used as a filter"""
    name = "class"

    def truth(self, o):
        return True

    def is_none(self, o):
        return False

    def instancecheck(self, cls, o):
        if isinstance(o, SymObj):
            return mkbool(INST(o.term))
        raise OutOfSubset("isinstance against an arbitrary class")

    def getattr(self, o, name):
        raise OutOfSubset(f"attribute {name!r} of an arbitrary class")


class OpaqueModel(Model):
    """a value the code may only hand on"""
    name = "value"

    def is_none(self, o):
        return mkbool(z3.Function("ISNONE", V, BOOL)(o.term))


NODE = NodeModel()
CLASS = ClassModel()
VALUE = OpaqueModel()

NODE_TYPES = {
    "Expression": "EXPRESSION", "ExpressionWildcard": "EXPRESSION_WILDCARD", "ExpressionGroup": "EXPRESSION_GROUP",
    "ExpressionOr": "EXPRESSION_OR", "ExpressionAnd": "EXPRESSION_AND", "ExpressionNot": "EXPRESSION_NOT",
    "QuerySegment": "QUERY_SEGMENT", "QueryGroup": "QUERY_GROUP", "QuerySequence": "QUERY_SEQUENCE",
    "QueryDisjunction": "QUERY_DISJUNCTION", "QueryWithWithin": "QUERY_WITH_WITHIN", "SimpleWithin": "SIMPLE_WITHIN",
}
TYPE_TEXT = {
    "Expression": "Expression", "ExpressionWildcard": "Wildcard", "ExpressionGroup": "Group", "ExpressionOr": "Or",
    "ExpressionAnd": "And", "ExpressionNot": "Not", "QuerySegment": "QuerySegment", "QueryGroup": "QueryGroup",
    "QuerySequence": "QuerySequence", "QueryDisjunction": "QueryDisjunction", "QueryWithWithin": "QueryWithWithin",
    "SimpleWithin": "SimpleWithin",
}


def node_classes():
    p = fcsql("parser")
    return {n: getattr(p, n) for n in NODE_TYPES}


def a_node(e, name):
    return SymObj(e.const(name, V), NODE)


def a_str(e, name):
    return SymStr(e.const(name, SEQI))


def an_int(e, name):
    return SymInt(e.const(name, INT))


def a_list(e, name, model, kind="list", tail=(), head=()):
    """list of unknown length; in the bounded symbolic mode a list of 0..3 unknown elements"""
    k = getattr(e, "bounded", None)
    if k is not None:
        n = e.choose(k + 1, "length of " + name)
        items = []
        for i in range(n):
            items.append(values.wrap(e.const(f"{name}.{i}", V), model))
        return VList(list(head) + items + list(tail), kind)
    return VList(list(head) + [values.fresh_seg(name, model)] + list(tail), kind)


def bound_text(e, s):
    k = getattr(e, "bounded_text", None)
    if k is not None:
        e.assume(z3.Length(s.z) <= k)
    return s


def is_none(I, x):
    """z3 formula / bool: x is None"""
    r = I.is_(x, None)
    return r.z if isinstance(r, SymBool) else r


def eqf(I, a, b):
    """z3 formula / bool: a == b (never forks)"""
    if a is None or b is None:
        if a is None and b is None:
            return True
        return is_none(I, a if b is None else b)
    r = I.eq(a, b)
    return r.z if isinstance(r, SymBool) else bool(r)


def samef(I, a, b):
    """z3 formula / bool: identical objects"""
    r = I.is_(a, b)
    return r.z if isinstance(r, SymBool) else bool(r)


def zb(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def Implies(a, b):
    return z3.Implies(zb(a), zb(b))


def And(*a):
    return z3.And(*[zb(x) for x in a])


def Or(*a):
    return z3.Or(*[zb(x) for x in a])


def Not(a):
    return z3.Not(zb(a))


def Iff(a, b):
    return zb(a) == zb(b)


def list_eq(l, t):
    """z3 formula: python/symbolic list equals the Seq(V) term t (None if l is not a list)"""
    if isinstance(l, VList):
        return l.z() == t
    if isinstance(l, (list, tuple)):
        return VList(list(l)).z() == t
    return z3.BoolVal(False)


def is_list(l):
    return isinstance(l, list) or isinstance(l, VList) and l.kind == "list"


def items(l):
    return list(l.parts) if isinstance(l, VList) else list(l)


# ------------------------------------------------------------------ frame over module and class state
def module_state():
    """containers and bindings reachable from the fcsql modules and classes"""
    out = {}
    seen = set()

    def put(path, v):
        if isinstance(v, dict):
            out[path] = ("dict", id(v), tuple((repr(k), idval(x)) for k, x in v.items()))
        elif isinstance(v, (list, set, tuple, frozenset)) or type(v).__name__ == "deque":
            out[path] = (type(v).__name__, id(v), tuple(idval(x) for x in v))
        elif isinstance(v, VList):
            out[path] = ("vlist", id(v), tuple(repr(p) for p in v.parts))
        elif isinstance(v, VSet):
            out[path] = ("vset", id(v), tuple(repr(p) for p in v.m.items()))
        else:
            out[path] = ("value", idval(v))

    def func(path, f):
        if f.__defaults__:
            for i, d in enumerate(f.__defaults__):
                put(f"{path}.default{i}", d)
        for k, d in (f.__kwdefaults__ or {}).items():
            put(f"{path}.default[{k}]", d)
        for k, d in f.__dict__.items():
            put(f"{path}.{k}", d)
        for i, c in enumerate(f.__closure__ or ()):
            try:
                put(f"{path}.cell{i}", c.cell_contents)
            except ValueError:
                pass

    for mn in ("fcsql", "fcsql.parser", "fcsql.validation"):
        m = sys.modules.get(mn)
        if m is None:
            continue
        for k, v in list(m.__dict__.items()):
            if k.startswith("__"):
                continue
            if isinstance(v, types.ModuleType):
                continue
            if isinstance(v, types.FunctionType):
                func(f"{mn}.{k}", v)
                continue
            if isinstance(v, type):
                if v.__module__.startswith("fcsql") and id(v) not in seen:
                    seen.add(id(v))
                    for a, x in list(v.__dict__.items()):
                        if a in ("__dict__", "__weakref__", "__doc__", "_abc_impl"):
                            continue
                        f = x.__func__ if isinstance(x, (staticmethod, classmethod)) else x
                        if isinstance(f, property):
                            f = f.fget
                        if isinstance(f, types.FunctionType):
                            func(f"{mn}.{k}.{a}", f)
                        else:
                            put(f"{mn}.{k}.{a}", x)
                continue
            put(f"{mn}.{k}", v)
    return out


def idval(v):
    return v if isinstance(v, (str, int, bool, type(None))) else id(v)


class Found(str):
    """description of a failure together with queries that may show it on the real code"""
    queries = ()


def found(text, queries):
    f = Found(text)
    f.queries = list(queries)
    return f


def decide(e, strong, weak, name, ok, detail=None):
    """obligation of `strong`; properties in `weak` only rest on it: where it fails they are undecided, not refuted"""
    if not isinstance(ok, bool):
        ok = e.entails(zb(ok))
    if strong:
        (e.prove(strong, name, True) if ok else e.fail(strong, name, detail))
    if weak:
        if ok:
            e.prove(weak, name, True)
        else:
            undecided(e, weak, name, detail)


def undecided(e, tags, name, detail):
    o = e._ob(tags, name)
    o.unknown += 1
    if len(o.detail) < 3:
        o.detail.append({"result": "not established", "detail": str(detail)[:1500], "queries": getattr(detail, "queries", [])})


class saved_state:
    """restore containers of the fcsql modules after a path (the code under contract may have changed them)"""

    def __enter__(self):
        self.before = module_state()
        return self

    def changed(self):
        now = module_state()
        return sorted(k for k in set(now) | set(self.before) if now.get(k) != self.before.get(k))

    def __exit__(self, *a):
        return False


def frame(e, tags, st):
    """state outside the objects at hand: where it changes, the contracts (which do not range over it) decide nothing"""
    ch = st.changed()
    name = "frame: module, class and default-argument state is left unchanged"
    if ch:
        o = e._ob(tags, name)
        o.unknown += 1
        o.detail.append({"result": "changed", "detail": ", ".join(ch[:5])})
    else:
        e.prove(tags, name, True)


def only_state(o, names):
    """the contracts of this object range over these attributes; with others, the proof says nothing"""
    extra = sorted(set(o.__dict__) - set(names))
    if extra:
        raise OutOfSubset(f"{type(o).__name__} keeps state in attributes without a contract: {', '.join(extra)}")
