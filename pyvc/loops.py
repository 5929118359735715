"""Loops: unroll while the trip count is determined, otherwise cut at an inferred invariant.

The invariant is the largest inductive conjunction (Houdini) of generated candidate facts and of the templates the
contract harness supplies; each kept candidate is checked on entry and at every back edge.  What the loop may change is
discovered, not declared: every location reachable from the frame is compared at the back edges and anything found
changed is added to the havoc set.
"""
import types
import z3

from . import core
from .core import engine, Control, LoopRec, OutOfSubset, PathEnd, Restart, SEQV, SEQI, INT, V
from .values import (Sym, SymBool, SymInt, SymStr, SymObj, VList, VSet, Seg, STRING_MODEL, INT_MODEL, OPAQUE, emb, fresh_seg,
                     is_sym, isint, mkbool, mkint, zint, zstr, vconcat)
from .views import It, VIter, EnumIt, ZipIt, MapIt, FilterIt, GenIt, NativeIt, Reversed


class Poison(Sym):
    """value that is not known after a loop; using it is outside the subset"""

    def __init__(self, path):
        self.path = path

    def py_getattr(self, name):
        raise OutOfSubset(f"value of {self.path} after a loop is not tracked")

    def __bool__(self):
        raise OutOfSubset(f"value of {self.path} after a loop is not tracked")

    def __eq__(self, o):
        raise OutOfSubset(f"value of {self.path} after a loop is not tracked")

    __hash__ = None


UNSET = object()


# ---------------------------------------------------------------- locations
class Loc:
    """mutable place: variable, attribute, or content of a container"""
    __slots__ = ("path", "kind", "owner", "name")

    def __init__(self, path, kind, owner, name=None):
        self.path, self.kind, self.owner, self.name = path, kind, owner, name

    def get(self):
        k = self.kind
        if k == "var":
            return self.owner.get(self.name, UNSET)
        if k == "attr":
            return getattr(self.owner, self.name, UNSET)
        if k == "list":
            return tuple(self.owner.parts)
        if k == "set":
            return dict(self.owner.m)
        if k == "pos":
            return getattr(self.owner, self.name)
        if k == "native":
            return tuple(self.owner) if not isinstance(self.owner, dict) else tuple(self.owner.items())
        if k == "heap":
            return engine().heap.get(self.name, UNSET)
        if k == "cell":
            try:
                return self.owner.cell_contents
            except ValueError:
                return UNSET

    def set(self, v):
        k = self.kind
        if k == "var":
            if v is UNSET:
                self.owner.pop(self.name, None)
            else:
                self.owner[self.name] = v
        elif k == "attr":
            if v is UNSET:
                if hasattr(self.owner, self.name):
                    object.__delattr__(self.owner, self.name)
            else:
                object.__setattr__(self.owner, self.name, v)
        elif k == "list":
            self.owner.parts = list(v)
        elif k == "set":
            self.owner.m = dict(v)
        elif k == "pos":
            setattr(self.owner, self.name, v)
        elif k == "heap":
            engine().heap[self.name] = v
        elif k == "cell":
            self.owner.cell_contents = v
        else:
            raise OutOfSubset(f"native container {self.path} is changed in a loop of unknown length")


def tracked(o):
    if isinstance(o, (types.ModuleType, types.FunctionType, type, types.MethodType)):
        return False
    m = type(o).__module__
    return (m.startswith("fcsql") or m.startswith("antlr4") or getattr(type(o), "_vc_track", False)) \


def attr_names(o):
    names = set(getattr(o, "__dict__", ()))
    for t in type(o).__mro__:
        sl = t.__dict__.get("__slots__", ())
        for n in ((sl,) if isinstance(sl, str) else sl):
            if not n.startswith("__") and hasattr(o, n):
                names.add(n)
    return sorted(names)


def collect(roots):
    """all locations reachable from the root locations, in deterministic order"""
    out, seen = [], set()
    queue = list(roots)
    keep = []

    def value(path, v, depth):
        if v is UNSET or v is None or isinstance(v, (str, int, float, bool, type)):
            return
        if isinstance(v, (SymBool, SymInt, SymStr)):
            return
        if id(v) in seen:
            return
        seen.add(id(v))
        keep.append(v)
        if depth > 14:
            raise OutOfSubset("object graph too deep for frame discovery")
        if isinstance(v, VList):
            out.append(Loc(path + "[]", "list", v))
            for k, p in enumerate(v.parts):
                if not isinstance(p, Seg):
                    value(f"{path}[{k}]", p, depth + 1)
        elif isinstance(v, VSet):
            out.append(Loc(path + "{}", "set", v))
        elif isinstance(v, VIter):
            out.append(Loc(path + ".pos", "pos", v, "pos"))
            value(path + ".src", v.src, depth + 1)
        elif isinstance(v, EnumIt):
            out.append(Loc(path + ".k", "pos", v, "k"))
            value(path + ".base", v.base, depth + 1)
        elif isinstance(v, (ZipIt, MapIt)):
            for k, i in enumerate(v.its):
                value(f"{path}.it{k}", i, depth + 1)
            if isinstance(v, MapIt):
                value(path + ".f", v.f, depth + 1)
        elif isinstance(v, (FilterIt, GenIt)):
            value(path + ".it", v.it, depth + 1)
            if isinstance(v, GenIt):
                frame(path + ".frame", v.frame, depth + 1)
        elif isinstance(v, Reversed):
            value(path + ".src", v.src, depth + 1)
        elif isinstance(v, NativeIt):
            out.append(Loc(path + ".buf", "native", v.buf))
        elif isinstance(v, Sym):
            return
        elif isinstance(v, tuple):
            for k, x in enumerate(v):
                value(f"{path}.{k}", x, depth + 1)
        elif isinstance(v, (list, set, dict)) or type(v).__name__ == "deque":
            if isinstance(v, dict) and "__builtins__" in v:
                return
            if len(v) > 200:
                return
            out.append(Loc(path + "<native>", "native", v))
            for k, x in enumerate(v.values() if isinstance(v, dict) else v):
                value(f"{path}.{k}", x, depth + 1)
        elif hasattr(v, "_vc_ifunc"):
            frame(path + ".closure", v.frame, depth + 1)
        elif isinstance(v, types.MethodType):
            value(path + ".self", v.__self__, depth + 1)
        elif isinstance(v, BaseException):
            return
        elif tracked(v):
            import enum
            if isinstance(v, enum.Enum):
                return
            for n in attr_names(v):
                out.append(Loc(f"{path}.{n}", "attr", v, n))
                value(f"{path}.{n}", getattr(v, n), depth + 1)

    def frame(path, f, depth):
        while f is not None:
            if id(f) in seen:
                return
            seen.add(id(f))
            for n in sorted(f.locals):
                out.append(Loc(f"{path}.{n}", "var", f.locals, n))
                value(f"{path}.{n}", f.locals[n], depth + 1)
            for n in sorted(f.closure):
                if n == "__class__":
                    continue
                out.append(Loc(f"{path}.cell.{n}", "cell", f.closure[n]))
                try:
                    value(f"{path}.cell.{n}", f.closure[n].cell_contents, depth + 1)
                except ValueError:
                    pass
            f = f.parent
            path += "^"

    for kind, path, obj in queue:
        if kind == "frame":
            frame(path, obj, 0)
        else:
            value(path, obj, 0)
    for name in sorted(engine().heap):
        out.append(Loc(f"heap.{name}", "heap", None, name))
    return out, keep


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (SymBool, SymInt, SymStr)):
        return a.z.eq(b.z)
    if isinstance(a, SymObj):
        return a.term.eq(b.term) and a.model is b.model
    if isinstance(a, Seg):
        return a.fwd.eq(b.fwd)
    if isinstance(a, (int, str, float)):
        return a == b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return False


# ---------------------------------------------------------------- shapes
def kind_of(v, locs_kind):
    import enum
    if v is UNSET:
        return ("unset",)
    if locs_kind == "heap":
        return ("heap",)
    if locs_kind == "list":
        models = []
        for p in v:
            m = p.model if isinstance(p, Seg) else elem_model(p)
            if m is not None and m not in models:
                models.append(m)
        return ("parts", tuple(models))
    if locs_kind == "set":
        return ("members", tuple(v))
    if isinstance(v, (bool, SymBool)):
        return ("bool",)
    if isinstance(v, (int, SymInt)) and not isinstance(v, enum.Enum):
        return ("int",)
    if isinstance(v, SymStr) or type(v) is str:
        return ("str",)
    if isinstance(v, SymObj):
        return ("obj", v.model)
    if v is None or isinstance(v, (enum.Enum, type, types.FunctionType, types.ModuleType)):
        return ("const", v)
    if isinstance(v, tuple):
        return ("tuple", tuple(kind_of(x, "var") for x in v))
    if isinstance(v, VList):
        return ("vlist", v.kind, kind_of(tuple(v.parts), "list"))
    if isinstance(v, Poison):
        return ("poison",)
    if isinstance(v, VSet):
        return ("vset", tuple(v.m))
    return ("identity", Ident(v))


class Ident:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Ident) and self.v is o.v

    __hash__ = None


def elem_model(p):
    if isinstance(p, SymObj):
        return p.model
    if isinstance(p, SymStr) or type(p) is str:
        return STRING_MODEL
    if isinstance(p, (int, SymInt)) and not isinstance(p, bool):
        return INT_MODEL
    return OPAQUE if not hasattr(p, "_vc_model") else p._vc_model


def join_models(models):
    ms = [m for m in models]
    if not ms:
        return None
    if all(m is ms[0] for m in ms):
        return ms[0]
    sup = [m for m in ms if getattr(m, "covers", None) and all(m.covers(x) for x in ms)]
    return sup[0] if sup else OPAQUE


def havoc(loc, kinds, name):
    """fresh value of one of the kinds"""
    e = engine()
    kinds = list(kinds)
    if len(kinds) > 1 and all(k[0] == "parts" for k in kinds):
        ms = []
        for k in kinds:
            for m in k[1]:
                if m not in ms:
                    ms.append(m)
        kinds = [("parts", tuple(ms))]
    if len(kinds) > 1 and all(k[0] == "members" for k in kinds):
        u = []
        for k in kinds:
            for m in k[1]:
                if m not in u:
                    u.append(m)
        kinds = [("members", tuple(u))]
    if len(kinds) > 1 and any(k[0] == "identity" for k in kinds):
        return Poison(name)
    k = kinds[e.choose(len(kinds), name)]
    return fresh(k, name)


def fresh(k, name):
    e = engine()
    t = k[0]
    if t == "unset":
        return UNSET
    if t == "bool":
        return SymBool(e.const(name, z3.BoolSort()))
    if t == "int":
        return SymInt(e.const(name, INT))
    if t == "str":
        return SymStr(e.const(name, SEQI))
    if t == "obj":
        return SymObj(e.const(name, V), k[1])
    if t == "const":
        return k[1]
    if t == "tuple":
        return tuple(fresh(x, f"{name}.{i}") for i, x in enumerate(k[1]))
    if t == "parts":
        m = join_models(k[1])
        if m is None:
            return ()
        return (fresh_seg(name, m),)
    if t == "members":
        return {x: SymBool(e.const(f"{name}.{i}", z3.BoolSort())) for i, x in enumerate(k[1])}
    if t == "vset":
        return VSet({x: SymBool(e.const(f"{name}.{i}", z3.BoolSort())) for i, x in enumerate(k[1])})
    if t == "vlist":
        return VList(fresh(k[2], name), k[1])
    if t == "heap":
        return e.const(name, z3.ArraySort(V, V))
    if t == "identity":
        return Poison(name)
    return Poison(name)


# ---------------------------------------------------------------- abstract state seen by candidates
class Scope:
    def __init__(self, locs):
        self.ints, self.strs, self.lists, self.sets, self.iters, self.bools = {}, {}, {}, {}, {}, {}
        self.objs = {}
        self.heap = {}
        self.locs = locs
        seen = set()

        def visit(path, v):
            if isinstance(v, bool) or isinstance(v, SymBool):
                self.bools[path] = v
            elif isinstance(v, (int, SymInt)):
                self.ints[path] = v
            elif isinstance(v, SymStr) or type(v) is str:
                self.strs[path] = v
            elif isinstance(v, SymObj):
                self.objs[path] = v
            elif isinstance(v, VList):
                if id(v) not in seen:
                    seen.add(id(v))
                    self.lists[path] = v
            elif isinstance(v, VSet):
                if id(v) not in seen:
                    seen.add(id(v))
                    self.sets[path] = v
            elif isinstance(v, VIter):
                if id(v) not in seen:
                    seen.add(id(v))
                    self.iters[path] = v
            elif isinstance(v, tuple):
                for i, x in enumerate(v):
                    visit(f"{path}.{i}", x)
        for l in locs:
            if l.kind in ("var", "attr", "cell"):
                visit(l.path, l.get())
            elif l.kind == "list":
                visit(l.path[:-2], l.owner)
            elif l.kind == "set":
                visit(l.path[:-2], l.owner)
            elif l.kind == "pos":
                if isinstance(l.owner, VIter):
                    visit(l.path[:-4], l.owner)
                else:
                    visit(l.path, l.get())
            elif l.kind == "heap":
                self.heap[l.name] = l.get()


class Entry:
    """frozen copies of the values at loop entry"""

    def __init__(self, sc):
        self.ints = dict(sc.ints)
        self.strs = dict(sc.strs)
        self.lists = {p: VList(v.parts, v.kind) for p, v in sc.lists.items()}
        self.pos = {p: v.pos for p, v in sc.iters.items()}
        self.sets = {p: dict(v.m) for p, v in sc.sets.items()}
        self.heap = dict(sc.heap)


def candidates(sc, en, changed):
    """(id, formula) facts about the current state; `changed` = paths of havocked locations"""
    e = engine()
    ch = lambda p: p in changed
    quant = {}
    for p, v in sc.ints.items():
        if ch(p) and not p.endswith(".k"):
            quant[p] = (zint(v), zint(en.ints[p]) if p in en.ints else None)
        elif ch(p):
            quant[p] = (zint(v), zint(en.ints[p]) if p in en.ints else None)
    for p, it in sc.iters.items():
        if ch(p + ".pos"):
            quant["pos " + p] = (zint(it.pos), zint(en.pos[p]) if p in en.pos else None)
    for p, l in sc.lists.items():
        if ch(p + "[]") or ch(p):
            quant["len " + p] = (zint(l.length()), zint(en.lists[p].length()) if p in en.lists else None)
    for p, s in sc.strs.items():
        if ch(p):
            quant["len " + p] = (z3.Length(zstr(s)), z3.Length(zstr(en.strs[p])) if p in en.strs else None)
    # bounds
    for p, (t, t0) in quant.items():
        yield f"{p}>=0", t >= 0
        if t0 is not None:
            yield f"{p}>=entry", t >= t0
            yield f"{p}<=entry", t <= t0
    lens = {}
    for p, l in sc.lists.items():
        lens["len " + p] = zint(l.length())
    for p, s in sc.strs.items():
        if isinstance(s, SymStr):
            lens["len " + p] = z3.Length(s.z)
    for p, it in sc.iters.items():
        lens["src " + p] = zint(it.length())
    for p, (t, t0) in quant.items():
        for q, n in lens.items():
            if q != p:
                yield f"{p}<={q}", t <= n
    ks = list(quant)
    for i, p in enumerate(ks):
        for q in ks[i + 1:]:
            (a, a0), (b, b0) = quant[p], quant[q]
            if a0 is not None and b0 is not None:
                yield f"{p}-{q} const", a - b == a0 - b0
                yield f"{p}+{q} const", a + b == a0 + b0
            yield f"{p}<={q}*", a <= b
            yield f"{q}<={p}*", b <= a
    for p, (a, a0) in quant.items():
        for q, v in sc.ints.items():
            if not ch(q) and is_sym(v):
                yield f"{p}<=var {q}", a <= zint(v)
                yield f"{p}>=var {q}", a >= zint(v)
    # lists
    for p, l in sc.lists.items():
        if ch(p + "[]") and p in en.lists:
            z, z0 = l.z(), en.lists[p].z()
            yield f"{p} extends entry", z3.PrefixOf(z0, z)
            yield f"{p} suffix of entry", z3.SuffixOf(z, z0)
            yield f"{p} prefix of entry", z3.PrefixOf(z, z0)
            for q, m in sc.lists.items():
                if q != p and (ch(q + "[]") or ch(q)) and q in en.lists:
                    yield f"{p}++{q}", vconcat(z, m.z()) == vconcat(z0, en.lists[q].z())
                    yield f"{p}++rev {q}", vconcat(z, m.zrev()) == vconcat(z0, en.lists[q].zrev())
                    yield f"rev {q}++{p}", vconcat(m.zrev(), z) == vconcat(en.lists[q].zrev(), z0)
    for p, it in sc.iters.items():
        if ch(p + ".pos") and p in en.pos and isinstance(it.src, VList):
            z, k, k0 = it.src.z(), zint(it.pos), zint(en.pos[p])
            seen_ = z3.SubSeq(z, k0, k - k0)
            seen_facts(e, z, k, k0, seen_)
            for q, l in sc.lists.items():
                if (ch(q + "[]") or ch(q)) and q in en.lists and l is not it.src:
                    yield f"{q} = entry++seen {p}", l.z() == vconcat(en.lists[q].z(), seen_)
                    yield f"{q} = rev seen {p}++entry", l.zrev() == vconcat(en.lists[q].zrev(), seen_)
    for p, s in sc.sets.items():
        if ch(p + "{}") and p in en.sets:
            for k, v in en.sets[p].items():
                if v is True:
                    yield f"{k!r} in {p}", z3.BoolVal(True) if s.mem(k) is True else \
                        (z3.BoolVal(False) if s.mem(k) is False else s.mem(k).z)
    for p, v in sc.bools.items():
        if ch(p):
            b = v.z if isinstance(v, SymBool) else z3.BoolVal(v)
            yield f"{p}", b
            yield f"not {p}", z3.Not(b)
    for tname, tmpl in e.templates:
        try:
            for cid, f in tmpl(sc, en, changed):
                yield f"{tname}:{cid}", f
        except OutOfSubset:
            pass


def witness(e, f):
    """what a prefix or suffix leaves over, named: the solver reasons better about concatenations"""
    if not z3.is_app(f) or f.num_args() != 2:
        return
    k = f.decl().kind()
    if k in (z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX):
        a, b = f.arg(0), f.arg(1)
        r = e.const("rest", b.sort())
        e.assume(b == (vconcat(a, r) if k == z3.Z3_OP_SEQ_PREFIX else vconcat(r, a)))


def seen_facts(e, z, k, k0, seen):
    """what a stretch of a list is when the position moves on by one, and at the end"""
    n = z3.Length(z)
    end = z3.And(k0 == 0, k == n)
    e.axiom(("all seen", str(z), str(k), str(k0)), z3.Implies(end, seen == z))
    last = z3.simplify(k - 1)
    step = z3.simplify(z3.And(k0 >= 0, last >= k0, last < n))
    if e.by_arith(z3.Not(step)):
        e.axiom(("seen", str(z), str(k), str(k0)),
                seen == z3.Concat(z3.SubSeq(z, k0, z3.simplify(last - k0)), z3.Unit(z[last])))


class CondLoop:
    def __init__(self, rec):
        self.rec = rec

    def undetermined(self):
        self.rec.cut = True
        raise Restart(f"cut {self.rec.key[-3:]}")


def heap_array(field):
    """current value of a field of the symbolic objects"""
    e = engine()
    if field not in e.heap:
        e.heap[field] = z3.Const(f"heap0_{field}", z3.ArraySort(V, V))
    return e.heap[field]


ROOTS = []          # harness-registered ghost state


def run(interp, fr, cond, body, orelse, key, stmts, it, test, names=(), dead=()):
    from .interp import BreakEx, ContinueEx, assigned_in
    e = engine()
    key = (e.name,) + tuple(key)
    rec = e.loops.get(key)
    if rec is None:
        rec = e.loops[key] = LoopRec(key)
    hook = getattr(e, "loop_hook", None)
    bounded = getattr(e, "bounded", None) is not None
    if not rec.cut or bounded:
        n = soft = 0
        while True:
            if hook is not None:
                hook(interp, fr, key, n)
            saved = e.cond_loop
            e.cond_loop = None if bounded else CondLoop(rec)
            try:
                c = cond()
                if not isinstance(c, bool):
                    if not z3.is_true(z3.simplify(c.z)):
                        soft += 1           # determined only by the solver: the trip count itself is symbolic
                    c = e.branch(c.z)
            finally:
                e.cond_loop = saved
            if soft > interp.MAX_SOFT and not bounded:
                rec.cut = True
                raise Restart(f"trip count not determined {key[-3:]}")
            if not c:
                orelse()
                return
            n += 1
            if bounded and n > 24:
                raise PathEnd()
            if n > interp.MAX_UNROLL:
                rec.cut = True
                raise Restart("loop too long to unroll")
            try:
                saved, e.cond_loop = e.cond_loop, None
                try:
                    body()
                finally:
                    e.cond_loop = saved
            except BreakEx:
                return
            except ContinueEx:
                pass

    # ---- cut
    saved_cl, e.cond_loop = e.cond_loop, None
    try:
        an, ag, anl = assigned_in(stmts)
        an |= set(names)
        an -= set(dead)
        for nme in dead:
            fr.locals.pop(nme, None)
        if ag:
            raise OutOfSubset("global assignment in a loop of unknown length")
        roots = [("frame", "L", fr)] + [("value", p, o) for p, o in ROOTS]
        for nme in an:
            if nme not in fr.locals and nme in fr.localnames:
                pass
        for p in rec.shapes:
            if p.startswith("heap."):
                heap_array(p[5:])
        locs, keep = collect(roots)
        bypath = {}
        for l in locs:
            bypath.setdefault(l.path, l)
        varlocs = {}
        for nme in sorted(an | anl):
            p = f"L.{nme}"
            if p not in bypath:
                owner = fr.locals
                if nme in anl or nme not in fr.localnames:
                    f = fr.parent
                    while f is not None and nme not in f.localnames:
                        f = f.parent
                    if f is None:
                        continue
                    owner = f.locals
                l = Loc(p, "var", owner, nme)
                bypath[p] = l
                locs.append(l)
        old = {l.path: l.get() for l in bypath.values()}
        sc0 = Scope(list(bypath.values()))
        en = Entry(sc0)
        hav = rec.shapes                       # path -> list of kinds
        missing = [p for p in hav if p not in bypath]
        # a location that does not exist on this path cannot be changed through this path's objects
        changed = {p for p in hav if p in bypath}
        for p in changed:
            k = kind_of(old[p], bypath[p].kind)
            if k not in hav[p]:
                hav[p].append(k)
                raise Restart(f"shape of {p}: {k[0]}")
        # candidates on entry
        drop = set()
        for cid, f in candidates(sc0, en, changed):
            if cid not in rec.dropped and cid not in drop and not e.entails(f):
                drop.add(cid)
        if drop:
            rec.dropped |= drop
            raise Restart(f"{len(drop)} candidates not established at {key[-1]}")
        # havoc
        for p in sorted(changed):
            bypath[p].set(havoc(bypath[p], hav[p], p.replace(" ", "_")))
        sc1 = Scope(list(bypath.values()))
        kept = []
        for cid, f in candidates(sc1, en, changed):
            if cid not in rec.dropped:
                e.assume(f)
                witness(e, f)
                kept.append(cid)
        rec.kept = set(kept)
        head = {l.path: l.get() for l in bypath.values()}
        if hook is not None:
            hook(interp, fr, key, -1)
        c = cond()
        c = c if isinstance(c, bool) else e.branch(c.z, first=False)
        if not c:
            orelse()
            return
        try:
            body()
        except BreakEx:
            return
        except ContinueEx:
            pass
        # ---- back edge: frame, shapes, invariant
        grown = False
        for l in bypath.values():
            v = l.get()
            if l.path in changed:
                k = kind_of(v, l.kind)
                if k not in hav[l.path]:
                    hav[l.path].append(k)
                    grown = True
            elif not same(v, head[l.path]):
                hav[l.path] = [kind_of(old[l.path], l.kind)]
                k = kind_of(v, l.kind)
                if k not in hav[l.path]:
                    hav[l.path].append(k)
                grown = True
        for nme in e.heap:
            if f"heap.{nme}" not in bypath:
                hav[f"heap.{nme}"] = [("heap",)]
                grown = True
        # attributes or locals that appeared in the body
        for nme in dead:
            fr.locals.pop(nme, None)
        locs2, keep2 = collect(roots)
        ids = {id(x) for x in keep}
        for l in locs2:
            if l.path not in bypath and l.kind in ("var", "attr") and l.path.count(".") <= 6:
                if l.kind == "var" and l.owner is fr.locals or l.kind == "attr" and id(l.owner) in ids:
                    hav[l.path] = [("unset",), kind_of(l.get(), l.kind)]
                    # variable first assigned in the body: exists as a location from now on
                    grown = grown or l.kind == "attr"
        if grown:
            raise Restart(f"loop state grew at {key[-1]}: {len(hav)} places")
        sc2 = Scope(list(bypath.values()))
        cur = dict((cid, f) for cid, f in candidates(sc2, en, changed) if cid not in rec.dropped)
        bad = {cid for cid in kept if cid not in cur}
        hard = [c_ for c_ in kept if c_ in cur and not e.quick(cur[c_])]
        if hard and not e.entails(z3.And(*[cur[c_] for c_ in hard])):
            for c_ in hard:
                if not e.entails(cur[c_]):
                    bad.add(c_)
        if bad:
            rec.dropped |= bad
            raise Restart(f"{len(bad)} candidates not preserved at {key[-1]}")
        raise PathEnd()
    finally:
        e.cond_loop = saved_cl
