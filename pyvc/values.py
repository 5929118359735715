"""Symbolic Python values.

Every class here stands for an ordinary Python object whose content is a solver term.  The proxies also behave
under native operators (``__bool__`` forks through the engine), so code that is executed natively on them stays exact;
whatever has no exact meaning raises OutOfSubset, never a wrong answer.
"""
import z3
from . import core
from .core import engine, V, SEQV, SEQI, INT, OutOfSubset, PathEnd


class Sym:
    """marker: value with symbolic content"""
    pytype = object


def is_sym(x):
    return isinstance(x, Sym)


def deep_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (tuple, list, set, frozenset)) and len(x) < 64:
        return any(deep_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict) and len(x) < 64:
        return any(deep_sym(y, depth - 1) for y in x.values())
    return False


# ---------------------------------------------------------------- bool / int
class SymBool(Sym):
    pytype = bool
    __slots__ = ("z",)

    def __init__(self, z_):
        self.z = z_

    def __bool__(self):
        return engine().branch(self.z)

    def __eq__(self, o):
        return mkbool(self.z == zbool(o)) if isinstance(o, (bool, SymBool)) else bool(self) == o

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    def __and__(self, o):
        return mkbool(z3.And(self.z, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.z, zbool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, zbool(o)))

    __hash__ = None

    def __repr__(self):
        return f"SymBool({self.z})"

    def as_int(self):
        return mkint(z3.If(self.z, 1, 0))

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__


def zbool(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    raise OutOfSubset(f"boolean operation with {type(x).__name__}")


def mkbool(f):
    if isinstance(f, bool):
        return f
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return SymBool(f)


def mknot(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.z))
    return not x


def zint(x):
    if isinstance(x, SymInt):
        return x.z
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    raise TypeError(f"not an integer: {type(x).__name__}")


def mkint(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def isint(x):
    return isinstance(x, (int, SymInt, SymBool))


class SymInt(Sym):
    pytype = int
    __slots__ = ("z",)

    def __init__(self, z_):
        self.z = z_

    def _b(self, o, f):
        if not isint(o):
            return NotImplemented
        return mkint(f(self.z, zint(o)))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.z < 0, -self.z, self.z))

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.z / o)
        raise OutOfSubset("symbolic division")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.z % o)
        raise OutOfSubset("symbolic modulo")

    def __lshift__(self, o):
        if isinstance(o, int) and 0 <= o < 256:
            return mkint(self.z * (1 << o))
        raise OutOfSubset("symbolic shift")

    def __rshift__(self, o):
        if isinstance(o, int) and 0 <= o < 256:
            return mkint(self.z / (1 << o))
        raise OutOfSubset("symbolic shift")

    def __or__(self, o):
        if not isint(o):
            return NotImplemented
        a, b = self.z, zint(o)
        e = engine()
        for x, y in ((a, b), (b, a)):
            if z3.is_int_value(x) and x.as_long() == 0:
                return mkint(y)
            m = power_of_two(x)
            if m > 1 and e.entails(z3.And(y >= 0, y < m)):
                return mkint(x + y)
        raise OutOfSubset("symbolic bitwise or of overlapping operands")

    __ror__ = __or__

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.z % (o + 1))
        raise OutOfSubset("symbolic bitwise and")

    __rand__ = __and__

    def _c(self, o, f):
        if isinstance(o, float):
            raise OutOfSubset("float comparison")
        if not isint(o):
            return NotImplemented
        return mkbool(f(self.z, zint(o)))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not isint(o):
            return False
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not isint(o):
            return True
        return self._c(o, lambda a, b: a != b)

    def __bool__(self):
        return engine().branch(self.z != 0)

    def __index__(self):
        v = determined_int(self)
        if v is None:
            raise OutOfSubset("symbolic integer used where the interpreter needs a concrete one")
        return v

    __int__ = __index__
    __hash__ = None

    def __repr__(self):
        return f"SymInt({self.z})"


def power_of_two(t):
    """a power of two that divides the integer term t, found by looking at it"""
    if z3.is_int_value(t):
        v = t.as_long()
        return v & -v if v else 1 << 64
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        return min(power_of_two(t.arg(i)) for i in range(t.num_args()))
    if k == z3.Z3_OP_MUL:
        r = 1
        for i in range(t.num_args()):
            r *= power_of_two(t.arg(i))
        return min(r, 1 << 64)
    if k == z3.Z3_OP_ITE:
        return min(power_of_two(t.arg(1)), power_of_two(t.arg(2)))
    return 1


def determined_int(x):
    """concrete value of x on this path, or None"""
    if isinstance(x, int):
        return int(x)
    if isinstance(x, SymBool):
        x = x.as_int()
        if isinstance(x, int):
            return x
    e = engine()
    r = e._check(x.z == x.z)
    v = None
    if r == z3.sat:
        try:
            v = e.solver.model().eval(x.z, model_completion=True)
            v = v.as_long() if z3.is_int_value(v) else None
        except z3.Z3Exception:
            v = None
    e.solver.pop()
    if v is not None and e.entails(x.z == v):
        return v
    return None


# ---------------------------------------------------------------- strings
def zstr(s):
    """Seq(Int) term of a python or symbolic string"""
    if isinstance(s, SymStr):
        return s.z
    if not isinstance(s, str):
        raise OutOfSubset(f"text expected, got {type(s).__name__}")
    s = str.__str__(s)
    t = CONSTANTS.get(s)
    if t is None:
        if not s:
            t = z3.Empty(SEQI)
        else:
            units = [z3.Unit(z3.IntVal(ord(c))) for c in s]
            t = units[0] if len(units) == 1 else z3.Concat(*units)
        CONSTANTS[s] = t
    return t


CONSTANTS = {}


def mkstr(t):
    t = z3.simplify(t)
    k = t.get_id()
    c = KNOWN_CONST.get(k)
    if c is None:
        if len(KNOWN_CONST) > 20000:
            KNOWN_CONST.clear()
        c = KNOWN_CONST[k] = (const_str(t), t)      # the term is kept, so its id stays its own
    return c[0] if c[0] is not None else SymStr(t)


KNOWN_CONST = {}


def const_str(t):
    k = t.decl().kind()
    if k == z3.Z3_OP_SEQ_EMPTY:
        return ""
    if k == z3.Z3_OP_SEQ_UNIT:
        a = t.arg(0)
        if z3.is_int_value(a) and 0 <= a.as_long() <= 0x10FFFF:
            return chr(a.as_long())
        return None
    if k == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for i in range(t.num_args()):
            c = const_str(t.arg(i))
            if c is None:
                return None
            out.append(c)
        return "".join(out)
    return None


def zconcat(*parts):
    parts = [p for p in parts if not (p.decl().kind() == z3.Z3_OP_SEQ_EMPTY)]
    if not parts:
        return z3.Empty(SEQI)
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def vconcat(*parts):
    parts = [p for p in parts if not (p.decl().kind() == z3.Z3_OP_SEQ_EMPTY)]
    if not parts:
        return z3.Empty(SEQV)
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


# library functions on text, uninterpreted (their contracts are stated where they are used)
F_ISSPACE = z3.Function("str_isspace", SEQI, z3.BoolSort())
F_REESCAPE = z3.Function("re_escape", SEQI, SEQI)
F_REPR = z3.Function("str_repr", SEQI, SEQI)
F_INTSTR = z3.Function("int_str", INT, SEQI)
F_NORMALIZE = z3.Function("unicodedata_normalize", SEQI, SEQI, SEQI)
F_INTOF = z3.Function("int_of_text", SEQI, INT)
F_ISINT = z3.Function("text_is_int", SEQI, z3.BoolSort())


def char_at(t, k):
    """code point at a position of an atomic text"""
    return z3.Function(f"char_at[{t}]", INT, INT)(z3.simplify(k))


F_DIGIT = z3.Function("digit_value", INT, INT)          # value of the digit 0-9 a-z A-Z with this code point


def digit_value(c):
    c = z3.simplify(c)
    if z3.is_int_value(c):
        return z3.simplify(z3.If(c <= 57, c - 48, z3.If(c <= 90, c - 55, c - 87)))
    engine().axiom(("digit", c.get_id()), digit_fact(c))
    engine().keep.append(c)
    return F_DIGIT(c)


def digit_fact(c):
    v = F_DIGIT(c)
    return z3.And(z3.Implies(z3.And(c >= 48, c <= 57), v == c - 48), z3.Implies(z3.And(c >= 97, c <= 122), v == c - 87),
                  z3.Implies(z3.And(c >= 65, c <= 90), v == c - 55))


def atomic(t):
    """make the text an atom: its characters are only known through char_at"""
    engine().atoms.add(t.get_id())
    engine().keep.append(t)
    return t


def text_parts(t):
    """the text as pieces: one-character texts and atoms; None if it has others"""
    k = t.decl().kind()
    if k == z3.Z3_OP_SEQ_EMPTY:
        return []
    if k == z3.Z3_OP_SEQ_UNIT or t.get_id() in engine().atoms:
        return [t]
    if k == z3.Z3_OP_SEQ_CONCAT:
        r = []
        for i in range(t.num_args()):
            q = text_parts(t.arg(i))
            if q is None:
                return None
            r += q
        return r
    return None


def is_unit(t):
    return t.decl().kind() == z3.Z3_OP_SEQ_UNIT


def char(t, k):
    """code point of text t at position k (0 <= k < length is the caller's business)"""
    if t.get_id() in engine().atoms:
        return char_at(t, k)
    return t[k]


def unit_at(parts, i):
    """one-character text at position i of the pieces; i within the text"""
    e = engine()
    off = z3.IntVal(0)
    for n, p in enumerate(parts):
        size = z3.IntVal(1) if is_unit(p) else z3.Length(p)
        if n == len(parts) - 1 or e.branch(i < off + size):
            return p if is_unit(p) else z3.Unit(char_at(p, i - off))
        off = z3.simplify(off + size)


def slice_parts(t, parts, lo, hi):
    """the slice [lo:hi] of a text in pieces; lo, hi: integer terms or None; None if it is not a matter of pieces"""
    e = engine()
    n = z3.simplify(z3.Length(t))

    def side(x):
        """(distance from the front, distance from the end), each an int or None"""
        x = z3.simplify(x)
        if z3.is_int_value(x):
            x = x.as_long()
            return (x, None) if x >= 0 else (None, -x)
        d = z3.simplify(n - x)
        if z3.is_int_value(d) and d.as_long() >= 0 and e.entails(x >= 0):
            return (None, d.as_long())
        return (None, None)
    units = 0
    front = 0 if lo is None else side(lo)[0]
    back = 0 if hi is None else side(hi)[1]
    if front is not None and back is not None:
        ps = list(parts)
        while front and ps and is_unit(ps[0]):
            ps.pop(0)
            front -= 1
        while back and ps and is_unit(ps[-1]):
            ps.pop()
            back -= 1
        if not ps or not front and not back:
            return zconcat(*ps)
    lo = z3.IntVal(0) if lo is None else z3.simplify(lo)
    hi = n if hi is None else z3.simplify(hi)
    d = z3.simplify(hi - lo)
    if z3.is_int_value(d) and 0 <= d.as_long() <= 16 and e.entails(z3.And(lo >= 0, hi <= n)):
        return zconcat(*[unit_at(parts, z3.simplify(lo + k)) for k in range(d.as_long())])
    return None


def f_trans(table):
    """translation of single characters by a fixed table (str.translate / single-character str.replace)"""
    key = ";".join(f"{k}:{v.encode('unicode_escape').decode()}" for k, v in sorted(table.items()))
    return z3.Function(f"translate[{key}]", SEQI, SEQI)


class SymStr(Sym):
    pytype = str
    __slots__ = ("z", "base", "table")

    def __init__(self, z_, base=None, table=None):
        self.z = z_
        self.base = base            # provenance of a character translation
        self.table = table

    def length(self):
        return mkint(z3.Length(self.z))

    def __len__(self):
        return self.length().__index__()

    def __bool__(self):
        return engine().branch(z3.Length(self.z) > 0)

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkbool(self.z == zstr(o))
        return False

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    __hash__ = None

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkstr(zconcat(self.z, zstr(o)))
        raise TypeError(f'can only concatenate str (not "{type(o).__name__}") to str')

    def __radd__(self, o):
        if isinstance(o, str):
            return mkstr(zconcat(zstr(o), self.z))
        return NotImplemented

    def __mul__(self, o):
        n = o if isinstance(o, int) else determined_int(o)
        if n is None:
            raise OutOfSubset("symbolic string repetition")
        return mkstr(zconcat(*([self.z] * max(n, 0))))

    def _cmp(self, o, f):
        if not isinstance(o, (str, SymStr)):
            raise TypeError("'<' not supported between str and other")
        e = engine()
        a, b = self.z, zstr(o)
        if e.entails(z3.And(z3.Length(a) == 1, z3.Length(b) == 1)):
            return mkbool(f(a[0], b[0]))
        raise OutOfSubset("ordering of symbolic text")

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __contains__(self, o):
        return bool(self.has(o))

    def has(self, o):
        if not isinstance(o, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand")
        return mkbool(z3.Contains(self.z, zstr(o)))

    def __getitem__(self, i):
        n = z3.Length(self.z)
        parts = text_parts(self.z)
        if isinstance(i, slice):
            if parts and i.step in (None, 1):
                r = slice_parts(self.z, parts, None if i.start is None else zint(i.start),
                                None if i.stop is None else zint(i.stop))
                if r is not None:
                    return mkstr(r)
            lo, hi = slice_bounds(i, n)
            return mkstr(z3.SubSeq(self.z, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0))))
        if not isint(i):
            raise TypeError("string indices must be integers")
        i = zint(i)
        e = engine()
        if e.branch(z3.And(i >= 0, i < n)):
            return mkstr(unit_at(parts, i) if parts else z3.Unit(self.z[i]))
        if e.branch(z3.And(i < 0, i >= -n)):
            return mkstr(unit_at(parts, n + i) if parts else z3.Unit(self.z[n + i]))
        raise IndexError("string index out of range")

    def __iter__(self):
        raise OutOfSubset("native iteration over symbolic text")

    def __repr__(self):
        return f"SymStr({self.z})"

    def __str__(self):
        raise OutOfSubset("native str() of symbolic text")

    def __format__(self, spec):
        raise OutOfSubset("native format() of symbolic text")

    # ---- methods
    def startswith(self, p, *rest):
        if rest:
            raise OutOfSubset("startswith with range")
        if isinstance(p, tuple):
            r = False
            for q in p:
                r = mkor(r, self.startswith(q))
            return r
        known = end_known(self.z, zstr(p), 0)
        return mkbool(z3.PrefixOf(zstr(p), self.z) if known is None else known)

    def endswith(self, p, *rest):
        if rest:
            raise OutOfSubset("endswith with range")
        if isinstance(p, tuple):
            r = False
            for q in p:
                r = mkor(r, self.endswith(q))
            return r
        known = end_known(self.z, zstr(p), -1)
        return mkbool(z3.SuffixOf(zstr(p), self.z) if known is None else known)

    def isspace(self):
        s = self.z
        e = engine()
        e.axiom(("isspace", str(s)), z3.Implies(F_ISSPACE(s), z3.Length(s) > 0))
        return mkbool(F_ISSPACE(s))

    def replace(self, a, b, count=-1):
        if count != -1 or not isinstance(a, str) or not isinstance(b, str):
            raise OutOfSubset("str.replace form")
        if len(a) != 1:
            raise OutOfSubset("str.replace of a multi-character string")
        return translated(self, {ord(a): b})

    def translate(self, table):
        if isinstance(table, dict):
            t = {}
            for k, v in table.items():
                if v is None:
                    v = ""
                elif isinstance(v, int):
                    v = chr(v)
                if is_sym(v):
                    raise OutOfSubset("symbolic translation table")
                t[k if isinstance(k, int) else ord(k)] = v
            return translated(self, t)
        raise OutOfSubset("translate table form")

    def join(self, it):
        raise OutOfSubset("join with symbolic separator")

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        if isinstance(p, str) and p == "":
            return self
        return self[: self.length() - len(p)] if self.endswith(p) else self

    def find(self, sub, *rest):
        if rest:
            raise OutOfSubset("find with range")
        return mkint(z3.IndexOf(self.z, zstr(sub), 0))

    def index(self, sub, *rest):
        r = self.find(sub, *rest)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def partition(self, sep):
        r = self.find(sep)
        if r == -1:
            return (self, "", "")
        return (self[:r], sep, self[r + len(sep):])

    def py_getattr(self, name):
        if name in ("startswith", "endswith", "isspace", "replace", "translate", "join", "removeprefix",
                    "removesuffix", "find", "index", "partition"):
            return getattr(self, name)
        if hasattr(str, name):
            raise OutOfSubset(f"str.{name} on symbolic text")
        raise AttributeError(f"'str' object has no attribute '{name}'")


def end_known(t, p, where):
    """the text t begins (ends) with the one-character text p, if the first (last) character is known; else None"""
    parts = text_parts(t)
    if parts and is_unit(parts[where]) and is_unit(p):
        return z3.simplify(parts[where].arg(0) == p.arg(0))
    return None


def translated(s, table):
    table = {k: v for k, v in table.items() if v != chr(k)}
    if isinstance(s, str):
        return s.translate(table)
    if s.base is not None and not any(chr(k) in v for k in table for v in s.table.values()):
        comp = dict(s.table)
        for k, v in table.items():
            comp.setdefault(k, v)
        s, table = SymStr(s.base), comp
    if not table:
        return s
    z_ = f_trans(table)(s.z)
    e = engine()
    # contract of a character translation: a text without any of the characters is unchanged
    none = z3.And(*[z3.Not(z3.Contains(s.z, z3.Unit(z3.IntVal(k)))) for k in table])
    e.axiom(("trans", str(z_)), z3.Implies(none, z_ == s.z))
    return SymStr(z_, s.z, table)


def mkor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return mkbool(z3.Or(zbool(a), zbool(b)))


def mkand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return mkbool(z3.And(zbool(a), zbool(b)))


def clamp(t, n):
    t = z3.If(t < 0, t + n, t)
    return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))


def slice_bounds(s, n):
    if s.step not in (None, 1):
        raise OutOfSubset("slice with step")
    lo = z3.IntVal(0) if s.start is None else clamp(zint(s.start), n)
    hi = n if s.stop is None else clamp(zint(s.stop), n)
    return z3.simplify(lo), z3.simplify(hi)


# ---------------------------------------------------------------- embedding into V
STRV = z3.Function("STRV", SEQI, V)
STROF = z3.Function("STROF", V, SEQI)
INTV = z3.Function("INTV", INT, V)
INTOF = z3.Function("INTOF", V, INT)


def emb(x):
    """V-term of any Python value"""
    e = engine()
    if isinstance(x, SymObj):
        return x.term
    if isinstance(x, SymStr) or type(x) is str:
        t = zstr(x)
        r = STRV(t)
        e.axiom(("strv", str(t)), STROF(r) == t)
        return r
    if isinstance(x, (SymInt,)) or (isinstance(x, int) and not isinstance(x, bool)):
        t = zint(x)
        r = INTV(t)
        e.axiom(("intv", str(t)), INTOF(r) == t)
        return r
    if isinstance(x, SymBool):
        return z3.If(x.z, emb(True), emb(False))
    key = id(x)
    if key not in e.const_ids:
        c = z3.Const(f"obj{len(e.const_ids)}_{type(x).__name__}", V)
        for other, _ in e.const_ids.values():
            e.solver.add(c != other)
        e.const_ids[key] = (c, x)
        e.keep.append(x)
    return e.const_ids[key][0]


def unemb_const(term):
    for c, x in engine().const_ids.values():
        if c.eq(term):
            return True, x
    return False, None


class Model:
    """behaviour of the objects denoted by V-terms; contracts of the harness subclass it"""
    name = "opaque"
    pytype = object

    def getattr(self, o, name):
        raise OutOfSubset(f"attribute {name!r} of an unconstrained value")

    def setattr(self, o, name, value):
        raise OutOfSubset(f"attribute {name!r} of an unconstrained value set")

    def truth(self, o):
        raise OutOfSubset("truth of an unconstrained value")

    def isinstance_(self, o, cls):
        raise OutOfSubset("isinstance of an unconstrained value")

    def str_(self, o):
        raise OutOfSubset("str of an unconstrained value")

    def is_none(self, o):
        raise OutOfSubset("None test of an unconstrained value")

    def len_(self, o):
        raise OutOfSubset("len of an unconstrained value")

    def type_(self, o):
        raise OutOfSubset("type of an unconstrained value")

    def getitem(self, o, i):
        raise OutOfSubset("item of an unconstrained value")

    def call(self, o, args, kw):
        raise OutOfSubset("call of an unconstrained value")

    def eq(self, o, other):
        if isinstance(other, SymObj):
            return mkbool(o.term == other.term)
        raise OutOfSubset("comparison of an unconstrained value")

    def iter_(self, o):
        raise OutOfSubset("iteration over an unconstrained value")


OPAQUE = Model()


class SymObj(Sym):
    __slots__ = ("term", "model")

    def __init__(self, term, model=OPAQUE):
        self.term = term
        self.model = model

    @property
    def pytype(self):
        return self.model.pytype

    def py_getattr(self, name):
        return self.model.getattr(self, name)

    def py_setattr(self, name, value):
        return self.model.setattr(self, name, value)

    def __bool__(self):
        r = self.model.truth(self)
        return bool(r)

    def __eq__(self, o):
        return self.model.eq(self, o)

    def __ne__(self, o):
        return mknot(self.model.eq(self, o))

    __hash__ = None

    def __repr__(self):
        return f"SymObj({self.term}:{self.model.name})"

    def __str__(self):
        raise OutOfSubset("native str() of a symbolic object")


def wrap(term, model):
    """python value of a V-term with the given element model"""
    ok, x = unemb_const(z3.simplify(term))
    if ok:
        return x
    if model is STRING_MODEL:
        return mkstr(STROF(term))
    if model is INT_MODEL:
        return mkint(INTOF(term))
    return SymObj(term, model)


class _S(Model):
    name = "str"


class _I(Model):
    name = "int"


STRING_MODEL = _S()
INT_MODEL = _I()

REV = z3.Function("REV", SEQV, SEQV)


# ---------------------------------------------------------------- lists
class Seg:
    """a stretch of unknown length: fwd is its content, bwd the reversed content"""
    __slots__ = ("fwd", "_bwd", "model")

    def __init__(self, fwd, model, bwd=None):
        self.fwd, self._bwd, self.model = fwd, bwd, model

    @property
    def bwd(self):
        if self._bwd is None:
            self._bwd = REV(self.fwd)
            engine().axiom(("rev", str(self.fwd)), z3.And(z3.Length(self._bwd) == z3.Length(self.fwd),
                                                          REV(self._bwd) == self.fwd))
        return self._bwd

    def len(self):
        return z3.Length(self.fwd)

    def rev(self):
        return Seg(self.bwd, self.model, self.fwd)


def fresh_seg(name, model):
    e = engine()
    f = e.const(name, SEQV)
    b = e.const(name + "_rev", SEQV)
    e.assume(z3.Length(f) == z3.Length(b))
    return Seg(f, model, b)


class VList(Sym):
    """list / deque / tuple, possibly with stretches of unknown length"""
    __slots__ = ("parts", "kind", "tag")

    def __init__(self, items=(), kind="list"):
        self.parts = list(items)      # python values; unknown stretches are Seg
        self.kind = kind
        self.tag = None

    @property
    def pytype(self):
        import collections
        return {"list": list, "deque": collections.deque, "tuple": tuple}[self.kind]

    # ---- inspection
    def concrete(self):
        return not any(isinstance(p, Seg) for p in self.parts)

    def length(self):
        n = z3.IntVal(0)
        k = 0
        for p in self.parts:
            if isinstance(p, Seg):
                n = n + p.len()
            else:
                k += 1
        return mkint(n + k)

    def __len__(self):
        return self.length().__index__()

    def __bool__(self):
        n = self.length()
        return n > 0 if isinstance(n, int) else engine().branch(n.z > 0)

    def z(self):
        """content as Seq(V)"""
        out = []
        for p in self.parts:
            if isinstance(p, Seg):
                out.append(p.fwd)
            else:
                out.append(z3.Unit(emb(p)))
        return vconcat(*out)

    def zrev(self):
        out = []
        for p in reversed(self.parts):
            if isinstance(p, Seg):
                out.append(p.bwd)
            else:
                out.append(z3.Unit(emb(p)))
        return vconcat(*out)

    def model(self):
        ms = {p.model for p in self.parts if isinstance(p, Seg)}
        if len(ms) == 1:
            return ms.pop()
        return OPAQUE

    def _drop_empty(self):
        e = engine()
        self.parts = [p for p in self.parts if not (isinstance(p, Seg) and e.entails(z3.Length(p.fwd) == 0))]

    # ---- ends
    def _take_last(self, what):
        e = engine()
        while self.parts:
            p = self.parts[-1]
            if not isinstance(p, Seg):
                self.parts.pop()
                return p
            if e.branch(z3.Length(p.fwd) > 0):
                init, initb, x = e.const("init", SEQV), e.const("initb", SEQV), e.const("x", V)
                e.assume(p.fwd == z3.Concat(init, z3.Unit(x)))
                e.assume(p.bwd == z3.Concat(z3.Unit(x), initb))
                e.assume(z3.Length(init) == z3.Length(initb))
                self.parts[-1] = Seg(init, p.model, initb)
                return wrap(x, p.model)
            self.parts.pop()
        raise IndexError(what)

    def _take_first(self, what):
        e = engine()
        while self.parts:
            p = self.parts[0]
            if not isinstance(p, Seg):
                self.parts.pop(0)
                return p
            if e.branch(z3.Length(p.fwd) > 0):
                tl, tlb, x = e.const("tail", SEQV), e.const("tailb", SEQV), e.const("x", V)
                e.assume(p.fwd == z3.Concat(z3.Unit(x), tl))
                e.assume(p.bwd == z3.Concat(tlb, z3.Unit(x)))
                e.assume(z3.Length(tl) == z3.Length(tlb))
                self.parts[0] = Seg(tl, p.model, tlb)
                return wrap(x, p.model)
            self.parts.pop(0)
        raise IndexError(what)

    def _mutable(self):
        if self.kind == "tuple":
            raise AttributeError("'tuple' object has no such method")

    def append(self, x):
        self._mutable()
        self.parts.append(x)

    def appendleft(self, x):
        self._mutable()
        self.parts.insert(0, x)

    def pop(self, i=-1):
        self._mutable()
        i0 = i
        i = i if isinstance(i, int) else determined_int(i)
        if i is None:
            return self._pop_at(i0)
        if i == -1:
            return self._take_last("pop from empty list")
        if i == 0:
            return self._take_first("pop from empty list")
        if self.concrete():
            return self.parts.pop(i)
        if i < 0:
            saved = [self._take_last("pop index out of range") for _ in range(-i)]
            x = saved.pop()
            self.parts.extend(reversed(saved))
            return x
        saved = [self._take_first("pop index out of range") for _ in range(i + 1)]
        x = saved.pop()
        self.parts[:0] = saved
        return x

    def popleft(self):
        self._mutable()
        return self._take_first("pop from an empty deque")

    def insert(self, i, x):
        self._mutable()
        if isinstance(i, SymInt):
            d = determined_int(i)
            if d is None:
                n = self.length()
                if engine().entails(zint(i) >= zint(n)):
                    self.parts.append(x)
                    return
                self._insert_at(clampi(i, n), x)
                return
            i = d
        if i == 0:
            self.parts.insert(0, x)
            return
        if self.concrete():
            self.parts.insert(i, x)
            return
        if i < 0:
            if not any(isinstance(p, Seg) for p in self.parts[i:]) and len(self.parts) >= -i:
                self.parts.insert(i, x)
                return
        elif not any(isinstance(p, Seg) for p in self.parts[:i]) and len(self.parts) >= i:
            self.parts.insert(i, x)
            return
        self._insert_at(clampi(i, self.length()), x)

    def _insert_at(self, i, x):
        a, b = self._cut(zint(i))
        self.parts = a + [x] + b

    def _at(self, i, message):
        """the parts before and from index i of an existing item"""
        e = engine()
        t, n = zint(i), zint(self.length())
        if e.branch(z3.And(t < 0, t >= -n)):
            t = t + n
        elif not e.branch(z3.And(t >= 0, t < n)):
            raise IndexError(message)
        return self._cut(z3.simplify(t))

    def _pop_at(self, i):
        a, b = self._at(i, "pop index out of range")
        self.parts = b
        x = self._take_first("pop index out of range")
        self.parts = a + self.parts
        return x

    def _cut(self, t):
        """the parts before and from index t (0 <= t <= length), a stretch t falls into divided in two"""
        e = engine()
        off = z3.IntVal(0)
        for k, p in enumerate(self.parts):
            if e.branch(z3.simplify(t <= off)):
                return self.parts[:k], self.parts[k:]
            if isinstance(p, Seg):
                n = p.len()
                if e.branch(z3.simplify(t < off + n)):
                    j = z3.simplify(t - off)
                    l = Seg(z3.SubSeq(p.fwd, z3.IntVal(0), j), p.model)
                    r = Seg(z3.SubSeq(p.fwd, j, n - j), p.model)
                    e.axiom(("cut", str(p.fwd), str(j)), z3.Implies(z3.And(j >= 0, j <= n), z3.And(
                        p.fwd == z3.Concat(l.fwd, r.fwd), z3.Length(l.fwd) == j, z3.Length(r.fwd) == n - j)))
                    return self.parts[:k] + [l], [r] + self.parts[k + 1:]
                off = off + n
            else:
                off = off + 1
        return list(self.parts), []

    def extend(self, it):
        self._mutable()
        self.parts.extend(listparts(it))

    def extendleft(self, it):
        self._mutable()
        for p in listparts(it):
            self.parts.insert(0, p.rev() if isinstance(p, Seg) else p)

    def clear(self):
        self._mutable()
        self.parts = []

    def copy(self):
        return VList(self.parts, self.kind)

    def reverse(self):
        self._mutable()
        self.parts = [p.rev() if isinstance(p, Seg) else p for p in reversed(self.parts)]

    def reversed_list(self):
        r = VList(self.parts, "list")
        r.reverse()
        return r

    def remove(self, x):
        self._mutable()
        for k, p in enumerate(self.parts):
            if isinstance(p, Seg):
                raise OutOfSubset("remove from a stretch of unknown length")
            if py_eq(p, x):
                del self.parts[k]
                return
        raise ValueError("list.remove(x): x not in list")

    def index(self, x):
        for k, p in enumerate(self.parts):
            if isinstance(p, Seg):
                raise OutOfSubset("index in a stretch of unknown length")
            if py_eq(p, x):
                return k
        raise ValueError("not in list")

    def count(self, x):
        k = 0
        for p in self.parts:
            if isinstance(p, Seg):
                raise OutOfSubset("count in a stretch of unknown length")
            if py_eq(p, x):
                k += 1
        return k

    # ---- indexing
    def __getitem__(self, i):
        e = engine()
        if isinstance(i, slice):
            return self._slice(i)
        if not isint(i):
            raise TypeError("list indices must be integers or slices")
        if self.concrete():
            d = i if isinstance(i, int) else determined_int(i)
            if d is not None:
                return self.parts[d]
            n = len(self.parts)
            for k in range(-n, n):
                if e.branch(zint(i) == k):
                    return self.parts[k]
            raise IndexError("list index out of range")
        d = i if isinstance(i, int) else None
        if d is not None:
            if d < 0 and len(self.parts) >= -d and not any(isinstance(p, Seg) for p in self.parts[d:]):
                return self.parts[d]
            if d >= 0 and len(self.parts) > d and not any(isinstance(p, Seg) for p in self.parts[:d + 1]):
                return self.parts[d]
        if len(self.parts) > 1:
            self._drop_empty()
        if len(self.parts) > 1:
            return self._getitem_rope(i)
        p = self.parts[0] if self.parts else None
        if p is None:
            raise IndexError("list index out of range")
        if not isinstance(p, Seg):
            return self[i]
        n = p.len()
        t = zint(i)
        if e.branch(z3.And(t >= 0, t < n)):
            return wrap(nth(p.fwd, t), p.model)
        if e.branch(z3.And(t < 0, t >= -n)):
            return wrap(nth(p.fwd, n + t), p.model)
        raise IndexError("list index out of range")

    def _getitem_rope(self, i):
        e = engine()
        t = zint(i)
        n = zint(self.length())
        if e.branch(z3.And(t < 0, t >= -n)):
            t = t + n
        elif not e.branch(z3.And(t >= 0, t < n)):
            raise IndexError("list index out of range")
        off = z3.IntVal(0)
        for p in self.parts:
            if isinstance(p, Seg):
                if e.branch(t < off + p.len()):
                    return wrap(nth(p.fwd, z3.simplify(t - off)), p.model)
                off = off + p.len()
            else:
                if e.branch(t == off):
                    return p
                off = off + 1
        raise PathEnd()

    def _slice(self, s):
        if s.step is not None and s.step != 1:
            if s.step == -1 and s.start is None and s.stop is None:
                r = VList(self.parts, self.kind if self.kind != "deque" else "list")
                r.parts = [p.rev() if isinstance(p, Seg) else p for p in reversed(r.parts)]
                return r
            if self.concrete():
                return VList(self.parts[s], self.kind)
            raise OutOfSubset("slice with step")
        if self.kind == "deque":
            raise TypeError("sequence index must be integer, not 'slice'")

        def ci(v):
            return None if v is None else (v if isinstance(v, int) else determined_int(v))
        lo, hi = ci(s.start), ci(s.stop)
        if self.concrete() and (s.start is None or lo is not None) and (s.stop is None or hi is not None):
            return VList(self.parts[slice(lo, hi)], self.kind)
        if s.start is None and s.stop is None:
            return VList(self.parts, self.kind)
        n = zint(self.length())
        zlo, zhi = slice_bounds(s, n)
        e = engine()
        pre = self._split(zlo)
        if pre is not None:
            post = pre[1]._split(z3.simplify(z3.If(zhi > zlo, zhi - zlo, z3.IntVal(0))))
            if post is not None:
                return VList(post[0].parts, self.kind)
        t = z3.SubSeq(self.z(), zlo, z3.If(zhi > zlo, zhi - zlo, z3.IntVal(0)))
        r = VList([Seg(t, self.model())], self.kind)
        return r

    def _split(self, t):
        """split at index t when it provably falls on a boundary of parts"""
        e = engine()
        off = z3.IntVal(0)
        for k in range(len(self.parts) + 1):
            if e.entails(t == off):
                return VList(self.parts[:k]), VList(self.parts[k:])
            if k < len(self.parts):
                p = self.parts[k]
                off = off + (p.len() if isinstance(p, Seg) else 1)
        # a stretch known to be a concatenation may be divided where its pieces meet
        off, tried = z3.IntVal(0), 0
        for k, p in enumerate(self.parts):
            if isinstance(p, Seg):
                e.pieces.learn(e.solver.all)
                seen = set()
                for c, _ in e.pieces.forms(p.fwd)[:8]:
                    for i in range(1, len(c)):
                        at = z3.simplify(z3.Sum([off] + [z3.Length(x) for x in c[:i]]))
                        if at.get_id() in seen or tried >= 8:
                            continue
                        seen.add(at.get_id())
                        tried += 1
                        if e.entails(t == at):
                            l, r = vconcat(*c[:i]), vconcat(*c[i:])
                            return (VList(self.parts[:k] + [Seg(l, p.model)]), VList([Seg(r, p.model)] + self.parts[k + 1:]))
                off = off + p.len()
            else:
                off = off + 1
        return None

    def __setitem__(self, i, x):
        self._mutable()
        if isinstance(i, slice):
            if self.kind == "deque":
                raise TypeError("sequence index must be integer, not 'slice'")
            lo = 0 if i.start is None else i.start
            if i.stop is None and i.step in (None, 1):
                pre = self._split(zint(clampi(lo, self.length())))
                if pre is not None:
                    self.parts = pre[0].parts + listparts(x)
                    return
            if i.step in (None, 1):
                n = self.length()
                lo, hi = clampi(lo, n), n if i.stop is None else clampi(i.stop, n)
                a, _ = self._cut(zint(lo))
                _, b = self._cut(z3.simplify(z3.If(zint(hi) < zint(lo), zint(lo), zint(hi))))
                self.parts = a + listparts(x) + b
                return
            raise OutOfSubset("slice assignment")
        d = i if isinstance(i, int) else determined_int(i)
        if d is not None and (self.concrete() or
                              (d < 0 and len(self.parts) >= -d and not any(isinstance(p, Seg)
                                                                           for p in self.parts[d:]))):
            self.parts[d] = x
            return
        a, b = self._at(i, "list assignment index out of range")
        self.parts = b
        self._take_first("list assignment index out of range")
        self.parts = a + [x] + self.parts

    def __delitem__(self, i):
        self._mutable()
        if isinstance(i, slice):
            if self.kind == "deque":
                raise TypeError("sequence index must be integer, not 'slice'")
            if i.stop is None and i.step in (None, 1):
                lo = 0 if i.start is None else i.start
                pre = self._split(zint(clampi(lo, self.length())))
                if pre is not None:
                    self.parts = pre[0].parts
                    return
                t = z3.SubSeq(self.z(), 0, zint(clampi(lo, self.length())))
                self.parts = [Seg(t, self.model())]
                return
            self[i] = []
            return
        self.pop(i)

    def __add__(self, o):
        if isinstance(o, VList):
            if o.kind != self.kind:
                raise TypeError("can only concatenate same kinds")
            return VList(self.parts + o.parts, self.kind)
        if isinstance(o, self.pytype):
            return VList(self.parts + list(o), self.kind)
        raise TypeError("can only concatenate list")

    def __radd__(self, o):
        if isinstance(o, self.pytype):
            return VList(list(o) + self.parts, self.kind)
        return NotImplemented

    def __iadd__(self, o):
        if self.kind == "tuple":
            return self + o
        self.extend(o)
        return self

    def __mul__(self, n):
        d = determined_int(n)
        if d is None:
            raise OutOfSubset("symbolic repetition")
        return VList(self.parts * max(d, 0), self.kind)

    def __eq__(self, o):
        if isinstance(o, (list, tuple)) or type(o).__name__ == "deque":
            if not isinstance(o, self.pytype):
                return False
            o = VList(o, self.kind)
        if not isinstance(o, VList):
            return False
        if o.kind != self.kind:
            return False
        if self.concrete() and o.concrete():
            if len(self.parts) != len(o.parts):
                return False
            r = True
            for a, b in zip(self.parts, o.parts):
                r = mkand(r, eq_formula(a, b))
            return r
        raise OutOfSubset("comparison of lists of unknown length")

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    __hash__ = None

    def has(self, x):
        r = False
        for p in self.parts:
            if isinstance(p, Seg):
                if p.model is STRING_MODEL or p.model is INT_MODEL:
                    if isinstance(x, (str, SymStr) if p.model is STRING_MODEL else (int, SymInt)):
                        r = mkor(r, mkbool(z3.Contains(p.fwd, z3.Unit(emb(x)))))
                else:
                    r = mkor(r, mkbool(z3.Contains(p.fwd, z3.Unit(emb(x)))))
            else:
                r = mkor(r, eq_formula(p, x))
        return r

    def __contains__(self, x):
        return bool(self.has(x))

    def __iter__(self):
        if self.concrete():
            return iter(list(self.parts))
        raise OutOfSubset("native iteration over a list of unknown length")

    def __repr__(self):
        return f"VList[{self.kind}]({self.parts})"

    def __str__(self):
        raise OutOfSubset("native str() of a symbolic list")

    METHODS = {"append", "appendleft", "pop", "popleft", "insert", "extend", "extendleft", "clear", "copy", "reverse",
               "remove", "index", "count"}

    def py_getattr(self, name):
        if name in self.METHODS and hasattr(self.pytype, name):
            return getattr(self, name)
        if hasattr(self.pytype, name):
            raise OutOfSubset(f"{self.kind}.{name}")
        raise AttributeError(f"'{self.kind}' object has no attribute '{name}'")


NTHV = z3.Function("NTHV", SEQV, INT, V)


def nth(s, i):
    return s[i]


def clampi(i, n):
    if isinstance(i, int) and isinstance(n, int):
        return max(0, min(i + n if i < 0 else i, n))
    return mkint(clamp(zint(i), zint(n)))


def listparts(it):
    """parts of an iterable that is about to be copied into a list"""
    from . import views
    if isinstance(it, VList):
        return list(it.parts)
    if isinstance(it, (list, tuple)) or type(it).__name__ in ("deque", "dict_keys", "dict_values", "dict_items"):
        return list(it)
    if isinstance(it, (set, frozenset, dict, str, range)):
        return list(it)
    if isinstance(it, VSet):
        return it.elements()
    return views.drain(it)


# ---------------------------------------------------------------- sets
class VSet(Sym):
    """set over a finite universe of constants with symbolic membership"""
    __slots__ = ("m", "frozen", "src")

    def __init__(self, m=None, frozen=False):
        self.m = {}
        self.frozen = frozen
        for k, v in (m or {}).items():
            if v is not False:
                self.m[k] = v

    @property
    def pytype(self):
        return frozenset if self.frozen else set

    def mem(self, k):
        return self.m.get(k, False)

    def add(self, x):
        if self.frozen:
            raise AttributeError("'frozenset' object has no attribute 'add'")
        if is_sym(x):
            raise OutOfSubset("symbolic element added to a set")
        self.m[x] = True

    def discard(self, x):
        if is_sym(x):
            raise OutOfSubset("symbolic element removed from a set")
        self.m.pop(x, None)

    def remove(self, x):
        if not self.has(x):
            raise KeyError(x)
        self.discard(x)

    def update(self, *its):
        for it in its:
            for k, v in set_items(it):
                self.m[k] = mkor(self.mem(k), v)

    def clear(self):
        self.m = {}

    def copy(self):
        return VSet(self.m, self.frozen)

    def has(self, x):
        if is_sym(x):
            r = False
            for k, v in self.m.items():
                r = mkor(r, mkand(v, eq_formula(k, x)))
            return r
        return self.mem(x)

    def __contains__(self, x):
        return bool(self.has(x))

    def nonempty(self):
        r = False
        for v in self.m.values():
            r = mkor(r, v)
        return r

    def __bool__(self):
        return bool(self.nonempty())

    def length(self):
        n = 0
        for v in self.m.values():
            n = n + (v.as_int() if isinstance(v, SymBool) else int(v))
        return n

    def __len__(self):
        return self.length().__index__()

    def elements(self):
        """concrete elements on this path (forks on undetermined membership)"""
        return [k for k, v in self.m.items() if bool(v)]

    def __iter__(self):
        return iter(self.elements())

    def _bin(self, o, f):
        om = dict(set_items(o))
        keys = list(self.m) + [k for k in om if k not in self.m]
        return VSet({k: f(self.mem(k), om.get(k, False)) for k in keys}, self.frozen)

    def __or__(self, o):
        return self._bin(o, mkor)

    def __and__(self, o):
        return self._bin(o, mkand)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: mkand(a, mknot(b)))

    __ror__ = __or__
    __rand__ = __and__

    def __rsub__(self, o):
        return VSet(dict(set_items(o)))._bin(self, lambda a, b: mkand(a, mknot(b)))

    def __ior__(self, o):
        self.update(o)
        return self

    def union(self, *o):
        r = self.copy()
        r.update(*o)
        return r

    def intersection(self, o):
        return self & o

    def difference(self, o):
        return self - o

    def issubset(self, o):
        om = dict(set_items(o))
        r = True
        for k, v in self.m.items():
            r = mkand(r, mkor(mknot(v), om.get(k, False)))
        return r

    __le__ = issubset

    def issuperset(self, o):
        r = True
        for k, v in set_items(o):
            r = mkand(r, mkor(mknot(v), self.mem(k)))
        return r

    __ge__ = issuperset

    def isdisjoint(self, o):
        return mknot((self & o).nonempty())

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, VSet)):
            return False
        om = dict(set_items(o))
        r = True
        for k in list(self.m) + [k for k in om if k not in self.m]:
            a, b = self.mem(k), om.get(k, False)
            r = mkand(r, mkbool(zbool(a) == zbool(b)))
        return r

    def __ne__(self, o):
        return mknot(self.__eq__(o))

    __hash__ = None

    def __repr__(self):
        return f"VSet({self.m})"

    def __str__(self):
        raise OutOfSubset("native str() of a symbolic set")

    METHODS = {"add", "discard", "remove", "update", "clear", "copy", "union", "intersection", "difference", "issubset",
               "issuperset", "isdisjoint"}

    def py_getattr(self, name):
        if name in self.METHODS:
            return getattr(self, name)
        if hasattr(set, name):
            raise OutOfSubset(f"set.{name}")
        raise AttributeError(f"'set' object has no attribute '{name}'")


def set_items(o):
    if isinstance(o, VSet):
        return list(o.m.items())
    if isinstance(o, (set, frozenset, list, tuple, dict, str)):
        if any(is_sym(x) for x in o):
            raise OutOfSubset("symbolic set elements")
        return [(x, True) for x in o]
    if isinstance(o, VList):
        if o.concrete() and not any(is_sym(x) for x in o.parts):
            return [(x, True) for x in o.parts]
    raise OutOfSubset("set from an iterable of unknown content")


# ---------------------------------------------------------------- equality
def eq_formula(a, b):
    """Python == as a bool / SymBool"""
    if not is_sym(a) and not is_sym(b):
        r = (a == b)
        return r if is_sym(r) else bool(r)
    if is_sym(a):
        r = a.__eq__(b)
    else:
        r = b.__eq__(a)
    if r is NotImplemented:
        return a is b
    return r


def py_eq(a, b):
    return bool(eq_formula(a, b))
