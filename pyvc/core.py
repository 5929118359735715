"""Path exploration, obligations, Houdini bookkeeping.

A *contract harness* is a Python function run once per path.  `Engine.explore` enumerates every feasible path by
re-execution: `branch` consults the solver and forks.  `prove` turns a postcondition into an obligation.
All engine control exceptions derive from BaseException so `except Exception` in verified code never sees them.
"""
import time
import z3

V = z3.DeclareSort("V")                 # every value stored in a list of unknown length
SEQV = z3.SeqSort(V)
INT = z3.IntSort()
SEQI = z3.SeqSort(INT)                  # text = sequence of code points


class Control(BaseException):
    pass


class PathEnd(Control):
    """this path is finished (back edge of a cut loop, or infeasible)"""


class Restart(Control):
    """loop information changed; explore the harness again from scratch"""


class OutOfSubset(Control):
    """the verified code uses something the verifier has no semantics for"""


class Budget(Control):
    """exploration budget exhausted"""


class Obligation:
    __slots__ = ("tags", "name", "harness", "ok", "failed", "unknown", "time", "detail")

    def __init__(self, tags, name, harness):
        self.tags, self.name, self.harness = tuple(tags), name, harness
        self.ok = self.failed = self.unknown = 0
        self.time = 0.0
        self.detail = []


class LoopRec:
    """what is known about one cut loop; survives restarts"""

    def __init__(self, key):
        self.key = key
        self.cut = False
        self.dropped = set()            # Houdini: candidates found non-inductive
        self.shapes = {}                # path -> set of alternatives (see loops.py)
        self.content = {}               # path -> kind of a mutated container
        self.attrs = set()
        self.heap = set()               # mutated heap fields
        self.kept = set()


SYMBOLS = {}


def symbols(f):
    """uninterpreted constants and functions of a term"""
    k = f.get_id()
    r = SYMBOLS.get(k)
    if r is not None:
        return r[0]
    out, seen, todo = set(), {k}, [f]
    while todo:
        t = todo.pop()
        c = SYMBOLS.get(t.get_id())
        if c is not None:
            out |= c[0]
            continue
        if not z3.is_app(t):
            raise OutOfSubset("quantified assertion")
        d = t.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(d.name())
        for i in range(t.num_args()):
            a = t.arg(i)
            if a.get_id() not in seen:
                seen.add(a.get_id())
                todo.append(a)
    if len(SYMBOLS) > 200000:
        SYMBOLS.clear()
    SYMBOLS[k] = (frozenset(out), f)        # the term is kept, so its id stays its own
    return SYMBOLS[k][0]


class Part:
    """assertions that share symbols"""
    __slots__ = ("fs", "solver", "done", "state")

    def __init__(self):
        self.fs, self.solver, self.done, self.state = [], {}, {}, -1

    def ready(self, light):
        if light not in self.solver:
            self.solver[light] = z3.Solver()
            self.done[light] = 0
        s = self.solver[light]
        for f, heavy in self.fs[self.done[light]:]:
            if not (light and heavy):
                s.add(f)
        self.done[light] = len(self.fs)
        return s


    def check(self, timeout):
        if self.state != len(self.fs):
            s = self.ready(False)
            s.set("timeout", timeout)
            self.state = len(self.fs) if s.check() == z3.sat else -1
        return self.state == len(self.fs)


def atoms_of(t):
    """a concatenation as the tuple of what it concatenates"""
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_SEQ_CONCAT:
            return tuple(a for i in range(t.num_args()) for a in atoms_of(t.arg(i)))
        if k == z3.Z3_OP_SEQ_EMPTY:
            return ()
    return (t,)


class Pieces:
    """the known equations between sequences, used as rewrite rules: decides what holds piece by piece without the solver"""
    LIMIT = 48

    def __init__(self):
        self.rules, self.n = {}, 0

    def learn(self, fs):
        todo = fs[self.n:]
        self.n = len(fs)
        while todo:
            f = todo.pop()
            if z3.is_and(f):
                todo = todo + [f.arg(i) for i in range(f.num_args())]
            elif z3.is_eq(f) and z3.is_seq(f.arg(0)):
                a, b = z3.simplify(f.arg(0)), z3.simplify(f.arg(1))
                for x, y in ((a, b), (b, a)):
                    if x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SEQ_EXTRACT) and not x.eq(y):
                        self.rules.setdefault(x.get_id(), (x, []))[1].append(atoms_of(y))

    def forms(self, t):
        first = atoms_of(t)
        seen, out, todo = set(), [], [first]
        while todo and len(out) < self.LIMIT:
            c = todo.pop(0)
            k = tuple(x.get_id() for x in c)
            if k in seen:
                continue
            seen.add(k)
            out.append((c, k))
            if len(c) > 12:
                continue
            for i, x in enumerate(c):
                for r in self.rules.get(x.get_id(), (None, ()))[1]:
                    todo.append(c[:i] + r + c[i + 1:])
        return out

    def holds(self, f, depth=0):
        if not z3.is_app(f) or depth > 3:
            return False
        k = f.decl().kind()
        if z3.is_and(f):
            return all(self.holds(f.arg(i), depth + 1) for i in range(f.num_args()))
        if z3.is_true(f):
            return True
        if k == z3.Z3_OP_EQ and z3.is_seq(f.arg(0)):
            keep = self.forms(f.arg(0))
            other = self.forms(f.arg(1))
            return bool({k for _, k in keep} & {k for _, k in other})
        if k in (z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX):
            keep, other = self.forms(f.arg(0)), self.forms(f.arg(1))
            for _, a in keep:
                for _, b in other:
                    if len(a) <= len(b) and (b[:len(a)] if k == z3.Z3_OP_SEQ_PREFIX else b[len(b) - len(a):]) == a:
                        return True
        return False


ABSTRACT = {}
ARITH = {z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ANUM,
         z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE}


def abstract(f):
    """(f with the lengths of sequences as plain integers and everything that is not linear arithmetic or boolean as an
    unknown, facts about those integers): what follows from such facts follows from the real ones"""
    r = ABSTRACT.get(f.get_id())
    if r is not None:
        return r[0], r[1]
    facts = []
    out = _abstract(f, facts)
    # equal sequences have equal lengths
    for g in ([f] if z3.is_eq(f) else [f.arg(i) for i in range(f.num_args())] if z3.is_and(f) else []):
        if z3.is_eq(g) and z3.is_seq(g.arg(0)):
            facts.append(_length(g.arg(0), facts) == _length(g.arg(1), facts))
    if len(ABSTRACT) > 200000:
        ABSTRACT.clear()
    ABSTRACT[f.get_id()] = (out, facts, f)
    return out, facts


def _opaque(t, facts):
    return z3.Const(f"${t.get_id()}", t.sort())


def _length(t, facts):
    k = t.decl().kind()
    if k == z3.Z3_OP_SEQ_CONCAT:
        return z3.Sum([_length(t.arg(i), facts) for i in range(t.num_args())])
    if k == z3.Z3_OP_SEQ_EMPTY:
        return z3.IntVal(0)
    if k == z3.Z3_OP_SEQ_UNIT:
        return z3.IntVal(1)
    n = z3.Int(f"$len{t.get_id()}")
    KEEP[t.get_id()] = t
    facts.append(n >= 0)
    return n


KEEP = {}


def _abstract(t, facts):
    if not z3.is_app(t):
        raise OutOfSubset("quantified assertion")
    k = t.decl().kind()
    if k in ARITH:
        a = [_abstract(t.arg(i), facts) for i in range(t.num_args())]
        return t.decl()(*a) if a else t
    if k == z3.Z3_OP_ITE and (z3.is_bool(t) or z3.is_int(t)) or k == z3.Z3_OP_EQ and z3.is_int(t.arg(0)):
        return t.decl()(*[_abstract(t.arg(i), facts) for i in range(t.num_args())])
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(t.arg(0)):
        return _abstract(t.arg(0), facts) == _abstract(t.arg(1), facts)
    if k == z3.Z3_OP_SEQ_LENGTH:
        return _length(t.arg(0), facts)
    if z3.is_const(t) and k == z3.Z3_OP_UNINTERPRETED:
        return t
    if k == z3.Z3_OP_MUL and sum(not z3.is_int_value(t.arg(i)) for i in range(t.num_args())) <= 1:
        return t.decl()(*[_abstract(t.arg(i), facts) for i in range(t.num_args())])
    KEEP[t.get_id()] = t
    return _opaque(t, facts)


class Arith:
    """the path condition seen through `abstract`"""

    def __init__(self):
        self.s, self.n, self.have = z3.Solver(), 0, set()
        self.s.set("timeout", 250)

    def learn(self, fs):
        for f in fs[self.n:]:
            g, facts = abstract(f)
            for x in [g] + facts:
                if x.get_id() not in self.have:
                    self.have.add(x.get_id())
                    self.s.add(x)
        self.n = len(fs)

    def refutes(self, f):
        g, facts = abstract(f)
        self.s.push()
        self.s.add(g, *facts)
        r = self.s.check()
        self.s.pop()
        return r == z3.unsat


class Context:
    """the path condition, kept in parts without common symbols: a query is decided from the parts it touches
    (leaving assertions out only makes a proof stronger; `prove` asks again with all of them before it reports a failure)"""

    def __init__(self, timeout):
        self.timeout = timeout
        self.up = {}            # symbol -> symbol (union-find)
        self.parts = {}         # representative -> Part
        self.joint = {}         # several representatives -> solver of their parts
        self.all = []
        self.active = None
        self.heavy = set()      # symbols whose facts are left out of feasibility checks (they only prune paths)

    def find(self, x):
        up = self.up
        while up[x] != x:
            up[x] = up[up[x]]
            x = up[x]
        return x

    def add(self, *fs):
        for f in fs:
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            self.all.append(f)
            ss = symbols(f) or frozenset(["(none)"])
            roots = set()
            for s in ss:
                if s not in self.up:
                    self.up[s] = s
                    self.parts[s] = Part()
                roots.add(self.find(s))
            r = max(roots, key=lambda x: len(self.parts[x].fs))
            if len(roots) > 1:
                p = self.parts[r]
                for o in roots:
                    if o != r:
                        self.up[o] = r
                        p.fs += self.parts.pop(o).fs
                self.joint = {k: v for k, v in self.joint.items() if not k[0] & roots}
            self.parts[r].fs.append((f, bool(ss & self.heavy)))

    def check(self, extra, timeout, everything=False, light=False):
        roots = {"(none)"} if "(none)" in self.parts else set()
        for f in extra:
            roots |= {self.find(s) for s in symbols(f) if s in self.up}
        if everything or not extra or len(roots) == len(self.parts):
            roots = set(self.parts)
        self.whole = len(roots) == len(self.parts)
        if len(roots) == 1:
            s = self.parts[next(iter(roots))].ready(light)
        else:
            key = (frozenset(roots), light)
            s, done = self.joint.setdefault(key, (z3.Solver(), {}))
            for r in sorted(roots):
                fs = self.parts[r].fs
                for f, heavy in fs[done.get(r, 0):]:
                    if not (light and heavy):
                        s.add(f)
                done[r] = len(fs)
        s.push()
        s.add(*extra)
        s.set("timeout", timeout or self.timeout)
        self.active = s
        return s.check()

    def model(self):
        return self.active.model()

    def to_smt2(self):
        return self.active.to_smt2()

    def pop(self):
        self.active.pop()
        self.active = None


class Engine:
    MAX_PATHS = 6000
    MAX_RESTARTS = 120
    feasible_ms = 1000                  # limit for feasibility of a branch (undecided: explored)
    guess_ms = 1500                     # limit for invariant candidates (a candidate not decided in time is dropped)

    def __init__(self, name="", timeout_ms=10000, deadline=None, log=None):
        self.name = name
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.loops = {}
        self.obls = {}
        self.covers = {}
        self.solver_time = 0.0
        self.queries = 0
        self.assumptions = set()
        self.inlined = set()
        self.stub_uses = {}
        self.templates = []
        self.stubs = {}
        self.unknown_feas = 0
        self.log = log
        self.smt_dump = None
        self.hints = []
        self.answers = {}
        self.begin_path([], None)

    # ------------------------------------------------------------ paths
    def begin_path(self, prefix, work):
        self.prefix, self.pos, self.work = prefix, 0, work
        self.trace = []
        self.solver = Context(self.timeout_ms)
        self.pieces = Pieces()
        self.arith = Arith()
        self.counter = {}
        self.heap = {}
        self.on_path()
        self.const_ids = {}
        self.keep = []
        self.proxies = {}
        self.cond_loop = None
        self.path_hint = None
        self.notes = []
        self.axiom_seen = set()
        self.atoms = set()
        self.ordinal = 0

    def replayed(self):
        """key of a query that the parent path has already answered, else None"""
        self.ordinal += 1
        return (tuple(self.trace), self.ordinal)

    def on_path(self):
        """hook: per-path initialisation of harness state"""

    def explore(self, fn):
        restarts = 0
        while True:
            try:
                self.obls = {}
                self.covers = {}
                self.hints = []
                self.paths = 0
                self.answers = {}
                work = [[]]
                while work:
                    prefix = work.pop()
                    self.paths += 1
                    if self.paths > self.MAX_PATHS:
                        raise Budget(f"more than {self.MAX_PATHS} paths")
                    self.begin_path(prefix, work)
                    try:
                        fn(self)
                    except PathEnd:
                        pass
                return
            except Restart as r:
                restarts += 1
                if self.log:
                    self.log(f"restart {restarts}: {r}")
                if restarts > self.MAX_RESTARTS:
                    raise OutOfSubset("loop invariant inference did not converge")

    def _check(self, *extra, timeout=None, everything=False, light=False):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Budget("time budget exhausted")
        r = self.solver.check([z3.BoolVal(f) if isinstance(f, bool) else f for f in extra], timeout, everything, light)
        dt = time.time() - t
        self.solver_time += dt
        self.queries += 1
        return r

    def sat(self, *extra, timeout=None):
        r = self._check(*extra, light=True, timeout=timeout or self.feasible_ms)
        self.solver.pop()
        if r == z3.unknown:
            self.unknown_feas += 1
        return r != z3.unsat

    def entails(self, f):
        if f is True:
            return True
        if f is False:
            f = z3.BoolVal(False)
        key = self.replayed()
        if key in self.answers:
            return self.answers[key]
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if self.by_pieces(f) or self.by_arith(z3.Not(f)):
            self.answers[key] = True
            return True
        r = z3.unknown
        if self.solver.heavy:
            r = self._check(z3.Not(f), timeout=self.guess_ms // 3, light=True)
            self.solver.pop()
        if r != z3.unsat:
            r = self._check(z3.Not(f), timeout=self.guess_ms)
            self.solver.pop()
        self.answers[key] = r == z3.unsat
        return r == z3.unsat

    def quick(self, f):
        """holds by rewriting or by arithmetic on lengths alone"""
        f = z3.simplify(f)
        return z3.is_true(f) or self.by_pieces(f) or self.by_arith(z3.Not(f))

    def by_pieces(self, f):
        self.pieces.learn(self.solver.all)
        return self.pieces.holds(f)

    def by_arith(self, nf):
        t = time.time()
        self.arith.learn(self.solver.all)
        r = self.arith.refutes(nf)
        self.solver_time += time.time() - t
        return r

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise PathEnd()
        self.solver.add(f)

    def axiom(self, key, f):
        """assert a definitional axiom instance once per path"""
        if key not in self.axiom_seen:
            self.axiom_seen.add(key)
            self.solver.add(f)

    def branch(self, c, first=True):
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.ordinal = 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.solver.add(c if d else z3.Not(c))
            return d
        nc = z3.Not(c)
        if self.by_arith(nc):
            f, t = False, self.sat(c, timeout=100)
        else:
            f = self.sat(nc)
            t = not self.by_arith(c) and self.sat(c, timeout=None if f else 100)
        if not (t or f):
            raise PathEnd()
        if t and f:
            if self.cond_loop is not None:
                self.cond_loop.undetermined()
            self.work.append(self.trace + [not first])
            d = first
        else:
            d = t                       # one side is infeasible
        self.trace.append(d)
        self.prefix = self.trace[:]
        self.pos = len(self.prefix)
        self.solver.add(c if d else z3.Not(c))
        return d

    def choose(self, n, label=""):
        """unconstrained n-way choice (all explored)"""
        if n == 1:
            return 0
        self.ordinal = 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            for k in range(n - 1, 0, -1):
                self.work.append(self.trace + [k])
            d = 0
        self.pos += 1
        self.trace.append(d)
        if self.pos > len(self.prefix):
            self.prefix = self.trace[:]
        return d

    # ------------------------------------------------------------ names
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return f"{base}!{n}"

    def const(self, base, sort):
        return z3.Const(self.fresh_name(base), sort)

    # ------------------------------------------------------------ obligations
    def _ob(self, tags, name):
        if isinstance(tags, str):
            tags = tags.split()
        key = (tuple(tags), name)
        o = self.obls.get(key)
        if o is None:
            o = self.obls[key] = Obligation(tags, name, self.name)
        return o

    def prove(self, tags, name, f, detail=None):
        o = self._ob(tags, name)
        t = time.time()
        key = self.replayed()
        if key in self.answers:
            return self.answers[key]
        if f is True or (not isinstance(f, bool) and z3.is_true(z3.simplify(f))):
            o.ok += 1
            return True
        if f is False:
            f = z3.BoolVal(False)
        if hasattr(f, "z"):
            f = f.z
        nf = z3.Not(f)
        if self.by_pieces(z3.simplify(f)) or self.by_arith(nf):
            if self.smt_dump is not None:
                s = z3.Solver()
                s.add(*self.solver.all)
                s.add(nf)
                self.smt_dump(self.name, name, s.to_smt2())
            o.time += time.time() - t
            o.ok += 1
            self.answers[key] = True
            return True
        r = z3.unknown
        if self.solver.heavy and not symbols(nf) & self.solver.heavy:
            r = self._check(nf, timeout=self.guess_ms, light=True)
        if r != z3.unsat:
            if self.solver.active is not None:
                self.solver.pop()
            r = self._check(nf)
        if r != z3.unsat and not self.solver.whole:
            self.solver.pop()
            r = self._check(nf, everything=True)
        model = None
        if r == z3.sat:
            try:
                model = self.solver.model()
                if any(z3.is_false(model.eval(g, model_completion=True)) for g in list(self.solver.active.assertions())):
                    r, model = z3.unknown, None         # not a model: the solver's sequence theory is incomplete
            except z3.Z3Exception:
                model = None
        if r == z3.unsat and self.smt_dump is not None:
            self.smt_dump(self.name, name, self.solver.to_smt2())
        self.solver.pop()
        o.time += time.time() - t
        self.answers[key] = r == z3.unsat
        if r == z3.unsat:
            o.ok += 1
            return True
        if r == z3.sat:
            o.failed += 1
        else:
            o.unknown += 1
        d = {"result": str(r), "decisions": list(self.trace), "notes": list(self.notes)}
        if detail is not None:
            d["detail"] = str(detail)
            if getattr(detail, "queries", None):
                d["queries"] = list(detail.queries)
        if model is not None:
            if len(o.detail) < 3:
                d["model"] = str(model)[:1500]
            if self.path_hint is not None:
                try:
                    h = self.path_hint(model)
                    if h is not None:
                        self.hints.append(h)
                        d["hint"] = h
                except Exception as ex:      # a hint is only a convenience
                    d["hint_error"] = repr(ex)
        if len(o.detail) < 3:
            o.detail.append(d)
        return False

    def fail(self, tags, name, detail=None):
        """obligation that is false on this (feasible) path"""
        return self.prove(tags, name, z3.BoolVal(False), detail)

    def cover(self, label):
        if self.covers.get(label):
            return
        self.covers[label] = self.feasible_path()

    def feasible_path(self):
        """the parts of the path condition have no symbol in common, so they may be checked one by one"""
        t = time.time()
        r = all(p.check(3000) for p in self.solver.parts.values())
        self.solver_time += time.time() - t
        return r

    def note(self, s):
        self.notes.append(str(s))


CUR = None


def engine():
    return CUR


def set_engine(e):
    global CUR
    CUR = e
