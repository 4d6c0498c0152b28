"""Path-forking symbolic execution of real Python code on top of z3.

Inputs are proxy objects (SymInt / SymReal / SymBool); arithmetic builds z3 terms, using a
proxy as a branch condition is a *decision*.  Decisions are explored depth first by
re-executing the function; both sides are only followed when the solver finds them feasible.
"""
from __future__ import annotations

import os
import time
from fractions import Fraction

import numpy as np
import z3

REAL_INT, REAL_FLOAT, REAL_BOOL, REAL_ROUND = int, float, bool, round


class PathAbort(BaseException):
    """The current path ends here (infeasible, or outside the stated bounds)."""


class Unsupported(BaseException):
    """The engine can not represent this operation."""


class NonDeterminism(BaseException):
    pass


class BudgetExceeded(BaseException):
    pass


CTX: "Engine | None" = None


def ctx() -> "Engine":
    if CTX is None:
        raise Unsupported("no active symbolic context")
    return CTX


# --------------------------------------------------------------------------- engine
class Rec:
    __slots__ = ("alt", "alt_model", "expr", "kind", "pushed", "val")

    def __init__(self, kind, expr, val=True, alt=False, pushed=False, alt_model=None):
        self.kind, self.expr, self.val = kind, expr, val
        self.alt, self.pushed, self.alt_model = alt, pushed, alt_model


class Engine:
    def __init__(self, *, seed=1, t_query=4000, t_hard=25000, budget_s=200.0, max_paths=200_000):
        self.seed = seed
        self.t_query, self.t_hard = t_query, t_hard
        self.deadline = time.monotonic() + budget_s
        self.max_paths = max_paths
        self.s = z3.Solver()
        self.s.set("timeout", t_query)
        self.s.set("random_seed", seed)
        self.trail: list[Rec] = []
        self.pos = 0
        self.model = None
        self.fresh_n = 0
        self.inputs: dict[str, tuple] = {}
        self.floors: dict = {}
        self.rounds: dict = {}
        self.univ: list = []   # universal facts about vectors: index expr -> bool expr
        self.sums: list = []   # (summand, prefix-sum function)
        self.st = {
            "queries": 0, "solver_s": 0.0, "paths": 0, "aborted": 0, "decisions": 0,
            "obligations": 0, "discharged": 0, "unknown_obligations": 0, "unknown_branches": 0,
            "concretised": 0, "max_query_s": 0.0, "bound_hits": 0,
        }
        self.notes: dict[str, int] = {}
        self.implied_cache: dict = {}

    # -- solver ------------------------------------------------------------
    def note(self, txt):
        self.notes[txt] = self.notes.get(txt, 0) + 1

    def _check(self, *extra, hard=True):
        if time.monotonic() > self.deadline:
            raise BudgetExceeded
        t0 = time.monotonic()
        self.st["queries"] += 1
        r = self.s.check(*extra)
        model = self.s.model() if r == z3.sat else None
        if r == z3.unknown and hard:
            r, model = self._hard_check(extra)
        dt = time.monotonic() - t0
        self.st["solver_s"] += dt
        self.st["max_query_s"] = max(self.st["max_query_s"], dt)
        if dt > 2.0 and os.environ.get("SYMX_DUMP"):
            with open(f"{os.environ['SYMX_DUMP']}/{os.getpid()}_{self.st['queries']}.smt2", "w") as f:
                t = z3.Solver()
                t.add(*self.s.assertions(), *extra)
                f.write(t.to_smt2())
        if dt > 2.0 and os.environ.get("SYMX_DEBUG"):
            print("   slow query", round(dt, 2), r, [str(x)[:300] for x in extra])
        return r, model

    def _hard_check(self, extra):
        asserts = [*self.s.assertions(), *extra]
        for kind in ("simple", "nlsat", "qfnia", "arith6"):
            try:
                if kind == "nlsat":
                    s = z3.Then("simplify", "solve-eqs", "propagate-values", "qfnra-nlsat").solver()
                elif kind == "simple":
                    s = z3.SimpleSolver()
                    s.set("random_seed", self.seed + 7)
                elif kind == "qfnia":
                    s = z3.Tactic("qfnia").solver()
                else:
                    s = z3.SimpleSolver()
                    s.set("arith.solver", 2)
                s.set("timeout", self.t_hard // 3)
                s.add(*asserts)
                self.st["queries"] += 1
                r = s.check()
                if r == z3.sat:
                    m = s.model()
                    return r, m
                if r == z3.unsat:
                    return r, None
            except z3.Z3Exception:
                continue
        return z3.unknown, None

    def ensure_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathAbort("infeasible")
            self.model = m
        return self.model

    # -- events --------------------------------------------------------------
    def branch(self, cond) -> bool:
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.trail):
            rec = self.trail[self.pos]
            self.pos += 1
            if rec.kind != "d" or not rec.expr.eq(cond):
                raise NonDeterminism(f"{rec.expr} vs {cond}")
            return rec.val
        val = None
        m = self.model
        if m is not None:
            ev = m.eval(cond, model_completion=True)
            if z3.is_true(ev):
                val = True
            elif z3.is_false(ev):
                val = False
        if val is None:
            r, m1 = self._check(cond)
            if r == z3.sat:
                val, self.model = True, m1
            elif r == z3.unsat:
                self._append(Rec("d", cond, False))
                return False
            else:
                self.st["unknown_branches"] += 1
                val, self.model = True, None
        other = z3.Not(cond) if val else cond
        r, m2 = self._check(other)
        self.st["decisions"] += 1
        if r == z3.unsat:
            self._append(Rec("d", cond, val))
            return val
        if r == z3.unknown:
            self.st["unknown_branches"] += 1
        self.s.push()
        self.s.add(cond if val else z3.Not(cond))
        self._append(Rec("d", cond, val, alt=True, pushed=True, alt_model=m2))
        return val

    def _append(self, rec):
        self.trail.append(rec)
        self.pos += 1

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.e
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathAbort("assumption")
            return
        if self.pos < len(self.trail):
            rec = self.trail[self.pos]
            self.pos += 1
            if rec.kind != "a" or not rec.expr.eq(cond):
                raise NonDeterminism(f"{rec.expr} vs {cond}")
            return
        self.s.add(cond)
        self._append(Rec("a", cond))
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None
            r, m = self._check()
            if r == z3.unsat:
                raise PathAbort("infeasible assumption")
            self.model = m

    def implied(self, cond) -> bool:
        """True when the path forces cond (pure query, no decision is recorded)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        # deterministic across path replays: only the answer 'unsat' of the very same
        # prefix matters, and it is cached by position in the trail
        key = (self.pos, cond.get_id())
        hit = self.implied_cache.get(key)
        if hit is not None and hit[0].eq(cond) and hit[1] == self.prefix_id():
            return hit[2]
        if self.pos < len(self.trail):
            # re-execution of a recorded prefix: solver already contains later decisions
            res = self._implied_prefix(cond)
        else:
            if self.model is not None and z3.is_false(
                    self.model.eval(cond, model_completion=True)):
                res = False
            else:
                r, _m = self._check(z3.Not(cond), hard=False)
                res = r == z3.unsat
        self.implied_cache[key] = (cond, self.prefix_id(), res)
        return res

    def prefix_id(self):
        return tuple((r.expr.get_id(), r.val) for r in self.trail[:self.pos])

    def _implied_prefix(self, cond):
        s = z3.Solver()
        s.set("timeout", self.t_query)
        for r in self.trail[:self.pos]:
            s.add(r.expr if r.val else z3.Not(r.expr))
        s.add(z3.Not(cond))
        self.st["queries"] += 1
        return s.check() == z3.unsat

    def fresh(self, prefix, sort="real"):
        self.fresh_n += 1
        name = f"{prefix}!{self.fresh_n}"
        return {"real": z3.Real, "int": z3.Int, "bool": z3.Bool}[sort](name)

    # -- obligations -----------------------------------------------------------
    def prove(self, cond, strong=None):
        """Returns None if cond holds on this path, else a list of counterexample models.

        strong: a condition implying not(cond) with margin; tried first for robust models.
        """
        if isinstance(cond, SymBool):
            cond = cond.e
        self.st["obligations"] += 1
        if isinstance(cond, (bool, np.bool_)):
            if cond:
                self.st["discharged"] += 1
                return None
            return self.models_for(z3.BoolVal(True))
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.st["discharged"] += 1
            return None
        r, m = self._check(z3.Not(cond))
        if r == z3.unsat:
            self.st["discharged"] += 1
            return None
        if r == z3.unknown:
            self.st["unknown_obligations"] += 1
            self.note(f"unknown obligation: {str(cond)[:160]}")
            return None
        neg = z3.Not(cond)
        for st in strong if isinstance(strong, (list, tuple)) else [strong]:
            if st is None:
                continue
            strong = st.e if isinstance(st, SymBool) else st
            r2, _m2 = self._check(z3.And(neg, strong), hard=False)
            if r2 == z3.sat:
                return self.models_for(z3.And(neg, strong), first=_m2, also=m)
        return self.models_for(neg, first=m)

    def models_for(self, cond, first=None, also=None, n=4):
        out = []
        if first is not None:
            out.append(first)
        # prefer exactly representable values for the real inputs
        snaps = []
        for k, (_name, (kind, e)) in enumerate(self.inputs.items()):
            if kind == "real" and e is not None:
                snaps.append(e * 4096 == z3.ToReal(z3.Int(f"snap!{k}")))
        if snaps:
            r, m = self._check(cond, *snaps, hard=False)
            if r == z3.sat:
                out.insert(0, m)
        if not out or len(out) < n:
            for k in range(2):
                s = z3.SimpleSolver()
                s.set("timeout", 4000)
                s.set("random_seed", self.seed + 13 * k + 1)
                s.set("phase_selection", 5)
                s.add(*self.s.assertions(), cond)
                self.st["queries"] += 1
                if s.check() == z3.sat:
                    out.append(s.model())
        if also is not None:
            out.append(also)
        return out

    # -- exploration -------------------------------------------------------------
    def backtrack(self) -> bool:
        while self.trail:
            rec = self.trail[-1]
            if rec.kind == "d" and rec.alt:
                self.s.pop()
                self.s.push()
                rec.val = not rec.val
                rec.alt = False
                self.s.add(rec.expr if rec.val else z3.Not(rec.expr))
                self.model = rec.alt_model
                rec.alt_model = None
                return True
            if rec.pushed:
                self.s.pop()
            self.trail.pop()
        return False

    def concretise(self, e, cap=64, what="int", strict=False):
        """Enumerate the feasible values of e (each one becomes its own path)."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(cap):
            m = self.ensure_model_for(e)
            v = m.eval(e, model_completion=True)
            if self.branch(e == v):
                return v.as_long()
        if strict:
            raise Unsupported(f"{what} of a widely symbolic value")
        self.st["concretised"] += 1
        self.note(f"value enumeration of {what} cut after {cap}")
        raise PathAbort("concretise cap")

    def ensure_model_for(self, _e):
        if self.pos < len(self.trail):
            # replay: the recorded expression carries the value
            rec = self.trail[self.pos]
            if rec.kind == "d":
                return _RecModel(rec.expr, _e)
        m = self.ensure_model()
        if m is None:
            raise PathAbort("no model")
        return m

    def concretise_real(self, e):
        m = None
        if self.pos < len(self.trail) and self.trail[self.pos].kind == "a":
            rec = self.trail[self.pos]
            v = rec.expr.arg(1) if rec.expr.arg(0).eq(e) else rec.expr.arg(0)
        else:
            m = self.ensure_model()
            v = m.eval(e, model_completion=True)
        self.st["concretised"] += 1
        self.note("real value concretised")
        self.assume(e == v)
        return num_to_py(v)


class _RecModel:
    """Reproduces the value chosen for an enumeration during path replay."""

    def __init__(self, rec_expr, e):
        self.rec_expr, self.e = rec_expr, e

    def eval(self, _e, model_completion=True):
        x = self.rec_expr
        for i in range(x.num_args()):
            if (z3.is_int_value(x.arg(i)) or z3.is_rational_value(x.arg(i))) and x.num_args() == 2 and \
                    x.arg(1 - i).eq(self.e):
                return x.arg(i)
        # a simplified linear equation, e.g. 2*x == 6 -> solve it
        s = z3.Solver()
        s.add(x)
        if s.check() == z3.sat:
            return s.model().eval(self.e, model_completion=True)
        raise NonDeterminism("can not recover enumerated value")


def num_to_py(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return a.numerator_as_long() / a.denominator_as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Unsupported(f"value {v}")


# --------------------------------------------------------------------------- proxies
def frac(x: float):
    """doubles are read as the decimal number they stand for (1e-9 is exactly 10^-9), except in
    rounding-aware mode; the difference is below double precision"""
    f = Fraction(x)
    if f.denominator > 2**40 and not getattr(CTX, "fpe", False):
        f = Fraction(repr(x))
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


INF = float("inf")


def is_sym(x) -> bool:
    return isinstance(type(x), type) and type(x) in _SYMS


def lift(x):
    """Return (z3 expr, kind) for a number-like value, else None."""
    t = type(x)
    if t is SymInt:
        return x.e, "int"
    if t is SymReal:
        return x.e, "real"
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), "int"
    if t is bool or isinstance(x, np.bool_):
        return z3.IntVal(1 if x else 0), "int"
    if isinstance(x, (REAL_INT, np.integer)):
        return z3.IntVal(REAL_INT(x)), "int"
    if isinstance(x, (REAL_FLOAT, np.floating)):
        x = REAL_FLOAT(x)
        if x != x or x in (INF, -INF):
            return None
        return frac(x), "real"
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}"), "real"
    return None


def as_real(e, kind):
    return z3.ToReal(e) if kind == "int" else e


def to_bool_expr(c):
    if isinstance(c, SymBool):
        return c.e
    if type(c) is SymInt:
        return c.e != 0
    if type(c) is SymReal:
        return c.e != 0
    return z3.BoolVal(REAL_BOOL(c))


def _is_arr(o):
    return isinstance(o, np.ndarray) and type(o) is np.ndarray


class Sym:
    __slots__ = ("bits", "e")
    __hash__ = None

    def __init__(self, e, bits=None):
        self.e = e
        self.bits = bits

    def __repr__(self):
        return f"<{type(self).__name__} {str(self.e)[:60]}>"

    __str__ = __repr__

    def __format__(self, spec):
        return placeholder(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickle of symbolic value")


_ph: dict[str, str] = {}  # text of symbolic numbers


PH_VALUES: dict = {}


def placeholder(x):
    key = x.e.sexpr()
    if key not in _ph:
        _ph[key] = f"sym{len(_ph)}"
        PH_VALUES[_ph[key]] = x
    return _ph[key]


def _real_result(e):
    c = CTX
    if c is not None and getattr(c, "fpe", False):
        es = z3.simplify(e)
        if z3.is_rational_value(es):
            return SymReal(es)
        r = c.fresh("fl")
        u = z3.RealVal(f"1/{2**53}")
        c.assume(z3.Or(z3.And(e >= 0, r <= e * (1 + u), r >= e * (1 - u)),
                       z3.And(e <= 0, r >= e * (1 + u), r <= e * (1 - u))))
        return SymReal(r)
    return SymReal(e)


def _wrap_int(e, a, b):
    """unsigned wrap-around of numpy integers (both operands fixed width)."""
    bits = None
    ab, bb = getattr(a, "bits", None), getattr(b, "bits", None)
    if ab and bb:
        bits = max(ab, bb)
    elif ab and not is_sym(b):
        bits = ab
    elif bb and not is_sym(a):
        bits = bb
    if bits:
        ok = z3.simplify(z3.And(e >= 0, e < 2**bits))
        if z3.is_true(ok) or (CTX is not None and CTX.implied(ok)):
            return SymInt(e, bits)
        return SymInt(z3.If(ok, e, e % (2**bits)), bits)
    return SymInt(e)


def _arith(op, a, b, swap=False):
    if _is_arr(b):
        f = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.true_divide}.get(op)
        if f is None:
            return NotImplemented
        arr = np.empty(b.shape, dtype=object)
        for ix in np.ndindex(b.shape):
            x = b[ix]
            arr[ix] = _arith(op, x, a) if swap else _arith(op, a, x)
        return arr
    if swap:
        a, b = b, a
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        o = a if la is None else b
        if isinstance(o, complex) or type(o) is SymComplex:
            return SymComplex()
        if isinstance(o, REAL_FLOAT) and (o in (INF, -INF)):
            raise Unsupported("inf arithmetic")
        return NotImplemented
    (ea, ka), (eb, kb) = la, lb
    if op in "+-*":
        if ka == kb == "int":
            e = ea + eb if op == "+" else ea - eb if op == "-" else ea * eb
            return _wrap_int(e, a, b)
        ea, eb = as_real(ea, ka), as_real(eb, kb)
        e = ea + eb if op == "+" else ea - eb if op == "-" else ea * eb
        return _real_result(e)
    # division family
    if ctx().branch(eb == 0):
        raise ZeroDivisionError("division by zero")
    if op == "/":
        q = _ratio(as_real(ea, ka), as_real(eb, kb))
        if q is not None:
            return _real_result(q)
        return _real_result(as_real(ea, ka) / as_real(eb, kb))
    if op == "//":
        if ka == kb == "int":
            return SymInt(_int_floordiv(ea, eb))
        return SymReal(z3.ToReal(z3.ToInt(as_real(ea, ka) / as_real(eb, kb))))
    if op == "%":
        if ka == kb == "int":
            return SymInt(ea - eb * _int_floordiv(ea, eb))
        ea, eb = as_real(ea, ka), as_real(eb, kb)
        return SymReal(ea - eb * z3.ToReal(z3.ToInt(ea / eb)))
    raise Unsupported(op)


def _linform(e, scale, out):
    """accumulate a polynomial as {monomial text: (monomial, Fraction)}; False if not possible"""
    if z3.is_int_value(e):
        out["1"] = out.get("1", 0) + scale * e.as_long()
        return True
    if z3.is_rational_value(e):
        out["1"] = out.get("1", 0) + scale * Fraction(e.numerator_as_long(), e.denominator_as_long())
        return True
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return all(_linform(c, scale, out) for c in e.children())
    if k == z3.Z3_OP_MUL:
        ch = e.children()
        if z3.is_rational_value(ch[0]) or z3.is_int_value(ch[0]):
            f = Fraction(ch[0].as_long()) if z3.is_int_value(ch[0]) else Fraction(
                ch[0].numerator_as_long(), ch[0].denominator_as_long())
            if len(ch) == 2:
                return _linform(ch[1], scale * f, out)
            key = "*".join(sorted(c.sexpr() for c in ch[1:]))
            out[key] = out.get(key, 0) + scale * f
            return True
        key = "*".join(sorted(c.sexpr() for c in ch))
        out[key] = out.get(key, 0) + scale
        return True
    if k == z3.Z3_OP_TO_REAL and e.arg(0).decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        return _linform(e.arg(0), scale, out)
    if k == z3.Z3_OP_TO_REAL:
        e = e.arg(0)
    key = e.sexpr()
    if len(key) > 400:
        return False
    out[key] = out.get(key, 0) + scale
    return True


def _ratio(ea, eb):
    """a/b as a numeral when a is a constant multiple of b (b != 0 on this path)"""
    eb = z3.simplify(eb, som=True)
    if z3.is_rational_value(eb):
        return None
    ea = z3.simplify(ea, som=True)
    fa, fb = {}, {}
    if not (_linform(ea, Fraction(1), fa) and _linform(eb, Fraction(1), fb)):
        return None
    fa = {k: v for k, v in fa.items() if v}
    fb = {k: v for k, v in fb.items() if v}
    if set(fa) != set(fb) or not fb:
        return None
    qs = {fa[k] / fb[k] for k in fb}
    if len(qs) != 1:
        return None
    q = qs.pop()
    return z3.RealVal(f"{q.numerator}/{q.denominator}")


def _int_floordiv(ea, eb):
    eb = z3.simplify(eb)
    if z3.is_int_value(eb):
        k = eb.as_long()
        return ea / eb if k > 0 else (-ea) / z3.IntVal(-k)
    # general divisor: floor(a/b) for both signs (z3 div is euclidean)
    return z3.If(eb > 0, ea / eb, (-ea) / (-eb))


def _cmp(op, a, b):
    if _is_arr(b):
        arr = np.empty(b.shape, dtype=object)
        for ix in np.ndindex(b.shape):
            arr[ix] = _cmp(op, a, b[ix])
        return arr
    lb = lift(b)
    if lb is None:
        if isinstance(b, (REAL_FLOAT, np.floating)):
            if b == INF:
                return op in ("<", "<=", "!=")
            if b == -INF:
                return op in (">", ">=", "!=")
            return op == "!="
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    (ea, ka), (eb, kb) = lift(a), lb
    if ka != kb:
        ea, eb = as_real(ea, ka), as_real(eb, kb)
    e = {"<": ea < eb, "<=": ea <= eb, ">": ea > eb, ">=": ea >= eb,
         "==": ea == eb, "!=": ea != eb}[op] if False else (
        ea < eb if op == "<" else ea <= eb if op == "<=" else ea > eb if op == ">" else
        ea >= eb if op == ">=" else ea == eb if op == "==" else ea != eb)
    return SymBool(e)


class SymNum(Sym):
    __slots__ = ()

    def __hash__(self):
        # hashed containers need the value: each feasible one becomes its own path
        if CTX is None:
            return 0
        if type(self) is not SymInt:
            return 0  # members of a set are then told apart by comparison
        return hash(ctx().concretise(self.e, cap=24, what="hash", strict=True))

    def __add__(self, o):
        return _arith("+", self, o)

    def __radd__(self, o):
        return _arith("+", self, o, swap=True)

    def __sub__(self, o):
        return _arith("-", self, o)

    def __rsub__(self, o):
        return _arith("-", self, o, swap=True)

    def __mul__(self, o):
        return _arith("*", self, o)

    def __rmul__(self, o):
        return _arith("*", self, o, swap=True)

    def __truediv__(self, o):
        return _arith("/", self, o)

    def __rtruediv__(self, o):
        return _arith("/", self, o, swap=True)

    def __floordiv__(self, o):
        return _arith("//", self, o)

    def __rfloordiv__(self, o):
        return _arith("//", self, o, swap=True)

    def __mod__(self, o):
        return _arith("%", self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        return _arith("%", self, o, swap=True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        return sym_pow(self, o)

    def __rpow__(self, o):
        if o == 2 and type(self) is SymInt:
            return pow2(self)
        raise Unsupported("symbolic exponent")

    def __lt__(self, o):
        return _cmp("<", self, o)

    def __le__(self, o):
        return _cmp("<=", self, o)

    def __gt__(self, o):
        return _cmp(">", self, o)

    def __ge__(self, o):
        return _cmp(">=", self, o)

    def __eq__(self, o):
        return _cmp("==", self, o)

    def __ne__(self, o):
        return _cmp("!=", self, o)

    def __pos__(self):
        return self

    def __bool__(self):
        return ctx().branch(lift(self)[0] != 0)

    def __trunc__(self):
        return s_int(self)

    # numpy object arrays look these up as methods
    def rint(self):
        return SymReal(z3.ToReal(lift(s_round(self))[0]))

    def floor(self):
        return SymReal(z3.ToReal(s_floor(self).e))

    def ceil(self):
        return SymReal(z3.ToReal(s_ceil(self).e))

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def sqrt(self):
        return s_sqrt(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def astype(self, _t):
        return s_int(self) if np.dtype(_t).kind in "iu" else s_float(self)


class SymInt(SymNum):
    __slots__ = ()
    __class__ = property(lambda self: REAL_INT)

    def __index__(self):
        return ctx().concretise(self.e, what="index")

    def __int__(self):
        return ctx().concretise(self.e, what="int()")

    def __float__(self):
        return REAL_FLOAT(ctx().concretise_real(z3.ToReal(self.e)))

    def __neg__(self):
        return SymInt(-self.e)

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __round__(self, n=None):
        return self

    def __and__(self, o):
        return bit_op("&", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bit_op("|", self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return bit_op("^", self, o)

    __rxor__ = __xor__

    def __invert__(self):
        return SymInt(-self.e - 1)

    def __lshift__(self, o):
        if is_sym(o):
            return self * pow2(o)
        return SymInt(self.e * (1 << REAL_INT(o)))

    def __rshift__(self, o):
        if is_sym(o):
            o = ctx().concretise(o.e, what="shift")
        return SymInt(self.e / z3.IntVal(1 << REAL_INT(o)))

    def __rlshift__(self, o):
        return o * pow2(self)

    def __rrshift__(self, o):
        return o // pow2(self)

    def bit_length(self):
        c = ctx()
        m = abs(self)
        if c.branch(m.e == 0 if isinstance(m, SymInt) else z3.BoolVal(m == 0)):
            return 0
        return s_floor(log2(m)) + 1

    def is_integer(self):
        return True

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .shims import SymBytes

        ok = ctx().branch(z3.And(self.e >= 0, self.e < 256**length))
        if not ok:
            raise OverflowError("int too big to convert")
        b = [SymInt((self.e / z3.IntVal(256**k)) % 256) for k in range(length)]
        if byteorder == "big":
            b.reverse()
        return SymBytes(b)


class SymReal(SymNum):
    __slots__ = ()
    __class__ = property(lambda self: REAL_FLOAT)

    def __int__(self):
        return ctx().concretise(s_int(self).e, what="int()")

    def __float__(self):
        return REAL_FLOAT(ctx().concretise_real(self.e))

    def __neg__(self):
        return SymReal(-self.e)

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e))

    def __round__(self, n=None):
        return s_round(self, n)

    def is_integer(self):
        return SymBool(z3.IsInt(self.e))


# code that looks at the printed type still sees which kind of number it is
SymInt.__qualname__ = "SymInt<int>"
SymReal.__qualname__ = "SymReal<float>"


class SymBool(Sym):
    __slots__ = ()
    __class__ = property(lambda self: REAL_BOOL)

    def __hash__(self):
        return hash(bool(self))

    def __bool__(self):
        return ctx().branch(self.e)

    def __int__(self):
        return REAL_INT(REAL_BOOL(self))

    __index__ = __int__

    def _num(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        if isinstance(o, REAL_BOOL) or type(o) is SymBool:
            return SymBool(z3.And(self.e, to_bool_expr(o)))
        return self._num() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, REAL_BOOL) or type(o) is SymBool:
            return SymBool(z3.Or(self.e, to_bool_expr(o)))
        return self._num() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, REAL_BOOL) or type(o) is SymBool:
            return SymBool(z3.Xor(self.e, to_bool_expr(o)))
        return self._num() ^ o

    __rxor__ = __xor__

    def __invert__(self):
        # numpy-like (python's ~True is an int and deprecated)
        return SymBool(z3.Not(self.e))

    def logical_not(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, REAL_BOOL) or type(o) is SymBool or isinstance(o, np.bool_):
            return SymBool(self.e == to_bool_expr(o))
        return self._num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if type(r) is SymBool else not r

    def __float__(self):
        return REAL_FLOAT(REAL_BOOL(self))


def _mk(name):
    def f(self, o):
        return getattr(self._num(), name)(o)
    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv",
           "rfloordiv", "mod", "rmod", "lt", "le", "gt", "ge", "lshift", "rlshift", "pow"):
    setattr(SymBool, f"__{_n}__", _mk(f"__{_n}__"))
SymBool.__neg__ = lambda self: -self._num()
SymBool.__abs__ = lambda self: self._num()


class SymComplex:
    """Result of a root of a negative number: only its type is ever inspected."""

    __class__ = property(lambda self: complex)

    def _c(self, *_a):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _c
    __truediv__ = __rtruediv__ = __neg__ = __pow__ = _c


_SYMS = {SymInt, SymReal, SymBool}


# --------------------------------------------------------------------------- functions
def to_int(h):
    """floor of a real term as an integer variable with its defining (total) constraint"""
    h = z3.simplify(h)
    if z3.is_rational_value(h):
        return z3.simplify(z3.ToInt(h))
    c = CTX
    if c is None:
        return z3.ToInt(h)
    hit = c.floors.get(h.get_id())
    if hit is not None:
        return hit[1]
    lin = _int_linear(h)
    if lin is not None:
        f = z3.simplify(lin[0] / z3.IntVal(lin[1])) if lin[1] != 1 else lin[0]
        c.floors[h.get_id()] = (h, f)
        return f
    f = c.fresh("fl", "int")
    c.floors[h.get_id()] = (h, f)
    fr = z3.ToReal(f)
    c.assume(z3.And(fr <= h, h < fr + 1))
    return f


HUGE = z3.RealVal(2**1024 - 2**970)


def _finite(x):
    """values beyond the double range are infinite and have no integer counterpart"""
    if getattr(CTX, "ovf", False) and type(x) is SymReal:
        if CTX.branch(z3.Or(x.e >= HUGE, x.e <= -HUGE)):
            raise OverflowError("cannot convert float infinity to integer")


def s_int(x):
    _finite(x)
    t = type(x)
    if t is SymInt:
        return SymInt(x.e)
    if t is SymBool:
        return x._num()
    if t is SymReal:
        return SymInt(z3.If(x.e >= 0, to_int(x.e), -to_int(-x.e)))
    raise Unsupported("s_int")


def s_float(x):
    t = type(x)
    if t is SymReal:
        return x
    e, _k = lift(x)
    return SymReal(z3.ToReal(e))


def s_floor(x):
    _finite(x)
    e, k = lift(x)
    return SymInt(e if k == "int" else to_int(e))


def s_ceil(x):
    _finite(x)
    e, k = lift(x)
    return SymInt(e if k == "int" else -to_int(-e))


def s_round(x, n=None):
    if n is None:
        _finite(x)
    t = type(x)
    if t is SymBool:
        x = x._num()
        t = SymInt
    if t is SymInt:
        return x
    if n is not None:
        p = 10 ** n
        y = z3.ToReal(s_round(SymReal(x.e * p)).e) / z3.RealVal(p)
        return SymReal(y)
    return SymInt(round_half_even(x.e))


def _int_linear(e):
    """(p, q): e == p/q with an integer term p and a positive integer q, or None"""
    out = {}
    terms = {}
    if not _linform2(e, Fraction(1), out, terms):
        return None
    q = 1
    for v in out.values():
        q = q * v.denominator // _gcd(q, v.denominator)
    if q > 10**30:
        return None
    p = z3.IntVal(0)
    for k, v in out.items():
        c = v.numerator * (q // v.denominator)
        if c:
            p = p + (z3.IntVal(c) if k == "1" else z3.IntVal(c) * terms[k])
    return z3.simplify(p), q


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _linform2(e, scale, out, terms):
    """linear combination of integer terms"""
    if z3.is_int_value(e) or z3.is_rational_value(e):
        v = Fraction(e.as_long()) if z3.is_int_value(e) else Fraction(
            e.numerator_as_long(), e.denominator_as_long())
        out["1"] = out.get("1", Fraction(0)) + scale * v
        return True
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return all(_linform2(c, scale, out, terms) for c in e.children())
    if k == z3.Z3_OP_SUB and e.num_args() == 2:
        return _linform2(e.arg(0), scale, out, terms) and _linform2(e.arg(1), -scale, out, terms)
    if k == z3.Z3_OP_MUL and e.num_args() == 2 and (
            z3.is_rational_value(e.arg(0)) or z3.is_int_value(e.arg(0))):
        c = e.arg(0)
        f = Fraction(c.as_long()) if z3.is_int_value(c) else Fraction(
            c.numerator_as_long(), c.denominator_as_long())
        return _linform2(e.arg(1), scale * f, out, terms)
    if k == z3.Z3_OP_TO_REAL:
        return _linform2(e.arg(0), scale, out, terms)
    if e.sort() != z3.IntSort():
        return False
    key = str(e.get_id())
    terms[key] = e
    out[key] = out.get(key, Fraction(0)) + scale
    return True


def round_half_even(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return z3.IntVal(REAL_ROUND(Fraction(e.numerator_as_long(), e.denominator_as_long())))
    c = CTX
    hit = c.rounds.get(e.get_id())
    if hit is not None:
        return hit[1]
    lin = _int_linear(e)
    if lin is not None and lin[1] == 1:
        return lin[0]
    r = c.fresh("rnd", "int")
    c.rounds[e.get_id()] = (e, r)
    if lin is not None:
        p, q = lin
        c.assume(z3.And(q * (2 * r - 1) <= 2 * p, 2 * p <= q * (2 * r + 1)))
        if q % 2 == 0:
            c.assume(z3.Implies(z3.Or(q * (2 * r - 1) == 2 * p, 2 * p == q * (2 * r + 1)),
                                r % 2 == 0))
        return r
    d = e - z3.ToReal(r)
    half = z3.RealVal("1/2")
    c.assume(z3.And(d <= half, d >= -half))
    c.assume(z3.Implies(z3.Or(d == half, d == -half), r % 2 == 0))
    return r


def s_sqrt(x, complex_ok=False):
    e, k = lift(x)
    e = as_real(e, k)
    c = ctx()
    if c.branch(e < 0):
        if complex_ok:
            return SymComplex()
        raise ValueError("math domain error")
    r = c.fresh("sqrt")
    c.assume(z3.And(r >= 0, r * r == e))
    return SymReal(r)


def sym_pow(a, b):
    if is_sym(b):
        raise Unsupported("symbolic exponent")
    if b == 0.5:
        return s_sqrt(a, complex_ok=True)
    if isinstance(b, (REAL_INT, np.integer)) or (isinstance(b, REAL_FLOAT) and b == REAL_INT(b)):
        n = REAL_INT(b)
        if n == 0:
            return 1
        r = a
        for _ in range(abs(n) - 1):
            r = r * a
        if isinstance(b, REAL_FLOAT):
            r = s_float(r)
        return r if n > 0 else 1.0 / r
    raise Unsupported(f"pow {b}")


def pow2(k: SymInt):
    """2**k for a symbolic k within 0..64 (merged, no forking)."""
    c = ctx()
    if c.branch(z3.Or(k.e < 0, k.e > 64)):
        raise Unsupported("2**k out of modelled range")
    e = z3.IntVal(2**64)
    for i in range(63, -1, -1):
        e = z3.If(k.e == i, z3.IntVal(2**i), e)
    return SymInt(e)


def bit_op(op, a, b):
    if type(a) is SymBool:
        a = a._num()
    if type(b) is SymBool:
        b = b._num()
    if is_sym(b) and is_sym(a) and "18446744073709551616" in b.e.sexpr():
        # a mask built from powers of two: one path per mask
        b = ctx().concretise(b.e, cap=200, what="bit mask", strict=True)
    if is_sym(b) and is_sym(a):
        bits = 64
        x, y = z3.Int2BV(a.e, bits), z3.Int2BV(b.e, bits)
        r = x & y if op == "&" else x | y if op == "|" else x ^ y
        return SymInt(z3.BV2Int(r))
    s, k = (a, b) if is_sym(a) else (b, a)
    k = REAL_INT(k)
    if k < 0:
        raise Unsupported("bit op with negative constant")
    bits = [i for i in range(k.bit_length()) if k >> i & 1]
    if op == "&":
        # contiguous masks are cheap
        if bits and bits == list(range(bits[0], bits[-1] + 1)):
            w = len(bits)
            lo = bits[0]
            return SymInt(((s.e / z3.IntVal(1 << lo)) % z3.IntVal(1 << w)) * (1 << lo),
                          getattr(s, "bits", None))
        e = z3.IntVal(0)
        for i in bits:
            e = e + ((s.e / z3.IntVal(1 << i)) % 2) * (1 << i)
        return SymInt(e)
    band = bit_op("&", s, k)
    if op == "|":
        return SymInt(s.e + k - lift(band)[0])
    return SymInt(s.e + k - 2 * lift(band)[0])


def ite(c, a, b):
    """Merged conditional on proxies / numbers."""
    if not is_sym(c):
        return a if c else b
    ce = to_bool_expr(c)
    if isinstance(a, (bool,)) and isinstance(b, (bool,)) or type(a) is SymBool or type(b) is SymBool:
        return SymBool(z3.If(ce, to_bool_expr(a), to_bool_expr(b)))
    (ea, ka), (eb, kb) = lift(a), lift(b)
    if ka == kb == "int":
        bits = getattr(a, "bits", None) if getattr(a, "bits", None) == getattr(b, "bits", None) else None
        return SymInt(z3.If(ce, ea, eb), bits)
    return SymReal(z3.If(ce, as_real(ea, ka), as_real(eb, kb)))


def s_minmax(items, is_min):
    r = items[0]
    for x in items[1:]:
        if not is_sym(r) and not is_sym(x):
            r = min(r, x) if is_min else max(r, x)
            continue
        c = (x < r) if is_min else (x > r)
        if not is_sym(c):
            r = x if c else r
        elif _plain_int(x) and _plain_int(r) and CTX is not None:
            # sizes: keep the term small when the path already orders the two
            if CTX.implied(c.e):
                r = x
            elif not CTX.implied(z3.Not(c.e)):
                r = ite(c, x, r)
        else:
            r = ite(c, x, r)
    return r


def _plain_int(x):
    return type(x) is int or (type(x) is SymInt and not x.bits)


def log2(x):
    """math.log2 of an integer/real > 0: only its comparison with whole numbers is modelled."""
    e, k = lift(x)
    e = as_real(e, k)
    c = ctx()
    if c.branch(e <= 0):
        raise ValueError("math domain error")
    y = c.fresh("log2")
    cons = [y < 80, y > -40, z3.Implies(e >= 1, y >= 0), z3.Implies(e < 1, y < 0)]
    for i in range(-30, 79):
        p = z3.RealVal(2**i) if i >= 0 else z3.RealVal(f"1/{2**-i}")
        cons.append((e >= p) == (y >= i))
        cons.append((e == p) == (y == i))
    c.assume(e < z3.RealVal(2**78))
    c.assume(z3.And(*cons))
    return SymReal(y)
