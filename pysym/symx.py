"""Path-exploring symbolic execution of Python code on proxy numbers, decided by z3.

SFloat / SInt are subclasses of float / int carrying a z3 term (IEEE binary64 / unbounded integer), so
isinstance tests of the code under check see the type they expect; SReal carries a z3 real and lives in
object arrays. A truth value taken from a symbolic condition forks: the path is replayed from its start
with the other branch, as long as z3 finds it feasible. Where C code needs an actual number (a numpy
float64 buffer) a symbol yields its tag, a number that stands for that symbol and nothing else; a buffer is
read back through the tag table."""
import time
from fractions import Fraction
import z3

FP = z3.Float64()
RNE = z3.RNE()
CUR = None          # the run in progress


class Unsupported(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.time = 0.0
        self.paths = 0
        self.decisions = 0
        self.checks = 0


STATS = Stats()


def query(assertions, timeout=20000, tag=None):
    """sat / unsat / unknown, with the model"""
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*assertions)
    t = time.time()
    r = s.check()
    STATS.time += time.time() - t
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
    return r, (s.model() if r == z3.sat else None)


class Run:
    """one path"""
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.pc = []
        self.vars = {}        # name -> term
        self.tags = {}        # number -> term of its symbol
        self.next_tag = 7340033
        self.fresh = 0
        self.forced = 0
        self.inv = []
        self.defs = []        # auxiliary variables in order: square roots and reciprocals
        self.alts = []        # indices of decisions whose other branch is feasible

    def fork(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            b = self.prefix[i]
        else:
            can = [v for v in (True, False)
                   if query(self.pc + [cond if v else z3.Not(cond)])[0] != z3.unsat]
            if not can:
                raise Unsupported("dead path")
            b = can[0]
            if len(can) == 2:
                self.alts.append(i)
            else:
                self.forced += 1
        self.taken.append(b)
        self.pc.append(cond if b else z3.Not(cond))
        return b

    def choose(self, name, n):
        """a value in range(n), forking (an integer variable of the run)"""
        v = z3.Int(name)
        self.vars[name] = v
        self.pc += [v >= 0, v < n]
        for k in range(n - 1):
            if self.fork(v == k):
                return k
        self.pc.append(v == n - 1)
        return n - 1

    def tag(self, term):
        for t, e in self.tags.items():
            if e.eq(term):
                return t
        t = self.next_tag
        self.next_tag += 1
        self.tags[t] = term
        return t

    def real(self, name):
        v = z3.Real(name)
        self.vars[name] = v
        return SReal(v)

    def float64(self, name):
        v = z3.FP(name, FP)
        self.vars[name] = v
        return SFloat(v)

    def int(self, name):
        v = z3.Int(name)
        self.vars[name] = v
        return SInt(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.vars[name] = v
        return SBoolVal(v)

    def assume(self, c):
        self.pc.append(c)

    def inverse(self, b):
        """1 / b as a variable with its defining equation (b is not zero on this path: 0 has its own path)"""
        b = z3.simplify(b)
        if z3.is_rational_value(b):
            return z3.RealVal(1 / b.as_fraction())
        for e, v in self.inv:
            if e.eq(b):
                return v
        if self.fork(b == 0):
            raise Unsupported("division by zero")
        v = self.aux()
        self.pc.append(b * v == 1)
        self.inv.append((b, v))
        self.defs.append(("inv", v, b))
        return v

    def aux(self, kind=z3.Real):
        self.fresh += 1
        return kind("aux!%d" % self.fresh)


def explore(body, limit=4000):
    """run body(run) on every feasible path; yields (run, result)"""
    global CUR
    todo = [[]]
    while todo:
        prefix = todo.pop()
        run = Run(prefix)
        CUR = run
        try:
            out = body(run)
        finally:
            CUR = None
        STATS.paths += 1
        if STATS.paths > limit:
            raise Unsupported("more than %d paths" % limit)
        STATS.decisions += len(run.taken)
        for i in run.alts:
            todo.append(run.taken[:i] + [False])
        yield run, out


# polynomials over the variables of a run: {monomial (sorted tuple of (name, power)): Fraction}
def pmul(a, b):
    out = {}
    for m, x in a.items():
        for n, y in b.items():
            d = dict(m)
            for v, k in n:
                d[v] = d.get(v, 0) + k
            key = tuple(sorted(d.items()))
            out[key] = out.get(key, 0) + x * y
            if len(out) > 20000:
                raise Unsupported("polynomial too large")
    return {m: c for m, c in out.items() if c}


def padd(a, b, s=1):
    out = dict(a)
    for m, x in b.items():
        out[m] = out.get(m, 0) + s * x
    return {m: c for m, c in out.items() if c}


def ppow(a, k):
    r = {(): Fraction(1)}
    for _ in range(k):
        r = pmul(r, a)
    return r


def poly(e):
    """polynomial of a real term, or None"""
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return {(): Fraction(f.numerator, f.denominator)} if f else {}
    k = e.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
        return {((e.decl().name(), 1),): Fraction(1)}
    cs = [poly(c) for c in e.children()]
    if any(c is None for c in cs):
        return None
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in cs:
            r = padd(r, c)
        return r
    if k == z3.Z3_OP_SUB:
        r = cs[0]
        for c in cs[1:]:
            r = padd(r, c, -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, cs[0], -1)
    if k == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in cs:
            r = pmul(r, c)
        return r
    if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction().denominator == 1 and e.arg(1).as_fraction() >= 0:
        return ppow(cs[0], int(e.arg(1).as_fraction()))
    return None


def identically_equal(a, b, run):
    """a == b follows from the defining equations of the square roots and reciprocals alone"""
    try:
        pa, pb = poly(a), poly(b)
        if pa is None or pb is None:
            return False
        p = padd(pa, pb, -1)
        # reciprocals, latest first: multiply through by the (non-zero) denominator
        for kind, v, d in reversed(run.defs):
            n = v.decl().name()
            q = poly(d)
            if q is None:
                return False
            if kind == "inv":
                k = max([dict(m).get(n, 0) for m in p] or [0])
                r = {}
                for m, c in p.items():
                    dm = dict(m)
                    j = dm.pop(n, 0)
                    r = padd(r, pmul({tuple(sorted(dm.items())): c}, ppow(q, k - j)))
                p = r
            else:
                r = {}
                for m, c in p.items():
                    dm = dict(m)
                    j = dm.pop(n, 0)
                    if j % 2:
                        dm[n] = 1
                    r = padd(r, pmul({tuple(sorted(dm.items())): c}, ppow(q, j // 2)))
                p = r
        return not p
    except Unsupported:
        return False


class SBool:
    """a symbolic condition: its truth value forks"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.fork(self.e)

    def __and__(self, o):
        return SBool(z3.And(self.e, cond_of(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.e, cond_of(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __eq__(self, o):
        return SBool(self.e == cond_of(o))

    def __ne__(self, o):
        return SBool(self.e != cond_of(o))
    __hash__ = object.__hash__


class SBoolVal(SBool):
    """a boolean argument"""


def cond_of(o):
    if isinstance(o, SBool):
        return o.e
    if isinstance(o, bool) or type(o).__name__ == "bool_":
        return z3.BoolVal(bool(o))
    raise Unsupported("truth value of %r" % type(o))


def fp_term(o):
    """the binary64 term of a number"""
    if isinstance(o, SFloat):
        return o.e
    if isinstance(o, SInt):
        return z3.fpToFP(RNE, z3.ToReal(o.e), FP)
    if isinstance(o, (int, float)) or hasattr(o, "dtype"):
        f = float(o)
        if CUR is not None and f in CUR.tags:
            t = CUR.tags[f]
            if z3.is_fp(t):
                return t
        return z3.FPVal(f, FP)
    return None


def int_term(o):
    if isinstance(o, SInt):
        return o.e
    if isinstance(o, bool):
        return z3.IntVal(int(o))
    if isinstance(o, int) or (hasattr(o, "dtype") and getattr(o.dtype, "kind", "") in "iu"):
        o = int(o)
        if CUR is not None and o in CUR.tags and z3.is_int(CUR.tags[o]):
            return CUR.tags[o]
        return z3.IntVal(o)
    return None


class SFloat(float):
    def __new__(cls, e):
        t = CUR.tag(e)
        x = float.__new__(cls, float(t))
        x.e = e
        return x

    def _cmp(self, o, f):
        t = fp_term(o)
        return NotImplemented if t is None else SBool(f(self.e, t))

    def __lt__(self, o): return self._cmp(o, z3.fpLT)
    def __le__(self, o): return self._cmp(o, z3.fpLEQ)
    def __gt__(self, o): return self._cmp(o, z3.fpGT)
    def __ge__(self, o): return self._cmp(o, z3.fpGEQ)
    def __eq__(self, o): return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        t = fp_term(o)
        return True if t is None else SBool(z3.Not(z3.fpEQ(self.e, t)))
    __hash__ = float.__hash__

    def __bool__(self):
        return CUR.fork(z3.Not(z3.fpIsZero(self.e)))

    def _ar(self, o, f, swap=False):
        t = fp_term(o)
        if t is None:
            return NotImplemented
        return SFloat(z3.simplify(f(RNE, t, self.e) if swap else f(RNE, self.e, t)))

    def __add__(self, o): return self._ar(o, z3.fpAdd)
    def __radd__(self, o): return self._ar(o, z3.fpAdd, True)
    def __sub__(self, o): return self._ar(o, z3.fpSub)
    def __rsub__(self, o): return self._ar(o, z3.fpSub, True)
    def __mul__(self, o): return self._ar(o, z3.fpMul)
    def __rmul__(self, o): return self._ar(o, z3.fpMul, True)
    def __truediv__(self, o): return self._ar(o, z3.fpDiv)
    def __rtruediv__(self, o): return self._ar(o, z3.fpDiv, True)
    def __neg__(self): return SFloat(z3.fpNeg(self.e))
    def __pos__(self): return self
    def __abs__(self): return SFloat(z3.fpAbs(self.e))
    def __repr__(self): return "<float>"
    def __str__(self): return "<float>"
    def __format__(self, spec): return "<float>"

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


class SInt(int):
    def __new__(cls, e):
        t = CUR.tag(e)
        x = int.__new__(cls, t)
        x.e = e
        return x

    def _cmp(self, o, f, ff):
        t = int_term(o)
        if t is not None:
            return SBool(f(self.e, t))
        if isinstance(o, float):
            if isinstance(o, SFloat):
                raise Unsupported("integer against float")
            if o == int(o):
                return SBool(f(self.e, z3.IntVal(int(o))))
            return SBool(f(z3.ToReal(self.e), z3.RealVal(o)))
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, None)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, None)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, None)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, None)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, None)

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, None)
        return True if r is NotImplemented else r
    __hash__ = int.__hash__

    def __bool__(self):
        return CUR.fork(self.e != 0)

    def _ar(self, o, f, swap=False):
        t = int_term(o)
        if t is None:
            return NotImplemented
        return SInt(z3.simplify(f(t, self.e) if swap else f(self.e, t)))

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._ar(o, lambda a, b: a * b, True)
    def __neg__(self): return SInt(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SInt(z3.If(self.e < 0, -self.e, self.e))
    def __repr__(self): return "<int>"
    def __str__(self): return "<int>"
    def __format__(self, spec): return "<int>"

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def real_term(o):
    if isinstance(o, SReal):
        return o.e
    if isinstance(o, (int, float)) or hasattr(o, "dtype"):
        if getattr(o, "shape", ()) not in ((), None):
            return None
        f = float(o)
        if CUR is not None and f in CUR.tags:
            return CUR.tags[f]
        if CUR is not None and -f in CUR.tags:
            return -CUR.tags[-f]
        if f != f or f in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        n, d = f.as_integer_ratio()
        return z3.RealVal("%d/%d" % (n, d))
    return None


class SReal:
    """a real number, element of object arrays"""

    def __init__(self, e):
        self.e = e

    def _cmp(self, o, f):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return {True: True, False: False}[bool(f(0.0, o))]
        t = real_term(o)
        return NotImplemented if t is None else SBool(f(self.e, t))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r
    __hash__ = object.__hash__

    def __bool__(self):
        return CUR.fork(self.e != 0)

    def _ar(self, o, f, swap=False):
        t = real_term(o)
        if t is None:
            return NotImplemented
        return SReal(z3.simplify(f(t, self.e) if swap else f(self.e, t)))

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._ar(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return SReal(z3.RealVal(0))
        return self._ar(o, lambda a, b: a * CUR.inverse(b))
    def __rtruediv__(self, o): return self._ar(o, lambda a, b: a * CUR.inverse(b), True)
    def __neg__(self): return SReal(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SReal(z3.If(self.e < 0, -self.e, self.e))

    def __pow__(self, n):
        if n == 0.5:
            return self.sqrt()
        if n != int(n) or n < 0:
            raise Unsupported("power %r" % n)
        r = z3.RealVal(1)
        for _ in range(int(n)):
            r = r * self.e
        return SReal(z3.simplify(r))

    def conjugate(self): return self

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def sqrt(self):
        s = CUR.aux()
        CUR.pc += [s >= 0, s * s == self.e]
        CUR.defs.append(("sqrt", s, self.e))
        return SReal(s)

    def __float__(self): return float(CUR.tag(self.e))

    def __int__(self):
        for k in range(8):
            if CUR.fork(z3.And(self.e > -1, self.e < 1) if k == 0 else z3.And(self.e >= k, self.e < k + 1)):
                return k
        raise Unsupported("integer part beyond 8")
    __trunc__ = __int__
    def __repr__(self): return "<real>"
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def install_math():
    """number-classification functions called on a symbol answer symbolically"""
    import math
    import numpy as np

    def wrap(mod, name, sym):
        orig = getattr(mod, name)

        def f(x, *a, **k):
            if isinstance(x, SFloat):
                return sym(x)
            if isinstance(x, (SInt, SReal)) and name in ("isnan", "isinf"):
                return False
            if isinstance(x, (SInt, SReal)) and name == "isfinite":
                return True
            if isinstance(x, SReal) and name == "sqrt":
                return x.sqrt()
            return orig(x, *a, **k)
        setattr(mod, name, f)
    for mod in (math, np):
        wrap(mod, "isnan", lambda x: SBool(z3.fpIsNaN(x.e)))
        wrap(mod, "isinf", lambda x: SBool(z3.fpIsInf(x.e)))
        wrap(mod, "isfinite", lambda x: SBool(z3.Not(z3.Or(z3.fpIsNaN(x.e), z3.fpIsInf(x.e)))))
        wrap(mod, "sqrt", lambda x: SFloat(z3.fpSqrt(RNE, x.e)))


def fp_value(m, t):
    """python float of a model value"""
    v = m.eval(t, model_completion=True)
    bv = m.eval(z3.fpToIEEEBV(v), model_completion=True)
    import struct
    if z3.is_true(z3.simplify(z3.fpIsNaN(v))):
        return float("nan")
    return struct.unpack("<d", struct.pack("<Q", z3.simplify(bv).as_long()))[0]


def real_value(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    return float(v.approx(20).numerator_as_long()) / float(v.approx(20).denominator_as_long())
