"""P26: the Python data utilities, on symbolic data and symbolic random draws"""
import os
import traceback
import numpy as np
import z3
import symx
from symx import SReal, SFloat
from drive import AND, OR, NOT, IMP
from p18 import ge


class Arrays:
    """numpy, with array constructors that allocate arrays of symbols"""
    def __init__(self, on):
        self.on = on

    def __getattr__(self, n):
        f = getattr(np, n)
        if not self.on or n not in ("empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like"):
            return f

        def g(*a, **k):
            if k.get("dtype") in (None, float, np.float64):
                k["dtype"] = object
                if n.startswith("empty"):
                    r = f(*a, **k)
                    r[...] = float("nan")
                    return r
            return f(*a, **k)
        return g


class Drawn(Exception):
    pass


class Rng(np.random.RandomState):
    """normal draws are fresh symbols; a drawn subset is a free choice"""
    def setup(self, ctx, stop=False):
        self.ctx, self.stop, self.n, self.draws, self.subsets = ctx, stop, 0, [], []
        return self

    def one(self):
        v = self.ctx.real("e%d" % self.n)
        self.draws.append(v)
        self.ctx.assume(R(v) != 0)      # a draw is zero with probability zero
        self.n += 1
        return v

    def randn(self, *shape):
        if self.stop:
            raise Drawn()
        if not shape:
            return self.one()
        a = np.empty(shape, dtype=object if self.ctx.sym else np.float64)
        for i in np.ndindex(*shape):
            a[i] = self.one()
        return a

    def standard_normal(self, size=None):
        if size is None:
            return self.randn()
        return self.randn(*(size if isinstance(size, tuple) else (size,)))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self.standard_normal(size) * scale + loc

    def choice(self, n, size=None, replace=True, p=None):
        if self.stop:
            raise Drawn()
        out, left = [], list(range(n))
        for k in range(size):
            c = self.ctx.choose("pick%d_%d" % (len(self.subsets), k), len(left) if not replace else n)
            out.append(left.pop(c) if not replace else c)
        self.subsets.append(out)
        return np.array(out, dtype=int)

    def permutation(self, n):
        return self.choice(n, n, replace=False)


def module(ctx):
    import sparseglm.utils as u
    u.np = Arrays(ctx.sym)
    return u


def grid(ctx, name, *shape):
    a = np.empty(shape, dtype=object if ctx.sym else np.float64)
    for i in np.ndindex(*shape):
        a[i] = ctx.real(name + "_".join(map(str, i)))
    return a


def R(v):
    """the z3 term (or the float) of an entry"""
    if isinstance(v, SReal):
        return v.e
    return symx.real_term(v) if symx.CUR is not None else float(v)


def eq(ctx, a, b):
    if ctx.sym:
        return R(a) == R(b)
    return abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))


def le(ctx, a, b):
    if ctx.sym:
        return R(a) <= R(b)
    return a <= b + 1e-7 * (1 + abs(a) + abs(b))


def fixed(ctx, name, free, *shape):
    """fixed entries, but for the listed ones"""
    a = np.empty(shape, dtype=object if ctx.sym else np.float64)
    for k, i in enumerate(np.ndindex(*shape)):
        a[i] = ctx.real(name + "_".join(map(str, i))) if i in free else float((37 * k * k + 11 * k + 5) % 23 - 11) / 4
    return a


def alpha_max(ctx, case):
    u = module(ctx)
    n, p, t = case["n"], case["p"], case["t"]
    if case.get("wide"):
        X = fixed(ctx, "x", [(n - 1, p - 1)], n, p)
        Y = fixed(ctx, "y", [(0, t - 1)], n, t) if t else fixed(ctx, "y", [(0,)], n)
    else:
        X = grid(ctx, "x", n, p)
        Y = grid(ctx, "y", n, t) if t else grid(ctx, "y", n)
    if case.get("f"):
        X, Y = np.asfortranarray(X), Y[::-1][::-1]
    got = u.compute_alpha_max(X, Y)
    sq = []
    for j in range(p):
        cols = [Y] if not t else [Y[:, k] for k in range(t)]
        acc = 0.0
        for c in cols:
            d = X[0, j] * c[0]
            for i in range(1, n):
                d = d + X[i, j] * c[i]
            acc = acc + d * d
        sq.append(acc)
    g2 = got * n * (got * n)
    ctx.check("alpha_max is not negative", le(ctx, 0.0, got))
    ctx.check("alpha_max bounds every |x_j . y| / n", AND(*[le(ctx, s, g2) for s in sq]))
    ctx.check("alpha_max is attained", OR(*[eq(ctx, s, g2) for s in sq]))


def sumsq(ctx, case):
    u = module(ctx)
    X = grid(ctx, "x", *case["shape"])
    want = sum((v * v for v in X.ravel()), 0.0)
    ctx.check("sum_squared is the sum of squares", eq(ctx, u.sum_squared(np.asfortranarray(X) if case["f"] else X), want))


def domain(ctx, case):
    u = module(ctx)
    c, d = ctx.float64("corr"), ctx.float64("density")
    rng = Rng(0).setup(ctx, stop=True)
    try:
        u.make_correlated_data(2, 2, corr=c, density=d, random_state=rng, w_true=np.ones((2, 1)) if case["w"] else None)
        out = "ok"
    except Drawn:
        out = "ok"
    except ValueError:
        out = "refused"
    except (symx.Unsupported, TypeError):
        out = "ok"     # past the guards
    good = AND(ge(c, 0), lt(c, 1), ge(d, 0), NOT(zero(d)), NOT(AND(ge(d, 1), NOT(one(d)))))
    if out == "ok":
        ctx.check("corr in [0, 1[ and density in ]0, 1] only", good)
    else:
        ctx.check("nothing in the domain is refused", NOT(good))


def lt(x, c):
    return z3.fpLT(x.e, z3.FPVal(float(c), symx.FP)) if isinstance(x, SFloat) else x < c


def zero(x):
    return z3.fpIsZero(x.e) if isinstance(x, SFloat) else x == 0


def one(x):
    return z3.fpEQ(x.e, z3.FPVal(1.0, symx.FP)) if isinstance(x, SFloat) else x == 1


def make(ctx, case):
    u = module(ctx)
    n, p, t = case["n"], case["p"], case["t"]
    rng = Rng(0).setup(ctx)
    corr = ctx.real("corr") if case["corr"] else 0.0
    if case["corr"]:
        ctx.assume(AND(z_le(ctx, 0.0, corr), NOT(z_le(ctx, 1.0, corr))))
    kw = {}
    W = None
    if case["w"] == "1d":
        W = grid(ctx, "w", p)
    elif case["w"] == "2d":
        W = grid(ctx, "w", p, t)
    else:
        kw["density"] = ctx.real("density")
        ctx.assume(AND(NOT(z_le(ctx, kw["density"], 0.0)), z_le(ctx, kw["density"], 1.0)))
    snr = np.inf
    if case["snr"]:
        snr = ctx.real("snr")
        ctx.assume(NOT(z_le(ctx, snr, 0.0)))
    try:
        X, Y, w = u.make_correlated_data(n, p, n_tasks=t, corr=corr, snr=snr, random_state=rng,
                                         w_true=None if W is None else W.copy(), **kw)
    except symx.Unsupported:
        raise
    except Exception as e:
        if os.environ.get("PYSYM_TRACE"):
            traceback.print_exc()
        ctx.check("data is made", False)
        return
    ctx.check("data is made", True)
    ctx.check("documented shapes", X.shape == (n, p) and Y.shape == ((n,) if t == 1 else (n, t)) and w.shape == ((p,) if t == 1 else (p, t)))
    Yg, wg = np.reshape(Y, (n, t)), np.reshape(w, (p, t))
    if W is not None:
        ctx.check("the given coefficients are used", AND(*[eq(ctx, a, b) for a, b in zip(wg.ravel(), np.reshape(W, (p, t)).ravel())]))
    else:
        rows = [j for j in range(p) if any(not is_zero(v) for v in wg[j])]
        d = kw["density"] * p
        ctx.check("the proportion of non-zero coefficients is the density", AND(le(ctx, float(len(rows)), d), NOT(z_le(ctx, float(len(rows)) + 1, d))) if ctx.sym
                  else len(rows) <= d + 1e-9 and d < len(rows) + 1 + 1e-9)
        if ctx.sym:
            got = [(v, k) for j in rows for v in wg[j] for k, d in enumerate(rng.draws) if isinstance(v, SReal) and d.e.eq(v.e)]
            good = len(got) == len(rows) * t == len(set(k for _, k in got))
        else:
            w2 = again(ctx, u, {"e%d" % k: 1000.0 + k for k in range(rng.n)}, n, p, t, corr, snr, W, kw)[2]
            nz = [float(v) for v in np.ravel(w2) if v != 0]
            good = len(nz) % t == 0 and len(set(nz)) == len(nz) and all(v in [1000.0 + k for k in range(rng.n)] for v in nz)
        ctx.check("non-zero coefficients are distinct draws", good)
    Z = [[dot(X[i], wg[:, k]) for k in range(t)] for i in range(n)]
    noise = [[Yg[i, k] - Z[i][k] for k in range(t)] for i in range(n)]
    flat = [v for r in noise for v in r]
    if case["snr"]:
        zz = sum((v * v for r in Z for v in r), 0.0)
        nn = sum((v * v for v in flat), 0.0)
        ctx.check("the signal-to-noise ratio is the requested one", eq(ctx, zz, nn * snr * snr))
    else:
        ctx.check("no noise at infinite ratio", AND(*[eq(ctx, v, 0.0) for v in flat]))
    if case.get("cov"):
        if ctx.sym:
            covariance(ctx, X, corr, rng)
        else:
            covariance_plain(ctx, lambda vals: again(ctx, u, vals, n, p, t, corr, snr, W, kw)[0], rng.n, n, p, corr)


def z_le(ctx, a, b):
    return R(a) <= R(b) if ctx.sym else a <= b


def is_zero(v):
    return (isinstance(v, (int, float)) and v == 0) or (isinstance(v, SReal) and z3.is_rational_value(v.e) and v.e.as_fraction() == 0)


def dot(a, b):
    acc = a[0] * b[0]
    for u, v in zip(a[1:], b[1:]):
        acc = acc + u * v
    return acc


def again(ctx, u, vals, n, p, t, corr, snr, W, kw):
    """the same call on plain numbers with other draws"""
    from drive import ConcCtx
    v = dict(ctx.values)
    v.update(vals)
    return u.make_correlated_data(n, p, n_tasks=t, corr=corr, snr=snr, random_state=Rng(0).setup(ConcCtx(v)),
                                  w_true=None if W is None else W.copy(), **kw)


def covariance_plain(ctx, design, draws, n, p, corr):
    ctx.check("the design is linear in the draws (mean 0)", not design({"e%d" % k: 0.0 for k in range(draws)}).any())
    C = [design({"e%d" % k: float(k == m) for k in range(draws)}) for m in range(draws)]
    full = design({"e%d" % k: 1.5 + k for k in range(draws)})
    ctx.check("the design is linear in the draws (mean 0)", bool(np.allclose(full, sum((1.5 + k) * c for k, c in enumerate(C)))))
    for a in np.ndindex(n, p):
        for b in np.ndindex(n, p):
            cov = sum(c[a] * c[b] for c in C)
            if a[0] != b[0]:
                ctx.check("samples are independent", abs(cov) < 1e-7)
            else:
                ctx.check("features i, j have covariance corr^|i-j|", abs(cov - corr ** abs(a[1] - b[1])) < 1e-7)


def covariance(ctx, X, corr, rng):
    """X is linear in the draws; its coefficients give the covariances the documentation states"""
    n, p = X.shape
    ds = [d.e for d in rng.draws]
    zeros = [(d, z3.RealVal(0)) for d in ds]
    co = {}
    for i in np.ndindex(n, p):
        e = R(X[i])
        cs = [z3.simplify(z3.substitute(e, zeros[:k] + [(ds[k], z3.RealVal(1))] + zeros[k + 1:])) for k in range(len(ds))]
        ctx.check("the design is linear in the draws (mean 0)", e == z3.Sum([c * d for c, d in zip(cs, ds)]))
        co[i] = cs
    for a in co:
        for b in co:
            if a <= b:
                cov = z3.Sum([u * v for u, v in zip(co[a], co[b])])
                if a[0] != b[0]:
                    ctx.check("samples are independent", cov == 0)
                else:
                    want = z3.RealVal(1)
                    for _ in range(abs(a[1] - b[1])):
                        want = want * R(corr)
                    ctx.check("features i, j have covariance corr^|i-j|", cov == want)


def cases_alpha(tier):
    for n, p, t in [(1, 1, 0), (2, 2, 0), (2, 1, 2), (1, 2, 2)] + ([(3, 3, 0), (2, 2, 2)] if tier == "thorough" else []):
        yield {"n": n, "p": p, "t": t}
    for n, p, t in [(6, 9, 0), (9, 4, 0), (3, 17, 0), (5, 4, 3), (2, 6, 5)]:
        for f in (False, True):
            yield {"n": n, "p": p, "t": t, "wide": True, "f": f}


def cases_sum(tier):
    for s in [(0,), (1,), (3,), (20,), (2, 2), (2, 3), (1, 7), (7, 1), (6, 5), (2, 3, 2)]:
        for f in (False, True):
            yield {"shape": s, "f": f}


def cases_domain(tier):
    yield {"w": False}
    yield {"w": True}


def cases_make(tier):
    for corr in (False, True):
        for snr in (False, True):
            for w in ("none", "1d", "2d"):
                for t in (1, 2):
                    if w == "1d" and t == 2:
                        continue
                    if snr:
                        for n, p in ([(2, 1), (1, 2)] + ([(2, 2)] if tier == "thorough" else [])):
                            yield {"n": n, "p": p, "t": t, "corr": corr, "snr": True, "w": w}
                    else:
                        yield {"n": 2, "p": 3, "t": t, "corr": corr, "snr": False, "w": w, "cov": True}
                        yield {"n": 3, "p": 1, "t": t, "corr": corr, "snr": False, "w": w, "cov": True}
                        if not corr or w == "1d":
                            yield {"n": 1, "p": 4, "t": 3 if t == 2 else t, "corr": corr, "snr": False, "w": w, "cov": True}


U = "python/sparseglm/utils.py: "
HARNESSES = [
    {"name": "alpha_max", "about": "compute_alpha_max is max_j ||x_j^T Y|| / n", "bounds": "all data of 1..2 samples, 1..2 features, 1-D or 2 targets (3x3, 2x2x2 thorough); two free entries in fixed data of 6x9, 9x4, 3x17, 5x4 (3 targets), 2x6 (5 targets)",
     "funcs": [U + "compute_alpha_max"], "cases": cases_alpha, "body": alpha_max},
    {"name": "sum_squared", "about": "sum_squared is the sum of squares", "bounds": "all data, 0 to 20 entries, 2x2 to 6x5, 2x3x2; C and Fortran order",
     "funcs": [U + "sum_squared"], "cases": cases_sum, "body": sumsq},
    {"name": "domain", "about": "make_correlated_data refuses exactly corr outside [0, 1[ and density outside ]0, 1]", "bounds": "every binary64 corr and density",
     "funcs": [U + "make_correlated_data"], "cases": cases_domain, "body": domain},
    {"name": "make", "about": "shapes, sparsity, covariance, signal-to-noise ratio of make_correlated_data", "bounds": "2x3, 3x1 and 1x4 without noise, 2x1 and 1x2 with, 1..3 tasks; all draws, corr in [0,1[, density, snr, w_true",
     "funcs": [U + "make_correlated_data"], "cases": cases_make, "body": make},
]
