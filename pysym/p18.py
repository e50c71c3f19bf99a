"""P18: the Python estimators, on symbolic constructor arguments"""
import warnings
import numpy as np
import scipy.sparse as sp
import z3
import native
import symx
from symx import SFloat, SInt, SReal
from drive import AND, OR, NOT, IMP

warnings.filterwarnings("ignore")
CLASSES = {  # python class -> (native class, extra hyper-parameter, multi-task)
    "Lasso": ("LassoWrapper", None, False),
    "MultiTaskLasso": ("MultiTaskLassoWrapper", None, True),
    "MCPRegressor": ("MCPWrapper", "gamma", False),
    "BlockMCPRegressor": ("BlockMCPWrapper", "gamma", True),
    "ElasticNet": ("ElasticNetWrapper", "l1_ratio", False),
    "MultiTaskElasticNet": ("MultiTaskElasticNetWrapper", "l1_ratio", True),
}
SEM = {"alpha": "alpha", "gamma": "gamma", "l1_ratio": "l1_ratio", "max_iterations": "max_iter", "max_epochs": "max_epochs",
       "tolerance": "tol", "ws_start_size": "p0", "use_acceleration": "use_accel", "k": "K", "verbose": "verbose"}
FLOATS = ("alpha", "gamma", "l1_ratio", "tol")
BOOLS = ("use_accel", "verbose")
DEFAULTS = {"max_iter": 50, "max_epochs": 1000, "tol": 1e-9, "p0": 10, "use_accel": True, "K": 5, "verbose": True}


def order(cls):
    x = CLASSES[cls][1]
    return ["alpha"] + ([x] if x else []) + ["max_iter", "max_epochs", "tol", "p0", "use_accel", "K", "verbose"]


def arguments(ctx, cls, wrong=None):
    """symbolic arguments of the right kinds; wrong = (parameter, kind) replaces one"""
    a = {}
    for p in order(cls):
        k = "float" if p in FLOATS else "bool" if p in BOOLS else "int"
        if wrong and wrong[0] == p:
            k = wrong[1]
        a[p] = (ctx.float64(p) if k == "float" else ctx.int(p) if k == "int" else ctx.bool(p) if k == "bool"
                else None if k == "none" else "0.5" if k == "str" else [0.5])
    return a


def ge(x, c):
    if isinstance(x, SFloat):
        return z3.fpGEQ(x.e, z3.FPVal(float(c), symx.FP))
    if isinstance(x, SInt):
        return x.e >= c
    return x >= c


def inf(x):
    if isinstance(x, SFloat):
        return z3.fpIsInf(x.e)
    return x in (float("inf"), float("-inf"))


def valid(a):
    cs = []
    for p, v in a.items():
        if p in BOOLS:
            continue
        if p in FLOATS:
            if not isinstance(v, float):
                return False
            cs.append(ge(v, 1 if p == "gamma" else 0))
            if p == "l1_ratio":
                cs.append(NOT(AND(ge(v, 1), NOT(same(v, 1.0)))))
        else:
            if not isinstance(v, int):
                return False
            cs.append(ge(v, 1 if p in ("K", "p0") else 0))
    return AND(*cs)


def unjudged(a):
    """an infinite alpha or tolerance is neither documented as valid nor as invalid"""
    return OR(*[inf(a[p]) for p in ("alpha", "tol") if isinstance(a[p], float)] + [False])


def same(got, want):
    """the same value (in symbolic mode for all values)"""
    if isinstance(want, (symx.SBoolVal,)):
        if isinstance(got, symx.SBool):
            return got.e == want.e
        return want.e == z3.BoolVal(bool(got)) if isinstance(got, bool) else False
    if isinstance(got, symx.SBool):
        return got.e == z3.BoolVal(bool(want))
    if isinstance(want, SReal) or isinstance(got, SReal):
        g, w = symx.real_term(got), symx.real_term(want)
        return False if g is None or w is None else g == w
    if isinstance(want, SInt) or isinstance(got, SInt):
        g, w = symx.int_term(got), symx.int_term(want)
        return False if g is None or w is None else g == w
    if isinstance(want, SFloat) or isinstance(got, SFloat):
        g, w = symx.fp_term(got), symx.fp_term(want)
        return False if g is None or w is None else z3.Or(z3.fpEQ(g, w), z3.And(z3.fpIsNaN(g), z3.fpIsNaN(w)))
    if isinstance(want, bool) or isinstance(got, bool):
        return bool(got) == bool(want)
    try:
        return bool(got == want) or (got != got and want != want)
    except Exception:
        return False


class Session:
    """the estimators module with a recording native module"""
    def __init__(self, ctx):
        import sparseglm.estimators as est
        self.ctx = ctx
        self.log = []
        self.est = est
        est._lib = native.module(self.log, self.coefs)
        self.w = []

    def fits(self):
        return [e[1] for e in self.log if e[0] == "fit"]

    def coefs(self, k, p, tasks):
        def v(j, t):
            n = "w%d_%d_%d" % (k, j, t)
            return self.ctx.real(n) if self.ctx.sym else float(8100000 + 100 * k + 10 * j + t)
        dt = object if self.ctx.sym else np.float64
        if tasks is None:
            w = np.empty(p, dtype=dt)
            for j in range(p):
                w[j] = v(j, 0)
        else:
            w = np.empty((p, tasks), dtype=dt)
            for j in range(p):
                for t in range(tasks):
                    w[j, t] = v(j, t)
        self.w.append(w.copy())
        return w


def numbers(ctx, name, rows, cols, pattern):
    """a grid of data: symbols (their tags), with zeros and negated symbols where the pattern says so"""
    g = [[0.0] * cols for _ in range(rows)]
    for i in range(rows):
        for j in range(cols):
            ch = pattern[(i * cols + j) % len(pattern)]
            if ch == "0":
                continue
            t = float(ctx.run.tag(ctx.real("%s%d_%d" % (name, i, j)).e)) if ctx.sym else float(
                7340033 + 1000 * (name[0] == "y") + 5000 * len(name) + 10 * i + j)
            g[i][j] = -t if ch == "-" else t
    return g


def build(kind, g):
    """the grid as an input of the given kind"""
    a = np.array(g, dtype=np.float64)
    if kind == "c": return a
    if kind == "f": return np.asfortranarray(a)
    if kind == "f32": return a.astype(np.float32)
    if kind == "i64": return a.astype(np.int64)
    if kind == "list": return [list(r) for r in g]
    if kind == "view": return np.repeat(np.repeat(a, 2, 0), 2, 1)[::2, ::2]
    if kind == "csc": return sp.csc_matrix(a)
    if kind == "csr": return sp.csr_matrix(a)
    if kind == "coo": return sp.coo_matrix(a)
    if kind == "csc32": return sp.csc_matrix(a.astype(np.float32))
    if kind == "unsorted":
        m = sp.csc_matrix(a)
        d, ix, ptr = m.data.copy(), m.indices.copy(), m.indptr
        for j in range(m.shape[1]):
            s = slice(ptr[j], ptr[j + 1])
            d[s], ix[s] = d[s][::-1].copy(), ix[s][::-1].copy()
        return sp.csc_matrix((d, ix, ptr), shape=m.shape)
    raise KeyError(kind)


def grid_same(ctx, got, want):
    if len(got) != len(want) or any(len(a) != len(b) for a, b in zip(got, want)):
        return False
    cs = []
    for a, b in zip(got, want):
        for u, v in zip(a, b):
            if ctx.sym:
                cs.append(symx.real_term(float(u)) == symx.real_term(float(v)))
            else:
                cs.append(float(u) == float(v))
    return AND(*cs)


def instance(s, cls, a, style):
    try:
        return construct(s, cls, a, style)
    except symx.Unsupported:
        raise
    except ValueError:
        raise
    except Exception as e:
        raise native.Refused(str(e))


def construct(s, cls, a, style):
    c = getattr(s.est, cls)
    names = order(cls)
    if style == "pos":
        return c(*[a[p] for p in names])
    if style == "default":
        return c(**{p: a[p] for p in names if p not in DEFAULTS})
    if style == "set_params":
        e = c(**{p: (0.5 if p == "alpha" else 1.0) for p in names if p not in DEFAULTS})
        return e.set_params(**{p: a[p] for p in names})
    e = c(**{p: a[p] for p in names})
    if style == "clone":
        from sklearn.base import clone
        e = clone(e)
    return e


def data(ctx, cls, tag, n, p, kind, pattern, ykind="c"):
    multi = CLASSES[cls][2]
    X = numbers(ctx, "x" + tag, n, p, pattern)
    Y = numbers(ctx, "y" + tag, n, 2 if multi else 1, "++-+")
    return X, Y, build(kind, X), data_y(cls, Y, ykind)


def unchanged(a, b):
    if isinstance(a, list):
        return a == b
    if sp.issparse(a):
        return sp.issparse(b) and a.format == b.format and a.shape == b.shape and bool(np.array_equal(a.toarray(), b.toarray()))
    return a.dtype == b.dtype and bool(np.array_equal(a, b))


def data_y(cls, Y, ykind):
    y = build(ykind, Y)
    if not CLASSES[cls][2]:
        y = [r[0] for r in y] if isinstance(y, list) else np.ascontiguousarray(y[:, 0]) if ykind != "view" else y[:, 0]
    return y


def validate(ctx, case):
    cls, wrong = case["class"], case["wrong"]
    s = Session(ctx)
    a = arguments(ctx, cls, wrong)
    _, _, X, y = data(ctx, cls, "", 2, 2, "c", "+")
    try:
        instance(s, cls, a, "kw").fit(X, y)
        out = "ok"
    except ValueError:
        out = "refused"
    except symx.Unsupported:
        raise
    except Exception as e:
        out = "%s: %s" % (type(e).__name__, e)
    ok = valid(a)
    free = unjudged(a)
    if out == "ok":
        ctx.check("what fit accepts is in the documented domain", OR(ok, free))
        ctx.check("an accepted fit reaches the native class", len(s.fits()) == 1)
    elif out == "refused":
        ctx.check("nothing in the documented domain is refused", OR(NOT(ok), free))
        ctx.check("refused before any native call", not s.log)
    else:
        ctx.check("no exception but ValueError", free)


def forwarded(ctx, s, f, cls, a, X, Y):
    nat, extra, multi = CLASSES[cls]
    ctx.check("the matching native class", f.cls == nat)
    sig = [p for p, _ in native.signatures()[nat]]
    for p in sig:
        q = SEM.get(p)
        if q in a:
            ctx.check("native %s is %s" % (p, q), same(f.args[p], a[q]))
    ctx.check("every parameter forwarded", set(SEM.get(p) for p in sig) >= set(order(cls)))
    ctx.check("the design is the caller's", grid_same(ctx, f.X, X))
    ctx.check("the targets are the caller's", grid_same(ctx, f.y, Y))


def coef_ok(ctx, e, w, multi):
    c = e.coef_
    want = w.T
    if np.shape(c) != want.shape:
        return False
    return AND(*[same(u, v) for u, v in zip(np.asarray(c).ravel().tolist() if not ctx.sym else list(np.asarray(c, dtype=object).ravel()), list(want.ravel()))])


def predicts(ctx, e, w, tag, dense=True):
    """predict(Z) is Z @ coef, entry by entry"""
    p = w.shape[0]
    Z = np.empty((2, p), dtype=object if ctx.sym else np.float64)
    for i in range(2):
        for j in range(p):
            Z[i, j] = ctx.real("z%s%d_%d" % (tag, i, j)) if ctx.sym else float(3 + 7 * i + j * j + 0.25 * j)
    try:
        got = e.predict(Z)
    except symx.Unsupported:
        raise
    except Exception:
        return False
    want = np.empty((2,) + w.shape[1:], dtype=object if ctx.sym else np.float64)
    for i in range(2):
        for t in np.ndindex(*w.shape[1:]):
            acc = Z[i, 0] * w[(0,) + t]
            for j in range(1, p):
                acc = acc + Z[i, j] * w[(j,) + t]
            want[(i,) + t] = acc
    if np.shape(got) != want.shape:
        return False
    if not ctx.sym:
        return bool(np.allclose(np.asarray(got, dtype=float), want, rtol=1e-9))
    got = np.asarray(got)
    if got.dtype != object:
        ctx.concretised = True
        Zt = np.array([[float(v) for v in r] for r in Z])
        wt = np.array([float(v) for v in w.ravel()]).reshape(w.shape)
        return bool(np.allclose(got, Zt @ wt, rtol=1e-12))
    return AND(*[same(u, v) for u, v in zip(got.ravel(), want.ravel())])


def forward(ctx, case):
    cls, style = case["class"], case["style"]
    s = Session(ctx)
    a = arguments(ctx, cls)
    ctx.assume(AND(valid(a), NOT(unjudged(a))))
    if style == "default":
        a.update(DEFAULTS)
    X, Y, x, y = data(ctx, cls, "", 3, 2, case["x"], case["pattern"], case.get("y", "c"))
    try:
        e = instance(s, cls, a, style)
        r = e.fit(x, y)
    except symx.Unsupported:
        raise
    except Exception as ex:
        ctx.check("a valid model fits", False)
        return
    ctx.check("a valid model fits", True)
    ctx.check("fit returns the estimator", r is e)
    ctx.check("the caller's arrays are unchanged", unchanged(x, build(case["x"], X)) and unchanged(y, data_y(cls, Y, case.get("y", "c"))))
    fs = s.fits()
    ctx.check("one native fit", len(fs) == 1)
    if len(fs) != 1:
        return
    forwarded(ctx, s, fs[0], cls, a, X, Y)
    ctx.check("coef_ holds the native coefficients", coef_ok(ctx, e, s.w[0], CLASSES[cls][2]))


def history(ctx, case):
    try:
        run_history(ctx, case)
    except symx.Unsupported:
        raise
    except native.Refused as e:
        ctx.check("the history goes through", False)
        return
    ctx.check("the history goes through", True)


def run_history(ctx, case):
    cls = case["class"]
    multi = CLASSES[cls][2]
    s = Session(ctx)
    a = arguments(ctx, cls)
    ctx.assume(AND(valid(a), NOT(unjudged(a))))
    try:
        e = instance(s, cls, a, "kw")
    except ValueError as ex:
        raise native.Refused(str(ex))
    other = instance(s, cls, a, "kw")

    def fit(m, *d):
        try:
            m.fit(*d)
        except symx.Unsupported:
            raise
        except Exception as ex:
            raise native.Refused(str(ex))

    def raises(m):
        try:
            m.predict(np.ones((2, 2)))
            return False
        except symx.Unsupported:
            raise
        except Exception:
            return True
    ctx.check("predict raises before fit", raises(e))
    X, Y, x, y = data(ctx, cls, "", 3, 2, case["x"], "+0-++-")
    fit(e, x, y)
    ctx.check("predict is X @ coef", predicts(ctx, e, s.w[0], "a"))
    ctx.check("another model stays unfitted", raises(other))
    X2, Y2, x2, y2 = data(ctx, cls, "q", 2, 3, case["x2"], "+-0+")
    if case["again"] == "same":
        e2 = e
    else:
        e2 = other
    fit(e2, x2, y2)
    fs = s.fits()
    ctx.check("one native fit per fit", len(fs) == 2)
    if len(fs) == 2:
        forwarded(ctx, s, fs[1], cls, a, X2, Y2)
        ctx.check("coef_ holds the latest fit", coef_ok(ctx, e2, s.w[1], multi))
        ctx.check("predict uses the latest fit", predicts(ctx, e2, s.w[1], "b"))
        if e2 is not e:
            ctx.check("the first model keeps its coefficients", coef_ok(ctx, e, s.w[0], multi))
    # a refit after a parameter was set
    v = ctx.float64("alpha2")
    ctx.assume(AND(ge(v, 0), NOT(inf(v))))
    e2.set_params(alpha=v)
    fit(e2, x, y)
    fs = s.fits()
    ctx.check("one native fit per fit", len(fs) == 3)
    if len(fs) == 3:
        b = dict(a)
        b["alpha"] = v
        forwarded(ctx, s, fs[2], cls, b, X, Y)
        ctx.check("coef_ holds the latest fit", coef_ok(ctx, e2, s.w[2], multi))


def cases_validate(tier):
    for c in CLASSES:
        yield {"class": c, "wrong": None}
        for p in order(c):
            if p in BOOLS:
                continue
            for k in (["int"] if p in FLOATS else ["float"]) + ["str", "none", "list"]:
                yield {"class": c, "wrong": [p, k]}


def cases_forward(tier):
    for c in CLASSES:
        for st in ("kw", "pos", "default", "clone", "set_params"):
            yield {"class": c, "style": st, "x": "c", "pattern": "+"}
        for x in ("c", "f", "f32", "i64", "list", "view", "csc", "csr", "coo", "csc32", "unsorted"):
            yield {"class": c, "style": "kw", "x": x, "pattern": "+0-++0"}
        for y in ("f", "f32", "i64", "list", "view"):
            yield {"class": c, "style": "kw", "x": "c", "pattern": "-+0", "y": y}
            yield {"class": c, "style": "kw", "x": "csc", "pattern": "-+0", "y": y}
        yield {"class": c, "style": "kw", "x": "csc", "pattern": "0"}
        yield {"class": c, "style": "kw", "x": "c", "pattern": "0"}


def cases_history(tier):
    for c in CLASSES:
        for x in ("c", "csc"):
            for x2 in ("c", "csc"):
                for again in ("same", "other"):
                    yield {"class": c, "x": x, "x2": x2, "again": again}


EST = "python/sparseglm/estimators.py: "
HARNESSES = [
    {"name": "validate", "about": "constructor + fit refuse exactly the values outside the documented domain, before any native call",
     "bounds": "every binary64 value (NaN, infinities, -0) of the float parameters and every integer of the integer ones, all at once; one parameter of a wrong type at a time",
     "funcs": [EST + c + ".__init__/fit/_validate_params" for c in CLASSES], "cases": cases_validate, "body": validate},
    {"name": "forward", "about": "every parameter, the design and the targets reach the native class; coef_ is its result",
     "bounds": "all valid parameter values; keyword, positional, default, cloned, set_params construction; 3x2 data, 2 tasks; 11 input kinds, 3 sign/zero patterns",
     "funcs": [EST + c + ".fit" for c in CLASSES], "cases": cases_forward, "body": forward},
    {"name": "history", "about": "predict before/after fit, refit, two models, changed parameter",
     "bounds": "fit 3x2, fit 2x3, set_params, fit 3x2; prediction of 2 rows, all real coefficients and rows",
     "funcs": [EST + "Estimator.predict"], "cases": cases_history, "body": history},
]
