"""Stand-ins for the compiled module: same class names and constructor parameters as python/src/*.rs (read
from the source on every run), same argument types; they record what they are given."""
import glob
import re
import types
import numpy as np
import symx

RUST = "/repo/python/src"


def signatures(src=RUST):
    """class -> [(parameter, rust type)], in order"""
    sigs = {}
    for f in sorted(glob.glob(src + "/*.rs")):
        s = re.sub(r"//[^\n]*", "", open(f).read())
        s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
        for m in re.finditer(r"#\[pymethods\]\s*impl\s+(\w+)\s*\{", s):
            n = re.search(r"#\[new\].*?fn\s+\w+\s*\((.*?)\)\s*->", s[m.end():], flags=re.S)
            if n:
                ps = [p.strip() for p in n.group(1).split(",") if p.strip()]
                sigs[m.group(1)] = [tuple(x.strip() for x in p.split(":", 1)) for p in ps]
    return sigs


def coerce(name, v, ty):
    """what pyo3 accepts for the Rust type"""
    if ty == "bool":
        if isinstance(v, (bool, symx.SBoolVal)):
            return v
        raise TypeError("argument '%s': '%s' object cannot be converted to 'PyBool'" % (name, type(v).__name__))
    if ty == "usize":
        if isinstance(v, symx.SInt):
            if v < 0:
                raise OverflowError("can't convert negative int to unsigned")
            return v
        if not hasattr(type(v), "__index__"):
            raise TypeError("argument '%s': '%s' object cannot be interpreted as an integer" % (name, type(v).__name__))
        if int(v) < 0:
            raise OverflowError("can't convert negative int to unsigned")
        return v
    if ty == "f64":
        if isinstance(v, (float, int)) or hasattr(type(v), "__float__"):
            return v
        raise TypeError("argument '%s': must be real number, not %s" % (name, type(v).__name__))
    raise TypeError("argument '%s': unsupported native type %s" % (name, ty))


def array(name, v, ndim, dtype):
    if not isinstance(v, np.ndarray) or v.ndim != ndim or v.dtype != dtype:
        raise TypeError("argument '%s': '%s' object cannot be converted to 'PyArray<%s, %d>'"
                        % (name, type(v).__name__, dtype, ndim))
    return v.copy()


class Refused(Exception):
    """the code under check raised where it should not"""


class Fit:
    """one native fit: the design and targets it was handed (as a dense grid of numbers)"""


def module(log, coefs):
    """log: list of events; coefs(k, n_features, n_tasks or None) gives the k-th fit's coefficients"""
    lib = types.ModuleType("sparseglm._lib")

    def make(cname, sig):
        multi = cname.startswith(("MultiTask", "Block"))

        class Native:
            def __init__(self, *args, **kw):
                got = {}
                if len(args) > len(sig):
                    raise TypeError("too many positional arguments")
                for (p, _), a in zip(sig, args):
                    got[p] = a
                for k, v in kw.items():
                    if k not in [p for p, _ in sig]:
                        raise TypeError("got an unexpected keyword argument '%s'" % k)
                    if k in got:
                        raise TypeError("got multiple values for argument '%s'" % k)
                    got[k] = v
                missing = [p for p, _ in sig if p not in got]
                if missing:
                    raise TypeError("missing required arguments: %s" % missing)
                log.append(("call", cname))
                self.args = {p: coerce(p, got[p], t) for p, t in sig}

            def _fit(self, grid, n, p, y):
                f = Fit()
                f.cls, f.args, f.X, f.n, f.p = cname, dict(self.args), grid, n, p
                f.y = [[v for v in row] for row in y] if multi else [[v] for v in y]
                k = sum(1 for e in log if e[0] == "fit")
                log.append(("fit", f))
                if y.shape[0] != n:
                    raise RuntimeError("native: n_samples differ")
                f.coefs = coefs(k, p, y.shape[1] if multi else None)
                return f.coefs

            def fit(self, x, y):
                log.append(("call", cname))
                x = array("x", x, 2, np.float64)
                y = array("y", y, 2 if multi else 1, np.float64)
                return self._fit([[v for v in r] for r in x], x.shape[0], x.shape[1], y)

            def fit_sparse(self, data, indices, indptr, y):
                log.append(("call", cname))
                data = array("data", data, 1, np.float64)
                indices = array("indices", indices, 1, np.int32)
                indptr = array("indptr", indptr, 1, np.int32)
                y = array("y", y, 2 if multi else 1, np.float64)
                n, p = y.shape[0], len(indptr) - 1
                if len(data) != len(indices) or indptr[0] != 0 or indptr[-1] != len(data):
                    raise RuntimeError("native: not a CSC matrix")
                g = [[0.0] * p for _ in range(n)]
                for j in range(p):
                    for k in range(indptr[j], indptr[j + 1]):
                        g[indices[k]][j] = data[k]
                return self._fit(g, n, p, y)
        Native.__name__ = cname
        return Native
    for c, s in signatures().items():
        setattr(lib, c, make(c, s))
    return lib
