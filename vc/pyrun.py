"""Runs under the interpreter of the code under test: executes real calls in batch.

stdin: JSON {"path": [...], "cases": [...], "record": bool}; stdout: JSON list.
"""
import io
import json
import os
import sys
import warnings


def main():
    req = json.load(sys.stdin)
    out_fd = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    warnings.simplefilter("ignore")
    for p in reversed(req["path"]):
        sys.path.insert(0, p)
    import importlib
    import numpy as np
    np.seterr(all="ignore")
    import signal

    class Timeout(Exception):
        pass

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    from scipy import sparse

    def resolve(name):
        mod, _, attr = name.partition(":")
        o = importlib.import_module(mod)
        for a in attr.split("."):
            o = getattr(o, a)
        return o

    def dec(v, arrays, path):
        if isinstance(v, dict):
            t = v["t"]
            if t == "nd":
                a = np.array(v["data"], dtype=float if v["dtype"] != "c" else complex) if v["dtype"] != "c" else np.array(v["re"], dtype=float) + 1j * np.array(v["im"], dtype=float)
                a = a.reshape(v["shape"])
                if v["dtype"] == "i":
                    a = a.astype(int)
                elif v["dtype"] == "b":
                    a = a.astype(bool)
                lay = v.get("layout", "C")
                if lay == "F":
                    a = np.asfortranarray(a)
                elif lay == "view" and a.ndim:
                    big = np.zeros([2 * s + 1 for s in a.shape], dtype=a.dtype)
                    sl = tuple(slice(0, 2 * s, 2) for s in a.shape)
                    big[sl] = a
                    a = big[sl]
                elif lay == "rev" and a.ndim:
                    sl = (slice(None, None, -1),) * a.ndim
                    a = a[sl].copy()[sl]
                if v.get("ro"):
                    a.setflags(write=False)
                arrays.append((path, a, a.copy()))
                return a
            if t == "tuple":
                return tuple(dec(x, arrays, path) for x in v["v"])
            if t == "dict":
                return {k: dec(x, arrays, path) for k, x in v["v"].items()}
            if t == "func":
                return resolve(v["v"])
            if t == "float":
                return float(v["v"])
            if t == "npfloat":
                return np.float64(v["v"])
            if t == "npint":
                return np.int64(v["v"])
            if t == "cplx":
                return complex(v["re"], v["im"])
            if t == "dia":
                d = dec(v["data"], arrays, path)
                return sparse.dia_matrix((d, v["offsets"]), shape=v["shape"])
            raise ValueError(t)
        if isinstance(v, list):
            return [dec(x, arrays, path) for x in v]
        return v

    def enc(v):
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, np.bool_):
            return bool(v)
        if isinstance(v, int):
            return v
        if isinstance(v, np.integer):
            return {"t": "npint", "v": int(v)}
        if isinstance(v, np.floating):
            return {"t": "npfloat", "v": float(v)}
        if isinstance(v, float):
            return {"t": "float", "v": v}
        if isinstance(v, (complex, np.complexfloating)):
            return {"t": "cplx", "re": float(v.real), "im": float(v.imag)}
        if sparse.issparse(v):
            return {"t": "sparse", "fmt": v.format, "dense": enc(np.asarray(v.todense()))}
        if isinstance(v, np.ndarray):
            k = v.dtype.kind
            if k == "c":
                return {"t": "nd", "dtype": "c", "shape": list(v.shape), "re": v.real.ravel().tolist(), "im": v.imag.ravel().tolist(), "cls": type(v).__name__}
            if k in "fiub":
                return {"t": "nd", "dtype": {"f": "f", "i": "i", "u": "i", "b": "b"}[k], "shape": list(v.shape), "data": [float(x) for x in v.ravel().tolist()], "cls": type(v).__name__}
            return {"t": "repr", "v": repr(v)[:200]}
        if isinstance(v, tuple):
            return {"t": "tuple", "v": [enc(x) for x in v]}
        if isinstance(v, list):
            return [enc(x) for x in v]
        if isinstance(v, dict):
            return {"t": "dict", "v": {str(k): enc(x) for k, x in v.items()}}
        return {"t": "repr", "v": type(v).__name__}

    stub = Stub(np)

    def run(c):
        arrays = []
        r = {}
        stub.load(c.get("draws"))
        if "seed" in c:
            np.random.seed(c["seed"])
        try:
            args = [dec(a, arrays, "arg%d" % i) for i, a in enumerate(c["args"])]
            kw = {k: dec(a, arrays, k) for k, a in c["kw"].items()}
            f = resolve(c["target"])
            signal.alarm(int(c.get("limit", 60)))
            try:
                v = f(*args, **kw)
            finally:
                signal.alarm(0)
            r["ret"] = enc(v)
        except Timeout:
            r["exc"] = "Timeout"
            r["msg"] = ""
        except BaseException as ex:
            r["exc"] = type(ex).__name__
            r["mro"] = [k.__name__ for k in type(ex).__mro__]
            r["msg"] = str(ex)[:300]
        mut = [n for n, a, b in arrays if a.shape != b.shape or not np.array_equal(np.nan_to_num(a), np.nan_to_num(b))]
        if mut:
            r["mutated"] = mut
        if stub.log:
            r["drawn"] = [[enc(m), enc(k)] for m, k in stub.log]
        return r

    res = [run(c) for c in req["cases"]]
    if req.get("again", True):
        for i in reversed(range(len(res))):
            if "exc" in res[i] and res[i]["exc"] == "Timeout":
                continue
            if req["cases"][i].get("norepeat"):
                continue
            r2 = run(req["cases"][i])
            res[i]["again"] = r2
    os.write(out_fd, b"")
    with os.fdopen(out_fd, "w") as fh:
        json.dump(res, fh)


class Stub:
    """stands in for numpy's and scipy's generators: hands out the prescribed numbers"""

    def __init__(self, np):
        self.np, self.on, self.log = np, False, []

    def load(self, plan):
        self.log = []
        if plan is None:
            return
        if not self.on:
            self.install()
        self.streams = {}
        for dist, data in plan:
            self.streams.setdefault(dist, []).extend(data)

    def take(self, dist, shape):
        n = 1
        for s in shape:
            n *= int(s)
        st = self.streams.get(dist, [])
        if len(st) < n:
            raise RuntimeError("more random numbers requested than described (%s)" % dist)
        x = self.np.array(st[:n], dtype=float).reshape(shape)
        del st[:n]
        return x

    def install(self):
        np = self.np
        self.on = True
        rnd = np.random
        import scipy.stats as stats

        def shp(size):
            return () if size is None else tuple(int(s) for s in size) if hasattr(size, "__len__") else (int(size),)

        def sc(x):
            return float(x) if x.ndim == 0 else x
        rnd.randn = lambda *s: sc(self.take("normal01", shp(s)))
        rnd.standard_normal = lambda size=None: sc(self.take("normal01", shp(size)))

        def full(size, *ps):
            return shp(size) if size is not None else np.broadcast(*ps).shape
        rnd.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * sc(self.take("normal01", full(size, loc, scale)))
        rnd.rand = lambda *s: sc(self.take("uniform01", shp(s)))
        rnd.random = rnd.random_sample = lambda size=None: sc(self.take("uniform01", shp(size)))
        rnd.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * sc(self.take("uniform01", full(size, low, high)))

        def mvn(mean, cov, size=None, *a, **k):
            mean, cov = np.asarray(mean, dtype=float), np.asarray(cov, dtype=float)
            if mean.ndim != 1 or cov.shape != (len(mean), len(mean)):
                raise ValueError("mean and cov must have same length")
            self.log.append((mean.copy(), cov.copy()))
            return self.take("mvn", shp(size) + mean.shape)
        rnd.multivariate_normal = mvn
        gen = type(stats.multivariate_normal)

        def rvs(this, mean=None, cov=1, size=1, random_state=None):
            x = mvn(mean, cov, size)
            x = x.squeeze()
            return x[()] if x.ndim == 0 else x
        gen.rvs = rvs


if __name__ == "__main__":
    main()
