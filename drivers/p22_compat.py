"""P22: functions called through the compatibility layer on arrays and series of all kinds."""
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import polars as pl
import pandas as pd
import polars_ds as pds
from polars_ds.compat import compat
import catalog
from catalog import rows_frame, LEAST
from p20_context import values


class Recorder:
    """notes the call a catalog entry makes"""

    def __init__(self):
        self.calls = []

    def __getattr__(self, n):
        def f(*a, **k):
            self.calls.append((n, a, k))
            return pl.lit(0)
        return f


SKIP = {"lin_reg_formula"}        # its argument is a formula over columns
UNEVEN = {"ks", "ttest_welch"}    # columns of different lengths
REFUSED = [("frame", [1], "ValueError"), ("str_to_expr", ["a"], "ValueError"), ("pl", [1], "ValueError"), ("annotations", [1], "ValueError"), ("__version__", [1], "ValueError"), ("no_such_function", [1], "AttributeError"),
           ("query_r2", [], "ValueError"), ("lin_reg", [], "ValueError")]


def calls():
    out, old = {}, {x: getattr(catalog, x) for x in ("pds", "M", "N", "S", "X", "T")}
    try:
        for n, (kind, full, chance, b) in catalog.catalog().items():
            if n in SKIP or n.startswith("random") and n != "random_null":
                continue
            r = Recorder()
            for x in old:
                setattr(catalog, x, r)
            b()
            if len(r.calls) == 1 and hasattr(pds, r.calls[0][0]):
                out[n] = (kind, full, *r.calls[0])
    finally:
        for x, v in old.items():
            setattr(catalog, x, v)
    return out


CALLS = calls()
NAMES = sorted(CALLS)
KINDS = ["np", "np_strided", "np_reversed", "np_readonly", "series", "series_same", "series_chunked", "series_unnamed", "pandas", "pandas_index", "arraylike", "expr"]


class Arraylike:
    def __init__(self, x):
        self.x = x

    def __array__(self, *a, **k):
        return self.x


def hold(s, kind, i):
    """the values of the series s in a container"""
    if kind.startswith(("np", "pandas", "arraylike")) and s.null_count():
        kind = "series"
    if kind.startswith("np") or kind == "arraylike":
        x = s.to_numpy()
        x = x.astype("U") if s.dtype == pl.String and i % 2 else x
        if kind == "np_strided":
            y = np.empty(2 * len(x), dtype=x.dtype)
            y[::2], y[1::2] = x, x[::-1]
            return y[::2]
        if kind == "np_reversed":
            return x[::-1].copy()[::-1]
        if kind == "np_readonly":
            x = x.copy()
            x.setflags(write=False)
        return Arraylike(x) if kind == "arraylike" else x
    if kind == "pandas":
        return pd.Series(s.to_numpy())
    if kind == "pandas_index":
        return pd.Series(s.to_numpy(), index=range(len(s), 0, -1), name="q")
    if kind == "series_same":
        return s.alias("x")
    if kind == "series_unnamed":
        return s.alias("")
    if kind == "series_chunked":
        return pl.concat([s[: len(s) // 3], s[len(s) // 3:]], rechunk=False) if len(s) > 2 else s
    if kind == "expr":
        return pl.lit(s)
    return s


def run(c):
    if c["op"] == "refuse":
        n, a, want = REFUSED[c["fn"]]
        try:
            r = getattr(compat, n)(*a, **({"target": np.array([1.0, 2.0])} if not a else {}))
            return {"v": str(r)[:50], "event": {"want": want}}
        except Exception as x:
            return {"exc": type(x).__name__, "event": {"want": want}}
    name = NAMES[c["fn"] % len(NAMES)]
    kind, full, f, args, kw = CALLS[name]
    n = {0: 1, 1: max(LEAST.get(name, 9), 9), 2: max(LEAST.get(name, 9), 9) + 5, 3: 40}[c["size"]]
    df = rows_frame(c["seed"] * 37 + 1, n, 0 if full else c["seed"] % 2, "f32" if c["f32"] else "f64")
    held, info = [], []
    uneven = name in UNEVEN and c["seed"] % 2 == 1

    def swap(x, slot, how):
        """column arguments: (what compat gets, what the expression gets)"""
        if isinstance(x, str) and x in df.columns or isinstance(x, pl.Expr) and x.meta.root_names():
            s = (df[x] if isinstance(x, str) else df.select(x.alias("x")).to_series()).alias(f"v{slot}")
            if s.dtype.is_nested() and how != "expr":     # arrays of lists
                how = "series"
            if s.null_count() and not how.startswith(("series", "expr")):
                how = "series"
            if uneven and len(info) == 1:
                s = s[: len(s) - 3]
            h = hold(s, how, len(info))
            held.append((h, s))
            v = s if isinstance(h, (pl.Series, pl.Expr)) else pl.Series(np.asarray(h.__array__()))
            info.append({"t": "column", "held": how, "name": h.name if isinstance(h, pl.Series) else h.meta.output_name() if isinstance(h, pl.Expr) else "", "slot": slot, "v": v})
            return h, len(info) - 1
        if isinstance(x, list) and x and all(isinstance(q, str) and q in df.columns for q in x):
            return None, None
        if c["numpy_scalars"] and isinstance(x, float):
            return np.float64(x), x
        if c["numpy_scalars"] and isinstance(x, int) and not isinstance(x, bool):
            return np.int64(x), x
        return x, x
    a1, a2, k1, k2 = [], [], {}, {}
    for i, x in enumerate(args):
        p, q = swap(x, str(i), c["how"][i % len(c["how"])])
        a1.append(p)
        a2.append((q,) if p is not x and not isinstance(p, np.generic) else q)
    for i, (k, x) in enumerate(kw.items()):
        p, q = swap(x, k, c["how"][(i + 1) % len(c["how"])])
        if p is None and x is not None:
            return None
        k1[k], k2[k] = p, ((q,) if p is not x and not isinstance(p, np.generic) else q)
    if all(a["held"] == "expr" for a in info):
        return None
    shared = [a["name"] for a in info if a["name"]]
    for a in info:
        a["named"] = a["name"] if a["name"] and shared.count(a["name"]) == 1 else a["slot"]
    high = max(len(a["v"]) for a in info)
    frame = pl.DataFrame([(a["v"] if len(a["v"]) == high else a["v"].extend_constant(None, high - len(a["v"]))).alias(a["named"]) for a in info])
    col = lambda q: pl.col(info[q[0]]["named"]) if isinstance(q, tuple) and len(q) == 1 else q
    a2, k2 = [col(q) for q in a2], {k: col(q) for k, q in k2.items()}
    out = {"name": name, "f": f, "bag": name in catalog.BAGS, "kind": kind, "f32": c["f32"]}
    try:
        ref = frame.select(getattr(pds, f)(*a2, **k2).alias("r")).to_series()
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        return None
    out.update(ref=values(ref), rdt=str(ref.dtype), short=f.replace("query_", ""), args=[{**{k: a[k] for k in ("t", "held", "name", "slot", "named")}, "v": []} for a in info])
    try:
        r = getattr(compat, f)(*a1, **k1)
        res = {"v": values(r), "dt": str(r.dtype), "name": r.name, "type": type(r).__name__}
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as x:
        res = {"exc": f"{type(x).__name__}: {x}"[:300]}
    kept = True
    for h, s in held:
        if isinstance(h, pl.Series):
            kept = kept and h.to_list() == s.to_list()
        elif not isinstance(h, pl.Expr):
            kept = kept and list(np.asarray(h.__array__()).tolist()) == s.to_list() or any(v is None or v != v for v in s.to_list())
    out["kept"] = bool(kept)
    return {**res, "event": out}


def gen(r, tier):
    for i in range(len(REFUSED)):
        yield {"op": "refuse", "fn": i}
    for _ in range(1500 if tier == "quick" else 10000):
        yield {"op": "call", "fn": r.randrange(len(NAMES)), "how": [r.choice(KINDS) for _ in range(r.randint(1, 3))], "size": r.randint(0, 3), "seed": r.randint(0, 10**6), "f32": r.random() < 0.15, "numpy_scalars": r.random() < 0.2}
