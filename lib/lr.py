"""Building and running regression cases (P06, P07, P09)."""
import polars as pl
import polars_ds as pds
import polars_ds.config as pdscfg
from enc import num, nums, unnum
from frames import frame

DT = {"i8": pl.Int8, "u8": pl.UInt8, "i16": pl.Int16, "u16": pl.UInt16, "u32": pl.UInt32}
NAMES = ["a", "b", "c", "d"]


def series(name, vals, k):
    """vals: number strings; integers may be stored as integer columns (k chooses)"""
    xs = [unnum(v) for v in vals]
    if k % 3 == 1 and all(x is None or (x == int(x)) for x in xs):
        return pl.Series(name, [None if x is None else int(x) for x in xs], dtype=pl.Int32 if k % 2 else pl.Int64)
    if k % 3 == 2:
        return pl.Series(name, xs, dtype=pl.Float32)
    return pl.Series(name, xs, dtype=pl.Float64)


def build(c):
    X, ty = c["X"], c.get("ty", 0)
    p = len(X[0])
    if "dt" in c:
        t = DT[c["dt"]]
        cols = {n: pl.Series(n, [None if v == "null" else int(v) for v in vs], dtype=t) for n, vs in [("a", [x for (x,) in X]), ("y", c["y"])] + ([("w", c["w"])] if "w" in c else [])}
        return frame(cols, c.get("ch", 1)), NAMES[:1]
    cols = {}
    for j in range(p):
        cols[NAMES[j]] = series(NAMES[j], [r[j] for r in X], (ty >> j) if ty else 0)
    if "ys" in c:
        for t, y in enumerate(c["ys"]):
            cols[f"y{t}"] = series(f"y{t}", y, ty)
    else:
        cols["y"] = series("y", c["y"], (ty + 1) if ty else 0)
    if "w" in c:
        cols["w"] = series("w", c["w"], ty)
    return frame(cols, c.get("ch", 1)), NAMES[:p]


def feats(c, names):
    return [pl.col(n) if c.get("ch", 1) % 2 else n for n in names]


def lists(s):
    return [["null"] if v is None else nums(v) for v in s.to_list()]


def structcol(df, name):
    s = df[name]
    return s.struct.unnest()


OLD = {"lin_reg": "query_lstsq", "lin_reg_w_rcond": "query_lstsq_w_rcond", "rolling_lin_reg": "query_rolling_lstsq",
       "recursive_lin_reg": "query_recursive_lstsq", "lin_reg_report": "query_lstsq_report"}


def fn(c, name):      # the expression, under its former name now and then
    return getattr(pds, OLD[name] if c.get("old") else name)


def run(c):
    old = pdscfg.LIN_REG_EXPR_F64
    pdscfg.LIN_REG_EXPR_F64 = not c["f32"]
    try:
        return OPS[c["op"]](c)
    finally:
        pdscfg.LIN_REG_EXPR_F64 = old


def lr(c):
    df, names = build(c)
    kw = dict(add_bias=c["bias"], l1_reg=unnum(c["l1"]), l2_reg=unnum(c["l2"]), tol=unnum(c["tol"]), solver=c["solver"], null_policy=c["policy"])
    if "w" in c:
        kw["weights"] = "w"
    fs = feats(c, names)
    res = {}
    if not c["pred"] or kw["l1_reg"] > 0:
        r = df.select(fn(c, "lin_reg")(*fs, target="y", return_pred=False, **kw).alias("r"))["r"]
        assert len(r) == 1
        res["coeffs"] = nums(r.to_list()[0])
    if c["pred"]:
        r = structcol(df.select(fn(c, "lin_reg")(*fs, target="y", return_pred=True, **kw).alias("r")), "r")
        res["pred"], res["resid"] = nums(r["pred"].to_list()), nums(r["resid"].to_list())
    return res


def multi(c):
    df, names = build(c)
    T = len(c["ys"])
    kw = dict(add_bias=c["bias"], l2_reg=unnum(c["l2"]), solver=c["solver"], null_policy=c["policy"])
    r = structcol(df.select(fn(c, "lin_reg")(*feats(c, names), target=[f"y{t}" for t in range(T)], return_pred=c["pred"], **kw).alias("r")), "r")
    cs = r.columns
    if c["pred"]:
        return {"t": [{"pred": nums(r[cs[2 * t]].to_list()), "resid": nums(r[cs[2 * t + 1]].to_list())} for t in range(len(cs) // 2)]}
    return {"t": [{"coeffs": nums(r[x].to_list()[0])} for x in cs]}


def rcond(c):
    df, names = build(c)
    r = structcol(df.select(fn(c, "lin_reg_w_rcond")(*feats(c, names), target="y", add_bias=c["bias"], rcond=unnum(c["rcond"]),
                                                l2_reg=unnum(c["l2"]), null_policy=c["policy"]).alias("r")), "r")
    return {"coeffs": nums(r["coeffs"].to_list()[0]), "sv": nums(r["singular_values"].to_list()[0])}


def simple(c):
    df, names = build(c)
    kw = {"weights": "w"} if "w" in c else {}
    r = df.select(pds.simple_lin_reg(feats(c, names)[0], target="y", add_bias=c["bias"], return_pred=c["pred"], **kw).alias("r"))
    if c["pred"]:
        r = structcol(r, "r")
        return {"pred": nums(r["pred"].to_list()), "resid": nums(r["resid"].to_list())}
    return {"coeffs": nums(r["r"].to_list()[0])}


def rolling(c):
    df, names = build(c)
    kw = {} if c.get("dflt") else {"min_valid_rows": c["minv"]}
    r = structcol(df.select(fn(c, "rolling_lin_reg")(*feats(c, names), target="y", window_size=c["n"], add_bias=c["bias"], l2_reg=unnum(c["l2"]),
                                                null_policy=c["policy"], **kw).alias("r")), "r")
    return {"coeffs": lists(r["coeffs"]), "pred": nums(r["pred"].to_list())}


def recursive(c):
    df, names = build(c)
    r = structcol(df.select(fn(c, "recursive_lin_reg")(*feats(c, names), target="y", start_with=c["n"], add_bias=c["bias"], l2_reg=unnum(c["l2"]),
                                                  null_policy=c["policy"]).alias("r")), "r")
    return {"coeffs": lists(r["coeffs"]), "pred": nums(r["pred"].to_list())}


def report(c):
    df, names = build(c)
    kw = {"weights": "w"} if "w" in c else {} if c.get("old") else {"std_err": c["kind"]}
    r = structcol(df.select(fn(c, "lin_reg_report")(*feats(c, names), target="y", add_bias=c["bias"], null_policy=c["policy"], **kw).alias("r")), "r")
    cs = r.columns
    assert len(cs) == 9
    g = lambda i: nums(r[cs[i]].to_list())
    return {"features": r["features"].to_list(), "beta": g(1), "se": g(2), "t": g(3), "p": g(4), "lo": g(5), "hi": g(6), "r2": g(7), "adj": g(8)}


OPS = {"lr": lr, "multi": multi, "rcond": rcond, "simple": simple, "rolling": rolling, "recursive": recursive, "report": report}


# ---- seeded data -----------------------------------------------------------------------------------------------
def value(r, kind):
    if kind == 0:
        return r.randint(-3, 3)
    if kind == 1:
        return r.randint(-16, 16) / 4
    if kind == 2:
        return r.choice([0, 1])
    return r.randint(-1000, 1000) / 8


def data(r, n, p, nullx=0.0, nully=0.0, kinds=None, dup=0.0):
    kinds = kinds or [r.choice([0, 0, 1, 2, 3]) for _ in range(p + 1)]
    X = []
    for _ in range(n):
        if X and r.random() < dup:
            X.append(list(r.choice(X)))
        else:
            X.append(["null" if r.random() < nullx else num(value(r, kinds[j])) for j in range(p)])
    beta = [r.randint(-3, 3) for _ in range(p)]
    y = []
    for row in X:
        if r.random() < nully:
            y.append("null")
        else:
            s = sum(b * (0 if v == "null" else unnum(v)) for b, v in zip(beta, row)) + r.choice([0, 0, 1, -1, 0.5]) + r.randint(-2, 2)
            y.append(num(s))
    return X, y


POLICIES = ["raise", "skip", "zero", "one", "2.5", "-1"]
