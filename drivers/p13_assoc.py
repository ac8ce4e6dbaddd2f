"""P13: association and location statistics."""
import polars as pl
import polars_ds as pds
from enc import num, nums, unnum
from ctx import ev, scalar, CTX
from p11_metrics import ser, T


def run(c):
    op, x, ty = c["op"], c["ctx"], c["ty"]
    d = {k: ser(k, c[k], {"x": ty, "y": c.get("ty2", ty), "w": c.get("tyw", "f64")}[k]) for k in ("x", "y", "w") if k in c}
    sd = None if c.get("seed", -1) < 0 else c["seed"]
    g = lambda e: scalar(ev(e, d, x))
    if op == "tau":
        return {"v": g(pds.kendall_tau("x", "y")), "w": g(pds.corr("y", "x", method="kendall"))}
    if op == "xi":
        p = ev(pds.xi_corr("x", "y", seed=sd, return_p=True), d, x)
        if len(p) != 1:
            raise RuntimeError("not one value")
        return {"v": g(pds.xi_corr("x", "y", seed=sd)), "stat": num(p[0]["statistic"]), "p": num(p[0]["pvalue"]), "corr": g(pds.corr("x", "y", method="xi"))}
    if op == "w":
        return {"mean": g(pds.weighted_mean("x", "w")), "meann": g(pds.weighted_mean("x", "w", is_normalized=True)), "var": g(pds.weighted_var("x", "w")),
                "varf": g(pds.weighted_var("x", "w", freq_weights=True)), "cov": g(pds.weighted_cov("x", "y", pl.col("w"))), "voc": g(pds.weighted_cov("y", "x", pl.col("w"))),
                "corr": g(pds.weighted_corr("x", "y", "w")), "cos": g(pds.cosine_sim("x", "y")), "wcos": g(pds.weighted_cosine_sim("x", "y", "w"))}
    if op == "means":
        return {"h": g(pds.hmean("x")), "g": g(pds.gmean("x")), "wh": g(pds.weighted_hmean("x", "w")), "whn": g(pds.weighted_hmean("x", "w", is_normalized=True)),
                "wg": g(pds.weighted_gmean("x", "w")), "wgn": g(pds.weighted_gmean("x", "w", is_normalized=True))}
    if op == "bicor":
        return {"v": g(pds.bicor("x", "y", c=unnum(c["c"]))), "w": g(pds.bicor("y", "x", c=unnum(c["c"])))}
    return {m: g(pds.corr("x", "y", method=m)) for m in ("pearson", "spearman", "kendall", "bicor")}


def gen(r, tier):
    k = 2 if tier == "quick" else 8
    tys = list(T) + ["f64"] * 5

    def col(n, ty, lev=None, pos=False):
        lo = 1 if pos else 0
        if ty[0] == "f":
            return [r.randrange(lo, lev + lo) / 4 for _ in range(n)] if lev else [(abs(v) + 0.1 if pos else v) if ty == "f64" else (r.randrange(lo, 64) / 8) for v in (r.gauss(0, 2) for _ in range(n))]
        return [r.randrange(lo, lev or 100) - (5 if ty[0] == "i" and not pos else 0) for _ in range(n)]
    two = lambda f, n: [f(n), f(n)]
    for i in range(200 * k):
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 31, 40, 60] if i % 4 == 0 else [2, 4, 7, 9, 16])
        ty, ty2, lev = r.choice(tys), r.choice(tys), r.choice([None, 2, 3, 6])
        x, y = col(n, ty, lev), col(n, ty2, lev)
        def holes(v, t):
            return [r.choice([None, float("nan"), float("inf"), float("-inf"), float("inf")]) if r.random() < 0.3 and t[0] == "f" else None if r.random() < 0.1 else a for a in v]
        if i % 3 == 0:
            x, y = holes(x, ty), holes(y, ty2)
        yield {"op": "tau", "x": nums(x), "y": nums(y), "ty": ty, "ty2": ty2, "ctx": r.choice(CTX)}
    for i in range(120 * k):
        n = r.choice([2, 3, 5, 9, 29, 30, 31, 50])
        ty, ty2 = r.choice(["f64", "f64", "i64", "i32", "u32"]), r.choice(tys)
        lev = r.choice([None, 2, 3])
        if i % 3 == 0:
            n = r.choice([2, 3, 4, 5])
            x = col(n, ty, 3)
        else:
            x = r.sample(range(1, 200), n)
        yield {"op": "xi", "x": nums(x), "y": nums(col(n, ty2, lev)), "seed": r.choice([-1, 1, 7]), "ty": ty, "ty2": ty2, "ctx": r.choice(CTX)}
    for i in range(160 * k):
        n = r.choice([1, 2, 3, 5, 8, 20])
        ty, ty2, tyw = r.choice(tys), r.choice(tys), r.choice(["f64", "f64", "i64", "u8", "u32", "f32"])
        lev = r.choice([None, 3, 6])
        w = [r.randrange(1, 20) if tyw[0] != "f" else r.randrange(1, 64) / 16 for _ in range(n)]
        if i % 3 == 0:
            tyw = "f64"
            cut = sorted(r.sample(range(1, 64), n - 1)) if n < 60 else []
            w = [(b - a) / 64 for a, b in zip([0] + cut, cut + [64])]
        yield {"op": "w", "x": nums(col(n, ty, lev)), "y": nums(col(n, ty2, lev)), "w": nums(w), "ty": ty, "ty2": ty2, "tyw": tyw, "ctx": r.choice(CTX)}
        yield {"op": "means", "x": nums([None if i % 5 == 1 and r.random() < 0.2 else v for v in col(n, ty, lev, True)]), "w": nums(w), "ty": ty, "tyw": tyw, "ctx": r.choice(CTX)}
        n = r.choice([2, 3, 5, 8, 20])
        yield {"op": "bicor", "x": nums(col(n, ty, lev)), "y": nums(col(n, ty2, lev)), "c": num(r.choice([9, 9, 1.5, 3])), "ty": "f32" if ty2 == "f32" else ty, "ty2": ty2 if ty2 != "f32" else "f64", "ctx": r.choice(CTX)}
        yield {"op": "corr", "x": nums(col(n, "f64", lev)), "y": nums(col(n, "f64", lev)), "ty": "f64", "ctx": r.choice(CTX)}
