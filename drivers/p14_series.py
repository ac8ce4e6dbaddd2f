"""P14: features of a series in row order."""
import math
import polars as pl
import polars_ds as pds
from enc import num, nums, unnum, unnums
from ctx import ev, scalar, CTX
from p11_metrics import ser, T
from p12_tests import cats
from polars_ds.exprs import ts_features as F

TABLE = [0, 1, 2, 3, 4, 7]      # contexts for answers that are lists or several rows
TT = dict(T, u16=pl.UInt16, u64=pl.UInt64, i16=pl.Int16)


def bools(xs):
    return pl.Series("b", [None if v == "null" else v == "1" for v in xs], dtype=pl.Boolean)


def listed(s):
    s = s.to_list()
    return nums(s[0] if len(s) == 1 and isinstance(s[0], list) else s)


def run(c):
    op, x = c["op"], c["ctx"]
    if op in ("basic", "perm", "reg", "sim", "ar"):
        d = {"s": ser("s", c["s"], c["ty"])}
        g = lambda e: scalar(ev(e, d, x))
    if op == "basic":
        k = int(c["k"])
        return {"mid": g(F.query_mid_range("s")), "symm": g(F.query_symm_ratio("s")), "energy": g(F.query_abs_energy("s")), "mac": g(F.query_mean_abs_change("s")),
                "top": g(F.query_mean_n_abs_max("s", int(c["top"]))), "cv": g(F.query_cv("s")), "uniq": g(F.query_count_uniques("s")), "range": g(F.query_range_count("s", unnum(c["lo"]), unnum(c["hi"]))),
                "c3": g(F.query_c3_stats("s", k)), "cid": g(F.query_cid_ce("s")), "cidn": g(F.query_cid_ce("s", normalize=True)), "rev": g(F.query_time_reversal_asymmetry_stats("s", k)),
                "acr": g(F.query_auto_corr("s", k, normalize=False)), "ac": g(F.query_auto_corr("s", k, ddof=int(c["ddof"])))}
    if op == "streak":
        d = {"b": bools(c["b"])}
        return {"longest": scalar(ev(F.query_longest_streak("b"), d, x)), "avg": scalar(ev(F.query_avg_streak("b"), d, x)),
                "runs": listed(ev(F.query_streak("b"), d, x if x in TABLE else 0))}
    if op == "lz":
        d = {"b": bools(c["b"])}
        return {"c": scalar(ev(F.query_lempel_ziv("b", as_ratio=False), d, x)), "ratio": scalar(ev(F.query_lempel_ziv("b"), d, x))}
    if op == "fd":
        s = pl.Series("s", [v if v is None or c["ty"][0] == "f" else int(v) for v in unnums(c["s"])] if c["ty"][0] == "f" else [None if v == "null" else int(v) for v in c["s"]], dtype=TT[c["ty"]])
        return {"c": listed(ev(F.query_first_digit_cnt("s"), {"s": s}, x))}
    if op == "ent":
        d = {"x": cats("x", c["x"], c["ty"]), "y": cats("y", c["y"], c["ty"])}
        b = unnum(c["base"])
        g = lambda e: scalar(ev(e, d, x))
        return {"h": g(F.query_entropy("x", base=b)), "raw": g(F.query_entropy("x", base=b, normalize=False)), "cxy": g(F.query_cond_entropy("x", "y")), "cyx": g(F.query_cond_entropy("y", "x"))}
    if op == "perm":
        return {"h": g(F.query_permute_entropy("s", tau=int(c["tau"]), n_dims=int(c["d"]), base=unnum(c["base"])))}
    if op == "reg":
        m, r = int(c["m"]), unnum(c["r"])
        a = lambda p: g(F.query_approx_entropy("s", m, r, scale_by_std=c["scale"], parallel=p))
        b = lambda p: g(F.query_sample_entropy("s", ratio=r, m=m, parallel=p))
        return {"ap": a(False), "ap2": a(True), "sa": b(False), "sa2": b(True)}
    if op == "sim":
        q = unnums(c["q"])
        a = lambda p, **k: g(F.query_similar_count(q, "s", unnum(c["thr"]), metric=c["metric"], parallel=p, **k))
        return {"c": a(False), "c2": a(True), "ratio": a(True, return_ratio=True)}
    if op == "knn":
        d = {f"c{j}": ser(f"c{j}", v, c["ty"]) for j, v in enumerate(c["cols"])}
        a = lambda p: scalar(ev(F.query_knn_entropy(*d, k=int(c["k"]), dist=c["metric"], parallel=p), d, x))
        return {"h": a(False), "h2": a(True), "cop": scalar(ev(F.query_copula_entropy(*d, k=int(c["k"]), parallel=x % 2 == 1), d, x))}
    if op == "ci":
        d = {k: ser(k, c[k], c["ty"]) for k in ("x", "y", "z")}
        return {"ci": scalar(ev(F.query_cond_indep("x", "y", "z", k=int(c["k"]), parallel=x % 2 == 1), d, x))}
    if op == "te":
        d = {k: ser(k, c[k], c["ty"]) for k in ("x", "y")}
        return {"te": scalar(ev(F.query_transfer_entropy("x", "y", lag=int(c["lag"]), k=int(c["k"]), parallel=x % 2 == 1), d, x))}
    return {"b": listed(ev(F.query_ar_coeffs("s", int(c["lag"]), add_bias=c["bias"]), d, x))}


def gen(r, tier):
    k = 2 if tier == "quick" else 8
    tys = list(T) + ["f64"] * 4

    def col(n, ty, lev=None):
        if ty[0] == "f":
            return [r.randrange(-lev, lev) / 4 for _ in range(n)] if lev else [r.gauss(0, 2) if ty == "f64" else r.randrange(-64, 64) / 8 for _ in range(n)]
        if lev:
            return [r.randrange(lev) for _ in range(n)]
        return [r.randrange(0, 250 if ty[0] == "u" else 120) * (1 if ty[0] == "u" or r.random() < 0.6 else -1) for _ in range(n)]
    for i in range(160 * k):
        ty, lev = r.choice(tys), r.choice([None, None, 2, 5])
        n = r.choice([0, 1, 2, 3, 5, 8, 20, 40])
        yield {"op": "basic", "s": nums(col(n, ty, lev)), "k": str(r.choice([1, 1, 2, 3])), "top": str(r.choice([1, 2, 3, 7])), "lo": num(r.choice([0, 1, -0.5])), "hi": num(r.choice([1, 3, 100])),
               "ddof": str(r.choice([0, 1])), "ty": ty, "ctx": r.choice(CTX)}
        n = r.choice([3, 4, 5, 8, 20, 40])
        tau, d = r.choice([1, 1, 2, 3]), r.choice([2, 3, 3, 4])
        yield {"op": "perm", "s": nums(col(n, ty, lev)), "tau": str(tau), "d": str(d), "base": num(r.choice([2, math.e, 10])), "ty": ty, "ctx": r.choice(CTX)}
        b = [r.choice([1, 1, 1, 0, 0, None] if i % 3 == 0 else [0, 1] if i % 3 == 1 else [1, 1, 1, 1, 1, 0]) for _ in range(r.choice([0, 1, 4, 9, 30, 70]))]
        yield {"op": r.choice(["streak", "lz"]), "b": nums(b), "ctx": r.choice(CTX)}
    for i in range(80 * k):
        ty = r.choice(list(TT) + ["f64", "f64"])
        hi = {"u8": 2**8 - 1, "i8": 2**7 - 1, "u16": 2**16 - 1, "i16": 2**15 - 1, "u32": 2**32 - 1, "i32": 2**31 - 1, "u64": 2**64 - 1, "i64": 2**63 - 1}.get(ty)
        def one():
            if r.random() < 0.1:
                return None
            if ty[0] == "f":
                return r.choice([0.0, float("nan"), float("inf"), r.gauss(0, 1), 10.0 ** r.randrange(-30, 30), r.uniform(1, 10) * 10.0 ** r.randrange(-20, 20), float(r.randrange(1000))]) if ty == "f64" else \
                    r.choice([0.0, r.randrange(1, 4096) / 64, -float(r.randrange(1, 9999))])
            v = r.choice([0, hi, r.randrange(hi), 10 ** r.randrange(len(str(hi)) - 1), r.randrange(min(hi, 100))])
            return v if ty[0] == "u" or r.random() < 0.6 else -v
        yield {"op": "fd", "s": nums([one() for _ in range(r.choice([0, 1, 5, 20]))]), "ty": ty, "ctx": r.choice(CTX)}
        n, m = r.choice([1, 2, 5, 12, 30]), r.choice([1, 2, 3, 6])
        lab = lambda: nums([r.choice([None] + list(range(m)) * 3) for _ in range(n)])
        yield {"op": "ent", "x": lab(), "y": lab(), "base": num(r.choice([2, math.e, 10])), "ty": r.choice(["str", "int", "cat"]), "ctx": r.choice(CTX)}
    for i in range(90 * k):
        ty, lev = r.choice(tys), r.choice([None, 3, 5])
        n = r.choice([2, 4, 6, 9, 16, 30])
        yield {"op": "reg", "s": nums(col(n, ty, lev)), "m": str(r.choice([2, 2, 3])), "r": num(r.choice([0.2, 0.5, 1.25])), "scale": r.random() < 0.6, "ty": ty, "ctx": r.choice(CTX)}
        q = r.choice([2, 3, 5, 15, 16, 17, 24])
        n = r.choice([2, 5, 9, 30, 60])
        s = col(n, ty, lev)
        w = [v + r.choice([0, 0, 0.25]) for v in s[r.randrange(0, max(1, n - q + 1)):][:q]]
        w += [0.5] * (q - len(w))
        if r.random() < 0.4:      # the threshold is one of the distances
            s = [r.randrange(-3, 4) for _ in range(n)] if ty[0] != "u" else [r.randrange(0, 5) for _ in range(n)]
            w = [r.randrange(-2, 3) / r.choice([1, 2, 2]) for _ in range(q)]
            t = [sum((a - b) ** 2 for a, b in zip(s[i:], w)) for i in range(n - q + 1)] or [1]
            yield {"op": "sim", "s": nums(s), "q": nums(w), "thr": num(r.choice([sorted(t)[len(t) // 2], r.choice(t)])), "metric": "sql2", "ty": ty, "ctx": r.choice(CTX)}
        yield {"op": "sim", "s": nums(s), "q": nums(w), "thr": num(r.choice([0.1, 1.7, 5.3, 30.7])), "metric": r.choice(["sql2", "sqzl2"]), "ty": ty, "ctx": r.choice(CTX)}
        n, kk, ty = r.choice([2, 4, 6, 12, 25]), r.choice([1, 2, 3]), r.choice(["f64", "f64", "i32", "u8"])
        yield {"op": "knn", "cols": [nums(col(n, ty, lev)) for _ in range(r.choice([1, 2, 3]))], "k": str(kk), "metric": r.choice(["l2", "inf"]), "ty": ty, "ctx": r.choice(CTX)}
        n = r.choice([6, 12, 20])
        yield {"op": "ci", "x": nums(col(n, "f64")), "y": nums(col(n, "f64")), "z": nums(col(n, "f64")), "k": str(kk), "ty": "f64", "ctx": r.choice(CTX)}
        yield {"op": "te", "x": nums(col(n, "f64")), "y": nums(col(n, "f64")), "lag": str(r.choice([1, 2])), "k": str(kk), "ty": "f64", "ctx": r.choice(CTX)}
        yield {"op": "ar", "s": nums(col(r.choice([4, 8, 20]), r.choice(["f64"]), lev)), "lag": str(r.choice([1, 2, 3])), "bias": r.random() < 0.5, "ty": "f64", "ctx": r.choice(CTX)}
