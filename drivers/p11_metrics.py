"""P11: regression, multiclass, ranking, fairness, stability and weight-of-evidence metrics."""
import random
import polars as pl
import polars_ds as pds
from enc import num, nums, unnum, unnums
from ctx import ev, scalar, CTX
from polars_ds.exprs import metrics as M

T = {"f64": pl.Float64, "f32": pl.Float32, "i64": pl.Int64, "i32": pl.Int32, "u8": pl.UInt8, "u32": pl.UInt32, "i8": pl.Int8, "i16": pl.Int16, "u16": pl.UInt16, "u64": pl.UInt64}
ROWS = [0, 1, 2, 3, 4, 7]      # contexts for answers that are tables


def ser(name, xs, ty):
    xs = unnums(xs)
    return pl.Series(name, [x if x is None or ty[0] == "f" else int(x) for x in xs], dtype=T[ty])


def rowsof(s, *names):
    return [[num(v[k]) for k in names] for v in s.to_list()]


def label(s):
    """the upper end of a bin"""
    return num(float(s.split(", ")[1].rstrip("]")))


def run(c):
    op, x = c["op"], c.get("ctx", 0)
    if op == "err":
        d = {"a": ser("a", c["a"], c["ty"]), "p": ser("p", c["p"], c["ty"])}
        p, dl = int(c["ad"]), unnum(c["delta"])
        g = lambda e: scalar(ev(e, d, x))
        return {"l1": g(M.query_l1("a", "p")), "l1s": g(M.query_l1("a", "p", normalize=False)), "l2": g(M.query_l2("a", "p")), "l2s": g(M.query_l2("a", "p", normalize=False)),
                "lc": g(M.query_log_cosh("a", "p")), "lcs": g(M.query_log_cosh("a", "p", normalize=False)), "linf": g(M.query_l_inf("a", "p")),
                "hu": g(M.query_hubor_loss("a", "p", dl)), "r2": g(M.query_r2("a", "p")), "ar2": g(M.query_adj_r2("a", "p", p)),
                "mape": g(M.query_mape("a", "p")), "wmape": g(M.query_mape("a", "p", weighted=True)), "smape": g(M.query_smape("a", "p")),
                "mad": g(M.query_mad("a")), "mad2": g(M.query_mad("a", use_mean=False)), "msle": g(M.query_msle("a", "p")), "msles": g(M.query_msle("a", "p", normalize=False))}
    if op == "mase":
        n = len(c["a"])
        m = len(c["t"])
        d = {"a": ser("a", c["t"] + c["a"], c["ty"]), "p": ser("p", ["0"] * m + c["p"], c["ty"]), "h": pl.Series("h", [0] * m + [1] * n)}
        f, b = int(c["freq"]), unnum(c["base"])
        A, P, TR = pl.col("a").filter(pl.col("h") == 1), pl.col("p").filter(pl.col("h") == 1), pl.col("a").filter(pl.col("h") == 0)
        g = lambda tr, um: scalar(ev(M.query_mase(A, P, tr, f, um), d, x))
        return {"mean": g(TR, True), "med": g(TR, False), "fmean": g(float(b), True), "fmed": g(float(b), False)}
    if op == "mauc":
        d = {"y": ser("y", c["y"], c["ty"]), "p": pl.Series("p", [unnums(r) for r in c["p"]], dtype=pl.List(pl.Float64))}
        return {s: scalar(ev(M.query_multi_roc_auc("y", "p", int(c["k"]), s), d, x)) for s in ("macro", "weighted")}
    if op == "cce":
        y = [int(v) for v in c["y"]]
        k = len(c["p"][0])
        d = {"y": ser("y", c["y"], c["ty"]), "p": pl.Series("p", [unnums(r) for r in c["p"]], dtype=pl.List(pl.Float64)),
             "z": pl.Series("z", [[1 if j == v else 0 for j in range(k)] for v in y], dtype=pl.List(pl.Int32))}
        g = lambda e: scalar(ev(e, d, x))
        return {"mean": g(M.query_cat_cross_entropy("y", "p")), "sum": g(M.query_cat_cross_entropy("y", "p", normalize=False)),
                "dsum": g(M.query_cat_cross_entropy("z", "p", normalize=False, dense=False))}
    if op == "fair":
        d = {"p": ser("p", c["p"], c["ty"]), "z": pl.Series("z", [bool(int(v)) for v in c["z"]])}
        return {"fair": scalar(ev(M.query_fairness("p", pl.col("z")), d, x)), "pct": scalar(ev(M.query_p_pct_score("p", pl.col("z")), d, x))}
    if op == "ndcg":
        df = pl.DataFrame({"rel": ser("rel", c["rel"], "i64"), "sc": ser("sc", c["score"], "f64"), "qid": ser("qid", c["grp"], "i64")})
        if "sh" in c:
            df = df.sample(fraction=1.0, shuffle=True, seed=c["sh"])
        return {"v": scalar(M.calculate_ndcg(df, "rel", "sc", "qid", k=int(c["k"]) or None, ignore_ties=c["ties"]).to_series())}
    if op in ("psi", "psiw"):
        # the two columns may differ in length: the shorter one is filled up with values to be left out
        a, b = c["new"], c["base"]
        n = max(len(a), len(b))
        d = {"n": ser("n", a + ["null"] * (n - len(a)), c["ty"]), "b": ser("b", b + ["null"] * (n - len(b)), c["ty"])}
        new, base = ("n", "b") if not c["lst"] else (("n", d["b"].to_list()) if c["lst"] == 1 else (d["n"].cast(pl.Float64), "b"))
        if op == "psiw":
            return {"rows": rowsof(ev(pds.psi_w_breakpoints(new, base, [int(v) if v == int(v) and c["ty"] == "i32" else v for v in unnums(c["brk"])]), d, x), "<=", "baseline_pct", "actual_pct", "psi_bin")}
        k = int(c["k"])
        return {"rows": rowsof(ev(pds.psi(new, base, n_bins=k, return_report=True), d, x), "<=", "baseline_pct", "actual_pct", "psi_bin"),
                "sum": scalar(ev(pds.psi(new, base, n_bins=k), d, c["ctx2"]))}
    cat = lambda v: None if v == "null" else "c" + v if c["ty"] == "str" else int(v)
    if op == "psid":
        a, b = [cat(v) for v in c["new"]], [cat(v) for v in c["base"]]
        n = min(len(a), len(b)) if c["lst"] == 0 else None
        d = {"n": pl.Series("n", a)} if c["lst"] else {"n": pl.Series("n", a, dtype=pl.String if c["ty"] == "str" else pl.Int64), "b": pl.Series("b", b, dtype=pl.String if c["ty"] == "str" else pl.Int64)}
        if c["lst"]:
            d = {"n": pl.Series("n", a, dtype=pl.String if c["ty"] == "str" else pl.Int64)}
        base = pl.Series("q", b, dtype=pl.String if c["ty"] == "str" else pl.Int64) if c["lst"] else "b"
        un = lambda v: "null" if v is None else v[1:] if c["ty"] == "str" else str(v)
        r = ev(pds.psi_discrete("n", base, return_report=True), d, x)
        return {"rows": [[un(v["baseline_category"]), un(v["actual_category"]), num(v["baseline_pct"]), num(v["actual_pct"]), num(v["psi_bin"])] for v in r.to_list()],
                "sum": scalar(ev(pds.psi_discrete("n", base), d, c["ctx2"]))}
    tt = {"i64": pl.Int64, "bool": pl.Boolean, "u8": pl.UInt8, "f64": pl.Float64}[c["tt"]]
    t = pl.Series("t", [None if v is None else bool(v) if tt == pl.Boolean else v if tt == pl.Float64 else int(v) for v in unnums(c["t"])], dtype=tt)
    if op == "woed":
        xs = pl.Series("x", [cat(v) for v in c["x"]], dtype=pl.String if c["ty"] == "str" else pl.Int64)
        un = lambda v: v[1:] if c["ty"] == "str" else v
        W, I = (lambda: pds.woe_discrete("x", tg)), (lambda **k: pds.info_value_discrete("x", tg, **k))
    else:
        xs = ser("x", c["x"], c["ty"])
        un = label
        W, I = (lambda: pds.woe("x", tg, n_bins=int(c["k"]))), (lambda **k: pds.info_value("x", tg, n_bins=int(c["k"]), **k))
    tg = t.to_list() if c["lst"] and tt != pl.Boolean else "t"
    d = {"x": xs, "t": t}
    w, i = ev(W(), d, x).to_list(), ev(I(return_sum=False), d, x).to_list()
    return {"woe": [[un(v["value"]), num(v["woe"])] for v in w], "iv": [[un(v["value"]), num(v["iv"])] for v in i],
            "sum": scalar(ev(I(), d, c["ctx2"] if tg == "t" else x))}


def gen(r, tier):
    k = 2 if tier == "quick" else 8
    small = lambda ty: r.randrange(0, 5) if r.random() < 0.5 else r.randrange(0, 250 if ty[0] == "u" else 120) * (1 if ty[0] == "u" or r.random() < 0.7 else -1)
    for i in range(300 * k):
        ty = r.choice(list(T) + ["f64", "f64", "f64"])
        n = r.choice([0, 1, 2, 3, 5, 8, 13])
        val = (lambda: small(ty)) if ty[0] != "f" else (lambda: r.choice([0, 1, -1, 0.5, r.uniform(-3, 3) if ty == "f64" else 2.25, r.randrange(-8, 9) / 4, r.randrange(800, 2000)]))
        a, p = [val() for _ in range(n)], [val() for _ in range(n)]
        if i % 4 == 0:
            a = [abs(v) for v in a]
            p = [abs(v) for v in p]
        if i % 7 == 0:
            a = [None if r.random() < 0.3 else v for v in a]
        yield {"op": "err", "a": nums(a), "p": nums(p), "ad": str(r.choice([0, 1, 2, 3])), "delta": num(r.choice([1, 0.5, 2, 1.25])), "ty": ty, "ctx": r.choice(CTX)}
    for i in range(60 * k):
        n, m = r.randrange(1, 7), r.randrange(1, 10)
        g = lambda: r.choice([r.randrange(0, 9), r.randrange(0, 40) / 4])
        ty = r.choice(["f64", "i64", "u8"])
        q = lambda z: [int(v) for v in z] if ty != "f64" else z
        yield {"op": "mase", "a": nums(q([g() for _ in range(n)])), "p": nums(q([g() for _ in range(n)])), "t": nums(q([g() for _ in range(m)])), "freq": str(r.choice([1, 1, 2, 3])),
               "base": num(r.choice([0.5, 2.0, 3.25])), "ty": ty, "ctx": r.choice([0, 0, 1, 2, 3, 4, 7])}
    for i in range(80 * k):
        kk = r.choice([2, 3, 4])
        n = r.randrange(2, 14)
        y = [r.randrange(kk) if i % 5 else r.randrange(max(1, kk - 1)) for _ in range(n)]
        p = [[r.randrange(0, 9) / 8 for _ in range(kk)] for _ in range(n)]
        yield {"op": "mauc", "y": nums(y), "p": [nums(v) for v in p], "k": str(kk), "ty": r.choice(["i64", "u8", "u32", "i32"]), "ctx": r.choice(CTX)}
        p = [[r.randrange(0 if i % 9 == 0 else 1, 9) / 8 for _ in range(kk)] for _ in range(n)]
        yield {"op": "cce", "y": nums(y), "p": [nums(v) for v in p], "ty": r.choice(["i64", "u8", "u32", "i32"]), "ctx": r.choice(CTX)}
    for i in range(80 * k):
        n = r.randrange(1, 9)
        yield {"op": "fair", "p": nums([None if r.random() < 0.07 else r.choice([0, 1]) for _ in range(n)]), "z": nums([r.choice([0, 1]) for _ in range(n)]),
               "ty": r.choice(["i64", "f64", "u8"]), "ctx": r.choice(CTX)}
    for i in range(150 * k):
        n = r.randrange(1, 12)
        gr = r.choice([1, 2, 3, 5])
        lev = r.choice([2, 4, 50])
        yield {"op": "ndcg", "rel": nums([r.choice([0, 0, 1, 2, 3, 5]) for _ in range(n)]), "score": nums([r.randrange(lev) / 4 for _ in range(n)]),
               "grp": nums([r.randrange(gr) for _ in range(n)]), "k": str(r.choice([0, 0, 1, 2, 3, 5, 20])), "ties": r.random() < 0.5, "sh": r.randrange(99)}

    def col(n, lev, ty, holes):
        out = []
        for _ in range(n):
            u = r.random()
            out.append(None if holes and u < 0.1 else r.choice([float("inf"), float("nan"), float("-inf")]) if holes and u < 0.2 and ty == "f64"
                       else r.randrange(lev) / (4 if ty == "f64" else 1) * r.choice([1, 1, -1]))
        return out
    for i in range(160 * k):
        ty = r.choice(["f64", "f64", "i32"])
        lev, holes = r.choice([2, 4, 10, 100]), i % 3 == 0
        base, new = col(r.randrange(1, 24), lev, ty, holes), col(r.randrange(1, 24), lev * 2, ty, holes)
        if i % 5 == 0:
            base = [max([b for b in base if b is not None and b == b and abs(b) < 1e9] or [1])] * r.randrange(3, 9) + base
        yield {"op": "psi", "base": nums(base), "new": nums(new), "k": str(r.choice([2, 4, 8, 3, 5, 10])), "lst": r.choice([0, 0, 1, 2]) if ty == "f64" or not holes else 0, "ty": ty,
               "ctx": r.choice(ROWS), "ctx2": r.choice([0, 2, 4])}
        brk = sorted(r.sample(range(-lev, lev + 1), r.randrange(1, 4)))
        yield {"op": "psiw", "base": nums(base), "new": nums(new), "brk": nums([b / (4 if ty == "f64" else 1) for b in brk]), "lst": r.choice([0, 0, 1, 2]) if ty == "f64" else 0, "ty": ty, "ctx": r.choice(ROWS)}
    for i in range(120 * k):
        m = r.choice([1, 2, 4, 8])
        n = r.randrange(1, 20)
        cc = lambda n: [None if r.random() < 0.15 else r.randrange(m) + r.choice([0, 0, 0, 3]) for _ in range(n)]
        lst = r.choice([0, 1])
        yield {"op": "psid", "base": nums(cc(n if not lst else r.randrange(1, 9))), "new": nums(cc(n)), "lst": lst, "ty": r.choice(["str", "int"]), "ctx": r.choice(ROWS), "ctx2": r.choice([0, 1, 2, 3, 4, 7])}
        x = cc(n)
        if all(v is None for v in x):
            x[0] = 1
        t = [None if i % 4 == 0 and r.random() < 0.15 else r.choice([0, 1]) for _ in range(n)]
        yield {"op": "woed", "x": nums(x), "t": nums(t), "lst": r.choice([0, 0, 1]), "ty": r.choice(["str", "int"]), "tt": r.choice(["i64", "bool", "u8", "f64"]), "ctx": r.choice(ROWS), "ctx2": r.choice([0, 1, 2, 3, 4, 7])}
        ty = r.choice(["f64", "f64", "i32"])
        n = r.randrange(3, 24)
        x = col(n, r.choice([2, 4, 10, 100]), ty, i % 2 == 0)
        t = [None if i % 4 == 1 and r.random() < 0.15 else r.choice([0, 1]) for _ in range(n)]
        yield {"op": "woe", "x": nums(x), "t": nums(t), "k": str(r.choice([2, 4, 8, 3, 5, 10])), "lst": r.choice([0, 0, 1]), "ty": ty, "tt": r.choice(["i64", "bool", "u8", "f64"]),
               "ctx": r.choice(ROWS), "ctx2": r.choice([0, 2, 4])}
