"""P12: hypothesis tests."""
import polars as pl
import polars_ds as pds
from enc import num, nums, unnum, unnums
from ctx import ev, CTX
from p11_metrics import ser, T

ALT = {"two": "two-sided", "less": "less", "greater": "greater"}
ROWS = [0, 1, 2, 3, 4, 7]


def pair(s):
    if len(s) != 1:
        raise RuntimeError(f"{len(s)} values instead of one")
    v = s[0]
    return [num(v["statistic"]), num(v["pvalue"])]


def cats(name, xs, ty):
    return pl.Series(name, [None if v == "null" else int(v) if ty == "int" else "c" + v for v in xs], dtype=pl.Int64 if ty == "int" else pl.String).cast({"str": pl.String, "int": pl.Int64, "cat": pl.Categorical}[ty])


def run(c):
    op, x = c["op"], c["ctx"]
    alt = ALT.get(c.get("alt"))
    if op == "t1":
        return {"r": pair(ev(pds.ttest_1samp("x", unnum(c["mu"]), alternative=alt), {"x": ser("x", c["x"], c["ty"])}, x))}
    if op in ("welch", "pooled", "mw"):
        d = {"x": ser("x", c["x"], c["ty"]), "y": ser("y", c["y"], c.get("ty2", c["ty"]))}
        e = pds.mann_whitney_u("x", "y", alternative=alt) if op == "mw" else pds.ttest_ind("x", "y", alternative=alt, equal_var=op == "pooled")
        return {"r": pair(ev(e, d, x))}
    if op == "stats":
        e = pds.ttest_ind_from_stats("x", unnum(c["mean"]), unnum(c["var"]), int(c["cnt"]), alternative=alt, equal_var=c["eq"])
        return {"r": pair(ev(e, {"x": ser("x", c["x"], c["ty"])}, x))}
    if op == "ks":
        d = {"x": ser("x", c["x"], "i64" if c["binary"] else c["ty"]), "y": ser("y", c["y"], c["ty"])}
        return {"r": pair(ev(pds.ks_2samp("x", "y", alpha=unnum(c["alpha"]), is_binary=c["binary"]), d, x))}
    if op == "f":
        d = {"g": cats("g", c["g"], c["gty"])}
        names = []
        for j, v in enumerate(c["xs"]):
            names.append(f"x{j}")
            d[names[-1]] = ser(names[-1], v, c["ty"])
        s = ev(pds.f_test(*names, group="g"), d, x)
        return {"rows": [[num(v["statistic"]), num(v["pvalue"])] for v in s.to_list()]}
    if op == "chi":
        d = {"a": cats("a", c["a"], c["ty"]), "b": cats("b", c["b"], c["ty"])}
        un = lambda v: v[1:] if isinstance(v, str) else str(v)
        lab = d if c["ty"] != "cat" else {k: v.cast(pl.String) for k, v in d.items()}
        full = ev(pds.chi2("a", "b", return_full=True), lab, c["ctx2"]).to_list()
        return {"r": pair(ev(pds.chi2("a", "b"), d, x)),
                "full": [[num(v["statistic"]), num(v["pvalue"]), num(v["dof"]), un(v["a"]), un(v["b"]), num(v["E[freq]"])] for v in full]}
    return {"r": pair(ev(pds.normal_test("x"), {"x": ser("x", c["x"], c["ty"])}, x))}


def gen(r, tier):
    k = 2 if tier == "quick" else 8
    def col(n, ty, lev=None, holes=False, shift=0):
        out = []
        for _ in range(n):
            u = r.random()
            if holes and u < 0.2:
                out.append(r.choice([None, float("nan"), float("inf"), float("-inf")]) if ty[0] == "f" else None)
            elif ty[0] == "f":
                out.append(r.randrange(lev) / 4 + shift if lev else r.gauss(shift, 2) if ty == "f64" else r.randrange(-64, 64) / 8)
            else:
                out.append(r.randrange(lev or 40) + (shift if ty[0] != "u" else 0) - (10 if ty[0] == "i" else 0))
        return nums(out)
    tys = list(T) + ["f64"] * 4
    for i in range(120 * k):
        ty = r.choice(tys)
        n = r.choice([0, 1, 2, 3, 5, 8, 20])
        lev, holes, alt = r.choice([None, None, 2, 5]), r.random() < 0.4, r.choice(list(ALT))
        x = col(n, ty, lev, holes)
        yield {"op": "t1", "x": x, "mu": num(r.choice([0, 1, 0.5, -2, 3.25])), "alt": alt, "ty": ty, "ctx": r.choice(CTX)}
        ty2 = r.choice(tys) if i % 3 == 0 else ty
        yield {"op": "welch", "x": x, "y": col(n, ty2, lev, holes, r.choice([0, 1])), "alt": alt, "ty": ty, "ty2": ty2, "ctx": r.choice(CTX)}
        yield {"op": "pooled", "x": col(n, ty, lev), "y": col(n, ty2, lev, False, r.choice([0, 1])), "alt": alt, "ty": ty, "ty2": ty2, "ctx": r.choice(CTX)}
        eq = r.random() < 0.4
        yield {"op": "stats", "x": col(n, ty, lev, holes and not eq), "mean": num(r.choice([0, 1, 2.5, -1])), "var": num(r.choice([0.5, 1, 4.25, 0.125])), "cnt": str(r.choice([2, 5, 11, 40])), "eq": eq,
               "alt": alt, "ty": ty, "ctx": r.choice(CTX)}
        yield {"op": "mw", "x": x, "y": col(n, ty2, lev, holes, r.choice([0, 1])), "alt": alt, "ty": ty, "ty2": ty2, "ctx": r.choice(CTX)}
    for i in range(40 * k):
        ty = r.choice(["f64", "f64", "f32", "i64", "u8", "i32"])
        n = r.choice([29, 30, 31, 40, 64])
        lev, holes = r.choice([None, 3, 10]), r.random() < 0.4
        b = r.random() < 0.4
        n = n + (40 if b else 0)
        yield {"op": "ks", "x": nums([r.choice([0, 1] if r.random() < 0.95 else [None, 2]) for _ in range(n)]) if b else col(n, ty, lev, holes), "y": col(n, ty, lev, holes, r.choice([0, 1])), "binary": b,
               "alpha": num(r.choice([0.05, 0.01, 0.5, 0.125])), "ty": ty, "ctx": r.choice(CTX)}
    for i in range(80 * k):
        n = r.choice([3, 5, 9, 16, 30])
        m = r.choice([2, 2, 3, 5])
        ty = r.choice(["f64", "f64", "f32", "i64", "u8", "u32"])
        q = r.choice([1, 1, 1, 2, 3])
        g = [None if r.random() < 0.05 else r.randrange(m) for _ in range(n)]
        # nulls in some variables; columns of a table are finite
        xs = [[None if i % 4 == 0 and r.random() < 0.15 else unnum(v) for v in col(n, ty, r.choice([None, 3]))] for _ in range(q)]
        yield {"op": "f", "g": nums(g), "xs": [nums(v) for v in xs], "ty": ty, "gty": r.choice(["str", "int", "cat"]), "ctx": r.choice(CTX if q == 1 else ROWS)}
        m2 = r.choice([1, 2, 3, 4])
        yield {"op": "chi", "a": nums([r.randrange(m) for _ in range(n)]), "b": nums([r.randrange(m2) for _ in range(n)]), "ty": r.choice(["str", "int", "cat"]), "ctx": r.choice(CTX), "ctx2": r.choice(ROWS)}
    for i in range(40 * k):
        ty = r.choice(["f64", "f64", "f32", "i64", "i32"])
        yield {"op": "norm", "x": col(r.choice([19, 20, 21, 30, 60]), ty, r.choice([None, None, 3, 9]), i % 3 == 0, r.choice([0, 3])), "strict": False, "ty": ty, "ctx": r.choice(CTX)}
    # the recorded finding: columns of two values, whose kurtosis is as low as it can be
    yield {"op": "norm", "x": nums([0, 1] * 30), "strict": True, "ty": "f64", "ctx": 0, "kf": "normal_test_low_kurtosis"}
