"""P15: numeric transforms of columns."""
import math
import polars as pl
import polars_ds as pds
from enc import num, nums, unnum, unnums
from ctx import ev, scalar, CTX
from p11_metrics import ser, T
from p12_tests import cats
from polars_ds.exprs import num as N
from polars_ds.exprs.stats import winsorize
import numpy as np

WHOLE = [0, 1, 2, 3, 4, 7]
F1 = ["expit", "logit", "exp2", "gamma", "digamma", "trunc", "fract", "sinc", "next_up", "next_down"]
ROWS = lambda s: nums(s.to_list())


def col(name, xs, ty):
    if ty[0] == "f":
        return pl.Series(name, unnums(xs), dtype=pl.Float64).cast(T[ty])
    return pl.Series(name, [None if v == "null" else int(v) for v in xs], dtype=T[ty])


def pairs(s):
    s = s.to_list()
    if len(s) == 1 and isinstance(s[0], list) and (not s[0] or not isinstance(s[0][0], float)):
        s = s[0]
    return [nums(v) for v in s]


def run(c):
    op, x = c["op"], c["ctx"]
    g = lambda e, d: ROWS(ev(e, d, x, rows=True))
    if op == "map1":
        return {"o": g(getattr(N, c["f"])("x"), {"x": col("x", c["x"], c["ty"])})}
    if op == "map2":
        ty = c["ty"]
        d = {"x": col("x", c["x"], ty)}
        y = "y"
        if c["lit"]:
            y = int(c["y"][0]) if c["f"] != "xlogy" else pl.lit(unnum(c["y"][0]))
        else:
            d["y"] = col("y", c["y"], ty)
        return {"o": g(getattr(N, c["f"])("x", y), d)}
    if op == "hav":
        d = {f"c{j}": col(f"c{j}", v, c["ty"]) for j, v in enumerate(c["c"]) if len(v) > 1 or len(c["c"][0]) == 1}
        return {"o": g(N.haversine(*[f"c{j}" if f"c{j}" in d else unnum(c["c"][j][0]) for j in range(4)]), d)}
    if op == "norm":
        d = {f"c{j}": col(f"c{j}", v, c["ty"]) for j, v in enumerate(c["c"])}
        f = {"l1": N.l1_horizontal, "l2": N.l2_sq_horizontal, "linf": N.l_inf_horizontal}[c["f"]]
        return {"o": g(f(*d, normalize=c["norm"]), d)}
    if op == "mono":
        d = {"x": col("x", c["x"], c["ty"])}
        s = lambda e: scalar(ev(e, d, x))
        return {"inc": s(N.is_increasing("x")), "sinc": s(N.is_increasing("x", strict=True)), "dec": s(N.is_decreasing("x")), "sdec": s(N.is_decreasing("x", strict=True))}
    if op == "whole":
        f = {"center": N.center, "znorm": N.z_normalize, "softmax": N.softmax}[c["f"]]
        return {"o": g(f("x"), {"x": col("x", c["x"], c["ty"])})}
    if op == "trend":
        return {"o": g(N.detrend("x", method=c["f"]), {"x": col("x", c["x"], c["ty"])})}
    if op == "trapz":
        d = {"y": col("y", c["y"], c["ty"])}
        if c["dx"]:
            return {"o": scalar(ev(N.integrate_trapz("y", unnum(c["x"][0])), d, x))}
        d["x"] = col("x", c["x"], c["ty"])
        return {"o": scalar(ev(N.integrate_trapz("y", pl.col("x")), d, x))}
    if op == "conv":
        d = {"x": col("x", c["x"], c["ty"])}
        h = unnums(c["h"])
        h = {"list": h, "np": np.array(h), "pl": pl.Series(h, dtype=pl.Float64), "expr": pl.lit(pl.Series(h, dtype=pl.Float64))}[c["as"]]
        x = x if x in WHOLE or (x == 5 and c["as"] != "expr") else 0
        return {"o": ROWS(ev(N.convolve("x", h, fill_value=unnum(c["fill"]), method=c["how"], mode=c["mode"], parallel=c["par"]), d, x))}
    if op == "fft":
        n = int(c["n"]) or None
        return {"o": pairs(ev(N.rfft("x", n=n, return_full=c["full"]), {"x": col("x", c["x"], c["ty"])}, x if x in WHOLE + [5] else 0))}
    if op == "iso":
        d = {"y": col("y", c["y"], c["ty"])}
        if c["w"]:
            d["w"] = col("w", c["w"], "f64")
        return {"o": g(N.isotonic_regression("y", weights="w" if c["w"] else None, increasing=c["up"]), d)}
    if op == "jac":
        d = {"x": cats("x", c["x"], c["tx"]) if c["tx"] in ("str", "int") else col("x", c["x"], c["tx"]), "y": cats("y", c["y"], c["ty"]) if c["ty"] in ("str", "int") else col("y", c["y"], c["ty"])}
        s = lambda e: scalar(ev(e, d, x))
        return {"plain": s(N.jaccard_col("x", "y")), "nulls": s(N.jaccard_col("x", "y", count_null=True))}
    if op == "jacrow":
        conv = (lambda v: int(v)) if c["ty"] != "str" else (lambda v: "s" + v)
        inner = {"str": pl.String, "int": pl.Int64, "u8": pl.UInt8}[c["ty"]]
        L = lambda n: pl.Series(n, [None if v == ["none"] else [conv(t) for t in v] for v in c[n]], dtype=pl.List(inner))
        return {"o": g(N.jaccard_row("x", "y"), {"x": L("x"), "y": L("y")})}
    if op == "te":
        d = {"x": pl.Series("x", [None if v == "null" else "c" + v for v in c["x"]], dtype=pl.String), "t": col("t", c["t"], c["ty"])}
        if c["ty"] == "u8" and len(c["t"]) % 2:
            d["t"] = d["t"].cast(pl.Boolean)
        t = "t"
        e = N.target_encode("x", t, min_samples_leaf=int(c["leaf"]), smoothing=unnum(c["smooth"]))
        s = ev(e, d, x)
        s = s.to_list()
        return {"o": sorted([["null" if v["value"] is None else v["value"][1:], num(v["to"])] for v in s])}
    if op == "wins":
        return {"o": g(winsorize("x", unnum(c["lo"]), unnum(c["hi"]), method=c["m"]), {"x": col("x", c["x"], c["ty"])})}
    if op in ("svd", "comps"):
        d = {f"c{j}": col(f"c{j}", v, c["ty"]) for j, v in enumerate(c["c"])}
        if op == "comps":
            s = ev(N.principal_components(*d, k=int(c["k"]), center=c["centre"]), d, x if x in WHOLE + [6] else 0, rows=True)
            return {"o": [nums(s.struct.field(f"pc{i + 1}").to_list()) for i in range(int(c["k"]))]}
        l = lambda **k: nums(ev(N.singular_values(*d, center=c["centre"], **k), d, x).to_list()[0])
        def l(**k):
            v = ev(N.singular_values(*d, center=c["centre"], **k), d, x).to_list()
            return nums(v[0] if len(v) == 1 and isinstance(v[0], list) else v)
        v = ev(N.pca(*d, center=c["centre"]), d, x if x in WHOLE else 0).to_list()
        n = sum(all(v != "null" for v in w) for w in zip(*c["c"]))
        return {"s": l(), "var": l(as_explained_var=True) if n > 1 else [], "ratio": l(as_ratio=True), "vratio": l(as_explained_var=True, as_ratio=True) if n > 1 else [],
                "pca": [[num(t["singular_value"]), nums(t["weight_vector"])] for t in v]}
    if op == "amax":
        s = ev(N.list_amax("x"), {"x": pl.Series("x", [unnums(v) for v in c["x"]], dtype=pl.List(pl.Float64))}, x, rows=True)
        return {"o": [num(v[0] if isinstance(v, list) and v else "null" if isinstance(v, list) else v) if v != [] else "0" for v in s.to_list()]}
    raise ValueError(op)


def gen(r, tier):
    k = 2 if tier == "quick" else 8
    big = {"u8": 255, "i8": 127, "u32": 2**32 - 1, "i32": 2**31 - 1, "i64": 2**40, "i16": 2**15 - 1, "u16": 2**16 - 1, "u64": 2**40}

    def val(ty, lim=None, nul=0.1):
        if r.random() < nul:
            return None
        if ty[0] == "f":
            return r.randrange(-(lim or 40) * 8, (lim or 40) * 8) / 8 if ty == "f32" or r.random() < 0.5 else r.uniform(-(lim or 40), lim or 40)
        v = r.randrange(0, min(lim or 100, big[ty]))
        return -v if ty[0] == "i" and r.random() < 0.4 else v

    def colv(n, ty, lim=None, nul=0.0):
        return nums([val(ty, lim, nul) for _ in range(n)])
    tys = list(T) + ["f64"] * 3
    for i in range(330 * k):
        f, ty, n = F1[i % len(F1)], r.choice(tys), r.choice([0, 1, 3, 9, 20])
        xs = []
        for _ in range(n):
            if ty[0] != "f":
                xs.append(val(ty, 30 if f in ("exp2", "gamma", "digamma") else None))
                if r.random() < 0.2:
                    xs[-1] = r.choice([0, 1, big[ty] if f in ("trunc", "fract", "next_up", "next_down") else 2])
                continue
            u = r.random()
            v = val(ty, {"exp2": 140, "gamma": 30, "digamma": 30}.get(f))
            if u < 0.25 and f == "logit":
                v = r.randrange(1, 256) / 256
            elif u < 0.4:
                v = r.choice([0.0, 1.0, -1.0, float("nan"), float("inf"), float("-inf"), 0.5, 2.0, -2.0, 1.5, -0.0, 7.0])
            elif u < 0.55 and f in ("trunc", "fract", "next_up", "next_down", "expit"):
                v = (r.choice([1, -1]) * (2.0 ** r.randrange(-1000, 1000) if ty == "f64" else 2.0 ** r.randrange(-120, 120)) * r.choice([1, 1, 1.5])) if f[0] == "n" else r.choice([1e15 + 0.5, -1e9 - 0.25, 0.999999]) if ty == "f64" else 300.5
            elif u < 0.62 and f[0] == "n":
                v = r.choice([5e-324, -5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308]) if ty == "f64" else r.choice([2.0**-149, -(2.0**-149), 3.4028234663852886e38, 2.0**-126])
            xs.append(v)
        if f == "gamma" and ty == "f32":
            xs = [v for v in xs if v is None or not math.isfinite(v) or v <= 0 or v > 0.01]
        yield {"op": "map1", "f": f, "x": nums(xs), "ty": ty, "ctx": r.choice(CTX)}
    for i in range(150 * k):
        f, n, lit = r.choice(["xlogy", "gcd", "lcm"]), r.choice([0, 1, 4, 12]), r.random() < 0.3
        ty = r.choice(tys) if f == "xlogy" else r.choice(["i32", "u8", "i8", "i64", "u32"])
        y = colv(1 if lit else n, ty, None, 0 if lit else 0.1)
        yield {"op": "map2", "f": f, "x": colv(n, ty, r.choice([5, 100]), 0.1), "y": y, "lit": lit, "ty": ty, "ctx": r.choice(CTX)}
        n, sc, ty = r.choice([1, 2, 5, 12]), r.random() < 0.4, r.choice(["f64", "f64", "f32"])
        la = lambda m: nums([r.choice([r.randrange(-90, 91), r.uniform(-90, 90) if ty == "f64" else r.randrange(-720, 720) / 8]) if r.random() > 0.1 or m == 1 else None for _ in range(m)])
        lo = lambda m: nums([r.choice([r.randrange(-180, 181), r.uniform(-180, 180) if ty == "f64" else r.randrange(-1440, 1440) / 8]) if r.random() > 0.1 or m == 1 else None for _ in range(m)])
        c = [la(n), lo(n), la(1 if sc else n), lo(1 if sc else n)]
        if r.random() < 0.3 and not sc:
            c[2] = c[0]
            if r.random() < 0.5:
                c[3] = c[1]
        yield {"op": "hav", "c": c, "ty": ty, "ctx": r.choice(CTX)}
        ty = r.choice(tys)
        n = r.choice([0, 1, 5, 12])
        yield {"op": "norm", "f": r.choice(["l1", "l2", "linf"]), "c": [colv(n, ty, 5, 0.1) for _ in range(r.choice([1, 2, 3]))], "norm": r.random() < 0.5, "ty": ty, "ctx": r.choice(CTX)}
        n, s = r.choice([0, 1, 2, 3, 8]), r.random()
        xs = [val(ty, 20, 0) for _ in range(n)]
        if s < 0.8:
            xs.sort(reverse=s < 0.4)
            if r.random() < 0.4:
                xs = [v for j, v in enumerate(xs) if v not in xs[:j]]
        yield {"op": "mono", "x": nums(xs), "ty": ty, "ctx": r.choice(CTX)}
        yield {"op": "whole", "f": r.choice(["center", "znorm", "softmax"]), "x": colv(r.choice([0, 1, 3, 9, 30]), ty, r.choice([2, 20]), r.choice([0, 0.2])), "ty": ty, "ctx": r.choice(CTX)}
        yield {"op": "trend", "f": r.choice(["linear", "mean"]), "x": colv(r.choice([0, 1, 2, 3, 9, 30]), ty, r.choice([2, 20])), "ty": ty, "ctx": r.choice(CTX)}
        ty = r.choice(tys)
        n, dx = r.choice([0, 1, 2, 3, 9, 40]), r.random() < 0.4
        y = colv(n, ty, 20)
        yield {"op": "trapz", "y": y, "x": [num(r.choice([1.0, 0.5, 2.0, 0.1]))] if dx else nums(sorted(unnums(colv(n, ty, 30)))), "dx": dx, "ty": ty, "ctx": r.choice(CTX)}
        n, m = r.choice([3, 5, 8, 20, 60]), r.choice([2, 3, 4, 5, 9])
        h = colv(m, "f64", 4)
        if r.random() < 0.2:
            h.insert(r.randrange(len(h)), r.choice(["nan", "inf", "-inf"]))
        yield {"op": "conv", "x": colv(n, ty, 20, r.choice([0, 0.2]) if ty[0] == "f" else 0), "h": h, "as": r.choice(["list", "np", "pl", "expr"]), "fill": num(r.choice([0.0, 0.0, 1.5])), "how": r.choice(["direct", "direct", "fft"]),
               "mode": r.choice(["full", "same", "left", "right", "valid"]), "par": r.random() < 0.5, "ty": ty, "ctx": r.choice(CTX)}
        n = r.choice([1, 2, 3, 4, 7, 8, 12, 15])
        yield {"op": "fft", "x": colv(n, ty, 20), "n": str(r.choice([0, 0, 0, 2, 3, 5, 8, 16])), "full": r.random() < 0.5, "ty": ty, "ctx": r.choice(CTX)}
        n = r.choice([0, 1, 2, 3, 5, 9, 16])
        yield {"op": "iso", "y": colv(n, ty, r.choice([3, 20])), "w": nums([r.randrange(1, 16) / 4 for _ in range(n)]) if r.random() < 0.5 else [], "up": r.random() < 0.5, "ty": ty, "ctx": r.choice(CTX)}
        n, nul = r.choice([1, 3, 8, 20]), lambda: r.choice([0, 0, 0.2])
        tx = r.choice(["str", "int", "f64", "f32", "u8", "i8", "u32", "i32", "i64"])
        ty2 = tx if tx in ("str", "int") or tx[0] == "f" or r.random() < 0.7 else r.choice(["u8", "i32", "i64", "u32"])
        lev = r.choice([2, 4, 12])
        cc = lambda p: nums([None if r.random() < p else r.randrange(lev) for _ in range(n)])
        yield {"op": "jac", "x": cc(nul()), "y": cc(nul()), "tx": tx, "ty": ty2, "ctx": r.choice(CTX)}
        rows = r.choice([0, 1, 4, 9])
        ll = lambda: [["none"] if r.random() < 0.1 else [str(r.randrange(lev)) for _ in range(r.choice([0, 1, 2, 4, 6]))] for _ in range(rows)]
        yield {"op": "jacrow", "x": ll(), "y": ll(), "ty": r.choice(["str", "int", "u8"]), "ctx": r.choice(CTX)}
        n = r.choice([1, 4, 12, 40])
        yield {"op": "te", "x": nums([None if r.random() < 0.1 else r.randrange(lev) for _ in range(n)]), "t": nums([r.randrange(2) if i % 4 or r.random() < 0.9 else None for _ in range(n)]),
               "leaf": str(r.choice([1, 5, 20])), "smooth": num(r.choice([10.0, 1.0, 0.5])), "ty": r.choice(["f64", "u8", "i32", "i64", "f32"]), "ctx": r.choice([0, 1, 2, 3, 4, 7])}
        lo = r.choice([0.05, 0.1, 0.25, 0.3])
        ty = r.choice(tys)
        yield {"op": "wins", "x": colv(r.choice([0, 1, 2, 5, 11, 21, 40]), ty, 50, r.choice([0, 0.2])), "lo": num(lo), "hi": num(r.choice([0.5, 0.75, 0.9, 0.95])),
               "m": r.choice(["nearest", "lower", "higher", "midpoint", "linear"] if ty == "f64" else ["nearest", "lower", "higher"]), "ty": ty, "ctx": r.choice(CTX)}
        p, n, nu = r.choice([1, 2, 3]), r.choice([1, 2, 3, 5, 12, 30]), r.choice([0, 0, 0.1])
        ty = r.choice(tys)
        cs = [colv(n, ty, r.choice([3, 20]), nu) for _ in range(p)]
        yield {"op": "svd", "c": cs, "centre": r.random() < 0.6, "ty": ty, "ctx": r.choice(CTX)}
        cs = [colv(n, ty, r.choice([3, 20])) for _ in range(p)]
        yield {"op": "comps", "c": cs, "k": str(r.randrange(1, p + 1)), "centre": r.random() < 0.6, "ty": ty, "ctx": r.choice(CTX)}
        yield {"op": "amax", "x": [nums([r.randrange(6) / 2 for _ in range(r.choice([1, 2, 3, 5]))]) for _ in range(r.choice([0, 1, 4]))], "ctx": r.choice([0, 1, 4, 7])}
