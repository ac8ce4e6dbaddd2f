"""P16: combinations, products and random columns."""
import bisect
import polars as pl
import polars_ds as pds
from enc import num, nums, unnum, unnums
from ctx import ev, CTX
from frames import frame
from p15_transform import col
import polars_ds.exprs.stats as S
from polars_ds.exprs.expr_iter import combinations, product

TYS = ["i64", "f64", "str", "u8", "i8", "i32", "u32", "f32", "i16", "u16", "u64"]
ROWCTX = CTX + [8]
FLAT = [0, 0, 1, 2, 3, 4, 7]
N = 4000
CHARS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def column(name, xs, ty):
    if ty == "str":
        return pl.Series(name, [None if v == "null" else f"c{int(v):02}" for v in xs], dtype=pl.String)
    return col(name, xs, ty)


def back(v, ty):
    return v[1:].lstrip("0") or "0" if ty == "str" and v is not None else num(v)


def lists(s, ty):
    return [[back(v, ty) for v in q] for q in s.to_list() if q is not None]


def rows(e, d, x):
    if x == 8:
        return frame(d, 1).lazy().with_columns(e.alias("r__")).collect(engine="streaming")["r__"]
    return ev(e, d, x, rows=True)


def expr(c, seed, n):
    f, p = c["f"], [unnum(v) for v in c["p"]]
    k = {"seed": seed}
    if f not in ("perturb", "perturb_pos", "jitter", "add_uniform", "add_gauss") and n is not None:
        k["length"] = n
    a, b, x = (*p, None)[:2] + (pl.col("x"),) if len(p) < 2 else (*p, pl.col("x"))
    stat = c.get("how") == "stat"
    if f == "random":
        return S.random(x.min() if stat else a, x.max() if stat else b, **k)
    if f == "int":
        return S.random_int(x.min() if stat else int(a), x.max() if stat else int(b), **k)
    if f == "normal":
        return S.random_normal(x.mean() if stat else a, x.std() if stat else b, **k)
    if f in ("str", "size", "chars"):
        return S.random_str(int(a), int(b), **k)
    if f == "binom":
        return S.random_binomial(int(a), b, **k)
    if f == "exp":
        return S.random_exp(a, **k)
    if f in ("perturb", "perturb_pos"):
        return S.perturb("x", a, positive=f == "perturb_pos", **k)
    if f == "jitter":
        return S.jitter("x", a, **k)
    if f == "add_uniform":
        return S.add_noise("x", "uniform", epsilon=a, **k)
    if f == "add_gauss":
        return S.add_noise("x", "gaussian", std=a, **k)
    raise ValueError(f)


def run(c):
    op, x = c["op"], c.get("ctx", 0)
    if op == "comb":
        return {"o": lists(ev(combinations("x", c["k"], unique=c["uniq"]), {"x": column("x", c["x"], c["ty"])}, x), c["ty"])}
    if op == "prod":
        d = {"x": column("x", c["x"], c["ty"]), "y": column("y", (c["y"] + ["null"] * len(c["x"]))[:len(c["x"])], c["ty"])}
        return {"o": lists(ev(product("x", "y"), d, x), c["ty"])}
    n = len(c.get("x", []))
    seed = None if c["seed"] == "null" else int(c["seed"])
    if op == "draw":
        d = {"x": column("x", c["x"], c["ty"]), "z": pl.Series("z", range(n), dtype=pl.Int64)}
        e = lambda s: expr(c, s, n if c["len"] == "num" else pl.len() if c["len"] == "expr" else None)
        enc = (lambda s: [[-1] if v is None else [ord(h) for h in v] for v in s.to_list()]) if c["f"] == "str" else (lambda s: nums(s.to_list()))
        return {"v": enc(rows(e(seed), d, x)), "w": enc(rows(e(seed), d, 0)), "u": enc(rows(e((seed or 0) + 1), d, x))}
    if op == "nulls":
        d = {"x": column("x", c["x"], c["ty"]), "z": pl.Series("z", range(n), dtype=pl.Int64)}
        e = lambda: S.random_null("x", unnum(c["pct"]), seed=seed)
        r = lambda q: [back(v, c["ty"]) for v in rows(e(), d, q).to_list()]
        return {"v": r(x), "w": r(0)}
    if op == "dist":
        f = c["f"]
        if f == "nulls":
            v = pl.DataFrame({"x": [0.0] * N}).select(S.random_null("x", unnum(c["p"][0]), seed=seed))[:, 0].to_list()
            return {"n": N, "c": [sum(w is None for w in v)], "d": 0, "up": 0}
        if f in ("perturb", "perturb_pos", "jitter", "add_uniform", "add_gauss"):
            v = rows(expr(c, seed, None), {"x": pl.Series("x", [0.0] * N, dtype=pl.Float32 if c["ty"] == "f32" else pl.Float64)}, x).to_list()
        elif c["how"] == "stat":
            v = frame({"x": column("x", c["x"], c["ty"])}, 1).select(expr(c, seed, N))[:, 0].to_list()
        else:
            v = pl.select(expr(c, seed, N))[:, 0].to_list()
        if f == "size":
            v = [len(s) for s in v]
        if f == "chars":
            v = [CHARS.index(h) for s in v for h in s]
        s = sorted(v)
        return {"n": len(v), "c": [bisect.bisect_right(s, unnum(t)) for t in c["t"]], "d": len(set(v)), "up": sum(a <= b for a, b in zip(v, v[1:]))}
    raise ValueError(op)


def gen(r, tier):
    k = 2 if tier == "quick" else 8
    big = {"u8": 255, "i8": 127, "i16": 32767, "u16": 65535, "u32": 2**32 - 1, "i32": 2**31 - 1, "i64": 2**40, "u64": 2**63, "f64": 1e9, "f32": 1000, "str": 20}

    def vals(n, ty, nul=0.15, few=None):
        few = few or r.choice([3, 12])
        def one():
            if r.random() < nul:
                return None
            if ty == "str":
                return r.randrange(few)
            if ty[0] == "f":
                return r.randrange(-2 * few, 2 * few) / 4
            if r.random() < 0.1:
                return big[ty]
            return r.randrange(0 if ty[0] == "u" else -few, few)
        return nums([one() for _ in range(n)])

    def params(f):
        if f == "random":
            a = r.choice([0.0, -1.5, 100.0, -1e6, 0])
            return [a, a + r.choice([1.0, 0.5, 1e6, 3])]
        if f == "int":
            a = r.choice([0, -5, 100, -(2**31), 2**31 - 4])
            q = [a, min(2**31 - 1, a + r.choice([1, 2, 3, 10, 1000]))]
            return q[::-1] if r.random() < 0.3 else q
        if f in ("str", "size", "chars"):
            a = r.choice([0, 1, 3, 8])
            return [a, a + r.choice([0, 1, 3, 7])]
        if f == "binom":
            return [r.choice([1, 2, 5, 20, 60]), r.choice([0.0, 0.125, 0.3, 0.5, 0.9, 1.0])]
        if f == "exp":
            return [r.choice([1.0, 0.25, 3.0, 100.0, 1])]
        if f == "normal":
            return [r.choice([0.0, -7.5, 1000.0, 0, 3]), r.choice([1.0, 0.5, 3.0, 20.0, 1, 2])]
        if f == "nulls":
            return [r.choice([0.1, 0.5, 0.9, 0.01])]
        return [r.choice([1.0, 0.5, 8.0, 0.0625, 1e-5])] if f in ("perturb", "perturb_pos", "add_uniform") else [r.choice([1.0, 0.5, 8.0, 0.0625])]

    FS = ["random", "int", "str", "binom", "exp", "normal", "perturb", "perturb_pos", "jitter", "add_uniform", "add_gauss"]
    for _ in range(70 * k):
        ty, n = r.choice(TYS), r.choice([0, 1, 2, 4, 6, 9])
        yield {"op": "comb", "x": vals(n, ty), "k": r.choice([0, 1, 2, 3, 4]), "uniq": r.random() < 0.5, "ty": ty, "ctx": r.choice([0, 1, 2, 3, 4, 5, 5, 7])}
        ty, n = r.choice(TYS), r.choice([0, 1, 2, 4, 8])
        yield {"op": "prod", "x": vals(n, ty), "y": vals(r.randrange(n + 1), ty), "ty": ty, "ctx": r.choice([0, 1, 2, 3, 4, 5, 5, 7])}
        for f in FS:
            noisy = f in FS[6:]
            n = r.choice([0, 1, 2, 5, 17, 40])
            ty = r.choice(["f32", "f64"]) if noisy else r.choice(["i64", "f64", "f32", "u8", "i32"])
            x = vals(n, ty)
            if noisy and r.random() < 0.3:
                x = [r.choice(["nan", "inf", "-inf", v, v]) for v in x]
            how = "stat" if f in ("random", "int", "normal") and r.random() < 0.4 else "lit"
            ln = "rows" if noisy else r.choice(["rows", "rows", "num", "expr"])
            if how == "stat" and f == "int":
                x = [v if v == "null" or -2**31 <= unnum(v) < 2**31 else "7" for v in x]
                if ty[0] == "f":
                    x = [v if v == "null" else num(int(unnum(v))) for v in x]
            yield {"op": "draw", "f": f, "p": nums(params(f)), "how": how, "len": ln, "x": x, "ty": ty,
                   "seed": r.choice(["0", "1", "42", str(2**63), str(r.randrange(10**6)), "null"]), "ctx": r.choice(ROWCTX) if ln != "num" else r.choice(FLAT)}
        ty = r.choice(TYS)
        yield {"op": "nulls", "x": vals(r.choice([0, 1, 5, 30]), ty), "pct": num(r.choice([0.1, 0.5, 0.9])), "seed": r.choice(["3", "0", "null"]), "ty": ty, "ctx": r.choice(ROWCTX)}
    for f in FS[:2] + ["size", "chars"] + FS[3:] + ["nulls"]:
        for _ in range(3 * k):
            p = params(f)
            while f in ("size", "chars") and p[1] == 0 or f == "chars" and p[0] == 0:
                p = params(f)
            how, x, ty = "lit", [], "f32" if r.random() < 0.3 else "f64"
            q = p
            if f in ("random", "int", "normal") and r.random() < 0.4:
                how, ty = "stat", r.choice(["i64", "f64"])
                x = nums([r.randrange(-20, 20) if f == "int" or ty == "i64" else r.randrange(-80, 80) / 4 for _ in range(6)] + [50])
                w = unnums(x)
                m = sum(w) / 7
                q = [m, (sum((v - m) ** 2 for v in w) / 6) ** 0.5] if f == "normal" else [min(w), max(w)]
            if f in ("random", "int"):
                t = [min(q) + abs(q[1] - q[0]) * g / 8 for g in range(1, 8)]
            elif f in ("size",):
                t = list(range(int(q[0]), int(q[1]) + 1))
            elif f == "chars":
                t = [0, 9, 20, 35, 50, 60, 61]
            elif f == "binom":
                t = sorted({int(q[0] * g / 6) for g in range(7)})
            elif f == "exp":
                t = [g / 4 / q[0] for g in (1, 2, 4, 8, 12)]
            elif f == "normal":
                t = [q[0] + q[1] * g / 2 for g in range(-4, 5)]
            elif f in ("jitter", "add_gauss"):
                t = [q[0] * g / 2 for g in range(-4, 5)]
            elif f == "perturb_pos":
                t = [q[0] * g / 6 for g in range(0, 7)]
            elif f == "nulls":
                t = [0]
            else:
                t = [q[0] * g / 6 for g in range(-3, 4)]
            yield {"op": "dist", "f": f, "p": nums(p), "how": how, "x": x, "ty": ty, "t": nums(t), "seed": str(r.randrange(10**6)), "ctx": r.choice([0, 0, 8]) if f in FS[6:] else 0}
