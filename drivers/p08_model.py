"""P08: linear model objects."""
import io, contextlib
import numpy as np
import polars as pl
from polars_ds.linear_models import LR, ElasticNet, OnlineLR
from enc import num, nums, unnum
from frames import frame
from lr import NAMES, data


def arr(rows, lay=0):
    a = np.array([[unnum(v) if v != "null" else np.nan for v in r] for r in rows], dtype=np.float64)
    if lay == 1:
        return np.asfortranarray(a)
    if lay == 2:                      # a strided view
        b = np.zeros((2 * a.shape[0], a.shape[1] + 1))
        b[::2, :-1] = a
        return b[::2, :-1]
    if lay == 3:
        return a[::-1].copy()[::-1]
    return a


def fr(rows, cols, ys, ch, ints=False):
    d = {}
    for j, c in enumerate(cols):
        v = [None if r[j] == "null" else unnum(r[j]) for r in rows]
        d[c] = pl.Series(c, v, dtype=pl.Float64)
        if ints and all(x is None or x == int(x) for x in v):
            d[c] = d[c].cast(pl.Int32)
    if ys is not None:
        d["y"] = pl.Series("y", [None if y == "null" else unnum(y) for y in ys], dtype=pl.Float64)
    return frame(d, ch)


def obs(m):
    try:
        co = nums(np.asarray(m.coeffs()).tolist())
    except Exception:
        co = ["raised"]
    return {"fit": bool(m.is_fit()), "coeffs": co, "bias": num(m.bias())}


def do(m, s):
    """returns (model, extra result)"""
    k = s["do"]
    if k == "new":
        nm = {"feature_names_in_": list(s["names"])} if s["names"] else {}
        if s["m"] == "lr":
            return LR(has_bias=s["bias"], lambda_=unnum(s["l2"]), solver=s["solver"], **nm), {}
        if s["m"] == "en":
            return ElasticNet(unnum(s["l1"]), unnum(s["l2"]), has_bias=s["bias"], **nm), {}
        return OnlineLR(lambda_=unnum(s["l2"]), has_bias=s["bias"]), {}
    if k == "load":
        co, b = [unnum(x) for x in s["coeffs"]], unnum(s["b"])
        if s["m"] == "online":
            return OnlineLR.from_coeffs_bias_inverse(co, b, arr(s["inv"], s["lay"])), {}
        cls = LR if s["m"] == "lr" else ElasticNet
        return cls.from_values(co, b, **({"feature_names_in_": list(s["names"])} if s["names"] else {})), {}
    if k == "fit":
        y = np.array([np.nan if v == "null" else unnum(v) for v in s["y"]], dtype=np.float64)
        if s["short"]:
            y = y[:-1]
        if s["ysh"] == 1:
            y = y.reshape((-1, 1))
        if isinstance(m, OnlineLR):
            m.fit(arr(s["X"], s["lay"]), y)
        elif s["policy"] == "ignore":
            m.fit(arr(s["X"], s["lay"]), y)
        else:
            m.fit(arr(s["X"], s["lay"]), y, null_policy=s["policy"])
        return m, {}
    if k == "fit_df":
        df = fr(s["X"], s["cols"], s["y"], s["ch"], s["ints"])
        m.fit_df(df.lazy() if s["lazy"] else df, list(s["cols"]), "y", null_policy=s["policy"])
        return m, {}
    if k == "names":
        m.set_input_features(list(s["cols"]))
        return m, {}
    if k == "update":
        x = np.array([np.nan if v == "null" else unnum(v) for v in s["x"]])
        y = np.nan if s["y"] == "null" else unnum(s["y"])
        m.update(x.reshape((1, -1)) if s["sh"] else x, np.array([[y]]) if s["sh"] == 1 else y, unnum(s["c"]))
        return m, {}
    if k == "predict":
        return m, {"pred": nums(np.asarray(m.predict(arr(s["Q"], s["lay"]))).ravel().tolist())}
    if k == "predict_df":
        df = fr(s["Q"], s["cols"], None, s["ch"])
        r = m.predict_df(df.lazy() if s["lazy"] else df, name=s["name"])
        r = r.collect() if s["lazy"] else r
        return m, {"pred": nums(r[s["name"]].to_list())}
    if k == "inv":
        return m, {"inv": [nums(r) for r in np.asarray(m.inv()).tolist()]}
    raise AssertionError(k)


def run(c):
    m, out = None, []
    for s in c["steps"]:
        raised, extra = False, {}
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                m, extra = do(m, s)
        except (ValueError, TypeError, IndexError):      # refusals; a panic is not one
            raised = True
        repr(m)
        out.append({"raised": raised, "obs": obs(m), **extra})
    return {"steps": out}


def history(r):
    m = r.choice(["lr", "lr", "online", "online", "en"])
    p = r.choice([1, 2, 2, 3])
    usual = NAMES[:p]
    some = lambda: usual if r.random() < 0.6 else r.sample(NAMES, p)
    new = lambda: {"do": "new", "m": m, "bias": r.random() < 0.5, "l1": r.choice(["1/8", "1/2"]) if m == "en" else "0",
                   "l2": r.choice(["0", "0", "1/2", "2"]), "solver": r.choice(["qr", "svd", "choleskey"]), "names": some() if m != "online" and r.random() < 0.3 else []}
    steps = [new()]
    kinds = [0 if m == "en" else r.choice([0, 0, 1, 3]) for _ in range(p + 1)]   # far-off values make coordinate descent stop short
    seen, loaded = [], False
    for _ in range(r.randint(2, 9)):
        u = r.random()
        lay = r.choice([0, 1, 2, 3])
        if u < 0.3 and not (m == "en" and loaded):
            n = r.choice([p - 1, p + 2, p + 3, p + 3, 6]) or 1
            nx, ny = r.choice([(0, 0), (0, 0), (0.2, 0), (0, 0.2)]) if m != "online" or r.random() < 0.15 else (0, 0)
            X, y = data(r, n, p, nx, ny, kinds)
            miss = any("null" in row for row in X) or "null" in y
            pol = r.choice(["raise", "skip", "zero", "one", "2.5", "-1"] + (["ignore"] if not miss else []) + (["abc"] if r.random() < 0.2 else []))
            if m == "online":
                pol = "ignore"
            if m != "online" and r.random() < 0.5:
                s = {"do": "fit_df", "X": X, "y": y, "policy": pol, "cols": some(), "ch": r.choice([0, 1, 2]), "lazy": r.random() < 0.3, "ints": r.random() < 0.3, "short": False}
            else:
                s = {"do": "fit", "X": X, "y": y, "policy": pol, "lay": lay, "ysh": r.choice([0, 1]), "short": r.random() < 0.07 and pol in ("ignore", "zero", "one")}
            if s["policy"] == "abc":
                s["policy"] = r.choice(["abc", "nan", "inf"])
            steps.append(s)
            seen = list(zip(X, y))
        elif u < 0.38:
            coeffs = [num(r.choice([0, 1, -2, 0.5, 3])) for _ in range(p)]
            b = r.choice(["0", "0", "3", "-1/2"])
            s = {"do": "load", "m": m, "coeffs": coeffs, "b": b, "names": some() if r.random() < 0.5 else [], "lay": lay}
            if m == "online":
                d = p + (b != "0")
                s["inv"] = [[num((i == j) * r.choice([1, 0.5, 2]) + 0.25 * (abs(i - j) == 1)) for j in range(d)] for i in range(d)]
                s["inv"] = [[s["inv"][min(i, j)][max(i, j)] for j in range(d)] for i in range(d)]
                s["names"] = []
                if r.random() < 0.25:          # an inverse that does not belong to these coefficients
                    how = r.choice(["row", "col", "both", "less"])
                    if how in ("row", "both"):
                        s["inv"].append(["1"] * d)
                    if how in ("col", "both"):
                        s["inv"] = [q + ["1"] for q in s["inv"]]
                    if how == "less" and d > 1:
                        s["inv"] = s["inv"][:-1]
            steps.append(s)
            if m == "online" and (len(s["inv"]) != d or len(s["inv"][0]) != d):
                continue
            seen, loaded = [], True
        elif u < 0.42:
            steps.append(new())
            seen, loaded = [], False
        elif u < 0.75 and m == "online":
            if seen and r.random() < 0.35:
                x, y = r.choice(seen)
                steps.append({"do": "update", "x": x, "y": y, "c": "-1", "sh": r.choice([0, 1, 2])})
                if "null" not in x and y != "null":
                    seen.remove((x, y))
            else:
                X, y = data(r, 1, p, 0.08, 0.08, kinds)
                c = r.choice(["1", "1", "1", "1/2", "2"])
                steps.append({"do": "update", "x": X[0], "y": y[0], "c": c, "sh": r.choice([0, 1, 2])})
                if c == "1":
                    seen.append((X[0], y[0]))
        elif u < 0.48 and m != "online":
            steps.append({"do": "names", "cols": some()})
        elif u < 0.6 and m != "online":
            Q, _ = data(r, r.choice([1, 3]), len(NAMES), r.choice([0, 0.2]), 0, [kinds[0]] * (len(NAMES) + 1))
            steps.append({"do": "predict_df", "Q": Q, "cols": r.sample(NAMES, len(NAMES)), "name": r.choice(["p", "prediction"]), "ch": r.choice([0, 1, 2]), "lazy": r.random() < 0.4})
        elif u < 0.85 or m != "online":
            q = p if r.random() < 0.9 else p + 1
            Q, _ = data(r, r.choice([1, 3]), q, 0, 0, [0] * (q + 1))
            steps.append({"do": "predict", "Q": Q, "lay": lay})
        else:
            steps.append({"do": "inv"})
    return {"op": "model", "steps": steps}


def gen(r, tier):
    for _ in range(2400 if tier == "quick" else 6000):
        yield history(r)
