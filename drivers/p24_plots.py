"""P24: drawings show the data they are given."""
import random
import re
import polars as pl
import numpy as np
import altair as alt
import polars_ds as pds
from polars_ds.eda.plots import plot_feature_distr, plot_lin_reg, plot_pca, plot_prob_calibration, plot_roc_auc
from polars_ds.eda.diagnosis import DIA
from enc import num, nums, unnum, unnums
from frames import chunked

alt.data_transformers.enable("default", max_rows=None)
T = {"f64": pl.Float64, "f32": pl.Float32, "i64": pl.Int64, "i32": pl.Int32, "i8": pl.Int8, "u8": pl.UInt8, "u32": pl.UInt32}


def col(name, ty, v, k=1):
    return chunked(pl.Series(name, [None if x is None else x if ty[0] == "f" else int(x) for x in unnums(v)], dtype=T[ty]), k)


def layers(d):
    """(mark, encoding, rows) of every layer of a drawing."""
    sets = d.get("datasets", {})

    def walk(node, data):
        data = node.get("data", data)
        subs = [s for k in ("layer", "vconcat", "hconcat", "concat") for s in node.get(k, [])]
        if not subs:
            mark = node["mark"]["type"] if isinstance(node["mark"], dict) else node["mark"]
            yield mark, node.get("encoding", {}), (sets[data["name"]] if "name" in data else data["values"]), node
        for s in subs:
            yield from walk(s, data)
    return list(walk(d, None))


def field(enc, ch):
    return enc[ch]["field"]


def drawn(op, chart):
    return layers(chart.to_dict())


LABEL = re.compile(r"^(.*) \(AUC = ([^)]*)\)$", re.S)
EQ = re.compile(r"^y = (\S+) \* x(?: ([+-]) (\S+))?, r2 = (\S+)$")


def curve_args(c, what):
    tgt = {"list": lambda t: t, "bool": lambda t: pl.Series(t).cast(pl.Boolean), "i64": pl.Series, "u8": lambda t: pl.Series(t, dtype=pl.UInt8), "np": np.array}[c["tty"]](c["target"])
    ser = [col("" if c["anon"] else p["name"], c["ty"], p["v"], c["layout"]) for p in c["preds"]]
    if c["single"]:
        return {"target": tgt, what: ser[0], "name": c["preds"][0]["name"]}
    return {"target": tgt, what + "s": ser, "names": [p["name"] for p in c["preds"]]}


def by_label(rows, key):
    out = {}
    for x in rows:
        out.setdefault(x[key], []).append(x)
    return out


def run(c):
    op = c["op"]
    if op == "call":
        q = c["call"]
        t = [0, 1] * 20
        t = t[:q.get("target", 0)]
        s = lambda n: pl.Series([i / 40 for i in range(n)], dtype=pl.Float64)
        if q["fn"] in ("roc", "cal"):
            what = "pred" if q["fn"] == "roc" else "score"
            kw = {"target": t}
            if q["one"] >= 0:
                kw[what] = s(q["one"])
            if q["name"]:
                kw["name"] = "p"
            if q["many"]:
                kw[what + "s"] = [s(n) for n in q["lens"]]
            if q["nnames"] >= 0:
                kw["names"] = ["n%d" % i for i in range(q["nnames"])]
            (plot_roc_auc if q["fn"] == "roc" else plot_prob_calibration)(**kw).to_dict()
        elif q["fn"] == "dist":
            df = pl.DataFrame({"x": [1.0, 2.0, 3.0, None], "g": ["a", "b", "a", "b"]})
            kw = {"feature": "x" if q["col"] else [1.0, 2.0, None], "n_bins": q["bins"], "density": q["density"]}
            if q["df"]:
                kw["df"] = df
            if q["over"]:
                kw["over"] = "g"
            plot_feature_distr(**kw).to_dict()
        else:
            df = pl.DataFrame({"x%d" % i: [((i + 2) * j * j) % 7 * 1.0 for j in range(8)] for i in range(4)} | {"g": list("abababab")})
            plot_pca(df, ["x%d" % i for i in range(q["nfeat"])], by="g", dim=q["dim"]).to_dict()
        return {"ok": 1}
    if op == "roc":
        ch = plot_roc_auc(**curve_args(c, "pred"), show_auc=c["show"], n_decimals=c["dec"])
        L = layers(ch.to_dict())
        _, enc, rows, _ = L[1]
        curves = []
        for k, g in by_label(rows, field(enc, "color")).items():
            m = LABEL.match(k) if c["show"] else None
            curves.append({"name": m.group(1) if m else k, "auc": num(float(m.group(2))) if m else "none", "pts": [[num(x[field(enc, "x")]), num(x[field(enc, "y")])] for x in g]})
        return {"curves": curves}
    if op == "cal":
        ch = plot_prob_calibration(**curve_args(c, "score"), n_bins=c["bins"])
        _, enc, rows, _ = layers(ch.to_dict())[1]
        return {"curves": [{"name": k, "pts": [[num(x[field(enc, "x")]), num(x[field(enc, "y")])] for x in g]} for k, g in by_label(rows, field(enc, "color")).items()]}
    if op == "line":
        n = c["names"]
        cols = [col(n[0], c["tys"][0], c["x"], c["layout"]), col(n[1], c["tys"][1], c["y"], 1)]
        if c["w"]:
            cols.append(col(n[2], c["tys"][2], c["w"], c["layout"]))
        cols.append(pl.Series("more", list(range(len(c["x"])))))
        df = pl.DataFrame(cols)
        kw = {"weights": n[2]} if c["w"] else {}
        ch = plot_lin_reg(df.lazy() if c["lazy"] else df, n[0], n[1], add_bias=c["bias"], max_points=c["max"], show_lin_reg_eq=c["eq"], **kw)
        L = layers(ch.to_dict())
        (m1, e1, r1, _), (m2, e2, r2, _) = L
        assert m1 == "point" and m2 == "line" and r1 == r2 and field(e1, "x") == field(e2, "x") == n[0] and field(e1, "y") == n[1]
        title = e2["x"]["title"]
        title = title if isinstance(title, list) else [title]
        assert title[0] == n[0]
        out = {"pts": [[num(x[n[0]]), num(x[n[1]]), num(x[field(e2, "y")])] for x in r1], "says": len(title) > 1}
        if len(title) > 1:
            m = EQ.match(title[1])
            out |= {"b": num(float(m.group(1))), "a": num((float(m.group(3)) if m.group(2) == "+" else -float(m.group(3))) if m.group(2) else 0.0), "r2": num(float(m.group(4)))}
        return out
    if op == "pca":
        df = pl.DataFrame([col(x["name"], "f64", x["v"], c["layout"]) for x in c["cols"]] + [pl.Series("grp", c["by"])])
        feats = [x["name"] for x in c["cols"]]
        f = pl.col(feats[0]) >= unnum(c["filt"]) if c["filt"] else None
        by = {"str": "grp", "expr": pl.col("grp"), "named": pl.col("grp").alias("colour")}[c["how"]]
        L = layers(plot_pca(df.lazy() if c["lazy"] else df, feats, by=by, center=c["center"], filter_by=f, max_points=c["max"]).to_dict())
        _, enc, rows, _ = L[0]
        fr = df if f is None else df.filter(f)
        ref = fr.select(pds.principal_components(*feats, center=c["center"], k=2).alias("pc"), "grp").unnest("pc")
        return {"pts": [[num(x[field(enc, "x")]), num(x[field(enc, "y")]), x[field(enc, "color")]] for x in rows], "ref": [[num(a), num(b), g] for a, b, g in ref.rows()]}
    # distributions
    feat = c["name"]
    x = col(feat, c["ty"], c["v"], c["layout"])
    df = pl.DataFrame([pl.Series("pad", [1] * len(x)), x, pl.Series("grp", c["g"], dtype=pl.String), col("other", "f64", c["other"])])
    kw = {"density": c["density"], "show_bad_values": c["bad"]} | ({"n_bins": c["bins"]} if c["bins"] else {}) | ({"over": "grp"} if c["over"] else {})
    src = df.lazy() if c["lazy"] else df
    if c["via"] == "dia":
        if c["filt"]:
            kw["filter_by"] = pl.col("other") >= unnum(c["filt"])
        if c["lo"]:
            kw["min_"] = pl.col(feat).mean() if c["lo"] == "mean" else unnum(c["lo"])
        if c["hi"]:
            kw["max_"] = pl.lit(unnum(c["hi"])) if c["layout"] == 2 else unnum(c["hi"])
        ch = DIA(src).plot_feature_distr(feat, **kw)
    elif c["via"] == "fn":
        ch = plot_feature_distr(feature=feat, df=src, **kw)
    else:
        ch = plot_feature_distr(feature={"series": x, "list": x.to_list(), "iter": iter(x.to_list())}[c["via"]], **kw)
    L = layers(ch.to_dict())
    mark, enc, rows, node = L[0]
    fx = field(enc, "x")
    out = {"data": [[num(r[fx]), r[field(enc, "color")] if c["over"] else "-"] for r in rows], "bins": -1, "marks": [], "bad": []}
    if c["density"]:
        assert node["transform"][0]["density"] == fx and node["transform"][0].get("groupby", []) == (["grp"] if c["over"] else [])
    else:
        assert mark == "bar" and enc["y"]["aggregate"] == "count"
        out["bins"] = enc["x"]["bin"]["maxbins"]
    for mark, enc, rows, _ in L[1:]:
        if mark == "rule":
            out["marks"] = [[r["names"], num(r[field(enc, "x")])] for r in rows]
        else:
            out["bad"] = [[r[field(enc, "y")], num(r[field(enc, "x")])] for r in rows]
    return out


def gen(r, tier):
    k = 2 if tier == "quick" else 6
    eighths = lambda n, a=-40, b=41: [num(r.randrange(a, b) / 8) for _ in range(n)]
    for i in range(90 * k):
        n = r.choice([2, 3, 4, 6, 9, 15, 25, 40])
        lev = r.choice([1, 2, 3, 8, 1000])
        ty = "f64" if i % 4 else r.choice(["i64", "f64", "i32"])
        m = r.choice([1, 1, 2, 3])
        pool = [num(r.randrange(0, 1001) / 1000) if ty[0] == "f" else str(r.randrange(-3, 9)) for _ in range(lev)]
        t = [r.randrange(2) for _ in range(n)]
        if len(set(t)) < 2 and i % 10:
            t[0] = 1 - t[-1]
        names = r.sample(["p", "q", "model (AUC = 1)", "fpr", "s", "name", "tpr"], m)
        yield {"op": "roc", "target": t, "preds": [{"name": names[j], "v": [r.choice(pool) for _ in range(n)]} for j in range(m)], "single": m == 1 and i % 2 == 0, "show": r.random() < 0.75,
               "dec": r.choice([4, 4, 2, 1, 6]), "ty": ty, "tty": r.choice(["list", "bool", "i64", "u8"]), "anon": r.random() < 0.5, "layout": r.randrange(4)}
    for i in range(70 * k):
        n = r.choice([12, 16, 25, 33, 41, 60])
        b = r.choice([2, 3, 4, 5, 8, 10, 11, 10, 12])
        m = r.choice([1, 1, 2, 3])
        preds = []
        for j in range(m):
            v = r.sample(range(0, 1025), n)
            if r.random() < 0.4:      # some ties
                v = [r.choice(v[:max(2, n - 3)]) for _ in v]
            preds.append({"name": ["p", "q", "score", "a b"][(i + j) % 4], "v": [num(x / 1024) for x in v]})
        yield {"op": "cal", "target": [r.randrange(2) for _ in range(n)], "preds": preds, "bins": b, "single": m == 1 and i % 2 == 0, "ty": "f64", "tty": r.choice(["list", "bool", "i64", "u8", "np"]), "anon": r.random() < 0.5, "layout": r.randrange(4)}
    for i in range(110 * k):
        n = r.choice([2, 3, 5, 8, 13, 30])
        tys = [r.choice(["f64", "f64", "i64", "i8", "u8", "i32"]) for _ in range(3)]
        rnd = lambda ty: num(r.randrange(-40, 41) / 8) if ty[0] == "f" else str(r.randrange(0, 256) if ty == "u8" else r.randrange(-128, 128) if ty == "i8" else r.randrange(-1000, 1000))
        x, y = [rnd(tys[0]) for _ in range(n)], [rnd(tys[1]) for _ in range(n)]
        if r.random() < 0.3 and tys[0][0] == tys[1][0] == "f":     # on a line, through the origin or not
            s, a = r.randrange(-8, 9) / 4, r.choice([0, 0, 1.5, -2.25])
            y = [num(unnum(v) * s + a) for v in x]
        w = []
        if r.random() < 0.4:
            w = [num(r.randrange(0, 17) / 4) if tys[2][0] == "f" else str(r.randrange(0, 100)) for _ in range(n)]
        if r.random() < 0.3:
            for v in (x, y, w):
                if v and r.random() < 0.6:
                    v[r.randrange(n)] = "null"
        yield {"op": "line", "x": x, "y": y, "w": w, "tys": tys, "names": r.choice([["x", "y", "w"], ["a", "b", "c"], ["col x", "target", "weights"], ["beta", "alpha", "r2"], ["y", "x", "len"]]), "bias": r.random() < 0.6,
               "max": r.choice([20000, 20000, n, n - 1, max(1, n // 2)]), "eq": r.random() < 0.8, "lazy": r.random() < 0.5, "layout": r.randrange(4)}
    for i in range(40 * k):
        n = r.choice([4, 6, 10, 20])
        m = r.choice([2, 2, 3, 4])
        cols = [{"name": nm, "v": eighths(n)} for nm in r.sample(["x", "y", "z", "pc", "u v", "f"], m)]
        yield {"op": "pca", "cols": cols, "by": [r.choice("abc") for _ in range(n)], "center": r.random() < 0.7, "filt": r.choice(["", "", sorted(cols[0]["v"], key=unnum)[max(0, n - 4 - r.randrange(n))]]),
               "how": r.choice(["str", "expr", "named"]), "max": r.choice([10000, 3, n]), "lazy": r.random() < 0.5, "layout": r.randrange(4)}
    for i in range(110 * k):
        n = r.choice([1, 2, 3, 6, 11, 21, 40])
        via = r.choice(["dia", "dia", "fn", "series", "list", "iter"])
        ty = r.choice(["f64", "f64", "i64", "f32", "i32", "u8"])
        v = eighths(n) if ty[0] == "f" else [str(r.randrange(0, 100)) for _ in range(n)]
        c = {"lo": "", "hi": "", "filt": ""}
        clean = True
        if via == "dia":
            if r.random() < 0.5:
                c["lo"] = r.choice(["mean", r.choice(v)])
            if r.random() < 0.5:
                c["hi"] = r.choice(v)
            if r.random() < 0.4:
                c["filt"] = "0"
            clean = bool(c["lo"] or c["hi"])
        if not clean or r.random() < 0.1 and not c["lo"] and not c["hi"]:
            p = r.choice([0, 0.1, 0.4])
            sp = ["null"] + (["nan", "inf", "-inf"] if ty[0] == "f" and r.random() < 0.5 else [])
            v = [r.choice(sp) if r.random() < p else x for x in v]
        other = eighths(n)
        if c["filt"] and c["filt"] == "0":
            other[0] = "1"
        if c["lo"] or c["hi"]:          # something has to be left
            xs = sorted(v, key=unnum)
            if c["hi"] and c["lo"]:
                c["lo"], c["hi"] = ("mean", xs[-1]) if c["lo"] == "mean" else (min(c["lo"], c["hi"], key=unnum), max(c["lo"], c["hi"], key=unnum))
            c["filt"] = c["filt"] and "-10"
        yield {"op": "dist", "v": v, "ty": ty, "name": r.choice(["x", "the feature", "feature", "len"]) if via in ("dia", "fn") else "feature", "g": [r.choice(["u", "v", "w"]) for _ in range(n)], "other": other, "via": via,
               "over": via in ("dia", "fn") and r.random() < 0.4, "density": r.random() < 0.2, "bad": r.random() < 0.8, "bins": r.choice([0, 3, 5, 10, 25]), "lazy": r.random() < 0.5, "layout": r.randrange(4), **c}


# every shape of call comes from the specification
