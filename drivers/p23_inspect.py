"""P23: data inspection."""
import random
import re
import polars as pl
import polars_ds as pds
from polars_ds.eda.diagnosis import DIA
from enc import num, nums, unnum
from frames import chunked

T = {"i64": pl.Int64, "i32": pl.Int32, "i8": pl.Int8, "u8": pl.UInt8, "u32": pl.UInt32, "f64": pl.Float64, "f32": pl.Float32, "bool": pl.Boolean,
     "str": pl.String, "cat": pl.Categorical, "lf": pl.List(pl.Float64), "li": pl.List(pl.Int64), "ls": pl.List(pl.String), "lb": pl.List(pl.Boolean), "other": pl.Date}
NUM = ["i64", "i32", "i8", "u8", "u32", "f64", "f32"]
text = lambda v: None if v == [-1] else "".join(map(chr, v))


def cell(ty, v):
    if ty in ("str", "cat"):
        return text(v)
    if ty[0] == "l":
        if v == ["no"]:
            return None
        return [None if x == "null" else x if ty == "ls" else bool(int(x)) if ty == "lb" else int(x) if ty == "li" else unnum(x) for x in v]
    if v == "null":
        return None
    return bool(int(v)) if ty == "bool" else unnum(v) if ty[0] == "f" else int(v)


def back(ty, v):
    """A cell of the frame in the encoding of the specification."""
    return [-1] if v is None and ty in ("str", "cat") else [ord(ch) for ch in v] if isinstance(v, str) else num(v)


def series(c):
    if c["ty"] == "other":
        import datetime
        return pl.Series(c["name"], [None if v == "null" else datetime.date(2020, 1, 1 + int(v)) for v in c["v"]], dtype=pl.Date)
    return pl.Series(c["name"], [cell(c["ty"], v) for v in c["v"]], dtype=T[c["ty"]])


def made(c):
    k = c["layout"]
    df = pl.DataFrame([chunked(series(x), k if i % 2 == 0 else k + 1 if k > 1 else k) for i, x in enumerate(c["cols"])])
    return DIA(df.lazy() if c.get("lazy") else df)


CMP = {"lt": lambda e, v: e < v, "le": lambda e, v: e <= v, "gt": lambda e, v: e > v, "ge": lambda e, v: e >= v, "ne": lambda e, v: e != v, "known": lambda e, v: e.is_not_null()}
AGG = {"min": lambda e: e.min(), "max": lambda e: e.max(), "nulls": lambda e: e.null_count(), "n": lambda e: e.n_unique()}
rule = lambda r: CMP[r["cmp"]](pl.col(r["col"]), unnum(r["val"]))
EDGE = re.compile(r'^\s*("?)(.*?)\1 -> ("?)(.*?)\3\s*(\[.*\])?\s*$')


def run(c):
    d, op = made(c), c["op"]
    if op == "session":
        out = []
        for i, q in enumerate(c["asks"]):
            k = q["q"]
            a = (d.infer_prob() if k == "prob" else d.infer_high_null(unnum(q["t"])) if k == "high" else d.infer_discrete(unnum(q["t"]), q["m"]) if k == "disc"
                 else d.infer_const(q["inc"]) if k == "const" else d.infer_binary(include_null=q["inc"]) if k == "binary" else d.infer_k_distinct(q["k"], q["inc"]))
            out.append(list(a))
            if i % 2:
                a.append("zzz")
            else:
                a.clear()
        return {"a": out}
    if op == "meta":
        return d.meta()
    if op == "special":
        r = d.special_values_report()
        return {"rows": [dict(zip(("column", "nulls", "nullp", "nans", "nanp", "infs", "infp"), (x[0], int(x[1]), num(x[2]), int(x[3] or 0), num(x[4]), int(x[5] or 0), num(x[6])))) for x in r.rows()]}
    if op == "profile":
        r = d.numeric_profile(n_bins=c["bins"], iqr_multiplier=unnum(c["mult"]), histogram=c["hist"], gt=bool(c.get("gt")))
        r = r._tbl_data if c.get("gt") else r
        f = lambda x, k: num(x[k])
        return {"rows": [{"column": x["column"], "count": x["non_null_cnt"], "nullp": f(x, "null%"), "iqr": f(x, "IQR"), "outliers": x["outlier_cnt"],
                          **{k: f(x, k) for k in ("mean", "std", "min", "max", "q1", "median", "q3")},
                          "hist": [int(h) for h in (list(x["histogram"].values())[0] or [])] if c["hist"] else []} for x in r.to_dicts()]}
    if op == "strs":
        r = d.str_stats()
        return {"rows": [{"column": x["column"], "nulls": x["null_count"], "nunique": x["n_unique"], "most": back("str", x["most_freq"]), "mostcnt": x["most_freq_cnt"] if x["most_freq_cnt"] is not None else 0,
                          "minb": num(x["min_byte_len"]), "minc": num(x["min_char_len"]), "avgb": num(x["avg_byte_len"]), "avgc": num(x["avg_char_len"]),
                          "maxb": num(x["max_byte_len"]), "maxc": num(x["max_char_len"]), "b5": num(x["5p_byte_len"]), "b95": num(x["95p_byte_len"])} for x in r.to_dicts()]}
    if op == "rows":
        kw = {"id_col": c["id"]} if c.get("id") else {}
        r = d.row_validation(*[(rule(x), x["name"]) for x in c["rules"]], columns_to_keep=c["keep"] or None, all_reasons=c["all"], **kw)
        ty = {x["name"]: x["ty"] for x in c["cols"]}
        why = r["__reason__"].to_list()
        ids = r[c["id"] if c.get("id") else "__index__"].to_list()
        return {"ids": [str(i) for i in ids], "why": [list(w) if c["all"] else [w] for w in why], "kept": [[back(ty[k], v) for v in r[k].to_list()] for k in c["keep"]]}
    if op == "colrules":
        r = d.col_validation(*[(CMP[x["cmp"]](AGG[x["agg"]](pl.col(x["col"])), unnum(x["val"])), x["name"]) for x in c["rules"]])
        return {"rows": [list(x) for x in r.rows()]}
    if op == "nullcorr":
        r = d.null_corr(pl.col(c["subset"]), filter_by=rule(c["filter"][0]) if c["filter"] else None)
        return {"rows": [{"x": x, "y": y, "v": num(v)} for x, y, v in r.rows()]}
    if op == "corr":
        r = d.plot_corr(c["subset"], method=c["method"])._tbl_data if c.get("plot") else d.corr(c["subset"], method=c["method"])
        return {"rows": [{"column": x[0], "names": r.columns[1:], "v": nums(x[1:])} for x in r.rows()]}
    if op == "infercorr":
        return {"rows": [{"x": x, "y": y, "v": num(v)} for x, y, v in d.infer_corr(method=c["method"]).rows()]}
    if op == "dep":
        return {"rows": [{"x": x, "y": y, "v": num(v)} for x, y, v in d.infer_dependency(pl.col(c["subset"])).select("column", "by", "cond_entropy").rows()]}
    g = d.plot_dependency(threshold=unnum(c["thr"]), subset=pl.col(c["subset"]))
    return {"edges": [[m.group(2), m.group(4)] for m in (EDGE.match(x) for x in g.body) if m]}


NAMES = ["a", "b", "x1", "count", "literal", "len", "col g", "zed", "Ünï", "column", "q1", "null_count"]


def gen(r, tier):
    k = 2 if tier == "quick" else 6
    cps = lambda s: [-1] if s is None else [ord(ch) for ch in s]

    def col(name, ty, n, nulls=0.15, lev=None, special=True):
        lev = lev or r.choice([1, 2, 3, 5, 50])
        pool = []
        for _ in range(lev):
            if ty in ("str", "cat"):
                pool.append(cps("".join(r.choice("ab é漢𝄞") for _ in range(r.randrange(4)))))
            elif ty == "lf":
                m = r.choice([2, 2, 3])
                q = r.randrange(6)
                if q < 4:                      # shares that sum to one, more or less
                    w = [r.randrange(1, 6) for _ in range(m)]
                    s = [x / sum(w) for x in w]
                    if q == 3:
                        s[0] += r.choice([1e-3, -1e-5, 1e-4, -0.5])
                    pool.append(nums(s))
                else:
                    pool.append(nums([r.choice([0.0, 0.25, 0.5, 1.0, -0.25, 1.25]) for _ in range(m)]))
            elif ty == "li":
                pool.append([str(r.randrange(3)) for _ in range(r.randrange(3))])
            elif ty == "ls":
                pool.append([r.choice(["u", "v"]) for _ in range(r.randrange(3))])
            elif ty == "lb":
                pool.append([r.choice(["0", "1"]) for _ in range(r.randrange(3))])
            elif ty == "bool":
                pool.append(r.choice(["0", "1"]))
            elif ty == "other":
                pool.append(str(r.randrange(20)))
            elif ty[0] == "f":
                pool.append(num(r.choice([r.randrange(0, 9) / 8, r.randrange(-40, 41) / 4, r.randrange(0, 2), r.randrange(0, 9) / 8])))
            else:
                lo, hi = (0, 200) if ty[0] == "u" else (-100, 100)
                pool.append(str(r.randrange(lo, hi)))
        if special and ty[0] == "f" and r.random() < 0.25:
            pool += r.sample(["nan", "inf", "-inf"], r.randrange(1, 3))
        if ty[0] == "f" and r.random() < 0.4:        # a probability but for one cell
            pool = [p for p in pool if p in ("0", "1") or (p[0] not in "-ni" and "/" in p and unnum(p) <= 1)] or ["1/2"]
            v = [r.choice(pool) for _ in range(n)]
            if n and r.random() < 0.5:
                v[r.randrange(n)] = r.choice(["-1/8", "9/8", "1", "0"] + (["nan"] if special else []))
        else:
            v = [r.choice(pool) for _ in range(n)]
        if ty == "lf" and lev > 1 and n > 1 and r.random() < 0.6:    # the same share in every row but one
            good = nums([r.randrange(1, 4) / 4] * 0 + [0.25, 0.75])
            bad = pool[0]
            v = [good] * n
            v[r.randrange(n)] = bad
        nul = [-1] if ty in ("str", "cat") else ["no"] if ty[0] == "l" else "null"
        return {"name": name, "ty": ty, "v": [nul if r.random() < nulls else x for x in v]}

    def base(tys, n, nulls=None, **kw):
        names = r.sample(NAMES, len(tys))
        return {"cols": [col(nm, t, n, r.choice([0, 0, 0.1, 0.5, 0.9]) if nulls is None else nulls, **kw) for nm, t in zip(names, tys)], "layout": r.randrange(4), "lazy": r.random() < 0.5}

    height = lambda: r.choice([1, 2, 3, 5, 8, 12, 20, 40])
    anyty = list(T)
    for i in range(90 * k):
        c = base([r.choice(anyty if i % 2 else ["f64", "f32", "lf", "lf"]) for _ in range(r.randrange(1, 6))], height() if i % 15 else 0)
        asks = []
        for _ in range(r.randrange(2, 7)):
            q = r.choice(["prob", "prob", "high", "disc", "const", "binary", "k"])
            asks.append({"q": q, "t": num(r.choice([0.1, 0.25, 0.5, 0.75, 0.9, 1 / 3])), "m": r.choice([1, 2, 3, 5, 100]), "k": r.choice([1, 2, 3, 4]), "inc": r.random() < 0.5})
        asks.append(dict(r.choice(asks)))
        if len(c["cols"][0]["v"]) == 0:
            asks = [a for a in asks if a["q"] in ("const", "binary", "k")] or [{"q": "const", "inc": False, "t": "1/2", "m": 1, "k": 1}]
        yield {"op": "session", "asks": asks, **c}
    for i in range(15 * k):
        yield {"op": "meta", **base([r.choice(anyty) for _ in range(r.randrange(0, 9))] or ["i64"], height())}
    for i in range(25 * k):
        yield {"op": "special", **base([r.choice(NUM + ["f64", "f32", "str"]) for _ in range(r.randrange(1, 5))] + ["f64"], height())}
    for i in range(70 * k):
        c = base([r.choice(NUM + ["f64", "str"]) for _ in range(r.randrange(1, 3))] + [r.choice(NUM)], height(), special=i % 4 == 0)
        yield {"op": "profile", "mult": num(r.choice([0.5, 1.0, 1.5, 3.0, 0.0])), "bins": r.choice([2, 3, 4, 5, 7, 10, 20]), "hist": i % 5 != 0, "gt": i % 7 == 3, **c}
    for i in range(30 * k):
        yield {"op": "strs", **base([r.choice(["str", "i64"]) for _ in range(r.randrange(0, 4))] + ["str"], height())}
    RN = ["r1", "r2", "r3", "r0", "zz"]
    for i in range(60 * k):
        c = base([r.choice(["i64", "i32", "f64", "u8"]) for _ in range(r.randrange(1, 4))] + ["str"], height(), special=False)
        nc = [x for x in c["cols"] if x["ty"] != "str"]
        rules = []
        for nm in r.sample(RN, r.randrange(1, 5)):
            x = r.choice(nc)
            vals = [v for v in x["v"] if v != "null"] or ["1"]
            rules.append({"name": nm, "col": x["name"], "cmp": r.choice(["lt", "le", "gt", "ge", "ne", "known"]), "val": r.choice(vals)})
        yield {"op": "rows", "rules": rules, "all": i % 2 == 0, "keep": r.sample([x["name"] for x in c["cols"]], r.randrange(0, 3)), "id": "", **c}
    for i in range(30 * k):
        c = base([r.choice(["i64", "i32", "f64", "u8"]) for _ in range(r.randrange(1, 4))], height(), special=False)
        rules = []
        for nm in r.sample(RN, r.randrange(1, 5)):
            x = r.choice(c["cols"])
            g = r.choice(list(AGG))
            vals = [v for v in x["v"] if v != "null"] or ["1"]
            rules.append({"name": nm, "col": x["name"], "agg": g, "cmp": r.choice(["lt", "le", "gt", "ge", "ne"]), "val": r.choice(vals) if g in ("min", "max") else str(r.randrange(0, 4))})
        yield {"op": "colrules", "rules": rules, **c}
    for i in range(40 * k):
        c = base([r.choice(anyty) for _ in range(r.randrange(1, 5))] + ["i64"], height())
        f = []
        x = c["cols"][-1]
        if i % 2:
            f = [{"name": "f", "col": x["name"], "cmp": r.choice(["lt", "ge", "ne", "known"]), "val": r.choice([v for v in x["v"] if v != "null"] or ["1"])}]
        yield {"op": "nullcorr", "subset": [y["name"] for y in c["cols"]][:r.randrange(2, 7)], "filter": f, **c}
    for i in range(30 * k):
        c = base([r.choice(["i64", "f64", "i32", "f32"]) for _ in range(r.randrange(2, 4))], r.choice([4, 6, 9, 15]), nulls=0, special=False)
        for x in c["cols"]:
            x["name"] = "colum" if x["name"] == "column" else x["name"]
        yield {"op": "corr", "plot": i % 3 == 1, "subset": r.sample([x["name"] for x in c["cols"]], r.randrange(1, 3)), "method": r.choice(["pearson", "spearman", "kendall", "bicor"]), **c}
    for i in range(25 * k):
        c = base([r.choice(["i64", "f64", "i32", "bool"]) for _ in range(r.randrange(1, 5))], r.choice([4, 6, 9, 15]), nulls=0, special=False)
        yield {"op": "infercorr", "method": r.choice(["pearson", "spearman", "kendall"]), **c}
    for i in range(60 * k):
        n = r.choice([3, 4, 6, 8, 12])
        c = base([r.choice(["i64", "str", "cat", "bool", "u8", "i32"]) for _ in range(r.randrange(2, 6))] + (["f64"] if i % 5 == 0 else []), n, nulls=r.choice([0, 0, 0.2]))
        cols = [x for x in c["cols"] if x["ty"] != "f64"]
        for j in range(1, len(cols)):          # coarser and coarser columns
            if r.random() < 0.7:
                x, y = cols[j - 1], cols[j]
                if x["ty"] in ("i64", "i32", "u8") and y["ty"] in ("i64", "i32", "u8"):
                    m = r.choice([1, 2, 3, 10])
                    y["v"] = [v if v == "null" else str(abs(int(v)) // m % 128) for v in x["v"]]
                else:
                    keys = {str(v): r.randrange(3) for v in x["v"]}
                    y["v"] = [str(keys[str(v)] % 2) if y["ty"] == "bool" else str(keys[str(v)]) if y["ty"] not in ("str", "cat") else [97 + keys[str(v)]] for v in x["v"]]
        names = [x["name"] for x in c["cols"]]
        r.shuffle(names)
        e = {"subset": names[:max(1, len(names) - r.choice([0, 0, 1]))], **c}
        yield {"op": "dep", **e} if i % 3 == 0 else {"op": "plotdep", "thr": r.choice(["1/100", "1/1000", "1/20"]), **e}
