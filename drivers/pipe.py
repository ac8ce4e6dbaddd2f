"""Pipelines: building blueprints from recorded steps, running them, recording frames."""
import io, json, math, os, tempfile
import polars as pl
import polars.selectors as cs
from enc import num, unnum
from frames import frame
from polars_ds.modeling.pipeline import Pipeline, Blueprint
from polars_ds.modeling import transforms as t

TY = {"int": pl.Int64, "float": pl.Float64, "f32": pl.Float32, "str": pl.String, "bool": pl.Boolean, "cat": pl.Categorical}


def cell(k, v):
    if v == "null":
        return None
    if k in ("str", "cat"):
        return v
    if k == "bool":
        return v == "true"
    return int(v) if k == "int" else unnum(v)


def build(f, layout=1):
    return frame({c["n"]: pl.Series(c["n"], [cell(c["k"], v) for v in c["v"]], dtype=getattr(pl, c["ty"]) if "ty" in c else TY[c["k"]]) for c in f}, layout)


def kind(d):
    return "int" if d.is_integer() else "f32" if d == pl.Float32 else "float" if d == pl.Float64 else "str" if d == pl.String else "bool" if d == pl.Boolean else "cat" if d == pl.Categorical else str(d)


def record(df):
    out = []
    for s in df.get_columns():
        k = kind(s.dtype)
        q = s.to_list()
        out.append({"n": s.name, "k": k, "v": ["null" if v is None else v if isinstance(v, str) else ("true" if v else "false") if k == "bool" else num(v) for v in q]})
    return out


def ex(e):
    op = e["op"]
    if op == "col":
        return pl.col(e["n"])
    if op == "mean":
        return pl.col(e["n"]).mean()
    if op == "lit":
        v = unnum(e["w"])
        return pl.lit(int(v)) if v == int(v) else pl.lit(v)
    if op == "str":
        return pl.lit(e["w"])
    a = ex(e["a"])
    if op == "isnull":
        return a.is_null()
    if op == "not":
        return ~a
    b = ex(e["b"])
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b, "fill": lambda: pl.when(a.is_null()).then(b).otherwise(a), "and": lambda: a & b, "or": lambda: a | b,
            "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b, "eq": lambda: a == b}[op]()


def sql(e):
    op = e["op"]
    if op == "col":
        return '"%s"' % e["n"]
    if op == "lit":
        v = unnum(e["w"])
        return str(int(v)) if v == int(v) else repr(v)
    if op == "str":
        return "'%s'" % e["w"]
    if op == "isnull":
        return "(%s IS NULL)" % sql(e["a"])
    if op == "not":
        return "(NOT %s)" % sql(e["a"])
    o = {"add": "+", "sub": "-", "mul": "*", "and": "AND", "or": "OR", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "="}[op]
    return "(%s %s %s)" % (sql(e["a"]), o, sql(e["b"]))


def sel(s):
    if s["s"] == "names":
        n, how = s["names"], s.get("as", "list")
        if how == "str" and len(n) == 1:
            return n[0]
        if how == "cols":
            return [pl.col(x) for x in n]
        if how == "col":
            return pl.col(n)
        if how == "one" and len(n) == 1:
            return pl.col(n[0])
        if how == "cs":
            return cs.by_name(*n)
        return list(n)
    return {"numeric": cs.numeric, "integer": cs.integer, "float": cs.float, "string": cs.string, "boolean": cs.boolean, "all": cs.all}[s["s"]]()


def fitted(df, cols, factor=1.0):
    m = df.lazy().select(pl.col(cols).max()).collect().row(0) if cols else ()
    return [pl.col(c) - v * factor for c, v in zip(cols, m)]


def default(d):
    return None if d == "none" else d if d in ("null", "zero", "mean") else unnum(d)


def tgt(s):
    return s["target"] or None


def cond(s, e):
    return sql(e) if s.get("sql") else ex(e)


def call(s):
    """the blueprint's method, its arguments and keywords"""
    op = s["op"]
    if op == "impute":
        return "impute", [sel(s["sel"])], {"method": s["m"]}
    if op == "cimpute":
        return "conditional_impute", [{r["n"]: cond(s, r["e"]) for r in s["rules"]}], {"method": s["m"]}
    if op == "linear":
        return "linear_impute", [sel(s["sel"])], {"target": tgt(s), "add_bias": s["bias"]}
    if op == "scale":
        return "scale", [sel(s["sel"])], {"method": s["m"]}
    if op == "robust":
        return "robust_scale", [sel(s["sel"])], {"q_low": unnum(s["lo"]), "q_high": unnum(s["hi"])}
    if op == "winsor":
        return "winsorize", [sel(s["sel"])], {"q_low": unnum(s["lo"]), "q_high": unnum(s["hi"]), "method": s["m"]}
    if op == "onehot":
        return "one_hot_encode", [sel(s["sel"])], {"separator": s["sep"], "drop_first": s["first"], "drop_cols": s["drop"]}
    if op == "rank":
        return "rank_hot_encode", [s["n"]], {"ranking": s["ranking"], "drop_cols": s["drop"]}
    if op == "tenc":
        return "target_encode", [sel(s["sel"])], {"target": tgt(s), "min_samples_leaf": int(s["leaf"]), "smoothing": unnum(s["smooth"]), "default": default(s["default"])}
    if op in ("woe", "iv"):
        return op + "_encode", [sel(s["sel"])], {"target": tgt(s), "default": default(s["default"])}
    if op == "fitfunc":
        return "append_fit_func", [fitted, sel(s["sel"])], {"factor": unnum(s["f"])}
    if op in ("center", "select", "drop"):
        return op, [sel(s["sel"])], {}
    if op == "rename":
        return op, [dict(map(tuple, s["pairs"]))], {}
    if op == "poly":
        return "polynomial_features", [list(s["names"])], {"degree": s["degree"], "interaction_only": s["io"]}
    if op == "append":
        q = [ex(e["e"]).alias(e["n"]) for e in s["exprs"]]
        return "append_expr", [q] if s.get("list") else q, {"is_select": s["select"]}
    if op == "filter":
        return op, [cond(s, s["e"])], {}
    if op == "sql":
        items = (["*"] if s["star"] else []) + ['%s AS "%s"' % (sql(i["e"]), i["n"]) for i in s["items"]]
        return "sql_transform", ["SELECT %s FROM df%s" % (", ".join(items), " WHERE " + sql(s["where"][0]) if s["where"] else "")], {}
    if op == "int_to_float":
        return op, [], {"f32": s["f32"]}
    return op, [], {}


def step(bp, s):
    name, a, k = call(s)
    if s.get("dict"):
        return bp.append_step_from_dict({"name": name, "args": a, "kwargs": k})
    return getattr(bp, name)(*a, **k)


def direct(df, s):
    """the same transform without a blueprint: expressions learned from df"""
    op = s["op"]
    name, a, k = call(s)
    lf = df.lazy() if s.get("lazy") else df
    if op == "cimpute":
        return t.conditional_impute(lf, *a, **k)
    if op == "poly":
        return t.polynomial_features(*a, **k)
    if op == "rank":
        k.pop("drop_cols")
        return t.rank_hot_encode(*a, **k)
    cols = list(s["sel"]["names"])
    if op == "onehot":
        k.pop("drop_cols")
    if op == "fitfunc":
        return fitted(lf, cols, **k)
    return getattr(t, name)(lf, cols, **k)


def same(a, b):
    return isinstance(a, pl.DataFrame) and isinstance(b, pl.DataFrame) and a.schema == b.schema and a.equals(b, null_equal=True)


def near(a, b):
    # equal, up to what the decimal text of a learned float loses in polars' JSON
    if same(a, b):
        return True
    if not isinstance(a, pl.DataFrame) or not isinstance(b, pl.DataFrame) or a.schema != b.schema or a.height != b.height:
        return False
    for n, t in a.schema.items():
        if not t.is_float():
            if not a[n].equals(b[n], null_equal=True):
                return False
            continue
        x, y = a[n].cast(pl.Float64).to_list(), b[n].cast(pl.Float64).to_list()
        m = max([abs(v) for v in x if v is not None and math.isfinite(v)] + [1.0]) * (1e-12 if t == pl.Float64 else 1e-5)
        for u, v in zip(x, y):
            if (u is None) != (v is None):
                return False
            if u is not None and not (u == v or (math.isnan(u) and math.isnan(v)) or abs(u - v) <= m):
                return False
    return True


def attempt(f):
    try:
        return f()
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as x:
        import sys
        print("transform:", type(x).__name__, str(x)[:200], file=sys.stderr)
        return type(x).__name__


def run(c):
    frames = [build(f, c["layout"]) for f in [c["train"]] + c["tests"]]
    before = [f.clone() for f in frames]
    feed = lambda f: f.lazy() if c["lazy"] else f
    o = c["opts"]
    wrap = lambda r: {"exc": r} if isinstance(r, str) else {"cols": record(r)}
    if c["direct"]:
        e = direct(frames[0], c["steps"][0])
        outs = [attempt(lambda: f.lazy().with_columns(e).collect()) for f in frames]
        return {"outs": [wrap(r) for r in outs], "kept": all(same(a, b) for a, b in zip(frames, before))}
    bp = Blueprint(feed(frames[0]), name="p", target=o["target"] or None, exclude=o["exclude"] or None, lowercase=o["case"] == "lower", uppercase=o["case"] == "upper")
    for s in c["steps"]:
        if step(bp, s) is not bp:
            return {"exc": "NotTheBlueprint"}
    steps = len(bp._steps)
    pipe = bp.materialize()
    pipe.ensure_features_io(o["ensure_in"], o["ensure_out"])
    if c["lazy"]:
        go = lambda p, f: attempt(lambda: p.transform(f.lazy(), return_lazy=True).collect())
    else:
        go = lambda p, f: attempt(lambda: p.transform(f))
    outs = [go(pipe, f) for f in frames]
    eq = lambda p, how=same: all(how(a, b) if not isinstance(a, str) else a == b for a, b in ((r, go(p, f)) for r, f in zip(outs, frames)))
    js = pipe.to_json()
    try:
        loads = [Pipeline.from_json_str(js), Pipeline.from_dict(json.loads(js))]
        if c["file"]:
            with tempfile.TemporaryDirectory() as d:
                pipe.to_json(os.path.join(d, "p.json"))
                loads.append(Pipeline.from_json(os.path.join(d, "p.json")))
        off = [p for p in loads if not eq(p, near)]
        ok = "differs" if off else "same"
        reload = [wrap(go(off[0], f)) for f in frames] if off else []
    except pl.exceptions.ComputeError:
        ok, reload = "unreadable", []
    modes = any(s.get("m") == "mode" for s in c["steps"])
    p2 = bp.fit()
    p2.ensure_features_io(o["ensure_in"], o["ensure_out"])
    again = len(bp._steps) == steps and (modes or eq(p2, near))
    if not modes and o["ensure_out"] and not o["ensure_in"]:
        r = attempt(lambda: bp.transform(frames[0]))
        again = again and (near(r, outs[0]) if not isinstance(r, str) else r == outs[0])
    sep = attempt(lambda: pipe.transform(frames[0], separate=True))
    res = {"outs": [wrap(r) for r in outs], "json": ok, "reload": reload, "again": again, "names_in": list(pipe.feature_names_in_), "names_out": list(pipe.feature_names_out_),
           "sepx": [], "sepy": [], "sep": "raise"}
    if not isinstance(sep, str) and not isinstance(outs[0], str):
        x, y = sep
        res |= {"sepx": x.columns, "sepy": y.columns, "sep": "same" if near(x, outs[0].select(x.columns)) and near(y, outs[0].select(y.columns)) else "differs"}
    bp.append_expr(pl.lit(1).alias("late"))
    res["later"] = eq(pipe)
    res["kept"] = all(same(a, b) for a, b in zip(frames, before))
    return res


# ---- generating frames and steps -------------------------------------------------------------
WORDS = ["a", "b", "cc", "", "Z", "x y", "d_1"]
INTS = [-3, -1, 0, 1, 2, 2, 3, 5, 8, 13]
FLOATS = ["0", "1/2", "1/4", "3/2", "-7/4", "2", "9/8", "-1/2", "10", "3602879701896397/36028797018963968", "21/4"]


def column(r, n, k, rows, nulls=0.2, ty=None, nan=0.0):
    def one():
        if r.random() < nulls:
            return "null"
        if nan and r.random() < nan:
            return "nan"
        if k == "int":
            return str(r.choice(INTS))
        if k in ("str", "cat"):
            return r.choice(WORDS[:r.choice([2, 3, 7])])
        if k == "bool":
            return r.choice(["true", "false"])
        return r.choice(FLOATS[:9] if k == "f32" else FLOATS)
    d = {"n": n, "k": k, "v": [one() for _ in range(rows)]}
    if ty:
        d["ty"] = ty
    return d


def words(c):
    w = {v for f in [c["train"]] + c["tests"] for q in f if q["k"] in ("str", "cat") for v in q["v"] if v != "null"}
    for s in c["steps"]:
        w |= set(s.get("ranking", []))
    return sorted(w)
