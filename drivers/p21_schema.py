"""P21: the schema a lazy query announces against the frames it produces."""
import random
import polars as pl
import pipe
import p17_pipeline
from polars_ds.modeling.pipeline import Blueprint
from catalog import everything, rows_frame, LEAST, NO_STREAM

CAT = everything()
NAMES = sorted(CAT)
NUM = ["a", "b", "c", "y", "w"]
TYS = {"f64": pl.Float64, "f32": pl.Float32, "i8": pl.Int8, "i16": pl.Int16, "i32": pl.Int32, "i64": pl.Int64, "u8": pl.UInt8, "u16": pl.UInt16, "u32": pl.UInt32, "u64": pl.UInt64}
PLACES = ["select", "column", "group", "over", "struct", "implode", "when"]
# written with Polars' own operators, whose type in an aggregation Polars announces without the list (or, for cv, engines disagree about)
NATIVE = {"center", "cv", "detrend_linear", "detrend_mean", "is_knn_from", "l2_sq_h", "random_null", "similar_vocab", "simple_lin_reg_pred", "sinc", "softmax", "within_dist", "z_normalize"}
COUNTS = {"knn_freq_cnt", "radius_freq_cnt"}     # Polars' value_counts loses the field's name when there are no groups


def frame(c, name):
    n = {"some": 3 * max(LEAST.get(name, 12), 12), "one": 1, "none": 0}[c["size"]]
    full = CAT[name][1]
    df = rows_frame(c["seed"] * 31 + 7, max(n, 4), 0 if full else c["seed"] % 2).with_columns(pl.Series("k", ["pqr"[i % 3] for i in range(max(n, 4))]))[:n]
    t = TYS[c["ty"]]
    if c["ty"] == "f32":
        df = df.with_columns(pl.col(NUM + ["u", "lat", "lon"]).cast(t))
    elif c["ty"] != "f64":
        df = df.with_columns(*[((pl.col(x) * 3).cast(pl.Int64).abs() + 1).cast(t) for x in NUM], (pl.col("u") > 0.5).cast(t), (pl.col("lat", "lon").abs() / 2).cast(t))
    return df


def typ(d):
    if isinstance(d, pl.Array):
        return {"t": f"Array{d.size}", "of": [typ(d.inner)], "names": []}
    if isinstance(d, pl.List):
        return {"t": "List", "of": [typ(d.inner)], "names": []}
    if isinstance(d, pl.Struct):
        return {"t": "Struct", "of": [typ(f.dtype) for f in d.fields], "names": [f.name for f in d.fields]}
    return {"t": str(d), "of": [], "names": []}


def sch(s):
    return {"v": [[k, typ(d)] for k, d in s.items()]}


def attempt(f):
    try:
        return sch(f())
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as x:
        return {"exc": f"{type(x).__name__}: {x}"[:300], "schema": type(x).__name__ == "SchemaError" and "invalid series dtype" not in str(x)}


def placed(lf, e, place):
    if place == "select":
        return lf.select(e.alias("r__"))
    if place == "column":
        return lf.with_columns(e.alias("r__")).select("k", "r__")
    if place == "group":
        return lf.group_by("k").agg(e.alias("r__"))
    if place == "over":
        return lf.with_columns(e.over("k").alias("r__")).select("k", "r__")
    if place == "struct":
        return lf.select("k", pl.struct(e.alias("e__"), pl.col("i").alias("n__")).alias("r__"))
    if place == "implode":
        return lf.select(e.implode().alias("r__"))
    return lf.select("k", pl.when(pl.col("i") >= 0).then(e).alias("r__"))


def step(lf, s, sc):
    r = pl.col("r__")
    if s == "filter":
        return lf.filter(r.is_not_null())
    if s == "head0":
        return lf.head(0)
    if s == "unnest":
        return lf.unnest("r__")
    if s == "explode":
        return lf.explode("r__")
    if s == "len":
        return lf.with_columns(r.list.len())
    if s == "isnull":
        return lf.with_columns(r.is_null())
    if s == "field":
        d = sc["r__"]
        return lf.with_columns(r.struct.field(d.fields[0].name).alias("r__"))
    if s == "get0":
        return lf.with_columns(r.list.get(0, null_on_oob=True))
    if s == "alias":
        return lf.with_columns(r.alias("q__"))
    if s == "first":
        return lf.select(r.first())
    if s == "twice":
        return pl.concat([lf, lf])
    return lf.cache()


def gen(r, tier):
    for n in NAMES:
        yield {"op": "name", "fn": n, "place": "select", "steps": [], "ty": "f64", "size": "some", "seed": r.randint(0, 999)}
    for _ in range(300 if tier == "quick" else 3000):
        yield {"op": "plan", "fn": "pipeline", "seed": r.randint(0, 10**9)}
    for _ in range(1200 if tier == "quick" else 12000):
        yield {"op": "schema", "fn": r.choice(NAMES), "place": r.choice(PLACES), "steps": r.sample(["filter", "head0", "unnest", "explode", "len", "isnull", "field", "get0", "alias", "first", "twice", "cache"], r.randint(0, 2)),
               "ty": r.choice(list(TYS)), "size": r.choice(["some", "some", "one", "none"]), "seed": r.randint(0, 10**5), "loose": True}


def planned(seed):
    """a pipeline over lazy frames"""
    c = p17_pipeline.case(random.Random(seed), 0)
    if c["direct"]:
        return None
    frames = [pipe.build(f, c["layout"]) for f in [c["train"]] + c["tests"]]
    o = c["opts"]
    try:
        bp = Blueprint(frames[0].lazy(), name="p", target=o["target"] or None, exclude=o["exclude"] or None, lowercase=o["case"] == "lower", uppercase=o["case"] == "upper")
        for s in c["steps"]:
            pipe.step(bp, s)
        p = bp.materialize()
        p.ensure_features_io(o["ensure_in"], o["ensure_out"])
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:       # refused before anything is announced
        return None
    out = []
    for f in frames[:2]:
        q = attempt_plan(lambda: p.transform(f.lazy(), return_lazy=True))
        if q is None:
            continue
        out.append([attempt(q.collect_schema), attempt(lambda: q.collect().schema)])
    if not out:
        return None
    return {"event": {"declared": [a for a, b in out], "collected": [b for a, b in out]}}


def attempt_plan(f):
    try:
        return f()
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        return None


def run(c):
    if c["op"] == "plan":
        return planned(c["seed"])
    name = c["fn"]
    kind, full, chance, build = CAT[name]
    if c.get("loose") and kind == "many" and c["place"] in ("column", "over", "struct", "when"):
        return None
    if c["place"] == "group" and (name in NATIVE or name in COUNTS and (c["size"] == "none" or "head0" in c["steps"])):
        return None
    df = frame(c, name)
    if c["op"] == "name":
        q = df.lazy().select(build())
        return {"event": {"declared": q.collect_schema().names()[0], "collected": q.collect().columns[0]}}
    q = placed(df.lazy(), build(), c["place"])
    out = {}
    try:
        for s in c["steps"]:
            sc = q.collect_schema()
            if c.get("loose"):      # steps that the type does not allow
                d = sc.get("r__")
                if d is None or s in ("unnest", "field") and not isinstance(d, pl.Struct) or s in ("explode", "len", "get0") and not isinstance(d, pl.List) or s == "alias" and "q__" in sc or s == "unnest" and {f.name for f in d.fields} & set(sc):
                    return None
            q = step(q, s, sc)
        out["declared"] = sch(q.collect_schema())
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as x:
        out["declared"] = {"exc": f"{type(x).__name__}: {x}"[:300]}
    out["collected"] = attempt(lambda: q.collect().schema)
    out["streamed"] = out["collected"] if name.startswith(tuple(NO_STREAM)) or c["seed"] % 3 else attempt(lambda: q.collect(engine="streaming").schema)
    return {"event": out}
