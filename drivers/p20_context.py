"""P20: every expression in every context."""
import polars as pl
from enc import num
from frames import chunked
import io
import json
import catalog
from catalog import everything, rows_frame, LEAST, BAGS, FIELDS, NO_STREAM, NO_DYNAMIC

CAT = everything()
NAMES = sorted(CAT)


NUM = ["a", "b", "c", "y", "w"]
NARROW = {"i8": (127, pl.Int8), "u8": (255, pl.UInt8), "i16": (32767, pl.Int16), "u16": (65535, pl.UInt16), "i32": (2**31 - 1, pl.Int32), "u32": (2**32 - 1, pl.UInt32)}
WRAPS = {"l1_h", "l2_sq_h", "jitter", "perturb"}      # shorthands of Polars' own arithmetic, in the type of the columns; only of float columns


def value(v):
    """shape and text, numbers"""
    xs = []

    def go(v):
        if isinstance(v, dict):
            return "{" + ",".join(f"{k}:{go(q)}" for k, q in v.items()) + "}"
        if isinstance(v, (list, tuple)):
            return "[" + ",".join(go(q) for q in v) + "]"
        if v is None:
            return "null"
        if isinstance(v, bool):
            return str(v)
        if isinstance(v, (int, float)):
            xs.append(num(v))
            return "#"
        return repr(v)
    s = go(v)
    return {"s": s, "x": xs}


def values(s):
    return [value(v) for v in s.to_list()]


def labels(c, least):
    g = c["g"]
    rep = least
    n = rep * len(g)
    if c["how"] == 0:
        return [g[i % len(g)] for i in range(n)]          # interleaved
    if c["how"] == 1:
        return [g[i // rep] for i in range(n)]            # in runs
    return [g[(i * i + i // 3) % len(g)] if i >= len(g) * (least // 2) * 2 else g[i % len(g)] for i in range(n)]


def laid(df, k):
    if k == 4:      # whole frame in chunks cut at the same places
        n = len(df)
        return pl.concat([df[: n // 3], df[n // 3: n // 2], df[n // 2:]], rechunk=False)
    return pl.DataFrame({x: chunked(df[x], k if i % 2 == 0 or k < 2 else k + 1) for i, x in enumerate(df.columns)})


CTXS = ["select", "lazy", "streaming", "column", "column_streaming", "filter_before", "filter_after", "head_after", "tail_after", "twice",
        "group", "group_streaming", "group_sorted", "group_dynamic", "window", "window_join", "window_explode", "concat", "joined", "mixed", "inputs", "inputs", "inputs_sliced"]


COL, SQL = pl.col, pl.sql_expr
RANDOM = {"random", "random_binomial", "random_exp", "random_int", "random_normal", "random_str"}      # as long as the frame, whatever the inputs
BY_TREE = {"corr_pearson", "corr_spearman"}       # hand names on to Polars


class Cols:
    """pl.col, with something done to every column it makes"""
    def __init__(self, f):
        self.f = f

    def __call__(self, *names):
        return self.f(COL(*names))

    def __getattr__(self, name):
        return getattr(COL, name) if name.startswith("_") else self.f(getattr(COL, name))


def tree(e, f):
    """e with f done to its columns"""
    mark = f(COL("mark__"))
    text = mark.meta.serialize(format="json")

    def go(t):
        if isinstance(t, dict):
            if set(t) == {"Column"} and isinstance(t["Column"], str):
                return json.loads(text.replace('"mark__"', json.dumps(t["Column"])))
            return {k: go(v) for k, v in t.items()}
        return [go(v) for v in t] if isinstance(t, list) else t
    return pl.Expr.deserialize(io.StringIO(json.dumps(go(json.loads(e.meta.serialize(format="json"))))), format="json")


def of(name, build, f):
    """the expression made of columns to which f has been done"""
    if name in BY_TREE:
        return tree(build(), f)
    try:
        pl.col = catalog.c = Cols(f)
        pl.sql_expr = lambda q: tree(SQL(q), f)
        return build()
    finally:
        pl.col = catalog.c = COL
        pl.sql_expr = SQL


def gen(r, tier):
    for _ in range(1500 if tier == "quick" else 12000):
        k, g = r.randint(2, 6), [1]
        for _ in range(k - 1):
            g.append(r.randint(1, max(g) + 1))
        yield {"op": "ctx", "fn": r.randrange(len(NAMES)), "ctx": r.choice(CTXS), "g": g, "nulls": r.randint(0, 1), "how": r.randint(0, 2), "layout": r.randint(0, 4), "seed": r.randint(0, 10**6), "f32": r.randint(0, 5) == 0,
               "narrow": r.choice(["", "", "", "", *NARROW])}


def run(c):
    name = NAMES[c["fn"] % len(NAMES)]
    if c["fn"] >= len(NAMES) and c["ctx"] == "select":
        return None
    kind, full, chance, build = CAT[name]
    if full and c["nulls"] and c["fn"] % 3:
        return None
    least = max(LEAST.get(name, 9), 9)
    lab = labels(c, least)
    n = len(lab)
    clean = rows_frame(c["seed"] * 977 + 5, n, 0 if full else c["nulls"], "f32" if c["f32"] else "f64")
    narrow = c.get("narrow", "")
    kept = clean
    if narrow and not c["f32"]:      # columns of a narrow type with values all over its range, against the same numbers as floats
        if name in WRAPS:
            return None
        top, t = NARROW[narrow]
        low = 0 if narrow[0] == "u" else -top
        kept = clean.with_columns([(pl.col(x) * (top // (9 if x in "abc" else 4 if x == "w" else 36))).round().clip(1 if x in "wc" else low, top).cast(t) for x in NUM])
        clean = kept.with_columns(pl.col(NUM).cast(pl.Float64))
    base = kept.with_columns(pl.Series("g__", lab, dtype=pl.Int32))
    e, x = build(), c["ctx"]
    ref = lambda ix: clean[ix].rechunk().select(e)
    every = list(range(n))
    parts = [[i for i in every if lab[i] == q] for q in dict.fromkeys(lab)]
    keep = every
    rnd = lambda i: (i * 7 + c["seed"]) % 5 != 0
    ev = {"name": name, "kind": kind, "n": n, "bag": name in BAGS, "typed": not narrow or c["f32"], "named": name not in FIELDS}
    if name in NO_STREAM and "streaming" in x or name in NO_DYNAMIC and x == "group_dynamic":
        return None
    if kind == "many" and x in ("column", "column_streaming", "filter_after", "head_after", "tail_after", "mixed", "window"):
        return None
    if kind != "many" and x == "window_join" and kind == "one" or x == "window_explode" and kind == "one":
        return None
    if x in ("select", "lazy", "streaming", "twice", "column", "column_streaming", "concat", "joined"):
        parts = [every]
    elif x == "filter_before":
        parts = [[i for i in every if lab[i] == 1]]
    elif x in ("filter_after", "mixed"):
        parts, keep = [every], [i for i in every if lab[i] == lab[-1]]
    elif x in ("inputs", "inputs_sliced") and name in RANDOM:
        return None
    elif x == "inputs":
        keep = [i for i in every if rnd(i)]
        parts = [keep]
    elif x == "inputs_sliced":
        keep = every[n // 5: n // 5 + (3 * n) // 4]
        parts = [keep]
    elif x == "head_after":
        parts, keep = [every], every[: n // 2]
    elif x == "tail_after":
        parts, keep = [every], every[n // 3:]
    df = laid(base, c["layout"])
    i1 = lambda ix: [i + 1 for i in ix]

    def answer():
        nonlocal parts
        lf = df.lazy()
        if x == "select":
            o = df.select(e)
        elif x == "lazy":
            o = lf.select(e).collect()
        elif x == "streaming":
            o = lf.select(e).collect(engine="streaming")
        elif x == "twice":      # the same subexpression more than once in a query
            o = lf.with_columns(pl.col("w").alias("w2__")).select(e, e.alias("q__")).collect()
            if value(o["q__"].to_list()) != value(o.to_series(0).to_list()):
                raise RuntimeError("the same expression gave two answers")
        elif x == "filter_before":
            o = lf.filter(pl.col("g__") == 1).select(e).collect()
        elif x == "concat":     # rows coming from two frames
            o = pl.concat([lf.head(n // 2), lf.slice(n // 2)]).select(e).collect()
        elif x == "joined":     # rows coming out of a join
            o = lf.select("i", "g__").join(lf.drop("g__"), on="i", how="left", maintain_order="left").select(e).collect()
        elif x in ("column", "column_streaming", "mixed", "filter_after", "head_after", "tail_after"):
            q = lf.with_columns(e.alias("r__"), (pl.col("w") + 1).alias("w2__"))
            if x == "filter_after":
                q = q.filter(pl.col("g__") == lab[-1])
            elif x == "mixed":      # predicates on the column itself and on others
                q = q.filter(pl.col("r__").is_null() | pl.col("r__").is_not_null()).filter(pl.col("g__") == lab[-1]).select("w2__", "r__", "i")
            elif x == "head_after":
                q = q.head(n // 2)
            elif x == "tail_after":
                q = q.slice(n // 3)
            o = q.select("r__").collect(engine="streaming") if x == "column_streaming" else q.collect().select("r__")
            return {"v": values(o["r__"]), "dt": str(o["r__"].dtype), "name": "r__"}
        elif x == "inputs":
            s = pl.Series("keep__", [rnd(i) for i in every])
            o = df.with_columns(s).select(of(name, build, lambda q: q.filter(COL("keep__"))))
        elif x == "inputs_sliced":
            o = df.select(of(name, build, lambda q: q.slice(n // 5, (3 * n) // 4)))
        elif x in ("group", "group_streaming", "group_sorted", "group_dynamic"):
            ids = pl.col("i").alias("i__")
            if x == "group":
                o = df.group_by("g__", maintain_order=True).agg(ids, e)
            elif x == "group_streaming":
                o = lf.group_by("g__").agg(ids, e).collect(engine="streaming")
            elif x == "group_sorted":
                o = df.sort("g__", maintain_order=True).group_by("g__", maintain_order=True).agg(ids, e)
            else:
                o = df.with_columns(pl.col("i").cast(pl.Int64).alias("at__")).group_by_dynamic("at__", every=f"{least}i", period=f"{least + 3}i").agg(ids, e)
            parts = o["i__"].to_list()
            s = o.to_series(2)
            v = [[value(q)] for q in s.to_list()] if kind == "one" else [[value(q) for q in w] for w in s.to_list()]
            return {"v": v, "dt": str(s.dtype), "name": s.name}
        elif x == "window":
            s = df.with_columns(e.over("g__").alias("r__"))["r__"]
            return {"v": values(s), "dt": str(s.dtype), "name": "r__"}
        elif x == "window_join":
            s = df.with_columns(e.over("g__", mapping_strategy="join").alias("r__"))["r__"]
            return {"v": [[value(q) for q in w] for w in s.to_list()], "dt": str(s.dtype), "name": "r__"}
        elif x == "window_explode":
            o = df.sort("g__", maintain_order=True).select(pl.struct(e.alias("r__")).over("g__", mapping_strategy="explode").alias("r__"))
            s = o["r__"].struct.field("r__")
            sizes = [len(ref(p)) for p in [[i for i in every if lab[i] == q] for q in sorted(set(lab))]]
            parts = [[i for i in every if lab[i] == q] for q in sorted(set(lab))]
            at, v = 0, []
            for k in sizes:
                v.append(values(s[at: at + k]))
                at += k
            if at != len(s):
                raise RuntimeError("length")
            return {"v": v, "dt": str(s.dtype), "name": "r__"}
        s = o.to_series(0)
        return {"v": values(s), "dt": str(s.dtype), "name": s.name}
    try:
        ev["res"] = answer()
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as exc:
        ev["res"] = {"exc": f"{type(exc).__name__}: {exc}"[:300]}
    try:
        rs = [ref(p) for p in parts]
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        return None
    ev.update(parts=[i1(p) for p in parts], keep=i1(keep), refs=[values(q.to_series(0)) for q in rs], rdt=str(rs[0].to_series(0).dtype), rname=rs[0].columns[0])
    return {**ev.pop("res"), "event": ev}
