"""P10: binary classification metrics."""
import random
import polars as pl
from enc import num, nums, unnum, unnums
from ctx import ev, scalar, CTX
from polars_ds.exprs import metrics as M

PT = {"f64": pl.Float64, "f32": pl.Float32, "i64": pl.Int64}
AT = {0: pl.Int64, 1: pl.UInt8, 2: pl.Boolean, 3: pl.Float64, 4: pl.UInt32}


def cols(c):
    a, s = unnums(c["a"]), unnums(c["s"])
    if "c" in c:
        cnt = [int(x) for x in c["c"]]
        idx = [i for i in range(len(a)) for _ in range(cnt[i])]
        random.Random(c["sh"]).shuffle(idx)
        a, s = [a[i] for i in idx], [s[i] for i in idx]
    t = AT[c.get("at", 0)]
    a = [None if x is None else (bool(x) if t == pl.Boolean else x if t == pl.Float64 else int(x)) for x in a]
    p = PT[c.get("ty", "f64")]
    s = [None if x is None else (int(x) if p == pl.Int64 else x) for x in s]
    return {"a": pl.Series("a", a, dtype=t), "s": pl.Series("s", s, dtype=p)}


def run(c):
    d, x = cols(c), c["ctx"]
    if c["op"] == "logloss":
        return {"mean": scalar(ev(M.query_log_loss("a", "s"), d, x)), "sum": scalar(ev(M.query_log_loss("a", "s", normalize=False), d, x))}
    thr = unnum(c["thr"])
    cm = scalar(ev(M.query_confusion_matrix("a", "s", thr, all_metrics=True), d, x))
    mcc = scalar(ev(M.query_mcc(pl.col("a").cast(pl.UInt8), pl.col("s") > thr), d, x))
    if c["op"] == "holes":
        try:
            auc = scalar(ev(M.query_roc_auc("a", "s"), d, x))
        except pl.exceptions.ComputeError as e:
            if "panicked" in str(e):
                raise
            auc = "refused"
        return {"cm": cm, "mcc": mcc, "auc": auc}
    tf = ev(M.query_tpr_fpr("a", "s"), d, x if x in (0, 1, 2, 3, 4, 5, 7) else 0).struct
    four = scalar(ev(M.query_confusion_matrix("a", "s", thr), d, x))
    return {"auc": scalar(ev(M.query_roc_auc("a", "s"), d, x)), "gini": scalar(ev(M.query_gini("a", "s"), d, x)),
            "bm": scalar(ev(M.query_binary_metrics("a", "s", thr), d, x)), "cm": cm, "mcc": mcc,
            "cm4": [four[k] for k in ("tn", "fp", "fn", "tp")],
            "thr": nums(tf.field("threshold").to_list()), "tpr": nums(tf.field("tpr").to_list()), "fpr": nums(tf.field("fpr").to_list())}


def rows(r, n, ty):
    lev = r.choice([2, 3, 6, 40])
    pos = r.choice([0.5, 0.5, 0.2, 0.9, 0, 1])
    sc = (lambda: r.randrange(lev)) if ty == "i64" else (lambda: r.choice([0, 1, 0.5]) if r.random() < 0.2 else r.randrange(lev) / (32 if ty == "f32" else lev))
    a, s = [], []
    for _ in range(n):
        a.append(1 if r.random() < pos else 0)
        s.append(sc())
    return a, s


def gen(r, tier):
    k = 2 if tier == "quick" else 8
    for i in range(500 * k):
        ty = r.choice(["f64", "f64", "f32", "i64"])
        n = r.choice([1, 2, 3, 5, 8, 13, 20])
        a, s = rows(r, n, ty)
        thr = r.choice(s) if r.random() < 0.5 else r.choice([-1, 0, 0.5, 1, 2, 0.3])
        yield {"op": "binary", "a": nums(a), "s": nums(s), "c": [num(r.choice([1, 1, 1, 2, 5])) for _ in a], "thr": num(thr), "ctx": r.choice(CTX), "sh": r.randrange(1000),
               "ty": ty, "at": r.randrange(5)}
    for i in range(4 * k):      # many rows
        a, s = rows(r, 5, "f64")
        yield {"op": "binary", "a": nums(a), "s": nums(s), "c": [num(r.choice([66000, 70001, 131071, 300])) for _ in a], "thr": num(0.5), "ctx": r.choice([0, 4, 5]), "sh": r.randrange(1000), "ty": "f64"}
    for i in range(1 * k):
        a = [0, 0, 1, 1]
        yield {"op": "binary", "a": nums(a), "s": nums([0.25, 0.75, 0.25, 0.75]), "c": [num(r.choice([70000, 90001])) for _ in a], "thr": num(0.5), "ctx": 0, "sh": 3, "ty": "f64"}
    for i in range(100 * k):
        n = r.choice([0, 1, 2, 4, 9])
        a, s = rows(r, n, "f64")
        a = [None if r.random() < 0.25 else x for x in a]
        s = [None if r.random() < 0.2 else x for x in s]
        yield {"op": "holes", "a": nums(a), "s": nums(s), "thr": num(r.choice([0.5, 0, 0.25])), "ctx": r.choice([0, 1, 2, 4, 7]), "ty": "f64", "at": r.randrange(5)}
    for i in range(150 * k):
        n = r.choice([0, 1, 2, 4, 9, 20])
        a = [r.choice([0, 1, 0, 1, 0.5, 0.25]) if i % 3 == 0 else r.choice([0, 1]) for _ in range(n)]
        s = [r.choice([0, 1]) if r.random() < 0.03 else r.choice([2 ** -k for k in (1, 2, 5, 30)] + [r.random(), 0.75, 1 - 2 ** -20]) for _ in range(n)]
        if i % 4 == 0:
            a = [None if r.random() < 0.2 else x for x in a]
            s = [None if r.random() < 0.1 else x for x in s]
        yield {"op": "logloss", "a": nums(a), "s": nums(s), "ctx": r.choice(CTX), "ty": "f64", "at": 3}
