"""P02: n-gram set similarities, nearest word, vocabulary matching."""
import polars as pl
import polars_ds as pds
from polars_ds.exprs.string import str_overlap_coeff
from enc import num, st, sts, unst, unsts, unnum
from frames import frame, out
from p01_edit import ALPH, mutate, word


def run(c):
    a = unsts(c["a"])
    op = c["op"]
    cols = {"a": pl.Series("a", a, dtype=pl.String)}
    if op == "nearest":
        df = frame(cols, c["ch"])
        r = df.select(pds.str_nearest("a", word=unst(c["word"]), threshold=c["thr"], metric=c["metric"])).to_series()
        return {"s": sts(r.to_list())}
    if op == "vocab":
        df = frame(cols, c["ch"])
        r = df.select(pds.similar_to_vocab(pl.col("a"), unsts(c["vocab"]), threshold=unnum(c["thr"]), metric=c["metric"], strategy=c["strategy"]))
        return out(r.to_series())
    b = unsts(c["b"])
    if c["sc"]:
        o = pl.lit(b[0], dtype=pl.String)
    else:
        cols["b"] = pl.Series("b", b, dtype=pl.String)
        o = pl.col("b")
    df = frame(cols, c["ch"])
    n, p = c["ngram"], c["par"]
    e = {"jaccard": lambda: pds.str_jaccard("a", o, n, p), "overlap": lambda: str_overlap_coeff("a", o, n, p),
         "dice": lambda: pds.str_sorensen_dice("a", o, n, p),
         "tversky": lambda: pds.str_tversky_sim("a", o, alpha=unnum(c["alpha"]), beta=unnum(c["beta"]), substr_size=n, parallel=p)}[op]()
    if c.get("grp"):
        g = c["grp"]
        df = df.with_columns(g=pl.Series([i % g for i in range(len(a))]))
        return out(df.with_columns(e.over("g").alias("r"))["r"])
    return out(df.select(e.alias("r")).to_series())


def gen(r, tier):
    k = 2 if tier == "quick" else 12
    for op in ("jaccard", "overlap", "dice", "tversky"):
        for j in range(25 * k):
            n = r.choice([1, 2, 5, 9, 17, 40])
            al = r.choice(ALPH)
            a, b = [], []
            for _ in range(n):
                s = word(r, r.choice([0, 1, 2, 3, 6, 12, 30]), al)
                t = mutate(r, s, al) if r.random() < 0.7 else word(r, r.randint(0, 8), al)
                a.append(None if r.random() < 0.15 else s)
                b.append(None if r.random() < 0.15 else t)
            sc = j % 3 == 0
            if sc:
                b = b[:1]
            c = {"op": op, "a": sts(a), "b": sts(b), "sc": sc, "ngram": r.choice([1, 2, 2, 3, 4, 7]), "par": r.random() < 0.5,
                 "alpha": r.choice(["1/2", "1", "0", "1/4"]), "beta": r.choice(["1/2", "1", "2", "3/4"]), "ch": r.choice([0, 1, 2, 3])}
            if j % 5 == 4:
                c["grp"] = 3
            yield c
    for j in range(120 * k):
        al = r.choice(ALPH)
        w = word(r, r.choice([0, 1, 3, 4, 8, 70]), al)
        n = r.randint(0, 12)
        same = r.random() < 0.5
        col = []
        near = j % 2 == 0 and len(w) > 0
        for _ in range(n):
            if near:  # many words equally near, none the same
                i = r.randrange(len(w))
                col.append(w[:i] + r.choice("!?#") + w[i + 1:] if r.random() < 0.9 else None)
                continue
            x = mutate(r, w, al) if not same else "".join(ch if r.random() < 0.7 else r.choice(al) for ch in w)
            col.append(None if r.random() < 0.2 else x)
        yield {"op": "nearest", "a": sts(col), "word": st(w), "metric": r.choice(["lv", "hamming"]), "thr": r.choice([1, 1, 2, 3, 100]), "ch": r.choice([0, 1, 2, 3])}
    for j in range(60 * k):
        al = r.choice(ALPH)
        nv = r.choice([1, 2, 3, 4])
        L = r.choice([2, 4, 4, 8, 5])
        vocab = [word(r, L, al) for _ in range(nv)]
        col = [None if r.random() < 0.15 else (mutate(r, r.choice(vocab), al) if r.random() < 0.6 else word(r, r.choice([0, 2, 4, 8]), al)) for _ in range(r.randint(1, 8))]
        yield {"op": "vocab", "a": sts(col), "vocab": sts(vocab), "thr": num(r.choice([0.25, 0.5, 0.75, 0.875, 1.0])), "metric": r.choice(["lv", "dlv", "osa", "jw"]),
               "strategy": r.choice(["avg", "all", "any"]), "ch": r.choice([0, 1, 2])}
