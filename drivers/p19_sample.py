"""P19: sampling, splitting and partitioning."""
import random, warnings
from fractions import Fraction
import polars as pl
from frames import frame
import polars_ds.sample_and_split as sa
from polars_ds.partition import PartitionHelper

TY = {"str": pl.String, "cat": pl.Categorical, "int": pl.Int64, "float": pl.Float64, "date": pl.Date}


def cells(xs, ty):
    if ty == "int":
        return pl.Series([None if v == "null" else sum(map(ord, v)) for v in xs], dtype=pl.Int64)
    if ty == "bool":
        return pl.Series([None if v == "null" else v == "true" for v in xs], dtype=pl.Boolean)
    return pl.Series([None if v == "null" else v for v in xs], dtype=TY[ty])


def build(c):
    n = c["n"]
    d = {c["name"] if c["name"] not in ("g", "h") else "k": pl.Series(range(1, n + 1), dtype=pl.Int64)}
    t = c.get("tys", ["str", "str"])
    d["g"], d["h"] = cells(c["g"], t[0]), cells(c["h"], t[1])
    if "h2" in c:
        d["h2"] = cells(c["h2"], "str")
    d["w"] = pl.Series([None if i % 5 == 3 else i / 2 for i in range(n)], dtype=pl.Float64)
    d["l"] = pl.Series([[i, None] for i in range(n)], dtype=pl.List(pl.Int64))
    for k, q in enumerate(c.get("conds", [])):
        d[f"c{k}"] = cells(q["c"], "bool")
    if (n + c["layout"]) % 2:          # the row numbers need not come first, nor any other column be unique
        d = {k: d[k] for k in ["g", "w"] + [k for k in d if k not in ("g", "w")]}
    return frame(d, c["layout"])


def idname(c):
    return c["name"] if c["name"] not in ("g", "h") else "k"


class Seen:
    """Reads row numbers out of results, checking that the rows are those of the frame."""
    def __init__(self, df, name):
        self.df, self.id, self.ok = df, name, True

    def ids(self, out):
        if not isinstance(out, pl.DataFrame) or out.schema != self.df.schema:
            self.ok = False
        q = out[self.id].to_list()
        self.ok = self.ok and all(isinstance(i, int) and 1 <= i <= self.df.height for i in q) and out.equals(self.df[[i - 1 for i in q]], null_equal=True)
        return q


def value(v):
    return v["m"] if v["k"] == "count" else float(Fraction(v["r"]))


def call(c, df, seed):
    op = c["op"] if c["op"] != "cover" else c["of"]
    if op == "sample":
        return [sa.sample(df, value(c["v"]), seed=seed)]
    if op == "split":
        q = [float(Fraction(r)) for r in c["q"]]
        return sa.split_by_ratio(df, q[0] if c["single"] else q, seed=seed)
    if op == "neutral":
        by, ctrl = pl.col("g"), [pl.col(x) for x in c["ctrl"]]
        a = c["as"]
        return [sa.volume_neutral(df, by, control=(ctrl[0] if a and len(ctrl) == 1 else ctrl or None), target_volume=None if c["target"] < 0 else c["target"], seed=seed)]
    if op == "down":
        q = [(pl.col(f"c{k}"), value(x["v"])) for k, x in enumerate(c["conds"])]
        return [sa.downsample(df, *q, seed=seed) if c["as"] else sa.downsample(df, q, seed=seed)]
    return None


def part(c, df, feed):
    by = c["by"]
    if not by:
        p = PartitionHelper(feed, None, separator=c["sep"])
    else:
        p = PartitionHelper(feed, by[0] if len(by) == 1 and c["as"] else by, separator=c["sep"])
    s = Seen(df, idname(c))
    names = p.names()
    parts = [s.ids(p.get(n)) for n in names]
    heads = p.head(c["head"])
    gets = p.get("no such part") is None and list(p.parts) == names and all(p.get(n).equals(p.parts[n]) for n in names)
    heads_ok = list(heads) == names and all(heads[n].equals(p.get(n)[:c["head"]]) for n in names)
    applied = p.apply(lambda n, f: (n, f.height)) == {n: (n, len(q)) for n, q in zip(names, parts)}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = p.apply(lambda n, f: 1 // (f.height - 1))
        failed = r == {n: 1 // (len(q) - 1) for n, q in zip(names, parts) if len(q) != 1} and len(w) == sum(len(q) == 1 for q in parts)
    return {"names": names, "parts": parts, "gets": gets, "heads": heads_ok, "applied": applied, "failed": failed, "rows": s.ok}


def run(c):
    if c["op"] == "cols" or (c["op"] == "cover" and c["of"] == "cols"):
        go = lambda seed: sa.random_cols(all_, c["k"], keep=keep, seed=seed)
        all_, keep = list(c["all"]), list(c["keep"]) if c["keep"] or c.get("empty") else None
        if c["op"] == "cover":
            outs = [go(None if c["free"] else s) for s in range(c["seeds"])]
            return {"outs": [list(q) for q in dict.fromkeys(map(tuple, outs))]}
        out = go(c["seed"])
        again = True
        for k in range(3):
            random.seed(k)
            again = again and go(c["seed"]) == out
        return {"out": out, "again": again, "kept": all_ == c["all"] and (keep or []) == c["keep"]}
    df = build(c)
    before = df.clone()
    feed = df.lazy() if c["lazy"] else df
    if c["op"] == "part":
        r = part(c, df, feed)
        r["kept"] = df.equals(before, null_equal=True)
        return r
    if c["op"] == "cover":
        s = Seen(df, idname(c))
        outs = {tuple(sorted(s.ids(call(c, feed, seed)[0]))) for seed in range(c["seeds"])}
        assert s.ok
        return {"outs": [list(q) for q in sorted(outs)]}
    seed = None if c["seed"] < 0 else c["seed"]
    s = Seen(df, idname(c))
    out = call(c, feed, seed)
    ids = [s.ids(o) for o in out]
    again = seed is None or [s.ids(o) for o in call(c, feed, seed)] == ids
    r = {"rows": s.ok, "kept": df.equals(before, null_equal=True), "again": again}
    if c["op"] == "split":
        return r | {"parts": ids}
    return r | {"ids": ids[0]}


# ---- random cases --------------------------------------------------------------------------
NAMES = ["id", "__id", "__tt", "count", "len", "literal"]


def base(r, n):
    g = r.choice([["a"], ["a", "b"], ["a", "b", "c", "null"], ["x|y", "x", "y", "null", "None"], ["A" + str(i) for i in range(12)]])
    h = r.choice([["s"], ["s", "t"], ["s", "y|s", "null"], ["1", "2", "3", "4"]])
    return {"n": n, "g": [r.choice(g) for _ in range(n)], "h": [r.choice(h) for _ in range(n)], "seed": r.choice([-1, 0, 1, 42, r.randrange(10**6)]),
            "lazy": r.random() < 0.3, "layout": r.randrange(4), "name": r.choice(NAMES)}


def val(r, n):
    if r.random() < 0.5:
        return {"k": "count", "m": r.choice([1, 2, 5, n, n + 3, max(1, n // 2), r.randrange(1, n + 2)]), "r": "0"}
    q = r.choice([Fraction(1, 2), Fraction(1, 3), Fraction(1, 10), Fraction(29, 100), Fraction(99, 100), Fraction(r.randrange(1, 1000), 1000)])
    return {"k": "rate", "m": 0, "r": str(q)}


def ratios(r):
    t = r.random()
    if t < 0.35:
        return [str(r.choice([Fraction(1, 2), Fraction(4, 5), Fraction(3, 4), Fraction(1, 3), Fraction(29, 100), Fraction(1, 1000), Fraction(r.randrange(1, 1000), 1000)]))]
    if t < 0.5:
        return [str(Fraction(1, r.choice([2, 3, 5, 6, 7, 10])))] * 1 if t < 0.37 else (lambda k: [str(Fraction(1, k))] * k)(r.choice([2, 3, 5, 6, 7, 10]))
    d = r.choice([10, 20, 100])
    k = r.choice([2, 3, 4, 5])
    cuts = sorted(r.sample(range(1, d), k - 1))
    q = [str(Fraction(b - a, d)) for a, b in zip([0] + cuts, cuts + [d])]
    if r.random() < 0.08:
        q[0] = str(Fraction(q[0]) + Fraction(1, 20))
    return q


def gen(r, tier):
    k = 900 if tier == "quick" else 8000
    for _ in range(k):
        n = r.choice([1, 2, 3, 5, 10, 17, 30, 61, 100])
        b = base(r, n)
        op = r.choice(["sample", "split", "split", "neutral", "down", "down", "part", "cols"])
        if op == "sample":
            yield b | {"op": op, "v": val(r, n)}
        elif op == "split":
            q = ratios(r)
            yield b | {"op": op, "q": q, "single": len(q) == 1 and r.random() < 0.7}
        elif op == "neutral":
            if r.random() < 0.7:      # few values, so that there is something to choose in every segment
                b["g"] = [r.choice(["a", "b"]) for _ in range(n)]
                b["h"] = [r.choice(["s", "t", "null"]) for _ in range(n)]
            b["h2"] = [r.choice(["u", "v", "null"][:r.choice([2, 3])]) for _ in range(n)]
            yield b | {"op": op, "ctrl": r.choice([[], ["h"], ["h", "h"], ["h", "h2"], ["h2", "h"], ["h", "h2"]]), "target": r.choice([-1, -1, 1, 2, 5, 50]), "as": r.randrange(2)}
        elif op == "down":
            kinds = r.choice([["true", "false"], ["true", "false", "null"], ["true"], ["false"], ["null", "true"]])
            conds = []
            for _ in range(r.choice([1, 1, 2, 3])):
                col = [r.choice(kinds) for _ in range(n)]
                if conds and r.random() < 0.6:      # disjoint from the first
                    col = ["false" if "true" in [q["c"][i] for q in conds] else v for i, v in enumerate(col)]
                conds.append({"c": col, "v": val(r, n)})
            yield b | {"op": op, "conds": conds, "as": r.randrange(2)}
        elif op == "part":
            tys = [r.choice(["str", "cat", "str", "int"]), r.choice(["str", "cat"])]
            if r.random() < 0.2:
                tys[1] = "bool"
                b["h"] = [r.choice(["true", "false", "null"]) for _ in range(n)]
            yield b | {"op": op, "by": r.choice([["g"], ["h"], ["g", "h"], ["h", "g"], []]), "tys": tys, "sep": r.choice(["|", "|", "-", "", "a", "::"]), "head": r.choice([0, 1, 2, 5]), "as": r.randrange(2)}
        else:
            m = r.randrange(0, 9)
            al = [f"x{i}" for i in range(m)]
            r.shuffle(al)
            keep = r.sample(al, r.randrange(0, m + 1)) if r.random() < 0.6 else []
            if r.random() < 0.2:
                keep.append("other")
            yield {"op": op, "all": al, "k": r.randrange(0, 5), "keep": keep, "empty": r.random() < 0.5, "seed": r.choice([0, 0, 1, 2**32, r.randrange(1000)])}
    m = 150 if tier == "quick" else 400
    for n, v in [(4, {"k": "count", "m": 2, "r": "0"}), (5, {"k": "rate", "m": 0, "r": "2/5"}), (3, {"k": "count", "m": 1, "r": "0"})]:
        yield base(r, n) | {"op": "cover", "of": "sample", "v": v, "seeds": m}
    for q, single in [(["1/2"], True), (["1/4", "3/4"], False), (["1/2", "1/4", "1/4"], False)]:
        yield base(r, 4) | {"op": "cover", "of": "split", "q": q, "single": single, "seeds": m}
    yield base(r, 6) | {"op": "cover", "of": "neutral", "g": ["a", "b", "b", "a", "b", "b"], "ctrl": [], "target": -1, "as": 0, "seeds": m}
    yield base(r, 6) | {"op": "cover", "of": "down", "conds": [{"c": ["true", "false", "true", "true", "null", "true"], "v": {"k": "rate", "m": 0, "r": "1/2"}}], "as": 1, "seeds": m}
    for free in (False, True):
        yield {"op": "cover", "of": "cols", "all": ["a", "b", "c", "d", "e"], "k": 2, "keep": ["c"], "free": free, "n": 0, "seeds": 200}
        yield {"op": "cover", "of": "cols", "all": ["a", "b", "c", "d"], "k": 2, "keep": [], "free": free, "n": 0, "seeds": 200}
