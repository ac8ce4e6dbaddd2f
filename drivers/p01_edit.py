"""P01: edit distances and similarities."""
import polars as pl
import polars_ds as pds
from enc import num, sts, unsts, unnum
from frames import frame, out

OPS = ["leven", "leven_sim", "osa", "osa_sim", "dleven", "dleven_sim", "lcs", "lcs_sim", "fuzz",
       "hamming", "hamming_pad", "leven_filter", "hamming_filter", "jaro", "jw"]


def expr(op, a, b, c):
    p = c["par"]
    return {
        "leven": lambda: pds.str_leven(a, b, parallel=p),
        "leven_sim": lambda: pds.str_leven(a, b, parallel=p, return_sim=True),
        "osa": lambda: pds.str_osa(a, b, parallel=p),
        "osa_sim": lambda: pds.str_osa(a, b, parallel=p, return_sim=True),
        "dleven": lambda: pds.str_d_leven(a, b, parallel=p),
        "dleven_sim": lambda: pds.str_d_leven(a, b, parallel=p, return_sim=True),
        "lcs": lambda: pds.str_lcs_seq(a, b, parallel=p, return_sim=False),
        "lcs_sim": lambda: pds.str_lcs_seq(a, b, parallel=p, return_sim=True),
        "fuzz": lambda: pds.str_fuzz(a, b, parallel=p),
        "hamming": lambda: pds.str_hamming(a, b, parallel=p),
        "hamming_pad": lambda: pds.str_hamming(a, b, pad=True, parallel=p),
        "leven_filter": lambda: pds.filter_by_levenshtein(a, b, bound=c["bound"], parallel=p),
        "hamming_filter": lambda: pds.filter_by_hamming(a, b, bound=c["bound"], parallel=p),
        "jaro": lambda: pds.str_jaro(a, b, parallel=p),
        "jw": lambda: pds.str_jw(a, b, weight=unnum(c["weight"]), parallel=p),
    }[op]()


def run(c):
    a, b = unsts(c["a"]), unsts(c["b"])
    cols = {"a": pl.Series("a", a, dtype=pl.String)}
    if c["sc"]:
        other = pl.lit(b[0], dtype=pl.String)
    else:
        cols["b"] = pl.Series("b", b, dtype=pl.String)
        other = pl.col("b")
    df = frame(cols, c["ch"])
    e = expr(c["op"], pl.col("a"), other, c)
    g = c.get("grp")
    if not g:
        return out(df.select(e.alias("r")).to_series())
    n = len(a)   # the same answer row by row when the column is split into groups
    df = df.with_columns(g=pl.Series([i * 7 % g for i in range(n)]), i=pl.int_range(n))
    if g == 2:
        return out(df.with_columns(e.over("g").alias("r"))["r"])
    r = df.group_by("g").agg(pl.col("i"), e.alias("r")).explode("i", "r").sort("i")["r"]
    return out(r)


ALPH = ["ab", "abc", "aé", "あいう", "a😀b", "abcdefghijklmnopqrstuvwxyz", "kitensg", "ab ", "0123456789", "e\u0301a\u0300"]


def word(r, n, al):
    return "".join(r.choice(al) for _ in range(n))


def mutate(r, s, al):
    s = list(s)
    for _ in range(r.randint(0, 4)):
        k = r.randint(0, 3)
        i = r.randint(0, max(0, len(s) - 1))
        if k == 0:
            s.insert(r.randint(0, len(s)), r.choice(al))
        elif k == 1 and s:
            s.pop(i)
        elif k == 2 and s:
            s[i] = r.choice(al)
        elif len(s) > 1:
            i = r.randint(0, len(s) - 2)
            s[i], s[i + 1] = s[i + 1], s[i]
    return "".join(s)


def pair(r, big):
    al = r.choice(ALPH)
    n = r.choice([0, 1, 2, 3, 5, 8, 12]) if not big else r.choice([60, 63, 64, 65, 66, 100, 127, 128, 129, 130])
    s = word(r, n, al)
    t = mutate(r, s, al) if r.random() < 0.7 else word(r, max(0, n + r.randint(-3, 3)), al)
    return s, t


def gen(r, tier):
    k = 2 if tier == "quick" else 12
    for op in OPS:
        for j in range(30 * k):
            big = j % 7 == 6
            n = 4 if big else r.choice([1, 2, 5, 9, 17, 40])
            rows = [pair(r, big) for _ in range(n)]
            nulls = r.random() < 0.5
            a = [None if nulls and r.random() < 0.3 else x for x, _ in rows]
            b = [None if nulls and r.random() < 0.3 else y for _, y in rows]
            sc = j % 3 == 0
            if sc:
                b = [rows[0][1]]
            bound = r.choice([0, 1, 2, 3, 4, 10])
            if op.endswith("filter") and big:
                bound = r.choice([1, 2, 3, 4, 30, 64, 100])
            c = {"op": op, "a": sts(a), "b": sts(b), "sc": sc, "par": r.random() < 0.5, "ch": r.choice([0, 1, 2, 3]),
                 "bound": bound, "weight": r.choice(["1/10", "1/4", "0", "1/8"])}
            c["weight"] = num(unnum(c["weight"]))
            if j % 5 == 4 and n > 1:
                c["grp"] = r.choice([2, 3])
            yield c
        # one string missing altogether
        for par in (False, True):
            yield {"op": op, "a": sts(["ab", None, "b"]), "b": sts([None]), "sc": True, "par": par, "ch": 1, "bound": 1, "weight": "1/8"}
        yield {"op": op, "a": [], "b": [], "sc": False, "par": False, "ch": 1, "bound": 1, "weight": "1/8"}
