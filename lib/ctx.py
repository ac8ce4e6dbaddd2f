"""Evaluates an expression over some columns in different contexts; the answer for the given rows must not depend on which.

 0 select   1-3 select over chunked columns   4 lazy select   5 aggregation in a group   6 window   7 sliced column
"""
import polars as pl
from enc import num
from frames import frame

CTX = [0, 0, 0, 1, 2, 3, 4, 5, 5, 6, 7]


def decoy(df):
    """another group, of rows of the same kind: the rows backwards and the first one again"""
    return pl.concat([df.reverse(), df[:1]])


def grouped(df):
    d = decoy(df).with_columns(pl.lit(1, dtype=pl.Int32).alias("g__"))
    a = df.with_columns(pl.lit(0, dtype=pl.Int32).alias("g__"))
    k = max(1, len(a) // 2)
    return pl.concat([d[:k], a[:k], d[k:], a[k:]], rechunk=True)      # interleaved, in order within each group


def ev(expr, cols, ctx=0, rows=False):
    """cols: {name: Series}.  Returns the resulting Series for these rows (rows: one value per row, not one in all)."""
    n = len(next(iter(cols.values()))) if cols else 0
    expr = expr.alias("r__")
    if n == 0 or ctx in (0, 1, 2, 3, 7):
        return frame(cols, {0: 1, 7: 0}.get(ctx, ctx)).select(expr)["r__"]
    df = frame(cols, 1)
    if ctx == 4:
        return df.lazy().select(expr).collect()["r__"]
    g = grouped(df)
    if ctx == 5:
        r = g.group_by("g__", maintain_order=True).agg(expr).filter(pl.col("g__") == 0)["r__"]
        return r.explode() if isinstance(r.dtype, pl.List) else r
    r = g.with_columns(expr.over("g__")).filter(pl.col("g__") == 0)["r__"]
    if rows:
        return r
    first = r[:1]
    assert_same = r.to_list()
    if any(not same(v, assert_same[0]) for v in assert_same):
        raise RuntimeError("the value of a group differs between its rows")
    return first


def same(a, b):
    return a == b or (a != a and b != b) or (isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))) or (isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a))


def scalar(s):
    """the single value of a series, encoded"""
    if len(s) != 1:
        raise RuntimeError(f"{len(s)} values instead of one")
    v = s[0]
    return {k: num(x) for k, x in v.items()} if isinstance(v, dict) else num(v)
