"""Building frames whose physical layout (chunks, offsets) varies while the values do not."""
import polars as pl


def chunked(s: pl.Series, k: int) -> pl.Series:
    """The same values in k chunks (k = 0: one chunk that is a slice of a longer array)."""
    n = len(s)
    if k == 1 or n == 0:
        return s
    if k == 0:
        return pl.concat([s[:1], s, s[:1]], rechunk=True).slice(1, n)
    k = min(k, n)
    cuts = [n * i // k for i in range(k + 1)]
    return pl.concat([s[cuts[i]:cuts[i + 1]] for i in range(k)], rechunk=False)


def frame(cols, k=1):
    """cols: {name: Series}; columns get different layouts."""
    df = pl.DataFrame({c: chunked(s, k if i % 2 == 0 else (k + 1 if k > 1 else k)) for i, (c, s) in enumerate(cols.items())})
    return df


def out(s: pl.Series):
    from enc import nums
    return {"dtype": str(s.dtype), "v": nums(s.to_list())}
