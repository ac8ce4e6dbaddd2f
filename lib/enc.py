"""Encodings between the library's values and the specification's.

 numbers : "n" or "n/d" (exact), "nan", "inf", "-inf", "null"
 strings : {"s": [code points]} would be heavy, so a string is its list of code points; null is [-1]
"""
import math
import numpy as np


def num(x):
    if x is None:
        return "null"
    if isinstance(x, (bool, np.bool_)):
        return "1" if x else "0"
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    n, d = x.as_integer_ratio()
    return str(n) if d == 1 else f"{n}/{d}"


def nums(xs):
    return [num(x) for x in xs]


def unnum(s):
    if s == "null":
        return None
    if s in ("nan", "inf", "-inf"):
        return float(s)
    if "/" in s:
        n, d = s.split("/")
        return int(n) / int(d)
    return float(int(s))


def unnums(xs):
    return [unnum(x) for x in xs]


def st(s):
    return [-1] if s is None else [ord(c) for c in s]


def unst(cs):
    return None if list(cs) == [-1] else "".join(map(chr, cs))


def sts(xs):
    return [st(x) for x in xs]


def unsts(xs):
    return [unst(x) for x in xs]
