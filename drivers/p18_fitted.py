"""P18: single fitted transforms, over many kinds of columns and parameters, alone or as the step of a blueprint."""
import pipe
from pipe import run, column, words, WORDS, INTS, FLOATS
from p17_pipeline import Sim, C, Lit, like

QS = [("1/4", "3/4"), ("1/20", "19/20"), ("0", "1"), ("1/10", "3/10"), ("3/10", "1/2"), ("1/2", "51/100"), ("0", "1/3"), ("1/3", "2/3")]
BADQ = [("3/4", "1/4"), ("-1/10", "1/2"), ("1/2", "11/10"), ("1/2", "1/2")]


def frame(r, rows):
    def nums(k, how):
        if how == "const":
            v = r.choice(["3", "0", "-2"])
            return [v] * rows
        if how == "null":
            return ["null"] * rows
        q = column(r, "x", k, rows, nulls={"nulls": 0.25, "sparse": 0.6}.get(how, 0.0))["v"]
        if how == "ties" and k == "int":
            q = [r.choice(["1", "2"]) for _ in q]
        return q
    f = []
    for n, k, ty in [("a", "int", r.choice(["Int64", "Int32", "Int8", "UInt8", "UInt32", "Int16"])), ("b", "float", "Float64"), ("c", "float", "Float64"), ("d", "int", "Int64"), ("g", "f32", "Float32")]:
        v = nums(k, r.choice(["plain", "nulls", "nulls", "sparse", "ties", "const", "null"] if n != "d" else ["plain"]))
        if ty[0] == "U":
            off = r.choice([0, 5, 200])      # what is seen later may be smaller
            v = [x if x == "null" else str(abs(int(x)) + off) for x in v]
        if ty in ("Int8", "Int16", "Int32") and r.random() < 0.5:
            top = 2 ** (int(ty[3:]) - 1)
            v = [x if x == "null" or r.random() < 0.5 else str(r.choice([-top, top - 1, top - top // 4, 1 - top])) for x in v]
        f.append({"n": n, "k": k, "ty": ty, "v": v})
    if r.random() < 0.6:
        f = [q for q in f if q["k"] != "f32"]
    for n in ("s", "t"):
        f.append(column(r, n, "str", rows, nulls=r.choice([0, 0.2, 1.0]) if r.random() < 0.4 else 0.2))
        if r.random() < 0.1:
            f[-1]["v"] = ["a"] * rows
    f.append({"n": "k", "k": "cat", "v": column(r, "k", "str", rows)["v"]})
    f.append(column(r, "f", "bool", rows))
    y = [str(r.randint(0, 1)) for _ in range(rows)] if r.random() < 0.7 else column(r, "y", "float", rows, nulls=0)["v"]
    if r.random() < 0.25:          # rows whose target is not known
        y = ["null" if r.random() < 0.3 else v for v in y]
        if all(v == "null" for v in y):
            y[0] = "1"
    f.append({"n": "y", "k": "int" if all(v in ("0", "1", "null") for v in y) else "float", "v": y})
    return f


def tests(r, f):
    out = []
    for rows in (r.choice([1, 4]), r.choice([0, 2, 5])):
        g = []
        for q in f:
            v = column(r, q["n"], q["k"], rows)["v"] if q["n"] != "d" else [str(r.choice(INTS)) for _ in range(rows)]
            if q.get("ty", "I")[0] == "U":
                v = [x.lstrip("-") for x in v]
            if q["k"] in ("str", "cat") and rows > 1:
                v[0] = r.choice(["new", v[0]])
            g.append(dict(q, v=v))
        out.append(g)
    return out


def case(r):
    rows = r.choice([1, 2, 3, 4, 5, 7, 10, 15])
    f = frame(r, rows)
    direct = r.random() < 0.5
    target = "y" if r.random() < 0.9 else ""
    sim = Sim(r, f, target, [])
    op = r.choice(["impute", "impute", "cimpute", "cimpute", "scale", "scale", "scale", "center", "robust", "winsor", "winsor", "linear", "onehot", "onehot", "rank", "tenc", "tenc", "woe", "iv", "poly", "fitfunc"])
    s = {"op": op, "dict": r.random() < 0.2 and not direct, "lazy": direct and r.random() < 0.5}
    names = lambda q: {"s": "names", "names": q, "as": "list" if direct else r.choice(["list", "cols", "col", "cs", "one", "str"])}
    num = [q["n"] for q in f if q["k"] in ("int", "float", "f32") and q["n"] != "y"]
    some = lambda q, lo, hi: sim.some(q, lo, hi)
    bad = r.random() < 0.06
    if op == "impute":
        s |= {"m": r.choice(["mean", "median", "mode"]) if not bad else "max", "sel": names(some(num, 1, 3))}
        if s["m"] == "mode":
            s["sel"] = names(some(num + ["s", "t", "f"], 1, 3))
    elif op == "cimpute":
        s |= {"m": r.choice(["mean", "median", "mode"]) if not bad else "most", "sql": r.random() < 0.5, "rules": [{"n": n, "e": sim.cond(free=True)} for n in some(num, 1, 2)]}
    elif op == "scale":
        s |= {"m": r.choice(["standard", "min_max", "abs_max"]) if not bad else "unit", "sel": names(some(num, 1, 4))}
    elif op in ("center", "fitfunc"):
        s |= {"sel": names(some(num, 1, 4))}
        if op == "fitfunc":
            s |= {"f": r.choice(["1", "1/2", "-2"]), "dict": False}
    elif op in ("robust", "winsor"):
        q = num
        if op == "winsor":
            s["m"] = r.choice(["nearest", "higher", "lower", "midpoint", "linear"])
            q = [n for n in num if s["m"] not in ("midpoint", "linear") or n not in ("a", "d")]
        s["lo"], s["hi"] = r.choice(BADQ if bad else QS)
        s["sel"] = names(some(q, 1, 3))
    elif op == "linear":
        q = some(["c", "d", "b", "a"], 1, 3)
        z = [n for n in ("a", "b", "c", "d") if n not in q]
        s |= {"target": r.choice(z) if not bad or direct else "", "bias": r.random() < 0.5, "sel": names(q)}
    elif op == "onehot":
        s |= {"sel": names(some(["s", "t", "k"], 1, 3) + (["a"] if r.random() < 0.1 else [])), "sep": r.choice(["_", "", "::"]), "first": r.random() < 0.5, "drop": not direct and r.random() < 0.5}
    elif op == "rank":
        w = [v for v in WORDS]
        r.shuffle(w)
        s |= {"n": r.choice("st"), "ranking": w[:1 if bad else r.randint(2, 5)], "drop": not direct and r.random() < 0.5}
    elif op in ("tenc", "woe", "iv"):
        if op != "tenc":
            f[-1] = {"n": "y", "k": "int", "v": [str(r.randint(0, 1)) for _ in range(rows)]}
        s |= {"sel": names(some(["s", "t", "k"], 1, 2) + (["d"] if r.random() < 0.1 else [])), "target": "y" if direct or r.random() < 0.5 else "", "default": r.choice(["null", "zero", "mean", "1/2", "none", "-3", "0"])}
        if op == "tenc":
            s |= {"leaf": r.choice(["0", "1", "2", "5", "20"]), "smooth": r.choice(["10", "1", "1/2", "20"])}
    elif op == "poly":
        s |= {"names": some(num, 1, 3), "degree": r.choice([2, 2, 3, 4]) if not bad else r.choice([0, 1]), "io": r.random() < 0.5}
    for k in ("a",):
        pass
    if op == "poly":
        for q in f:
            if q["k"] == "int":
                q["ty"] = "Int64"
                q["v"] = [x if x == "null" or abs(int(x)) < 300 else "7" for x in q["v"]]
    ts = tests(r, f)
    c = {"op": "fit", "train": f, "tests": ts, "opts": {"target": target if not direct else "", "exclude": [target] if target and not direct else [], "case": "none", "ensure_in": False, "ensure_out": True},
         "steps": [s], "names": [], "layout": r.choice([0, 1, 3]), "lazy": r.random() < 0.3, "file": False, "direct": direct, "f32": any(q["k"] == "f32" for q in f)}
    c["words"] = words(c)
    return c


def gen(r, tier):
    for _ in range(2000 if tier == "quick" else 9000):
        yield case(r)
