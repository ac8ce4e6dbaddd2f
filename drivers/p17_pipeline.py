"""P17: pipelines of several steps."""
import pipe
from pipe import run, column, words, WORDS


def C(n):
    return {"op": "col", "n": n}


def Lit(w):
    return {"op": "lit", "w": w}


class Sim:
    """the columns a blueprint has at this point: name -> [kind, raw, may have nan]"""

    def __init__(self, r, f, target, exclude):
        self.r, self.target, self.exclude = r, target, set(exclude) | ({target} if target else set())
        self.c = {q["n"]: [q["k"], True, "nan" in q["v"]] for q in f}
        self.n = 0
        self.names = False         # steps that name the target

    def of(self, *kinds, raw=False, free=True, nan=True):
        return [n for n, (k, x, z) in self.c.items() if k in kinds and (x or not raw) and (nan or not z) and not (free and n in self.exclude)]

    def some(self, q, lo=1, hi=3):
        q = list(q)
        self.r.shuffle(q)
        return q[:self.r.randint(min(lo, len(q)), min(hi, len(q)))]

    def numsel(self, **k):
        r = self.r
        u = r.random()
        if u < 0.3:
            s = r.choice(["numeric", "float", "integer"])
            kinds = {"numeric": ("int", "float", "f32", "f64"), "float": ("float", "f32", "f64"), "integer": ("int",)}[s]
            q = self.of(*kinds, **k)
            if not q or set(q) != set(self.of(*kinds)):
                return None
            return {"s": s}, q
        q = self.some(self.of("int", "float", "f32", "f64", **k))
        if not q:
            return None
        extra = [self.target] if self.target in self.c and r.random() < 0.1 else []       # explicitly named, still left alone
        return {"s": "names", "names": q + extra, "as": r.choice(["list", "str", "cols", "col", "one", "cs"])}, q

    def num(self, depth=2, free=False):
        r = self.r
        q = self.of("int", "float", "f32", "f64", free=free, nan=False)
        if not q:
            return Lit("2")
        u = r.random()
        if depth == 0 or u < 0.45:
            return C(r.choice(q))
        if u < 0.55:
            return {"op": "div", "a": self.num(depth - 1, free), "b": Lit(r.choice(["2", "4", "3/2"]))}
        return {"op": r.choice(["add", "sub", "mul"]), "a": self.num(depth - 1, free), "b": self.num(depth - 1, free) if r.random() < 0.5 else Lit(r.choice(["2", "1/2", "-3"]))}

    def cond(self, depth=1, free=False, sql=False):
        r = self.r
        u = r.random()
        if depth and u < 0.3:
            return {"op": r.choice(["and", "or"]), "a": self.cond(0, free), "b": self.cond(0, free)}
        if u < 0.4:
            return {"op": "not", "a": self.cond(0, free)}
        q = list(self.of("int", "float", "f32", "f64", "str", "bool", free=free))
        n = r.choice(q)
        k = self.c[n][0]
        if u < 0.5:
            return {"op": "isnull", "a": C(n)}
        if k == "str":
            return {"op": "eq", "a": C(n), "b": {"op": "str", "w": r.choice(WORDS)}}
        if k == "bool":
            return C(n)
        if self.c[n][2]:
            return {"op": "isnull", "a": C(n)}
        w = r.choice(["0", "1", "2", "3"]) if k == "int" else r.choice(["6666666/18014398", "13/64", "99/128", "-5/4", "7/4"] if not self.c[n][1] else ["1/2", "3/2", "0", "2"])
        return {"op": r.choice(["lt", "le", "gt", "ge"] + (["eq"] if k == "int" else [])), "a": C(n), "b": Lit(w)}

    def fresh(self):
        self.n += 1
        return f"n{self.n}"

    def set(self, names, kind, raw=False):
        for n in names:
            self.c[n] = [kind(self.c[n][0]) if callable(kind) else kind, raw, False]

    def step(self):
        r = self.r
        op = r.choice(["impute", "impute", "cimpute", "scale", "scale", "center", "robust", "winsor", "linear", "onehot", "rank", "tenc", "woe", "iv", "append", "append", "filter", "sql", "select",
                       "drop", "rename", "poly", "cast_bools", "int_to_float", "nan_to_null", "fitfunc"])
        s = {"op": op, "dict": r.random() < 0.3}
        flt = lambda k: "float" if k in ("int", "f32", "f64", "float") else k
        y = self.target
        if op == "impute":
            s["m"] = r.choice(["mean", "median", "mode"])
            if s["m"] == "mode":
                q = self.some(self.of("int", "str", "float", raw=True, nan=False))
                if not q:
                    return None
                s["sel"] = {"s": "names", "names": q, "as": r.choice(["list", "cols", "col", "cs"])}
            else:
                v = self.numsel(nan=False)
                if not v:
                    return None
                s["sel"], q = v
                self.set(q, flt, raw=False)
                for n in q:
                    self.c[n][1] = False
        elif op == "cimpute":
            s["m"], s["sql"] = r.choice(["mean", "median", "mode"]), r.random() < 0.5
            q = self.some(self.of("int", "float", raw=s["m"] == "mode", nan=False), 1, 2)
            if not q:
                return None
            s["rules"] = [{"n": n, "e": self.cond()} for n in q]
            if s["m"] != "mode":
                self.set(q, "float")
        elif op in ("scale", "center", "robust", "fitfunc"):
            v = self.numsel(nan=False)
            if not v:
                return None
            s["sel"], q = v
            if op == "scale":
                s["m"] = r.choice(["standard", "min_max", "abs_max"])
            if op == "robust":
                s["lo"], s["hi"] = r.choice([("1/4", "3/4"), ("1/10", "9/10"), ("0", "1"), ("3/10", "6/10")])
            if op == "fitfunc":
                s["f"] = r.choice(["1", "1/2"])
                s["dict"] = False
            self.set(q, "float")
        elif op == "winsor":
            s["m"] = r.choice(["nearest", "higher", "lower", "midpoint", "linear"])
            s["lo"], s["hi"] = r.choice([("1/4", "3/4"), ("1/20", "19/20"), ("0", "1/2"), ("3/10", "6/10")])
            if s["m"] in ("midpoint", "linear"):
                q = self.some(self.of("float", "f32", nan=False))
                if not q:
                    return None
                s["sel"] = {"s": "names", "names": q, "as": "list"}
            else:
                v = self.numsel(nan=False)
                if not v:
                    return None
                s["sel"], q = v
        elif op == "linear":
            q = self.some(self.of("int", "float", "f32", nan=False), 1, 2)
            z = [n for n in self.of("int", "float", nan=False) if n not in q]
            if not q or not z:
                return None
            s["target"] = r.choice(z)
            if y in self.c and self.c[y][0] in ("int", "float") and y not in q and r.random() < 0.3:
                s["target"] = "" if r.random() < 0.7 else y
            s["bias"] = r.random() < 0.5
            s["sel"] = {"s": "names", "names": q, "as": r.choice(["list", "cols", "cs"])}
            n = s["target"] or y
            self.names |= n == y
            self.c[n] = ["float", False, False]
        elif op == "onehot":
            q = self.of("str")
            if not q:
                return None
            if r.random() < 0.3:
                s["sel"] = {"s": "string"}
            else:
                q = self.some(q, 1, 2)
                s["sel"] = {"s": "names", "names": q + ([y] if y in self.c and r.random() < 0.1 else []), "as": r.choice(["list", "str", "cols", "col", "one", "cs"])}
            s |= {"sep": r.choice(["_", "=", "__"]), "first": r.random() < 0.4, "drop": r.random() < 0.7}
            if s["drop"]:
                for n in q:
                    del self.c[n]
        elif op == "rank":
            q = self.of("str")
            if not q:
                return None
            w = list(WORDS)
            r.shuffle(w)
            s |= {"n": r.choice(q), "ranking": w[:r.randint(2, 4)], "drop": r.random() < 0.6}
            if s["drop"]:
                del self.c[s["n"]]
        elif op in ("tenc", "woe", "iv"):
            q = self.some(self.of("str"), 1, 2)
            if not q or y not in self.c or self.c[y][0] not in ("int", "float"):
                return None
            if op != "tenc" and not self.c[y][1]:
                return None
            s["sel"] = {"s": "string"} if r.random() < 0.3 else {"s": "names", "names": q, "as": r.choice(["list", "str", "cols", "col", "cs"])}
            if s["sel"]["s"] == "string":
                q = self.of("str")
            s["target"] = y if r.random() < 0.3 else ""
            s["default"] = r.choice(["null", "zero", "mean", "1/2", "none"])
            if op == "tenc":
                s |= {"leaf": r.choice(["1", "2", "20"]), "smooth": r.choice(["10", "1", "1/2"])}
            self.set(q, "float")
        elif op == "append":
            s |= {"exprs": [], "select": r.random() < 0.15, "list": r.random() < 0.3}
            if s["list"]:
                s["dict"] = False
            keep = list(self.c) if s["select"] else []
            new = {}
            for _ in range(r.randint(1, 2)):
                u = r.random()
                n = self.fresh() if u < 0.7 or not self.of("int", "float") else r.choice([x for x in self.of("int", "float") if x != y] or [self.fresh()])
                if n in new:
                    continue
                w = r.random()
                if w < 0.6:
                    e = self.num()
                elif w < 0.75:
                    e = self.cond()
                elif w < 0.9:
                    q = self.of("int", "float", free=False, nan=False)
                    e = {"op": "sub", "a": self.num(0), "b": {"op": "mean", "n": r.choice(q)}} if q else Lit("1")
                    e = e if q else self.cond()
                else:
                    q = self.of("int", "float", free=False, nan=False)
                    e = {"op": "fill", "a": C(r.choice(q)), "b": Lit(r.choice(["0", "1/2"]))} if q else self.cond()
                s["exprs"].append({"n": n, "e": e})
                new[n] = ["bool" if e["op"] in ("isnull", "not", "and", "or", "lt", "le", "gt", "ge", "eq") else self.c[e["n"]][0] if e["op"] == "col" else "float?", False, False]
            for n in new:
                if new[n][0] == "float?":
                    new[n][0] = "mixed"
            if s["select"]:
                left = self.some([n for n in self.c if n not in new], 1, 4)
                if y in self.c and y not in left and y not in new:
                    left.append(y)
                s["exprs"] += [{"n": n, "e": C(n)} for n in left]
                self.c = {n: self.c[n] for n in left}
            self.c |= new
        elif op == "filter":
            s |= {"e": self.cond(), "sql": r.random() < 0.5}
        elif op == "sql":
            s |= {"star": r.random() < 0.7, "where": [self.cond()] if r.random() < 0.4 else [], "items": []}
            new = {}
            for _ in range(r.randint(0 if s["star"] else 1, 2)):
                n, e = self.fresh(), self.num(1)
                s["items"].append({"n": n, "e": e})
                new[n] = ["mixed", False, False]
            if any(has(i["e"], "div") for i in s["items"]):
                return None
            if not s["star"]:
                left = self.some(self.c, 1, 4)
                if y in self.c and y not in left:
                    left.append(y)
                s["items"] += [{"n": n, "e": C(n)} for n in left]
                self.c = {n: self.c[n] for n in left}
            if not s["items"]:
                s["items"] = []
            self.c |= new
            s["dict"] = False
        elif op == "select":
            if r.random() < 0.15:
                s["sel"] = {"s": "numeric"}
                self.c = {n: v for n, v in self.c.items() if v[0] in ("int", "float", "f32", "f64", "mixed")}
            else:
                q = self.some(self.c, 2, 6)
                if y in self.c and y not in q and r.random() < 0.8:
                    q.append(y)
                s["sel"] = {"s": "names", "names": q, "as": r.choice(["list", "str", "cols", "col", "cs"])}
                self.c = {n: self.c[n] for n in q}
            if not self.c:
                return None
        elif op == "drop":
            if r.random() < 0.2:
                s["sel"] = {"s": r.choice(["string", "boolean", "integer"])}
                kinds = {"string": "str", "boolean": "bool", "integer": "int"}[s["sel"]["s"]]
                if any(v[0] == "mixed" for v in self.c.values()):
                    return None
                self.c = {n: v for n, v in self.c.items() if v[0] != kinds or n in self.exclude}
            else:
                q = self.some([n for n in self.c if n not in self.exclude], 1, 2)
                if not q or len(q) == len(self.c):
                    return None
                s["sel"] = {"s": "names", "names": q, "as": r.choice(["list", "str", "cols", "col", "one", "cs"])}
                self.c = {n: v for n, v in self.c.items() if n not in q}
            s["ex"] = []
            if not self.c:
                return None
        elif op == "rename":
            q = self.some([n for n in self.c if n not in self.exclude], 1, 3)
            if not q:
                return None
            u = r.random()
            new = q[1:] + q[:1] if u < 0.35 else [self.fresh() for _ in q] if u < 0.9 or len(q) < 2 else q[1:] + [self.fresh()]
            s["pairs"] = [list(p) for p in zip(q, new)]
            old = {n: self.c.pop(n) for n in q}
            self.c |= {b: old[a] for a, b in zip(q, new)}
        elif op == "poly":
            q = self.some([n for n in self.of("int", "float", nan=False)], 1, 3)
            if not q:
                return None
            s |= {"names": q, "degree": r.choice([2, 2, 3]), "io": r.random() < 0.5}
        elif op == "cast_bools":
            self.set([n for n, v in self.c.items() if v[0] == "bool"], "int", raw=True)
        elif op == "int_to_float":
            s["f32"] = r.random() < 0.3
            if s["f32"] and (y in self.c) and self.c[y][0] == "int" and False:
                return None
            for n, v in self.c.items():
                if v[0] == "int":
                    self.c[n] = ["float", v[1] and not s["f32"], False]
            if s["f32"] or any(v[0] == "mixed" for v in self.c.values()):
                for v in self.c.values():
                    v[1] = False
        elif op == "nan_to_null":
            for v in self.c.values():
                v[2] = False
        return s


def has(e, op):
    return e["op"] == op or any(has(e[k], op) for k in ("a", "b") if k in e)


def base(r, rows, names=None, nan=0.0, target="y", ykind="int"):
    f = [column(r, "a", "int", rows, ty=r.choice(["Int64", "Int32", "Int64", "Int16"])), column(r, "b", "float", rows, nan=nan), column(r, "c", "float", rows, nulls=0.0),
         column(r, "d", "int", rows, nulls=0.0), column(r, "s", "str", rows), column(r, "t", "str", rows, nulls=0.1), column(r, "f", "bool", rows)]
    if r.random() < 0.2:
        f.append(column(r, "g", "f32", rows))
    y = column(r, "y", "int" if ykind != "str" else "str", rows, nulls=0.0)
    if ykind == "int":
        y["v"] = [str(r.randint(0, 1)) for _ in y["v"]]
    elif ykind == "float":
        y = column(r, "y", "float", rows, nulls=0.0)
    f.append(y)
    return f


def like(r, f, rows, nan=0.0):
    out = []
    for q in f:
        g = column(r, q["n"], q["k"], rows, ty=q.get("ty"), nan=nan if "nan" in q["v"] else 0.0)
        if q["n"] == "y":
            g["v"] = [r.choice(q["v"]) for _ in range(rows)]
        if q["n"] in ("c", "d"):
            g["v"] = [r.choice(q["v"]) if v == "null" else v for v in g["v"]]
        if q["k"] == "str" and rows and r.random() < 0.3:
            g["v"][0] = "new"
        out.append(g)
    return out


def upcase(r, f):
    m = {q["n"]: r.choice([q["n"], q["n"].upper()]) for q in f}
    return m


def case(r, k):
    nan = 0.2 if r.random() < 0.15 else 0.0
    ykind = r.choice(["int", "int", "int", "float", "str"])
    rows = r.choice([4, 6, 9, 12])
    f = base(r, rows, nan=nan, ykind=ykind)
    target = "y" if r.random() < 0.85 else ""
    exclude = r.sample(["a", "b", "c", "s"], r.choice([1, 1, 2, 3])) if r.random() < 0.3 else []
    sim = Sim(r, f, target, exclude)
    steps = []
    if nan and r.random() < 0.7:
        steps.append({"op": "nan_to_null", "dict": False})
        for v in sim.c.values():
            v[2] = False
    want = r.choice([1, 2, 3, 3, 4, 5])
    for _ in range(want * 4):
        if len(steps) >= want:
            break
        saved, n = {a: list(b) for a, b in sim.c.items()}, sim.n
        s = sim.step()
        if s is None:
            sim.c, sim.n = saved, n
        else:
            if s.get("op") in ("sql",) or callable(s.get("f")):
                s["dict"] = False
            steps.append(s)
    tests = [like(r, f, r.choice([0, 1, 3, 5]), nan), like(r, f, r.choice([1, 2, 4]), nan)]
    i = r.randrange(rows)
    tests.append([dict(q, v=[q["v"][i]]) for q in f])
    opts = {"target": target, "exclude": exclude + ([target] if target else []), "case": "none", "ensure_in": r.random() < 0.25, "ensure_out": r.random() < 0.8}
    u = r.random()
    if u < 0.25:
        t = like(r, f, 3, nan)
        r.shuffle(t)
        tests[1] = t
    elif u < 0.45:
        tests[1] = like(r, f, 3, nan) + [{"n": "extra", "k": r.choice(["int", "str", "float"]), "v": ["1", "2", "null"]}]
    elif u < 0.6 and opts["ensure_in"]:
        tests[1] = [q for q in tests[1] if q["n"] != r.choice(["a", "s"])]
        tests = tests[:2]
    elif u < 0.75 and target and not opts["ensure_out"] and not opts["ensure_in"] and not any(mentions(s) for s in steps):
        tests[1] = [q for q in tests[1] if q["n"] != "y"]
    names = []
    if r.random() < 0.15:
        opts["case"] = r.choice(["lower", "upper"])
        m = {q["n"]: r.choice([q["n"], q["n"].upper()]) for q in f}
        if opts["case"] == "upper":
            up(steps)
            opts["target"], opts["exclude"] = opts["target"].upper(), [x.upper() for x in opts["exclude"]]
            names = [[v, v.upper()] for v in sorted(set(m.values()) | set(m))]
        else:
            names = [[v, v.lower()] for v in sorted(set(m.values()) | set(m))]
        f = [dict(q, n=m[q["n"]]) for q in f]
        tests = [[dict(q, n=m.get(q["n"], q["n"])) for q in t] for t in tests]
        tests = [[q for q in t if q["n"] != "extra"] for t in tests]
    c = {"op": "pipe", "train": f, "tests": tests, "opts": opts, "steps": steps, "names": names, "layout": r.choice([0, 1, 1, 3]), "lazy": r.random() < 0.3, "file": r.random() < 0.1, "direct": False}
    c["f32"] = any(q["k"] == "f32" for q in f) or any(s.get("f32") for s in steps)
    c["words"] = words(c)
    return c


def mentions(s):
    """does a step need the target when transforming?"""
    return s["op"] in ("linear", "select", "sql", "append", "filter", "cimpute", "rename") or (s["op"] == "drop")


def up(x):
    """column names in the steps, upper-cased"""
    if isinstance(x, list):
        for v in x:
            up(v)
    elif isinstance(x, dict):
        for k, v in x.items():
            if k in ("n", "target") and isinstance(v, str):
                x[k] = v.upper()
            elif k == "names":
                x[k] = [n.upper() for n in v]
            elif k == "pairs":
                x[k] = [[a.upper(), b.upper()] for a, b in v]
            else:
                up(v)


def gen(r, tier):
    for i in range(900 if tier == "quick" else 7000):
        yield case(r, i)
