"""P04: neighbour queries over a frame."""
import polars as pl
import polars_ds as pds
from enc import num, nums, unnum
from frames import frame

MISSING, NOTNUM = 99999, 99998


def coord(x, u):
    return None if x == MISSING else float("nan") if x == NOTNUM else x * u


def lists(s):
    return [[-1] if v is None else list(v) for v in s.to_list()]


def build(c):
    u = unnum(c["unit"])
    X = c["X"]
    dim = len(X[0]) if X else c["dim"]
    cols = {}
    for j in range(dim):
        col = [coord(row[j], u) for row in X]
        s = pl.Series(f"x{j}", col, dtype=pl.Float64)
        if c.get("int") and u == 1 and not any(row[j] == NOTNUM for row in X):
            s = s.cast(pl.Int32 if j % 2 else pl.Float32)
        cols[f"x{j}"] = s
    if "index" in c:
        cols["id"] = pl.Series("id", c["index"], dtype=pl.Int64 if c.get("int") else pl.UInt32)
    for f in ("data", "eval"):
        if f in c:
            cols[f] = pl.Series(f, [None if b == 2 else bool(b) for b in c[f]], dtype=pl.Boolean)
    if "target" in c:
        cols["target"] = pl.Series("target", [unnum(x) for x in c["target"]], dtype=pl.Float64)
    if "r" in c and len(c["r"]) != 1:
        cols["r"] = pl.Series("r", [unnum(x) for x in c["r"]], dtype=pl.Float64)
    return cols, dim, u


def run(c):
    if c["op"] == "tree":
        return tree(c)
    cols, dim, u = build(c)
    df = frame(cols, c["ch"])
    fs = [f"x{j}" for j in range(dim)]
    if c.get("exprs"):
        fs = [pl.col(f) for f in fs]
    op, par = c["op"], c.get("par", False)
    kw = {}
    if op in ("knn", "freq"):
        if "data" in c:
            kw["data_mask"] = "data" if not c.get("exprs") else pl.col("data")
        if "eval" in c:
            kw["eval_mask"] = "eval"
    if "maxb" in c and c["maxb"] != "99999":
        kw["max_bound"] = unnum(c["maxb"])
    d = c.get("dist")
    if op == "knn":
        e = pds.query_knn_ptwise(*fs, index="id", k=c["k"], dist=d, parallel=par, return_dist=c["wd"], **kw)
        r = df.select(e.alias("r"))["r"]
        if c["wd"]:
            return {"ids": lists(r.struct.field("idx")), "ds": [["null"] if v is None else nums(v) for v in r.struct.field("dist").to_list()]}
        return {"ids": lists(r), "ds": [["null"] if v is None else [] for v in r.to_list()]}
    if op == "kth":
        e = pds.query_dist_from_kth_nb(*fs, k=c["k"], dist=d, parallel=par, **kw, **({"epsilon": unnum(c["eps"])} if "eps" in c else {}))
    elif op == "radius":
        e = pds.query_radius_ptwise(*fs, index="id", r=unnum(c["r"][0]), dist=d, sort=c["sort"], parallel=par)
        return {"ids": lists(df.select(e.alias("r"))["r"])}
    elif op == "count":
        rs = [unnum(x) for x in c["r"]]
        r = rs[0] if c["how"] == "float" else {"list": rs, "col": "r", "expr": pl.col("r") * 1.0 if "r" in cols else None}[c["how"]]
        e = pds.query_nb_cnt(*fs, r=r, dist=d, parallel=par)
    elif op in ("freq", "rfreq"):
        if op == "freq":
            e = pds.query_knn_freq_cnt(*fs, index="id", k=c["k"], dist=d, parallel=par, **kw)
        else:
            e = pds.query_radius_freq_cnt(*fs, index="id", r=unnum(c["r"][0]), dist=d, parallel=par)
        r = df.select(e.alias("r"))["r"]
        names = r.struct.fields
        return {"idx": r.struct.field(names[0]).to_list(), "cnt": r.struct.field(names[1]).to_list()}
    elif op == "avg":
        if "minb" in c:
            kw["min_bound"] = unnum(c["minb"])
        e = pds.query_knn_avg(*fs, target="target", k=c["k"], dist=d, weighted=c["weighted"], parallel=par, **kw)
    elif op in ("nearpt", "cos"):
        rs = [unnum(x) for x in c["r"]]
        pt = [x * u for x in c["pt"]]
        e = pds.within_dist_from(*fs, pt=pt, r=pl.col("r") if len(rs) > 1 else rs[0], dist="cosine" if op == "cos" else d)
    elif op == "isknn":
        e = pds.is_knn_from(*fs, pt=[x * u for x in c["pt"]], k=c["k"], dist=d)
    if c.get("grp"):
        pass
    return {"v": nums(df.select(e.alias("r"))["r"].to_list())}


def tree(c):
    import numpy as np
    from polars_ds.spatial import KDTree
    u = unnum(c["unit"])
    mat = lambda X: np.array([[x * u for x in row] for row in X], dtype=np.float64)
    t, out = None, []
    for s in c["steps"]:
        if s["do"] == "add":
            X = mat(s["X"])
            if t is None:
                t = KDTree(np.asfortranarray(X) if s.get("f") else X, distance=c["dist"])
            else:
                t.add(X)
            X[:] = 7777.0  # the tree has its own copy
            o = {}
        elif s["do"] == "badadd":
            try:
                t.add({"f": lambda: np.asfortranarray(np.ones((2, c["dim"] + 1))), "v": lambda: np.ones(c["dim"]),
                       "d": lambda: np.ones((3, c["dim"] + 1)), "e": lambda: np.ones((0, c["dim"]))}[s["kind"]]())
                o = {"raised": False}
            except Exception:
                o = {"raised": True}
        else:
            Q = mat(s["Q"])
            q0 = Q.copy()
            r = [unnum(x) for x in s["r"]] if "r" in s else None
            if r is not None:
                r = np.array(r) if len(r) > 1 or s.get("arr") else r[0]
            if s["do"] == "knn":
                kw = {} if s["maxb"] == "9999" else {"max_dist_bound": unnum(s["maxb"])}
                if "eps" in s:
                    kw["epsilon"] = unnum(s["eps"])
                ds, ids = t.knn(Q, s["k"], parallel=s["par"], **kw)
                o = {"ids": [[-1 if x == 2**32 - 1 else int(x) for x in row] for row in ids], "ds": [nums(row) for row in ds]}
            elif s["do"] == "within":
                w = t.within(Q, r, sort=s["sort"], return_dist=s["wd"], parallel=s["par"])
                if s["wd"]:
                    o = {"ids": [[int(i) for i, _ in row] for row in w], "ds": [nums([d for _, d in row]) for row in w]}
                else:
                    o = {"ids": [[int(i) for i in row] for row in w]}
            else:
                o = {"v": [int(x) for x in t.within_count(Q, r, parallel=s["par"])]}
            assert (Q == q0).all()
        assert len(t) == t.count()
        o["n"] = t.count()
        out.append(o)
    return {"steps": out}


METRICS = ["l1", "l2", "sql2", "inf"]


def cloud(r, n, dim):
    k = r.random()
    if k < 0.35:     # small lattice: many ties
        return [[r.randint(0, 3) for _ in range(dim)] for _ in range(n)]
    if k < 0.7:      # spread out
        return [[r.randint(-60, 60) for _ in range(dim)] for _ in range(n)]
    if k < 0.85:     # clusters far apart
        cs = [[r.randint(-900, 900) for _ in range(dim)] for _ in range(3)]
        return [[x + r.randint(-3, 3) for x in r.choice(cs)] for _ in range(n)]
    base = [r.randint(-5, 5) for _ in range(dim)]   # almost all the same
    return [[b if r.random() < 0.9 else b + r.randint(-9, 9) for b in base] for _ in range(n)]


def spoil(r, X, p, nan=True):
    return [[(r.choice([MISSING, NOTNUM]) if nan else MISSING) if r.random() < p else x for x in row] for row in X]


def radius(r, metric, u, spread):
    v = r.choice([1, 2, 3, spread, 2 * spread]) * r.choice([1, 1, 1, 1.5])
    v = v * u
    return v * v if metric == "sql2" else v


def gen(r, tier):
    q = 2 if tier == "quick" else 10

    def base(nmax=40, p=None, nan=True, at=None):
        dim = r.choice([1, 2, 2, 3, 3, 5, 10, 16, 20])
        n = r.choice([1, 2, 5, 12, 25, nmax])
        if at:      # enough points to split the tree in this many dimensions
            dim, n = at
        X = cloud(r, n, dim)
        if (p if p is not None else r.choice([0, 0, 0.1])) > 0:
            X = spoil(r, X, r.choice([0.05, 0.2, 0.6]) if p is None else p, nan)
        idx = r.sample(range(3 * n), n)
        return {"X": X, "index": idx, "unit": r.choice(["1", "1", "1/4", "2"]), "dist": r.choice(METRICS), "par": r.random() < 0.5,
                "ch": r.choice([0, 1, 1, 2, 3]), "int": r.random() < 0.2, "exprs": r.random() < 0.3}

    def masks(c):
        n = len(c["X"])
        if r.random() < 0.5:
            c["data"] = [r.choice([0, 1, 1, 1, 2]) for _ in range(n)]
        if r.random() < 0.4:
            c["eval"] = [r.choice([0, 1, 1, 2]) for _ in range(n)]

    def bound(c):
        u = unnum(c["unit"])
        c["maxb"] = r.choice(["99999", "99999", num(radius(r, c["dist"], u, 10)), num(radius(r, c["dist"], u, 40))])
    for _ in range(60 * q):
        c = {"op": "knn", **base(), "k": r.choice([1, 2, 3, 5, 10, 50]), "wd": r.random() < 0.5}
        masks(c), bound(c)
        yield c
    for k in range(12 * q):
        c = {"op": "knn", **base(at=r.choice([(5, 70), (9, 60), (10, 90), (14, 100), (16, 150), (19, 240), (17, 110)]), p=r.choice([0, 0.05])), "k": r.choice([1, 3, 7]), "wd": r.random() < 0.7}
        n = len(c["X"])
        c["eval"] = [1 if i % (n // 9) == 3 else 0 for i in range(n)]
        if k % 3 == 0:
            c["data"] = [r.choice([0, 1, 1, 1]) for _ in range(n)]
        bound(c)
        yield c
        if k % 4 == 0:
            c = {"op": r.choice(["radius", "count"]), **base(at=r.choice([(10, 60), (16, 115)]), p=0), "sort": True, "how": "float"}
            c["r"] = [num(radius(r, c["dist"], unnum(c["unit"]), 12))]
            yield c
    for _ in range(30 * q):
        c = {"op": "kth", **base(), "k": r.choice([1, 2, 5, 30])}
        bound(c)
        if r.random() < 0.4:
            c["eps"] = num(radius(r, c["dist"], unnum(c["unit"]), 6) * r.choice([0.3, 0.9]))
        yield c
        c = {"op": "radius", **base(), "sort": r.random() < 0.5}
        c["r"] = [num(radius(r, c["dist"], unnum(c["unit"]), 12))]
        yield c
        c = {"op": "count", **base()}
        how = r.choice(["float", "list", "col", "expr"])
        n = len(c["X"])
        if how == "float" or n == 1 and how == "list":
            how = "float"
            c["r"] = [num(radius(r, c["dist"], unnum(c["unit"]), 12))]
        else:
            c["r"] = [num(radius(r, c["dist"], unnum(c["unit"]), 12)) if r.random() < 0.8 else r.choice(["null", "0", "-1"]) for _ in range(n)]
            if n == 1:
                how, c["r"] = "float", [num(3.0)]
        c["how"] = how
        yield c
        c = {"op": "freq", **base(), "k": r.choice([1, 2, 4])}
        masks(c), bound(c)
        yield c
        c = {"op": "rfreq", **base()}
        c["r"] = [num(radius(r, c["dist"], unnum(c["unit"]), 12))]
        yield c
        c = {"op": "nearpt", **base(p=r.choice([0, 0.2]), nan=False)}
        c["pt"] = [r.randint(-9, 9) for _ in c["X"][0]]
        n = len(c["X"])
        c["r"] = [num(radius(r, c["dist"], unnum(c["unit"]), 12)) for _ in range(r.choice([1, n]))]
        yield c
        c = {"op": "isknn", **base(p=r.choice([0, 0.2]), nan=False), "k": r.choice([1, 2, 5, 60])}
        c["pt"] = [r.randint(-9, 9) for _ in c["X"][0]]
        yield c
        c = {"op": "cos", **base(p=r.choice([0, 0.2]), nan=False), "dist": "cosine", "unit": "1"}
        c["pt"] = [r.randint(-9, 9) for _ in c["X"][0]]
        c["pt"][0] = 3
        c["r"] = [num(r.choice([0.125, 0.5, 1.0, 1.375]))]
        yield c
    for _ in range(40 * q):
        c = {"op": "avg", **base(25), "k": r.choice([1, 2, 3, 4]), "weighted": r.random() < 0.5}
        n = len(c["X"])
        # few ties: spread the points over a line through the cloud
        if len(c["X"][0]) < 10:
            c["X"] = [[x if x in (MISSING, NOTNUM) else x * 7 + r.randint(-3, 3) for x in row] for row in c["X"]]
        c["target"] = [num(r.randint(-40, 40) / r.choice([1, 2, 4])) for _ in range(n)]
        c["minb"] = r.choice(["0", num(1e-9), num(1e-9), num(radius(r, c["dist"], unnum(c["unit"]), 2))])
        bound(c)
        yield c
