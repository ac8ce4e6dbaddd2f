"""P06: least-squares expressions."""
from lr import data, num, run, POLICIES  # noqa: F401


def case(r, op, n, p, nullx=0.0, nully=0.0, **kw):
    X, y = data(r, n, p, nullx, nully)
    c = dict(op=op, X=X, y=y, bias=r.random() < 0.5, l1="0", l2="0", tol="1/100000", policy=r.choice(POLICIES), f32=False, pred=False,
             solver=r.choice(["qr", "svd", "choleskey"]), ch=r.choice([0, 1, 2, 3]), ty=r.choice([0, 0, 1, 5, 6, 10]))
    if op != "simple" and r.random() < 0.1:
        c["old"] = True
    c.update(kw)
    return c


def gen(r, tier):
    k = 3 if tier == "quick" else 20
    for i in range(220 * k):
        p = r.choice([1, 1, 2, 2, 3, 4])
        n = r.choice([p, p + 1, p + 2, p + 3, 8, 12])
        nx, ny = r.choice([(0, 0), (0, 0), (0.15, 0), (0, 0.2), (0.15, 0.15)])
        yield case(r, "lr", n, p, nx, ny, pred=r.random() < 0.5, f32=r.random() < 0.25, l2=r.choice(["0", "0", "1/2", "3", "1/16"]))
    for i in range(60 * k):
        p = r.choice([1, 2, 3])
        n = r.choice([p + 1, p + 2, 8])
        c = case(r, "lr", n, p, *r.choice([(0, 0), (0, 0), (0.2, 0)]), pred=r.random() < 0.5, f32=r.random() < 0.25)
        c["w"] = [num(r.choice([1, 2, 0.5, 3, 0.25, 1])) for _ in range(n)]
        yield c
    for i in range(80 * k):
        p = r.choice([1, 2, 3])
        n = r.choice([p + 2, 6, 9])
        yield case(r, "lr", n, p, *r.choice([(0, 0), (0, 0), (0.15, 0.1)]), pred=r.random() < 0.3, f32=False, l1=r.choice(["1/8", "1/2", "2", "10"]),
                   l2=r.choice(["0", "0", "1/2", "2"]), tol=r.choice(["1/100000", "1/1000000000"]))
    for i in range(60 * k):
        p = r.choice([1, 2, 3])
        n = r.choice([p + 1, p + 2, 8])
        c = case(r, "multi", n, p, *r.choice([(0, 0), (0, 0), (0.2, 0), (0, 0.1)]), pred=r.random() < 0.5, f32=r.random() < 0.2, l2=r.choice(["0", "0", "1/2", "3"]))
        c["ys"] = [c.pop("y")] + [data(r, n, p, 0, r.choice([0, 0, 0, 0.1]))[1] for _ in range(r.choice([1, 2]))]
        yield c
    for i in range(80 * k):
        p = r.choice([1, 2, 3])
        n = r.choice([p + 1, p + 2, 8])
        c = case(r, "rcond", n, p, *r.choice([(0, 0), (0, 0), (0.2, 0), (0.1, 0.1)]), f32=r.random() < 0.2, l2=r.choice(["0", "0", "1/2", "3"]),
                 rcond=r.choice(["0", "1/1000", "1/10", "1/2", "9/10"]))
        if r.random() < 0.5:       # orthogonal columns: the cut-off can be decided exactly
            c["bias"] = False
            c["X"] = [[num((i % p == j) * r.choice([1, 2, 3]) * (1, 4, 30)[j] / 2) for j in range(p)] for i in range(n)]
        yield c
    for i in range(60 * k):
        n = r.choice([2, 3, 5, 9])
        c = case(r, "simple", n, 1, *r.choice([(0, 0), (0, 0), (0.2, 0), (0, 0.2), (0.2, 0.2)]), pred=r.random() < 0.5, ty=0, policy="raise")
        if r.random() < 0.5:
            c["w"] = [num(r.choice([1, 2, 0.5, 3, 0.25, 1])) for _ in range(n)]
            if r.random() < 0.3:
                c["w"][r.randrange(n)] = "null"
        if r.random() < 0.4:       # narrow columns of values whose products do not fit
            c["dt"] = r.choice(["i8", "u8", "i16", "u16", "u32"])
            top = {"i8": 127, "u8": 255, "i16": 30000, "u16": 60000, "u32": 100000}[c["dt"]]
            lo = 0 if c["dt"][0] == "u" else -top
            c["X"] = [[x if x == "null" else str(r.randint(lo, top))] for (x,) in c["X"]]
            c["y"] = [y if y == "null" else str(r.randint(lo, top)) for y in c["y"]]
            if "w" in c:
                c["w"] = [w if w == "null" else str(r.randint(1, 100)) for w in c["w"]]
        yield c
