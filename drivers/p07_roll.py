"""P07: rolling and recursive regressions."""
from lr import data, num, run, POLICIES  # noqa: F401


def gen(r, tier):
    k = 3 if tier == "quick" else 20
    for i in range(260 * k):
        p = r.choice([1, 1, 2, 2, 3])
        op = r.choice(["rolling", "rolling", "recursive"])
        bias = r.random() < 0.4
        n = r.choice([3, 6, 8, 10, 14])
        if op == "rolling":
            win = max(2, r.choice([p, p + 1, p + 2, p + 3, 6]))
        else:
            win = r.choice([1, p, p + 1, p + 2, 5])
        nx, ny = r.choice([(0, 0), (0, 0), (0.15, 0), (0, 0.2), (0.15, 0.15)])
        X, y = data(r, n, p, nx, ny, kinds=[r.choice([0, 0, 1, 2]) for _ in range(p + 1)], dup=r.choice([0, 0, 0.4]))
        c = dict(op=op, X=X, y=y, n=win, bias=bias, l1="0", l2=r.choice(["0", "0", "1/2", "2"]), policy=r.choice(POLICIES + ["skip", "skip"]), f32=r.random() < 0.15,
                 pred=False, ch=r.choice([0, 1, 2, 3]), ty=r.choice([0, 0, 1, 5]))
        if op == "rolling":
            if r.random() < 0.5:
                c["dflt"], c["minv"] = True, min(p, win)
            else:
                c["minv"] = r.randint(1, win)
        if r.random() < 0.1:
            c["old"] = True
        yield c
