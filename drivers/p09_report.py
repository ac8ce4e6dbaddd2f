"""P09: regression reports."""
from lr import NAMES, data, num, run, POLICIES  # noqa: F401


def gen(r, tier):
    k = 2 if tier == "quick" else 16
    for i in range(220 * k):
        p = r.choice([1, 1, 2, 2, 3])
        n = r.choice([p + 3, p + 4, 8, 12])
        nx, ny = r.choice([(0, 0), (0, 0), (0.1, 0), (0, 0.15), (0.1, 0.1)])
        X, y = data(r, n, p, nx, ny)
        c = dict(op="report", X=X, y=y, bias=r.random() < 0.5, l1="0", l2="0", policy=r.choice(POLICIES), f32=r.random() < 0.2, pred=False,
                 kind=r.choice(["se", "hc0", "hc1", "hc2", "hc3"]), names=NAMES[:p], ch=r.choice([0, 1, 2, 3]), ty=r.choice([0, 0, 1, 5]))
        if r.random() < 0.25:
            c["w"] = [num(r.choice([1, 2, 0.5, 3, 0.25, 1])) for _ in range(n)]
            c["kind"] = "se"
        if r.random() < 0.1:
            c["old"], c["kind"] = True, "se"
        yield c
