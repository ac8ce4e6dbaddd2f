"""P05: k-d tree objects."""
import random
from p04_knn import run, cloud, radius, METRICS
from enc import num, unnum


def history(r, big):
    dim = r.choice([1, 2, 2, 3, 5, 10, 16, 20])
    c = {"op": "tree", "dist": r.choice(METRICS), "unit": r.choice(["1", "1", "1/4", "2"]), "dim": dim, "steps": []}
    u = unnum(c["unit"])
    pts = cloud(r, r.choice([1, 3, 11, 30, 60 if big else 30]) if dim < 10 or r.random() < 0.6 else r.choice([70, 115, 130]), dim)
    c["steps"].append({"do": "add", "X": pts, "f": r.random() < 0.2 and len(pts) > 1 and dim > 1})
    pts = list(pts)
    for _ in range(r.randint(2, 9)):
        k = r.random()
        if k < 0.3:
            X = cloud(r, r.choice([1, 2, 10, 25]), dim) if r.random() < 0.6 else [r.choice(pts) for _ in range(r.choice([1, 12, 25]))]
            pts += X
            c["steps"].append({"do": "add", "X": X})
            continue
        if k < 0.38:
            c["steps"].append({"do": "badadd", "kind": r.choice("fvde")})
            continue
        nq = r.choice([1, 2, 5, 16, 17, 33, 36])
        Q = [r.choice(pts) if r.random() < 0.4 else [x + r.randint(-4, 4) for x in r.choice(pts)] for _ in range(nq)]
        s = {"Q": Q, "par": r.random() < 0.5}
        if k < 0.6:
            s.update({"do": "knn", "k": r.choice([1, 2, 3, 8, 100]), "maxb": r.choice(["9999", "9999", num(radius(r, c["dist"], u, 12))])})
            if r.random() < 0.35:
                s["eps"] = num(radius(r, c["dist"], u, 6) * r.choice([0.3, 0.9, -0.4]))
        else:
            rs = [num(radius(r, c["dist"], u, 12) if r.random() < 0.9 else r.choice([0.0, -2.0])) for _ in range(r.choice([1, nq]))]
            s.update({"r": rs, "arr": r.random() < 0.4})
            if k < 0.8:
                s.update({"do": "within", "sort": r.random() < 0.6, "wd": r.random() < 0.5})
            else:
                s.update({"do": "count"})
        c["steps"].append(s)
    return c


def gen(r, tier):
    for _ in range(400 if tier == "quick" else 900):
        yield history(r, tier != "quick")
