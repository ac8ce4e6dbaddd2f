"""Calls leave out whatever equals the documented default (defaults.json, from the signatures):
a case that spells a default out then checks the default too."""
import functools, importlib, json, os, sys

SAME = lambda v, d: type(v) is type(d) and (v is d or v == d)


def trimmed(f, order, default, skip):
    @functools.wraps(f)
    def g(*a, **k):
        k = {x: v for x, v in k.items() if not (x in default and SAME(v, default[x]))}
        n = len(a)
        while not k and skip < n <= skip + len(order) and order[n - skip - 1] in default and SAME(a[n - 1], default[order[n - skip - 1]]):
            n -= 1
        return f(*a[:n], **k)
    return g


def install():
    table = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "defaults.json")))
    for q in table:
        for name in (q.rsplit(".", 1)[0], q.rsplit(".", 2)[0]):
            if name not in sys.modules:
                try:
                    importlib.import_module(name)
                except ImportError:
                    pass
    mods = [m for n, m in list(sys.modules.items()) if m is not None and (n.split(".")[0] == "polars_ds" or (getattr(m, "__file__", None) or "").startswith(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))]
    for q, t in table.items():
        head, name = q.rsplit(".", 1)
        if head in sys.modules:
            f = getattr(sys.modules[head], name, None)
            if f is None:
                continue
            g = trimmed(f, t["order"], t["default"], 0)
            for m in mods:
                for a, v in list(vars(m).items()):
                    if v is f:
                        setattr(m, a, g)
        else:
            mod, cls = head.rsplit(".", 1)
            c = getattr(sys.modules.get(mod), cls, None)
            f = vars(c).get(name) if isinstance(c, type) else None
            if isinstance(f, classmethod):
                setattr(c, name, classmethod(trimmed(f.__func__, t["order"], t["default"], 1)))
            elif callable(f):
                setattr(c, name, trimmed(f, t["order"], t["default"], 1))
