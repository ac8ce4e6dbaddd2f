"""P03: text cleaning."""
import random
import polars as pl
import polars_ds as pds
from enc import st, sts, unst, unsts, nums
from frames import frame


def run(c):
    op = c["op"]
    df = frame({"a": pl.Series("a", unsts(c["a"]), dtype=pl.String)}, c["ch"])
    dt = {"numcast": c.get("dtype")}.get(op)
    e = {
        "ascii": lambda: pds.replace_non_ascii("a", unst(c["value"])),
        "diacritics": lambda: pds.remove_diacritics("a"),
        "spaces": lambda: pds.normalize_whitespace("a", only_spaces=c["only"]),
        "map": lambda: pds.map_words("a", {unst(k): unst(v) for k, v in c["map"]}),
        "case": lambda: getattr(pds, f"to_{c['case']}_case")("a"),
        "form": lambda: pds.normalize_string("a", c["form"]),
        "stem": lambda: pds.str_snowball("a", no_stopwords=c["nostop"]),
        "stop": lambda: pds.is_stopword("a"),
        "numjoin": lambda: pds.extract_numbers("a", ignore_comma=c["comma"], join_by=unst(c["join"]), dtype=pl.String),
        "numbers": lambda: pds.extract_numbers("a", ignore_comma=c["comma"]),
        "numcast": lambda: pds.extract_numbers("a", ignore_comma=c["comma"], dtype=getattr(pl, c["dtype"])),
        "tokens": lambda: pds.str_tokenize("a", **PAT[c["pat"]]),
        "stems": lambda: pds.str_tokenize("a", stem=True, **PAT[c["pat"]]),
    }[op]()
    r = df.select(e.alias("r"))["r"]
    v = r.to_list()
    if op == "stop":
        v = nums(v)
    elif op == "numcast":
        v = [["null"] if x is None else nums(x) for x in v]
    elif op in ("numbers", "tokens", "stems"):
        v = [[[-1]] if x is None else sts(x) for x in v]
    else:
        v = sts(v)
    return {"dtype": str(r.dtype), "v": v}


PAT = {"words": {}, "any": {"pattern": r"(?u)\b\w+\b"}, "digits": {"pattern": "[0-9]+"}, "lower": {"pattern": "[a-z]+"}, "solid": {"pattern": "[^ ]+"}}


# characters inside the specification's Unicode table
POOL = [chr(c) for c in list(range(32, 127)) + list(range(0xA0, 0x180)) + list(range(0x300, 0x330)) + list(range(0x391, 0x3A2)) + list(range(0x3A3, 0x3CA))
        + list(range(0x410, 0x450)) + list(range(0x1E00, 0x1E96)) + [9, 10, 11, 12, 13, 0x85, 0x1680, 0x2003, 0x2009, 0x2028, 0x2029, 0x202F, 0x3000, 0x205F]
        + [0xAC00, 0xAC01, 0xD55C, 0xD7A3, 0x1100, 0x1161, 0x11A8, 0x4E2D, 0x1F600, 0x200B, 0xFB01, 0xB2, 0xBD, 0x2460, 0xFF21, 0x2126, 0x212B, 0x2122, 0x20AC, 0x1D11E]
        if c not in (0x149, 0x130, 0x1C4)]
WS = [" ", " ", "  ", "\t", "\n", "\u00a0", "\u3000", "\u2028", "\r\n", "\x0b", "\x1c", "\u200b"]
SUF = ["tional", "enci", "anci", "abli", "entli", "izer", "ization", "ational", "ation", "ator", "alism", "aliti", "alli", "fulness", "ousli", "ousness", "iveness",
       "iviti", "biliti", "bli", "ogi", "logi", "fulli", "lessli", "li", "alize", "icate", "iciti", "ical", "ful", "ness", "ative", "al", "ance", "ence", "er", "ic",
       "able", "ible", "ant", "ement", "ment", "ent", "ism", "ate", "iti", "ous", "ive", "ize", "ion", "sion", "tion", "e", "l", "ll", "ed", "eed", "ing", "edly",
       "eedly", "ingly", "s", "ied", "ies", "sses", "us", "ss", "'s", "'", "'s'", "y", "ly", "ying", "bb", "tt", "pp", "at", "bl", "iz"]
CONS, VOW = "bcdfghjklmnpqrstvwxz", "aeiouy"


def rword(r):
    x = r.random()
    if x < 0.15:
        return "".join(r.choice("abcdefghilmnorstuyY'") for _ in range(r.randint(0, 9)))
    w = r.choice(["", "", "", "'", "y", "gener", "arsen", "commun", "un", "re"]) + "".join(r.choice(CONS) * r.choice([1, 1, 1, 2]) + r.choice(VOW) for _ in range(r.randint(0, 3)))
    w += r.choice(["", r.choice(CONS)])
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        w += r.choice(SUF)
    return w


def text(r, n=None):
    n = r.choice([0, 1, 3, 8, 20, 45]) if n is None else n
    k = r.random()
    if k < 0.3:
        return "".join(r.choice(POOL) for _ in range(n))
    if k < 0.55:
        return "".join(r.choice(["ab", "Word", "it's", "naïve", "Ünï", "x", "ab", "the", "don't", "a1", "_"]) + r.choice(WS) for _ in range(n // 3)) + r.choice(["", " ", "\t", "z"])
    if k < 0.75:
        return "".join(r.choice("0123456789..,, ab%-") for _ in range(n))
    return "".join(r.choice("abcXYZ019 _-ÀÉéñß.") for _ in range(n))


def gen(r, tier):
    k = 2 if tier == "quick" else 15

    def col(f, n=30):
        return sts([None if r.random() < 0.1 else f(r) for _ in range(r.choice([1, 2, n, n]))])
    # every suffix on stems of every kind, and the words with stems of their own
    EXC = "skis skies dying lying tying idly gently ugly early only singly sky news howe atlas cosmos bias andes inning innings outing canning herring earring proceed exceed succeed proceeds exceeded succeeding innie".split()
    for base in ("", "é", "né", "éb", "b", "ab", "cab", "gener", "commun", "arsen", "cry", "abom", "tref", "plat", "hop", "hopp", "fail", "yog", "feu", "ow", "sept", "catal", "indig") + tuple(r.choice(CONS) + r.choice(VOW) + r.choice(CONS) + r.choice(VOW + CONS) for _ in range(4 * k)):
        for b in ([True] if k == 1 else [True, False]):
            yield {"op": "stem", "a": sts([base + x for x in SUF]), "nostop": b, "ch": 1}
            yield {"op": "stem", "a": sts([base + r.choice(SUF) + x for x in SUF]), "nostop": b, "ch": 1}
    for b in (False, True):
        yield {"op": "stem", "a": sts(EXC + [w.capitalize() for w in EXC] + [w + "s" for w in EXC] + ["'" + w for w in EXC]), "nostop": b, "ch": 1}
    for _ in range(6 * k):
        ch = lambda: r.choice([0, 1, 2, 3])
        for v in ("", "?", "né", " "):
            yield {"op": "ascii", "a": col(text), "value": st(v), "ch": ch()}
        yield {"op": "diacritics", "a": col(text), "ch": ch()}
        for b in (False, True):
            yield {"op": "spaces", "a": col(text), "only": b, "ch": ch()}
        m = {}
        for _ in range(r.randint(0, 6)):
            m[r.choice(["ab", "Word", "it's", "naïve", "x", "the", "z", "", "a b"])] = r.choice(["", "ab", "x", "the", "two words", " ", "é", "Word"])
        yield {"op": "map", "a": col(text), "map": [[st(a), st(b)] for a, b in m.items()], "ch": ch()}
        for f in ("NFC", "NFD", "NFKC", "NFKD"):
            yield {"op": "form", "a": col(text), "form": f, "ch": ch()}
        for f in ("camel", "pascal", "snake", "constant"):
            yield {"op": "case", "a": col(text), "case": f, "ch": ch()}
        for b in (False, True):
            yield {"op": "numbers", "a": col(text), "comma": b, "ch": ch()}
            yield {"op": "numjoin", "a": col(text), "comma": b, "join": st(r.choice(["-", ", ", "é"])), "ch": ch()}
            yield {"op": "numcast", "a": col(text), "comma": b, "dtype": r.choice(["Float64", "Float64", "Float32"]), "ch": ch()}
            it = lambda r: "".join(r.choice(["12", "7", "0", "255", " ", "a", ",", "-"]) for _ in range(r.randint(0, 4)))
            safe = lambda r: " ".join(str(r.randint(0, 127)) + r.choice(["", ",", "%", " x"]) for _ in range(r.randint(0, 4)))
            yield {"op": "numcast", "a": col(safe), "comma": False, "dtype": r.choice(["UInt8", "UInt16", "UInt32", "UInt64", "Int8", "Int16", "Int32", "Int64"]), "ch": ch()}
            yield {"op": "stem", "a": col(rword, 120), "nostop": b, "ch": ch()}
        yield {"op": "stem", "a": col(lambda r: r.choice(["1", "1.5", "-3", "1e5", ".5", "5.", "+7", "1e", "e5", "1.2.3", "--1", "12a", "nan", "Inf", "", "-"])), "nostop": True, "ch": ch()}
        yield {"op": "stop", "a": col(lambda r: r.choice(["the", "The", "a", "", "zzz", "you've", "yours", "about", "won't", "i", "wouldn't", "aa", "the ", "ma"])), "ch": ch()}
        for p in PAT:
            yield {"op": "tokens", "a": col(text), "pat": p, "ch": ch()}
        sent = lambda r: " ".join(r.choice([rword(r), "the", "you", "12", "running", "runs", "run", "is", "a"]) for _ in range(r.randint(0, 7)))
        yield {"op": "tokens", "a": col(sent), "pat": "words", "ch": ch()}
        for p in ("words", "words", "any", "lower", "solid"):
            yield {"op": "stems", "a": col(sent), "pat": p, "ch": ch()}
