"""Writes spec/UnicodeTable.tla: the Unicode properties of the characters the specification of text cleaning ranges over."""
import unicodedata as u, os
codes = set(range(0, 0x180)) | set(range(0x300, 0x330)) | set(range(0x391, 0x3CF)) | set(range(0x410, 0x450)) \
    | set(range(0x1E00, 0x1EFA)) | {0x1FB3, 0x1F80, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0xD55C, 0xD7A3, 0x4E2D, 0x6587, 0x1F600, 0x1F44D, 0x200D, 0x200B, 0xFEFF,
       0xFB01, 0xFB00, 0xB2, 0xBD, 0x2460, 0xFF21, 0xFF11, 0x2126, 0x212B, 0x2122, 0x327, 0x323, 0x345, 0x344, 0x340, 0x341, 0x660, 0x967, 0x203F, 0x2019, 0x20AC, 0x1D11E}
codes |= {0x85, 0xA0, 0x1680, *range(0x2000, 0x200B), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000}
codes -= {c for c in codes if u.category(chr(c)) == "Cn"}
# close under decomposition, composition and case mapping
PAIRS = [(c, q) for c in range(0x110000) if not 0xAC00 <= c <= 0xD7A3 and u.category(chr(c)) not in ("Cn", "Cs")
         for q in [[int(x, 16) for x in u.decomposition(chr(c)).split() if x[0] != "<"]] if len(q) == 2 and "<" not in u.decomposition(chr(c))]
todo = list(codes)
while todo:
    while todo:
        c = todo.pop()
        steps = "".join(chr(int(x, 16)) for x in u.decomposition(chr(c)).split() if not x.startswith("<"))
        for d in steps + u.normalize("NFKD", chr(c)) + u.normalize("NFD", chr(c)) + chr(c).lower() + chr(c).upper():
            if ord(d) not in codes:
                codes.add(ord(d)); todo.append(ord(d))
    todo = [c for c, q in PAIRS if c not in codes and set(q) <= codes]
    codes.update(todo)
WS = {*range(9, 14), 32, 0x85, 0xA0, 0x1680, *range(0x2000, 0x200B), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000}
def seq(s): return "<<" + ",".join(str(ord(c)) for c in s) + ">>"
def tb(b): return "TRUE" if b else "FALSE"
rows = []
for c in sorted(codes):
    ch = chr(c); cat = u.category(ch)
    raw = u.decomposition(ch)
    canon = [] if not raw or raw[0] == "<" else [int(x, 16) for x in raw.split()]
    compat = [] if not raw else [int(x, 16) for x in raw.split() if not x.startswith("<")]
    excl = bool(canon) and (len(canon) == 1 or u.normalize("NFC", ch) != ch)
    word = ch.isalpha() or cat[0] == "M" or cat in ("Nd", "Pc", "Nl") or c in (0x200C, 0x200D) or c == 0x345
    rows.append(f"<<{c}, {tb(word)}, {tb(c in WS)}, {tb(ch.islower())}, {tb(ch.isupper())}, {seq(ch.lower())}, {seq(ch.upper())}, "
                f"<<{','.join(map(str, canon))}>>, <<{','.join(map(str, compat))}>>, {u.combining(ch)}, {tb(excl)}>>")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/spec/UnicodeTable.tla", "w") as f:
    f.write(f"---- MODULE UnicodeTable ----\n(* Generated by tools/mkunicode.py from the Unicode {u.unidata_version} character database:\n"
            "   <<code, word character, white space, lower case, upper case, lower mapping, upper mapping, canonical decomposition (one step),\n"
            "     compatibility decomposition (one step), combining class, excluded from composition>> *)\n"
            "EXTENDS Integers, Sequences\nUTable == <<\n" + ",\n".join(rows) + "\n>>\n====\n")
print(len(rows))
