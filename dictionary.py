"""The constants written in the code under test: numbers and words at which it may treat its input
in a way of its own. The enumerations take them as further bounds (lengths, counts, values, names)
next to their own; what is judged stays the same."""
import os, re

NUM = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*(?:\.[0-9_]+|\.(?![\w.]))?(?:[eE][+-]?[0-9_]+)?)_?(?:[iu](?:8|16|32|64|128|size)|f32|f64)?(?![\w])")
NAMED = {"u8::MAX": 255, "i8::MAX": 127, "u16::MAX": 65535, "i16::MAX": 32767, "u8::BITS": 8, "u16::BITS": 16, "u32::BITS": 32, "u64::BITS": 64, "usize::BITS": 64}


def strip(text):
    """Without comments."""
    out, i, n = [], 0, len(text)
    while i < n:
        if text.startswith("//", i):
            while i < n and text[i] != "\n":
                i += 1
        elif text.startswith("/*", i):
            j = text.find("*/", i)
            i = n if j < 0 else j + 2
            out.append(" ")
        elif text[i] == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == "\\" else 1
            out.append(text[i:j + 1])
            i = j + 1
        elif m := re.compile(r"b?'(?:[^'\\]|\\[^']*)'").match(text, i):
            out.append(m.group(0))
            i = m.end()
        else:
            out.append(text[i])
            i += 1
    return "".join(out)


def number(s):
    s = s.replace("_", "")
    if s.startswith("0x"):
        return int(s, 16)
    if s.startswith("0b"):
        return int(s, 2)
    return float(s) if re.search(r"[.eE]", s) else int(s)


def dictionary(src):
    ints, floats, names = set(), set(), set()
    for d, subdirs, files in os.walk(src):
        subdirs[:] = [x for x in subdirs if x != "tests"]
        for f in files:
            if not f.endswith(".rs"):
                continue
            with open(os.path.join(d, f), encoding="utf-8", errors="replace") as fh:
                text = strip(fh.read())
            # tables of values
            text = "\n".join(l for l in text.split("\n") if not re.fullmatch(r"\s*[-0-9._eE]+,?\s*", l))
            for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', text):
                if re.fullmatch(r"[A-Za-z][A-Za-z0-9_']{0,60}", m.group(1)):
                    names.add(m.group(1))
            # words spelled as bytes
            for m in re.finditer(r"(?:b?'[A-Za-z0-9_]'\s*,\s*)+b?'[A-Za-z0-9_]'", text):
                w = "".join(re.findall(r"'(.)'", m.group(0)))
                if w[0].isalpha():
                    names.add(w)
            text = re.sub(r'"(?:[^"\\]|\\.)*"', '""', text)
            for k, v in NAMED.items():
                if k in text:
                    ints.add(v)
            found = [(m.start(), m.end(), number(m.group(1))) for m in NUM.finditer(text)]
            for a, b, v in found:
                (ints if isinstance(v, int) else floats).add(v)
            for (_, e, v), (b, _, w) in zip(found, found[1:]):
                if isinstance(v, int) and isinstance(w, int):
                    op = text[e:b].strip()
                    if op == "*":
                        ints.add(v * w)
                    elif op == "<<" and w < 40:
                        ints.add(v << w)
                    elif op == "-":
                        ints.add(v - w)
                    elif op == "+":
                        ints.add(v + w)
                    elif op == ".pow(" and w < 40 and v < 20:
                        ints.add(v ** w)
    floats |= {float(i) for i in ints if i < 2 ** 64}
    floats = {abs(x) for x in floats if x == x and abs(x) != float("inf")}
    ints = {i for i in ints if 0 < i <= 200_000}
    # a table nobody would call constants
    pick = lambda s, n: sorted(s)[:n]
    return {"ints": pick(ints, 60), "floats": pick(floats, 80), "names": pick(names, 200)}


def encode(d):
    return ";".join([",".join(map(str, d["ints"])), ",".join(map(repr, d["floats"])), ",".join(d["names"])])


if __name__ == "__main__":
    print(dictionary("/repo/src"))
