"""Texts for the lexer: token soups, raw bytes, damaged programs, numerals."""
import struct
from fractions import Fraction

KEYWORDS = ("algorithm and annotation block break class connect connector constant constrainedby der discrete each "
            "else elseif elsewhen encapsulated end enumeration equation expandable extends external false final flow "
            "for function if import impure in initial inner input loop model not operator or outer output package "
            "parameter partial protected public pure record redeclare replaceable return stream then true type when "
            "while within").split()
SYMBOLS = "+ .+ - .- * .* / ./ ^ .^ . == <> < <= > >= , ; : ( ) [ ] { } = :=".split()
PROGRAM = '''package Test /* a package */
model M "a model" // with a comment
  parameter Integer 'quoted name' = 10;
  Real[3] x(each start = 1.5e-3, fixed = true);
  Real y = x[1] .* 2. - 3.25E+2;
initial equation
  x = {1, 2, 3};
equation
  der(x[1]) = if time >= 0.5 then -y else y ^ 2;
  for i in 1:3 loop
    x[i] + $y <> "text \\"quoted\\" \\n";
  end for;
algorithm
  y := 1.0;
end M;
end Test;
'''


def word(rng):
    k = rng.random()
    if k < 0.35:
        return rng.choice(KEYWORDS)
    if k < 0.45:
        w = rng.choice(KEYWORDS)
        return rng.choice([w + rng.choice("_aZ0"), w[:-1], w.upper(), w.capitalize(), "_" + w, "$" + w])
    s = rng.choice("abexyzABEXYZ_") + "".join(rng.choice("abexyzAEZ_0189") for _ in range(rng.choice([0, 1, 2, 5, 12])))
    return "$" + s if rng.random() < 0.1 else s


def number(rng):
    dig = lambda lo, hi: "".join(rng.choice("0123456789") for _ in range(rng.randint(lo, hi)))
    s = dig(1, rng.choice([1, 3, 10, 20]))
    if rng.random() < 0.15:
        s = "0" * rng.randint(1, 5) + s
    if rng.random() < 0.5:
        s += "." + dig(0, rng.choice([0, 1, 4, 18]))
    if rng.random() < 0.4:
        s += rng.choice("eE") + rng.choice(["", "+", "-"]) + dig(0 if rng.random() < 0.15 else 1, 3)
    return s


def quoted(rng, q):
    s = ""
    for _ in range(rng.choice([0, 1, 3, 8])):
        k = rng.random()
        if k < 0.35:
            s += "\\" + rng.choice("abfnrtv'\"\\?xz0\n")
        elif k < 0.45:
            s += rng.choice("\n\t '\"") if rng.random() < 0.7 else "'\""
        else:
            s += rng.choice("abcxyz019 +-*/=.,;:(){}[]")
    return q + s + (q if rng.random() < 0.93 else "")


def comment(rng):
    body = "".join(rng.choice("ab/* \n\"'1.") for _ in range(rng.choice([0, 1, 2, 5, 10])))
    if rng.random() < 0.5:
        return "//" + body.replace("\n", "") + ("\n" if rng.random() < 0.9 else "")
    return "/*" + body + ("*/" if rng.random() < 0.92 else "")


def soup(rng):
    t = ""
    for _ in range(rng.choice([1, 2, 4, 8, 20, 40])):
        k = rng.random()
        if k < 0.3:
            t += word(rng)
        elif k < 0.5:
            t += number(rng)
        elif k < 0.75:
            t += rng.choice(SYMBOLS)
        elif k < 0.82:
            t += quoted(rng, '"')
        elif k < 0.88:
            t += quoted(rng, "'")
        elif k < 0.95:
            t += comment(rng)
        else:
            t += rng.choice("#@!?~`|&%\\$")
        k = rng.random()
        if k < 0.45:
            t += rng.choice([" ", " ", "\n", "\t", "\r\n", "  ", "\n\n", "\v", "\f", " \n "])
    return t.encode()


def raw(rng):
    n = rng.choice([1, 2, 5, 20, 60])
    pool = rng.choice([list(range(0, 256)), list(range(32, 127)), list(b"0123456789.eE+-"), list(b"'\"\\/*\n ab"),
                       list(b"<>=:.+-*/^"), list(range(1, 33))])
    return bytes(rng.choice(pool) for _ in range(n))


def damaged(rng):
    t = bytearray(PROGRAM.encode())
    a = rng.randrange(len(t))
    t = t[a:a + rng.choice([10, 40, 100, 200])]
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        if not t:
            break
        k, at = rng.random(), rng.randrange(len(t))
        if k < 0.4:
            del t[at]
        elif k < 0.7:
            t[at] = rng.choice(b"\"'/*\\.e1 \n$#") if rng.random() < 0.8 else rng.randrange(256)
        else:
            t.insert(at, rng.choice(b"\"'/*\\.e1 \n$#"))
    return bytes(t)


def text(rng):
    return rng.choice([soup, soup, raw, damaged])(rng)


def cases(rng, n, per=10, gen=text):
    return [[{"op": "lex", "text": list(gen(rng))} for _ in range(per)] for _ in range(n)]


# ------------------------------------------------------------------ numerals
def spell(rng, digits, point):
    """A literal for 0.digits * 10^point, split in a random way."""
    cut = rng.choice([1, len(digits), rng.randint(1, len(digits))])
    if rng.random() < 0.15 and 0 <= point:
        cut = point
    e = point - cut
    d = digits
    if cut > len(d):
        d = d + "0" * min(400, cut - len(d))
        e = point - cut
    if cut < 1:
        cut = 1
        e = point - 1
    i, f = d[:cut], d[cut:]
    if rng.random() < 0.2:
        i = "0" * rng.randint(1, 30) + i
    if rng.random() < 0.15:
        f += "0" * rng.randint(1, 30)
    if rng.random() < 0.1:   # everything after the point
        f, i, e = "0" * (z := rng.randint(0, 25)) + i + f, "0", e + cut + z
        if rng.random() < 0.5:
            i = "0" * rng.randint(1, 3)
    s = i + ("." + f if f or rng.random() < 0.5 else "")
    if e or "." not in s or rng.random() < 0.2:
        s += rng.choice("eE") + ("-" if e < 0 else rng.choice(["", "+"])) \
             + "0" * rng.choice([0, 0, 0, 1, 3]) + str(abs(e))
    return s


def real(rng):
    k = rng.random()
    if k < 0.3:
        d = "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 2, 5, 15, 17, 19, 20, 25, 40])))
        p = rng.choice([0, 0, 1, 2, 5, -3, -10, 15, 20, 23, 50, -50, 290, 305, 308, 309, 310, -300, -307, -320, -323, -324, -340])
        return spell(rng, d, p + rng.randint(0, 2))
    if k < 0.75:
        # around a double or half way between two
        if rng.random() < 0.15:
            bits = rng.choice([1, 2, 3, (1 << 52) - 1, 1 << 52, (1 << 52) + 1, 0x7fefffffffffffff, 0x3ff0000000000000])
        elif rng.random() < 0.6:
            bits = struct.unpack("<Q", struct.pack("<d", rng.choice([rng.random(), rng.uniform(1, 1000), rng.uniform(1e15, 1e20), rng.uniform(0, 1e-5)])))[0]
        else:
            bits = rng.randrange(1, 0x7fefffffffffffff)
        v = struct.unpack("<d", struct.pack("<Q", bits))[0]
        w = struct.unpack("<d", struct.pack("<Q", bits + 1))[0]
        x = Fraction(v)
        if rng.random() < 0.5 and w != float("inf"):
            x = (x + Fraction(w)) / 2
        n = rng.choice([17, 17, 20, 25, 30, 60])
        e = 0
        while x >= 1:
            x /= 10
            e += 1
        while x * 10 < 1:
            x *= 10
            e -= 1
        d = str(int(x * 10 ** n) + rng.choice([0, 0, 1])).zfill(n)
        return spell(rng, d, e + len(d) - n)
    if k < 0.85:
        return rng.choice(["0.", "0.0", "0e5", "0.0e-400", "1e400", "1e-400", "1.7976931348623157e308", "1.7976931348623159e308",
                           "5e-324", "2e-324", "4.9406564584124654e-324", "2.2250738585072014e-308", "9007199254740993.0",
                           "1e22", "1e23", "8.5e-9", "0.1", "0.3", "123456789012345678901234567890.", "1e0000000000000000001",
                           "1e99999999999999999999", "1e-99999999999999999999", "0.000001e6", "1000000e-6", "1.e3", "00012.50"])
    return number(rng)


def integer(rng):
    k = rng.random()
    if k < 0.3:
        s = str(rng.choice([0, 1, 9, 10, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63 - 2, 2 ** 63, 10 ** 18, 9 * 10 ** 18]))
    else:
        s = str(rng.randrange(10 ** rng.randint(1, 19)))
    return "0" * rng.choice([0, 0, 0, 1, 5, 30]) + s


def numeral(rng):
    """Literals and what surrounds them."""
    t = ""
    for _ in range(rng.choice([1, 1, 2, 3])):
        t += rng.choice(["", "", " ", "x=", "-", "(", "{", "\n", ",", "/**/"])
        if t and (t[-1].isalnum() or t[-1] == "."):
            t += " "
        t += real(rng) if rng.random() < 0.7 else integer(rng)
        t += rng.choice(["", "", " ", ";", ")", "+", "-", "*2", "^2", ",", "x", ":", "\n", "/", "=", "}", ".*y", "..", " e5", "/*1*/"])
    return t.encode()


def numerals(rng, n, per=8):
    return [[{"op": "num", "text": list(numeral(rng))} for _ in range(per)] for _ in range(n)]
