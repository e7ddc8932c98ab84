"""Texts for the parser: sentences derived by TLC from the grammar, dressed
with names, literals, spacing and comments, and mutations of them."""
import re

KEYWORDS = {k: k.lower() for k in
            "Algorithm And Annotation Block Break Class Connect Connector Constant ConstrainedBy Der Discrete Each Else "
            "ElseIf ElseWhen Encapsulated End Enumeration Equation Expandable Extends External False Final Flow For "
            "Function If Import Impure In Initial Inner Input Loop Model Not Operator Or Outer Output Package Parameter "
            "Partial Protected Public Pure Record Redeclare Replaceable Return Stream Then True Type When While Within".split()}
SYMBOLS = dict(Plus="+", PlusEW=".+", Minus="-", MinusEW=".-", Product="*", ProductEW=".*", Division="/",
               DivisionEW="./", Pow="^", PowEW=".^", Dot=".", Equal="==", NotEqual="<>", Less="<", LessEqual="<=",
               Greater=">", GreaterEqual=">=", Comma=",", Semicolon=";", Colon=":", LPar="(", RPar=")",
               LSquare="[", RSquare="]", LCurly="{", RCurly="}", EqualityOperator="=", AssignmentOperator=":=")
NAMES = ["x", "y", "z", "M", "f", "a1", "time", "start", "fixed", "der2", "Real", "Integer", "Boolean", "String",
         "_p", "'q id'", "unit", "x"]
STRINGS = ["", "s", "C", "two words", "if", "a(b", "/*", "//", "end M;"]
REALS = ["1.5", "0.25", "2.0", "1e10", "3.5e-3", "10.", "0.1", "6.02e23", "1E5", "1e22"]
INTS = ["0", "1", "2", "7", "10", "42", "123456789", "9223372036854775807"]
CLASSES = {"Model", "Record", "Package", "Function", "Class"}

def real(s):
    return "%.17g" % float(s)

def dress(rng, kinds):
    """Give every token its text; the names at the ends of classes match."""
    toks, names = [], []
    for k, kind in enumerate(kinds):
        if kind == "Identifier":
            n = rng.choice(NAMES)
            prev = kinds[k - 1] if k else ""
            if prev in CLASSES:
                n = rng.choice(["M", "N", "P", "'M'"])
                if kinds[k + 1:k + 3] != ["EqualityOperator", "Der"]:
                    names.append(n)
            elif prev == "End" and names:
                n = names.pop()
            # a dotted name cannot start with a built-in type
            elif k + 1 < len(kinds) and kinds[k + 1] == "Dot" and n in ("Real", "Integer", "Boolean", "String"):
                n = "q"
            toks.append((kind, n.strip("'"), n))
        elif kind == "String":
            s = rng.choice(STRINGS)
            toks.append((kind, s, '"%s"' % s))
        elif kind == "FloatingPoint":
            s = rng.choice(REALS)
            toks.append((kind, real(s), s))
        elif kind == "Integer":
            s = rng.choice(INTS)
            toks.append((kind, s, s))
        else:
            toks.append((kind, "", KEYWORDS.get(kind) or SYMBOLS[kind]))
    return toks

ALL = sorted(KEYWORDS) + sorted(SYMBOLS) + ["Identifier", "Integer", "FloatingPoint", "String"]
COMMON = ["Identifier", "Semicolon", "Comma", "LPar", "RPar", "EqualityOperator", "End", "If", "Else", "For", "Dot",
          "Integer", "Minus", "Colon", "LSquare", "RSquare", "Equation", "Algorithm", "Initial", "Public", "Annotation",
          "Der", "Not", "AssignmentOperator", "External", "Then", "Loop", "When", "Operator", "String"]

def mutate(rng, toks, n):
    toks = list(toks)
    for _ in range(n):
        k = rng.randrange(len(toks) + 1)
        what = rng.randrange(5)
        new = dress(rng, [rng.choice(COMMON if rng.random() < 0.8 else ALL)])
        if what == 0 and k < len(toks):
            del toks[k]
        elif what == 1:
            toks[k:k] = new
        elif what == 2 and k < len(toks):
            toks[k:k + 1] = new
        elif what == 3 and k + 1 < len(toks):
            toks[k], toks[k + 1] = toks[k + 1], toks[k]
        elif what == 4 and toks:
            a = rng.randrange(len(toks))
            toks[k:k] = toks[a:a + rng.randrange(1, 6)]
    return toks

def render(rng, toks):
    out = []
    for k, (kind, s, text) in enumerate(toks):
        if k:
            r = rng.random()
            out.append(" " if r < 0.7 else "\n" if r < 0.85 else "  " if r < 0.95 else
                       rng.choice([" /* c */ ", " // c\n", "\n\n\t", " /* a\n * b */ "]))
        out.append(text)
    return "".join(out)

def event(rng, toks, op="parse", **kw):
    e = {"op": op, "text": render(rng, toks)}
    e["toks"] = [{"k": k, "s": s} for k, s, _ in toks] + [{"k": "EndOfFile", "s": ""}]
    e.update(kw)
    return e

# The parts of the grammar that are explored exhaustively: production, tokens,
# length (quick, thorough), what makes a text of a sentence.
EQ = (["Model", "Identifier", "Equation"], ["End", "Identifier", "Semicolon"])
RHS = (EQ[0] + ["Identifier", "EqualityOperator"], ["Semicolon"] + EQ[1])
PARTS = {
    "arithmetic": ("expr", "Identifier Plus Minus Product Pow LPar RPar", 5, 7, RHS),
    "logic": ("expr", "Identifier Not And Less Colon If Then Else", 5, 6, RHS),
    "calls": ("simple", "Identifier LPar RPar Comma EqualityOperator LSquare RSquare", 5, 6, RHS),
    "arguments": ("args", "Identifier Comma EqualityOperator For In Minus", 6, 7,
                  (["Model", "Identifier", "Algorithm", "Identifier", "LPar"], ["RPar", "Semicolon"] + EQ[1])),
    "arrays": ("primary", "LCurly RCurly Identifier Comma For LSquare RSquare", 5, 6, RHS),
    "outputs": ("outputs", "Identifier Comma LPar RPar", 6, 8,
                (EQ[0] + ["LPar"], ["RPar", "EqualityOperator", "Identifier", "Semicolon"] + EQ[1])),
    "modifications": ("modification", "Identifier Comma EqualityOperator LPar RPar Each", 6, 7,
                      (["Model", "Identifier", "Identifier", "Identifier"], ["Semicolon"] + EQ[1])),
    "members": ("elements", "Identifier Semicolon Dot Parameter LSquare RSquare Colon EqualityOperator", 5, 6,
                (["Model", "Identifier"], EQ[1])),
    "statements": ("sts", "Identifier Semicolon AssignmentOperator LPar RPar Dot", 6, 7,
                   (["Model", "Identifier", "Algorithm"], EQ[1])),
    "equations": ("eqs", "Identifier Semicolon EqualityOperator If Then End", 6, 8, EQ),
    "sections": ("root", "Model Identifier End Semicolon Public Initial Equation Algorithm", 6, 7, ([], [])),
    "functions": ("root", "Operator Pure Impure Function Identifier End Semicolon", 6, 7, ([], [])),
}

def part_config(name, deep):
    start, alphabet, quick, thorough, _ = PARTS[name]
    return ('SPECIFICATION Spec\nINVARIANTS OneTree Shown\nCHECK_DEADLOCK FALSE\nCONSTANTS Start = "%s"  MaxLen = %d\n'
            '  Alphabet = {%s}\n' % (start, thorough if deep else quick, ", ".join('"%s"' % k for k in alphabet.split())))

def part_sentences(name, scripts):
    pre, post = PARTS[name][4]
    return [pre + s + post for s in scripts]

def parse_cases(rng, sentences, per=3):
    out = []
    for kinds in sentences:
        toks = dress(rng, kinds)
        out.append(event(rng, toks))
        for _ in range(per):
            out.append(event(rng, mutate(rng, toks, rng.choice([1, 1, 1, 2, 4]))))
    rng.shuffle(out)
    return [out[k:k + 10] for k in range(0, len(out), 10)]

def copy_cases(rng, sentences, per=3):
    out = []
    for kinds in sentences:
        for _ in range(per):
            out.append(event(rng, dress(rng, kinds), "copy", node=0 if rng.random() < 0.4 else rng.randrange(10 ** 6),
                             at=rng.randrange(10 ** 6), how=rng.randrange(100), side=rng.randrange(2)))
    rng.shuffle(out)
    return [out[k:k + 10] for k in range(0, len(out), 10)]

SNIPPETS = [" ", "\n", ";", "(", ")", "[", "]", "{", "}", "=", ":=", ".", ",", ":", "model M", "end M;", "equation",
            "algorithm", "if", "then", "else", "end if", "for i in 1:2 loop", "end for", "when", "initial", "x", "y",
            "der(x)", "1", "2.5", "\"s\"", "Real", "parameter", "public", "protected", "function f", "end f;", "external",
            "annotation(", "not", "and", "or", "^", "*", "+", "-", "<", "\"", "/*", "*/", "//", "'", "redeclare",
            "replaceable", "operator", "pure", "class", "each", "final", "import", "extends", "\x00", "\xff", "@", "#", "1e",
            "99999999999999999999", "end", "while", "break", "return", "elseif", "elsewhen", "true"]

def fuzz_cases(rng, sentences, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.3:
            t = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 60)))
        elif r < 0.65:
            t = rng.choice(["", " "]).join(rng.choice(SNIPPETS) for _ in range(rng.randrange(1, 40))).encode("latin-1")
        else:
            t = bytearray(render(rng, dress(rng, rng.choice(sentences)[:300])).encode("latin-1"))
            for _ in range(rng.randrange(0, 5)):
                k = rng.randrange(len(t) + 1)
                what = rng.randrange(4)
                if what == 0:
                    del t[k:k + rng.randrange(1, 8)]
                elif what == 1:
                    t[k:k] = rng.choice(SNIPPETS).encode("latin-1")
                elif what == 2 and k < len(t):
                    t[k] = rng.randrange(256)
                else:
                    del t[k:]
            t = bytes(t)
        out.append({"op": "fuzz", "text": list(t)})
    return [out[k:k + 10] for k in range(0, len(out), 10)]

def prefix_cases(rng, sentences, n):
    """Sentences cut after each of their tokens."""
    out = []
    for kinds in rng.sample(sentences, min(n, len(sentences))):
        toks = dress(rng, kinds[:120])
        for k in range(len(toks) + 1):
            out.append(event(rng, toks[:k]))
    return [out[k:k + 10] for k in range(0, len(out), 10)]

# before, the unit that is repeated, in the middle, its counterpart, after
NESTS = [
    ("model M equation x=", "(", "a", ")", "; end M;"),
    ("model M equation x=", "{", "a", "}", "; end M;"),
    ("model M equation x=", "a[", "1", "]", "; end M;"),
    ("model M equation x=", "f(", "1", ")", "; end M;"),
    ("model M equation x=", "f(a=", "1", ")", "; end M;"),
    ("model M equation x=", "{a for i in ", "1", "}", "; end M;"),
    ("model M equation x=", "der(", "x", ")", "; end M;"),
    ("model M equation x=", "if a then b else ", "c", "", "; end M;"),
    ("model M equation x=", "if ", "c", " then b else c", "; end M;"),
    ("model M equation x=", "(not ", "c", ")", "; end M;"),
    ("model M equation x=", "(-", "c", ")", "; end M;"),
    ("model M equation x=", "2^(", "c", ")", "; end M;"),
    ("model M equation ", "if a then ", "x=1;", "end if;", " end M;"),
    ("model M equation ", "for i in 1:2 loop ", "x=1;", "end for;", " end M;"),
    ("model M equation ", "when a then ", "x=1;", "end when;", " end M;"),
    ("model M algorithm ", "if a then ", "x:=1;", "end if;", " end M;"),
    ("model M algorithm ", "for i in 1:2 loop ", "x:=1;", "end for;", " end M;"),
    ("model M algorithm ", "while a loop ", "x:=1;", "end while;", " end M;"),
    ("model M algorithm ", "when a then ", "x:=1;", "end when;", " end M;"),
    ("", "model M ", "", "end M;", ""),
    ("", "function M ", "", "end M;", ""),
    ("model M Real x", "(a", "", ")", "; end M;"),
    ("model M Real[", "a[", "1", "]", "] x; end M;"),
]
LISTS = [
    ("model M equation x=", "a and ", "a", "", "; end M;"),
    ("model M equation x=", "a or ", "a", "", "; end M;"),
    ("model M equation x=f(", "a,", "a", "", "); end M;"),
    ("model M equation x=f(", "a,", "a=1", "", "); end M;"),
    ("model M equation x=f(", "a=1,", "a=1", "", "); end M;"),
    ("model M equation x=", "a.", "a", "", "; end M;"),
    ("model M ", "Real x;", "", "", " end M;"),
    ("model M equation ", "x=1;", "", "", " end M;"),
    ("model M algorithm ", "x:=1;", "", "", " end M;"),
    ("model M equation if a then ", "elseif a then ", "", "", " end if; end M;"),
    ("model M equation when a then ", "elsewhen a then ", "", "", " end when; end M;"),
    ("model M algorithm if a then ", "elseif a then ", "", "", " end if; end M;"),
    ("model M equation (", "x,", "", "", " x)=f(x); end M;"),
    ("model M equation (", ",", "", "", " x)=f(x); end M;"),
    ("model M equation x={", "1,", "1", "", "}; end M;"),
    ("model M equation x=a[", "1,", "1", "", "]; end M;"),
    ("model M Real x(", "a=1,", "a", "", "); end M;"),
    ("model M Real[", ":,", "3", "", "] x; end M;"),
    ("model M equation for ", "i in 1:2,", "j", "", " loop end for; end M;"),
    ("model M ", "public protected ", "", "", " end M;"),
    ("", "model M end M;", "", "", ""),
    ("model M equation x=", "/* (( */", "1", "", "; end M;"),
    ("model M equation x=", " ", "1", "\n", "; end M;"),
    ("model M equation x=1", "0", "", "", ".0; end M;"),
    ("model M equation x=", "x", "", "", "; end M;"),
]
CHAINS = [("model M equation x=", "a%s" % o, "a", "", "; end M;") for o in "+-*/^"]

def deep_cases(rng):
    out = []
    def add(shape, n, must):
        pre, unit, mid, unit2, post = shape
        out.append([{"op": "deep", "repeat": [pre, unit, n, mid, unit2, post], "must": must}])
    for s in NESTS:
        add(s, 200, "accept")
        for n in (400, 600, 1500, 5000, 131072):
            add(s, n, "")
        add(s[:3] + ("", ""), rng.choice([300, 20000, 131072]), "reject")
    for s in LISTS:
        add(s, 30000, "accept")
        add(s[:2] + ("", "", ""), 30000, "reject" if s[0] else "accept")
    for s in CHAINS:
        add(s, 2000, "accept")
    rng.shuffle(out)
    return out
