"""Filter texts and the queries put to the filters."""
B = lambda s: list(s.encode("latin-1"))
NAMES = ["x", "y", "x.y", "der", "derx", "a_1", "X", "xx", "x.", "_", "time", "x.y.z", "ab", "ba", "x1", "der.x"]

def regex(rng, d=0):
    r = rng.random()
    node = lambda o, c=(), es=(): {"o": o, "c": list(c), "es": list(es)}
    if d > 3 or r < 0.4:
        return node("lit", [ord(rng.choice("xyabder1_.X("))])
    if r < 0.47:
        return node("any")
    if r < 0.56:
        rs = [sorted([rng.choice("axyz"), rng.choice("bdez")]) for _ in range(rng.randrange(1, 3))] + \
             ([["0", "9"]] if rng.random() < 0.3 else [])
        return node(rng.choice(["set", "set", "not"]), [], [node("r", [ord(a), ord(b)]) for a, b in rs])
    if r < 0.78:
        return node("cat", [], [regex(rng, d + 1), regex(rng, d + 1)])
    if r < 0.85:
        return node("alt", [], [regex(rng, d + 1), regex(rng, d + 1)])
    return node(rng.choice(["star", "plus", "opt"]), [], [regex(rng, d + 1)])

def anchored(rng):
    node = lambda o, es=(): {"o": o, "c": [], "es": list(es)}
    r = regex(rng)
    if rng.random() < 0.4:
        r = node("cat", [node("bol"), r])
    if rng.random() < 0.4:
        r = node("cat", [r, node("eol")])
    return r

def written(e):
    o, c, es = e["o"], e["c"], e["es"]
    if o == "lit":
        return bytes(c) if chr(c[0]).isalnum() or c[0] == 95 else b"\\" + bytes(c)
    if o in ("set", "not"):
        return b"[" + (b"^" if o == "not" else b"") + b"".join(b"%c-%c" % tuple(r["c"]) for r in es) + b"]"
    if o == "any": return b"."
    if o == "bol": return b"^"
    if o == "eol": return b"$"
    if o == "cat": return written(es[0]) + written(es[1])
    if o == "alt": return b"(" + written(es[0]) + b"|" + written(es[1]) + b")"
    return b"(" + written(es[0]) + b")" + {"star": b"*", "plus": b"+", "opt": b"?"}[o]

def bound(rng):
    return rng.choice(["$", "0", "1", "2", "3", "7", "10", "007", "12345", "2147483647", "2147483648", "4294967295",
                       "4294967296", "4294967297", "9223372036854775807"]) if rng.random() < 0.5 else \
        str(rng.randrange(1, 30))

def entry(rng, res):
    r = rng.random()
    n = rng.choice(NAMES if rng.random() < 0.5 else NAMES[:3])
    if n == "der": n = "x"
    if r < 0.25:
        return n.encode()
    if r < 0.6:
        return (n + "[" + ",".join(bound(rng) + ":" + bound(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]))) + "]").encode()
    if r < 0.75:
        return ("der(" + n + ")").encode()
    e = anchored(rng)
    res.append(e)
    return b"/" + written(e) + b"/"

def queries(rng, k=8):
    return [{"name": B(rng.choice(NAMES if rng.random() < 0.5 else NAMES[:3])), "rank": rng.choice([0, 0, 1, 1, 2, 3, 5]),
             "der": rng.random() < 0.4} for _ in range(k)]

def texts(rng, n):
    out = []
    for _ in range(n):
        res = []
        es = [entry(rng, res) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6]))]
        t = b""
        for e in es:
            t += e + rng.choice([b";", b";", b";", b" ; ", b";;", b"; ", b"\n;", b" "])
        if rng.random() < 0.5: t = t.rstrip(b"; \n")
        out.append({"op": "filter", "text": list(t), "res": res, "queries": queries(rng)})
    return out

BITS = [b"x", b"y", b"der", b"(", b")", b"[", b"]", b",", b";", b":", b"$", b"1", b"23", b"/x/", b"/", b" ", b"x.y", b"der(x)",
        b"[1:2]", b"[$:$]", b"-", b".", b"#", b"\x00", b"\xe9", b"//", b"/(/", b"/x*/", b"/[a-z]+$/", b"\n", b"1x", b"/a|/", b"/*a/"]

def soups(rng, n):
    out = []
    for k in range(n):
        if rng.random() < 0.6:
            t = b"".join(rng.choice(BITS) for _ in range(rng.randrange(1, 9)))
        else:
            t = bytearray(bytes(texts(rng, 1)[0]["text"]))
            for _ in range(rng.randrange(1, 4)):
                p = rng.randrange(len(t) + 1)
                r = rng.random()
                if r < 0.4 and p < len(t): del t[p]
                elif r < 0.8: t[p:p] = rng.choice(BITS)
                else: t[p:p + 1] = bytes([rng.randrange(256)])
            t = bytes(t)
        out.append({"op": "filter", "text": list(t), "res": [], "queries": queries(rng, 4)})
    return out

def cases(rng, events):
    events = list(events)
    rng.shuffle(events)
    return [events[k:k + 20] for k in range(0, len(events), 20)]

# Explored exhaustively: what the texts are made of, how many pieces (quick, thorough).
PARTS = {"slices": (["x", "[", "]", ",", ":", "$", "1"], 6, 7), "entries": (["x", "y", "der", "(", ")", ";", " ", "/x/", "/"], 5, 6)}

def config(name, deep):
    words, quick, thorough = PARTS[name]
    return ("SPECIFICATION Spec\nINVARIANTS Stable Sane Shown\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen = %d\n  Words = {%s}\n"
            % (thorough if deep else quick, ", ".join(str(ord(w)) if len(w) == 1 else {"der": "1000", "/x/": "1001"}[w] for w in words)))

def small(rng, scripts):
    q = [{"name": B(n), "rank": r, "der": d} for n in ("x", "y") for r in (0, 1, 2) for d in (False, True)]
    return [{"op": "filter", "text": t, "res": [], "queries": q} for t in scripts]
