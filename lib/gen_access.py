"""Random access functions and calls on them (seeded)."""
from gen_sets import rbox, rpoint

C = lambda v: {"k": "const", "v": v}
D = lambda d: {"k": "dim", "d": d}
B = lambda k, a, b: {"k": k, "a": a, "b": b}

def fun(rng, dims=None, results=None, style=None, safe_mul=True):
    dims = dims if dims is not None else rng.choice([0, 1, 1, 2, 2, 2, 3])
    results = results if results is not None else rng.choice([1, 1, 2, 2, 3, dims, dims])
    style = style or rng.choice(["roto", "roto", "perm", "affine", "const", "multi", "multi", "mixed"])
    if style == "perm":
        results = dims
    spaces = []
    def space():
        if len(spaces) < 2 and rng.random() < .7 or not spaces:
            rank = rng.choice([1, 2])
            spaces.append(disjoint(rng, rank, 4, rng.choice([1, 1, 2])))
        return rng.randrange(len(spaces))
    def leaf():
        return D(rng.randrange(dims)) if dims and rng.random() < .6 else C(rng.randint(-3, 5))
    def idx():
        s = space()
        rank = len(spaces[s][0])
        d = rng.randrange(rank)
        dep = [x for x in range(rank) if x != d] if rank > 1 and rng.random() < .5 else []
        return {"k": "idx", "s": s, "d": d, "dep": dep}
    def multi():
        if rng.random() < .5:
            lo = rng.randint(-2, 3)
            return {"k": "range", "lo": lo, "hi": lo + rng.randint(1, 3)}
        return idx()
    def roto(d=None):
        d = rng.randrange(dims) if d is None else d
        o = rng.choice([0, 0, 1, -1, 2, -3])
        if o == 0:
            return D(d)
        return rng.choice([B("add", D(d), C(o)), B("add", C(o), D(d)), B("sub", D(d), C(-o)),
                           B("sub", B("add", D(d), C(o + 1)), C(1))])
    def affine(depth=2):
        if depth == 0 or rng.random() < .2:
            return leaf()
        k = rng.choice(["add", "add", "sub", "mul", "div"])
        if k == "mul":
            a, b = affine(depth - 1), C(rng.choice([-2, -1, 0, 1, 2, 3]))
            return B("mul", a, b) if rng.random() < .6 else B("mul", b, a)
        if k == "div":
            return B("div", affine(depth - 1), C(rng.choice([1, 2, 3])))
        return B(k, affine(depth - 1), affine(depth - 1))
    res = []
    perm = list(range(dims))
    rng.shuffle(perm)
    for r in range(results):
        if style == "const" or dims == 0 and style in ("roto", "perm"):
            res.append(C(rng.randint(-3, 6)) if rng.random() < .8 else multi())
        elif style == "perm":
            res.append(roto(perm[r]))
        elif style == "roto":
            res.append(roto() if rng.random() < .75 else C(rng.randint(-3, 6)))
        elif style == "affine":
            res.append(affine())
        elif style == "multi":
            x = multi()
            if rng.random() < .5:
                x = B(rng.choice(["add", "sub", "add"]), *rng.sample([x, affine(1)], 2))
            if rng.random() < .2:
                x = B("mul", x, C(rng.choice([-1, 2])))
            if rng.random() < .15:
                x = B("div", x, C(2))
            res.append(x if rng.random() < .7 else leaf())
        else:
            res.append(rng.choice([affine, leaf, multi])())
    f = {"dims": dims, "res": res, "spaces": spaces}
    multi_ = any(_multi(e) for e in res)
    f["via"] = rng.choice(["dims", "clone", "dims"] + ([] if multi_ else ["affine"]))
    # a tied space is meant to be tied everywhere it is used
    _tie(res)
    return f

def _nodes(e):
    yield e
    if "a" in e:
        yield from _nodes(e["a"])
        yield from _nodes(e["b"])

def _multi(e):
    return any(x["k"] in ("range", "idx") for x in _nodes(e))

def _tie(res):
    pass

def disjoint(rng, rank, n, k, off=0):
    """A list of at most k pairwise disjoint boxes (at least one)."""
    out = []
    for _ in range(k * 3):
        b = rbox(rng, rank, n, off, max(1, n // 2) if k > 1 else None)
        if all(any(x[1] <= y[0] or y[1] <= x[0] for x, y in zip(b, o)) for o in out):
            out.append(b)
        if len(out) == k:
            break
    return out

def setof(rng, rank, n=5, off=0):
    if rank == 0:
        return []
    return disjoint(rng, rank, n, rng.choice([1, 1, 2, 3, 4]), off)

def map_cases(rng, n):
    out = []
    for _ in range(n):
        f = fun(rng)
        d = f["dims"]
        k = rng.random()
        pts = [rpoint(rng, d, 9, -3) for _ in range(4)] if d else []
        if k < .35:
            c = {"op": "mapp", "f": f, "p": rpoint(rng, d, 9, -3) if d else []}
            if d == 0:
                f["dims"] = 1
                c["p"] = [rng.randint(-3, 5)]
        elif k < .75:
            if d == 0:
                f["dims"] = d = 1
            c = {"op": "maps", "f": f, "s": setof(rng, d, 5, rng.choice([0, -2])) if rng.random() < .97 else []}
        elif k < .85:
            if d == 0:
                f["dims"] = d = 1
                pts = [[1], [2]]
            n2 = rng.randint(0, d + 2)
            c = {"op": "given", "f": f, "n": n2, "ps": [p + [0] * (max(n2, d) - d) for p in pts]}
        elif k < .95:
            c = {"op": "pred", "f": f, "ps": pts}
        else:
            g = fun(rng) if rng.random() < .5 else dict(f, via="clone")
            if rng.random() < .5:
                g = dict(f, res=f["res"] + f["res"][:1] if rng.random() < .5 else f["res"][:-1] or f["res"])
                g["via"] = "dims"
            c = {"op": "eq", "f": f, "g": g}
        out.append([c])
    return out

def inv_cases(rng, n):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .6:
            f = fun(rng, dims=rng.choice([1, 2, 2, 3]))
            d = f["dims"]
            r = len(f["res"])
            par = setof(rng, d, 5)
            acc = setof(rng, r, rng.choice([4, 7]), rng.choice([0, -2]))
            if rng.random() < .1:
                acc = []
            if rng.random() < .05:
                par = []
            c = {"op": "inv", "f": f, "acc": acc, "par": par}
        elif k < .75:
            f = fun(rng, dims=rng.choice([1, 2, 3]), style=rng.choice(["perm", "perm", "roto"]))
            c = {"op": "inverse", "f": f, "ps": [rpoint(rng, f["dims"], 9, -3) for _ in range(4)]}
        else:
            f = fun(rng, dims=rng.choice([1, 2, 3]))
            g = fun(rng, dims=len(f["res"]))
            c = {"op": "combine", "f": f, "g": g, "ps": [rpoint(rng, f["dims"], 9, -3) for _ in range(3)]}
        out.append([c])
    return out

def directed():
    """Shapes that random generation rarely hits."""
    out = []
    half = B("div", D(0), C(2))
    for e in (B("add", D(0), B("mul", half, C(-2))), B("sub", D(0), B("mul", half, C(2))),
              B("sub", D(0), B("mul", C(3), B("div", D(0), C(3)))),
              B("mul", B("div", D(0), C(2)), C(2)), B("div", B("mul", D(0), C(4)), C(2)),
              B("div", B("add", B("mul", D(0), C(4)), C(3)), C(2)),
              B("div", B("div", D(0), C(2)), C(3)), B("mul", D(0), D(0)),
              B("sub", D(0), D(0)), B("div", D(0), C(1)), B("add", D(0), D(0)),
              B("sub", C(3), D(0)), B("div", B("sub", C(0), D(0)), C(2))):
        for via in ("dims", "affine", "clone"):
            f = {"dims": 1, "res": [e], "spaces": [], "via": via}
            if e["k"] == "mul" and e["b"] == D(0) and via == "affine":
                continue
            out.append([{"op": "maps", "f": f, "s": [[[-4, 5]]]}])
            out.append([{"op": "pred", "f": f, "ps": [[-3], [0], [3], [4]]}])
            out.append([{"op": "inv", "f": f, "acc": [[[-2, 3]]], "par": [[[-5, 6]]]}])
            g = {"dims": 1, "res": [B("add", D(0), C(1))], "spaces": [], "via": "dims"}
            out.append([{"op": "combine", "f": f, "g": g, "ps": [[-3], [0], [3], [4]]}])
            out.append([{"op": "combine", "f": g, "g": f, "ps": [[-3], [0], [3], [4]]}])
    T = lambda d: {"k": "idx", "s": 0, "d": d, "dep": [1 - d]}
    sp = [[[[0, 2], [0, 1]], [[1, 3], [2, 3]]]]
    for res in ([T(0), T(1)], [T(1), D(0), T(0)], [B("add", T(0), T(1))], [B("add", T(0), D(0)), T(1)], [T(0), T(0)]):
        f = {"dims": 1, "res": res, "spaces": sp, "via": "dims"}
        out.append([{"op": "maps", "f": f, "s": [[[0, 3]]]}])
        out.append([{"op": "mapp", "f": f, "p": [4]}])
        out.append([{"op": "inv", "f": f, "acc": [[[0, 9]] * len(res)], "par": [[[0, 3]]]}])
        out.append([{"op": "given", "f": f, "n": 3, "ps": [[1, 0, 0], [2, 5, 1]]}])
        out.append([{"op": "combine", "f": {"dims": 1, "res": [B("add", D(0), C(2))], "spaces": [], "via": "dims"},
                     "g": f, "ps": [[0], [3]]}])
    return out

def big_cases(rng, n):
    """Translations of sets made of many boxes."""
    out = []
    for _ in range(n):
        d = rng.choice([1, 2, 3])
        f = fun(rng, dims=d, style=rng.choice(["perm", "roto"]))
        S = disjoint(rng, d, {1: 60, 2: 14, 3: 6}[d], rng.randint(10, 40))
        out.append([{"op": "maps", "f": f, "s": S}])
        A = disjoint(rng, len(f["res"]), {0: 1, 1: 60, 2: 14, 3: 6}[len(f["res"])], rng.randint(5, 25), -2) if f["res"] else []
        out.append([{"op": "inv", "f": f, "acc": A, "par": S}])
    return out
