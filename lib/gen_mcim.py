"""Histories over incidence matrices and local matching problems (seeded)."""
from gen_sets import rbox, rpoint
from gen_access import fun, disjoint, C, D, B, _multi

def pts(boxes):
    out = []
    for b in boxes:
        acc = [[]]
        for lo, hi in b:
            acc = [p + [x] for p in acc for x in range(lo, hi)]
        out += acc
    return out

def spaces(rng):
    re, rv = rng.choice([1, 1, 2]), rng.choice([1, 1, 2])
    sz = {1: 6, 2: 3}
    off = rng.choice([0, 0, -2])
    es = disjoint(rng, re, sz[re], rng.choice([1, 1, 2]))
    vs = disjoint(rng, rv, sz[rv], rng.choice([1, 1, 2]), off)
    return es, vs, re, rv, off

def single(rng, dims, results):
    """An access function reaching one variable element per equation point."""
    while True:
        f = fun(rng, dims=dims, results=results, style=rng.choice(["roto", "roto", "perm" if dims == results else "roto", "const", "affine"]))
        if len(f["res"]) == results and not any(_multi(e) for e in f["res"]):
            return f

def small(f, rng):
    """Offsets small enough to stay near the spaces."""
    def go(e):
        if e["k"] == "const":
            return C(max(-2, min(3, e["v"])))
        if "a" in e:
            return dict(e, a=go(e["a"]), b=go(e["b"])) if e["k"] != "div" else dict(e, a=go(e["a"]))
        return e
    return dict(f, res=[go(e) for e in f["res"]])

def sub(rng, boxes):
    """Some boxes inside of the given ones."""
    out = []
    for b in boxes:
        if rng.random() < .7:
            nb = []
            for lo, hi in b:
                x = rng.randint(lo, hi - 1)
                nb.append([x, rng.randint(x + 1, hi)])
            out.append(nb)
    return out

def grown(rng, boxes, rank, n, off=0):
    k = rng.random()
    if k < .4:
        s = sub(rng, boxes)
        return s or boxes
    if k < .5:
        return boxes
    return disjoint(rng, rank, n + 1, rng.choice([1, 2, 3]), off - 1)

def history(rng, length):
    es, vs, re, rv, off = spaces(rng)
    ep, vp = pts(es), pts(vs)
    out = [{"op": "reset"}]
    one = len(es) == 1 and len(vs) == 1 and rng.random() < .5
    for r in (0, 1, 2):
        out.append({"op": "new", "r": r, "eqs": es, "vars": vs, "boxes": one})
    fs = [small(single(rng, re, rv), rng) for _ in range(rng.choice([1, 2, 3]))]
    while rng.random() < .25:
        g = fun(rng, dims=re, results=rv, style=rng.choice(["multi", "mixed", "const"]))
        if len(g["res"]) == rv:
            fs.append(small(g, rng))
    R = lambda: rng.choice([0, 0, 1, 1, 2])
    live = False
    for _ in range(length):
        op = rng.choices(["apply", "applyAll", "set", "unset", "addM", "subM", "plus", "minus", "copy", "move", "clear",
                          "filterRows", "filterColumns", "eq", "split", "show", "withSpace", "setEq", "setVar"],
                         [6, 2, 7, 7, 2, 3, 1, 2, 1, .5, .3, 2, 2, 1.5, 1.5, .5, 2, 2, 2])[0]
        c = {"op": op, "r": R(), "a": R(), "b": R()}
        if op in ("apply", "applyAll"):
            c["f"] = rng.choice(fs) if rng.random() < .8 else small(single(rng, re, rv), rng)
        if op == "apply":
            c["s"] = sub(rng, es)
        if op in ("set", "unset"):
            c["e"], c["v"] = rng.choice(ep), rng.choice(vp)
            if fs and rng.random() < .4:      # an entry some access describes
                pass
        if op == "filterRows":
            c["s"] = grown(rng, es, re, 4)
        if op == "filterColumns":
            c["s"] = grown(rng, vs, rv, 4, off)
        if op in ("withSpace", "setEq", "setVar"):
            # on a register of its own, where some more calls follow
            r = 3
            ne = grown(rng, es, re, 4) if op != "setVar" else es
            nv = grown(rng, vs, rv, 4, off) if op != "setEq" else vs
            if op != "withSpace":
                out.append({"op": "copy", "r": r, "a": c["a"], "b": 0})
            out.append({"op": op, "r": r, "a": c["a"], "b": 0, "eqs": ne, "vars": nv})
            nep, nvp = pts(ne), pts(nv)
            for _ in range(rng.randint(0, 3)):
                k = rng.choice(["set", "unset", "apply", "split"])
                d = {"op": k, "r": r, "a": r, "b": r}
                if k == "apply":
                    d["s"], d["f"] = sub(rng, ne), rng.choice(fs)
                elif k != "split":
                    d["e"], d["v"] = rng.choice(nep), rng.choice(nvp)
                out.append(d)
            continue
        out.append(c)
    return out

def ev(e, p, sp=()):
    """The values of an expression (no tied iteration spaces)."""
    k = e["k"]
    if k == "const":
        return {e["v"]}
    if k == "dim":
        return {p[e["d"]]}
    if k == "range":
        return set(range(e["lo"], e["hi"]))
    if k == "idx":
        return {q[e["d"]] for q in pts(sp[e["s"]])}
    A, B_ = ev(e["a"], p, sp), ev(e["b"], p, sp)
    op = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a // b}[k]
    return {op(a, b) for a in A for b in B_}

def untied(f):
    def go(e):
        if e["k"] == "idx":
            return dict(e, dep=[])
        if "a" in e:
            return dict(e, a=go(e["a"]), b=go(e["b"]))
        return e
    return dict(f, res=[go(e) for e in f["res"]])

def local(rng, n):
    """Local matching problems; the accesses stay inside the variable space."""
    out = []
    while len(out) < n:
        es, _, re, rv, _ = spaces(rng)
        if rng.random() < .3:
            re = rng.choice([2, 3])
            es = disjoint(rng, re, {2: 4, 3: 3}[re], rng.choice([1, 2, 3]))
        fs = [small(single(rng, re, rv), rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        wide = rng.random() < .3
        if wide:
            while True:
                g = fun(rng, dims=re, results=rv, style=rng.choice(["multi", "mixed", "const"]))
                if len(g["res"]) == rv:
                    break
            fs.insert(rng.randint(0, len(fs)), untied(small(g, rng)))
        img = [[ev(e, p, f["spaces"]) for e in f["res"]] for f in fs for p in pts(es)]
        box = [[min(min(q[k]) for q in img), max(max(q[k]) for q in img) + 1] for k in range(rv)]
        size = 1
        for lo, hi in box:
            size *= hi - lo
        if size * len(pts(es)) > 900:
            continue
        out.append([{"op": "reset"}, {"op": "solve", "eqs": es, "vars": [box], "fs": fs}])
        if rng.random() < .5:
            c = out[-1]
            c += [{"op": "new", "r": 0, "eqs": es, "vars": [box], "boxes": False}]
            for f in fs:
                c.append({"op": "apply", "r": 0, "a": 0, "b": 0, "s": sub(rng, es), "f": f})
            for _ in range(rng.randint(0, 4)):
                c.append({"op": rng.choice(["set", "unset"]), "r": 0, "a": 0, "b": 0,
                          "e": rng.choice(pts(es)), "v": rng.choice(pts([box]))})
            c.append({"op": "solveM", "a": 0, "r": 0, "b": 0})
    return out
