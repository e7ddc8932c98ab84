"""Matched systems of array equations (seeded)."""
from gen_sets import rbox
from gen_access import fun, disjoint, C, D, B
from gen_mcim import pts, ev
from gen_system import split, size, access, roto, shift, SCALAR, boxes_of

def own_access(rng, piece, wide):
    """Iteration box and access computing the box piece, each element once."""
    rank = len(piece)
    if piece == SCALAR[0]:
        return [[0, 1]], {"dims": 1, "res": [C(0)], "spaces": [], "via": "dims"}
    order = [k for k in range(rank) if piece[k][1] - piece[k][0] > 1 or rng.random() < .7]
    if not order:
        order = [0]
    if rng.random() < .35:
        rng.shuffle(order)
    box, res = [], [None] * rank
    for d, k in enumerate(order):
        lo, hi = piece[k]
        o = 0 if rng.random() < .6 else rng.randint(-min(2, lo), 2)
        if wide and rng.random() < .3:       # backwards
            box.append([0, hi - lo])
            res[k] = B("sub", C(hi - 1), D(d))
            continue
        box.append([lo + o, hi + o])
        res[k] = D(d) if o == 0 else B("add", D(d), C(-o))
    for k in range(rank):
        if res[k] is None:
            res[k] = C(piece[k][0])
    return box, {"dims": len(box), "res": res, "spaces": [], "via": rng.choice(["dims", "affine"])}

def moved(rng, f):
    """The same access, a little aside."""
    res = []
    for e in f["res"]:
        o = rng.choice([0, 0, 1, -1, -1, 1, 2, -2]) if len(f["res"]) > 1 else rng.choice([1, -1, 2, -2, 3])
        res.append(e if o == 0 else B("add", e, C(o)))
    return dict(f, res=res)

def system(rng, limit=16, wide=False, several=None):
    """wide: accesses touching several elements; several: accesses to the computed
    elements besides the one computing them."""
    several = wide if several is None else several
    while True:
        vars_, total = [], 0
        style = rng.choice(["self", "chain", "mixed", "mixed", "pairs"])
        same = rng.choice([1, 1, 1, 2, 2, 3])
        shape = disjoint(rng, same, {1: 6, 2: 3, 3: 2}[same], rng.choice([1, 1, 2]), rng.choice([0, 0, 1]))
        for k in range(1 if style == "self" else rng.choice([2, 2, 3, 4])):
            if style == "pairs":
                s = shape
            else:
                rank = rng.choice([0, 1, 1, 1, 2, 2, 3])
                s = SCALAR if rank == 0 else disjoint(rng, rank, {1: 7, 2: 3, 3: 2}[rank], rng.choice([1, 1, 2]), rng.choice([0, 0, 1]))
            if total + size(s) > limit:
                continue
            total += size(s)
            vars_.append({"id": k, "s": s})
        if vars_:
            break
    eqs = []
    p_split = rng.choice([0, .5, 1])
    for v in vars_:
        pieces = [q for b in v["s"] for q in (split(rng, b) if rng.random() < p_split else [b])]
        groups = [[p] for p in pieces]
        if len(groups) > 1 and v["s"] != SCALAR and rng.random() < .3:    # an equation over several boxes
            a = groups.pop(rng.randrange(len(groups)))
            groups[rng.randrange(len(groups))] += a
        for g in groups:
            if len(g) > 1:
                rank = len(g[0])
                box, f = g, {"dims": rank, "res": [D(k) for k in range(rank)], "spaces": [], "via": "dims"}
            else:
                b, f = own_access(rng, g[0], wide)
                box = [b]
            acc = [{"v": v["id"], "f": f}]
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
                m = rng.random()
                if m < (.8 if style == "self" else .25):
                    a = {"v": v["id"], "f": moved(rng, f)}
                elif style == "pairs" and m < .8:
                    w = rng.choice(vars_)
                    a = {"v": w["id"], "f": f if rng.random() < .4 else moved(rng, f)}
                    if len(f["res"]) != len(w["s"][0]):
                        continue
                else:
                    a = access(rng, box, vars_, wide)
                acc.append(a)
            if rng.random() < .1:
                acc.append({"v": 90, "f": roto(rng, len(box[0]), 1)})
            k = rng.randrange(len(acc))
            acc[0], acc[k] = acc[k], acc[0]
            # nothing else may stay within what is computed (it would be a second write)
            W = {tuple(x) for p in pts(box) for x in value(f, p)}
            acc = [a for j, a in enumerate(acc) if j == k or several or a["v"] != v["id"]
                   or not {tuple(x) for p in pts(box) for x in value(a["f"], p)} <= W]
            own = next(j for j, a in enumerate(acc) if a["f"] is f and a["v"] == v["id"])
            eqs.append({"id": len(eqs), "s": box, "acc": acc, "own": own})
    rng.shuffle(eqs)
    ids = [v["id"] for v in vars_] + [90]
    rng.shuffle(ids)
    return {"op": "sys", "vars": ids, "eqs": eqs}

def value(f, p):
    from itertools import product
    return product(*[sorted(ev(r, p, f["spaces"])) for r in f["res"]])

def case(rng, ops, limit=16, wide=False, several=None):
    out = [system(rng, limit, wide, several)]
    for o in ops:
        out.append(dict(o, threads=rng.random() < .4))
    return out
