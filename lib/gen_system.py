"""Systems of array equations and variables (seeded)."""
from gen_sets import rbox
from gen_access import fun, disjoint, C, D, B, _multi
from gen_mcim import pts, ev, small, single, untied

def roto(rng, dims, results, lo=-2, hi=2, perm=None):
    """An offset access function with few constants."""
    res = []
    order = list(range(dims))
    rng.shuffle(order)
    for r in range(results):
        if dims and r < len(order) and rng.random() < .85:
            d = order[r]
            o = rng.choice([0, 0, 0, 1, -1, 2, -2])
            o = max(lo, min(hi, o))
            res.append(D(d) if o == 0 else B("add", D(d), C(o)))
        else:
            res.append(C(rng.randint(0, 3)))
    return {"dims": dims, "res": res, "spaces": [], "via": rng.choice(["dims", "affine", "clone"])}

def shift(rng, src, dst):
    """The access taking the box src to the box dst of the same shape."""
    return {"dims": len(src), "spaces": [], "via": rng.choice(["dims", "affine"]),
            "res": [D(k) if s[0] == d[0] else B("add", D(k), C(d[0] - s[0])) for k, (s, d) in enumerate(zip(src, dst))]}

def size(boxes):
    return len(pts(boxes))

def split(rng, box):
    """Cut a box in two along one dimension, or leave it."""
    ds = [k for k, (a, b) in enumerate(box) if b - a > 1]
    if not ds or rng.random() < .45:
        return [box]
    k = rng.choice(ds)
    a, b = box[k]
    c = rng.randint(a + 1, b - 1)
    return split(rng, box[:k] + [[a, c]] + box[k + 1:]) + split(rng, box[:k] + [[c, b]] + box[k + 1:])

SCALAR = [[[0, 1]]]

def access(rng, es, vars_, wide=False):
    """Some access from an equation iterating over es to one of the variables."""
    v = rng.choice(vars_)
    de, dv = len(es[0]), len(v["s"][0])
    if v["s"] == SCALAR:
        f = {"dims": de, "res": [C(0)], "spaces": [], "via": "dims"}
    elif wide and rng.random() < .5:
        while True:
            f = fun(rng, dims=de, results=dv, style=rng.choice(["multi", "mixed", "const"]))
            if len(f["res"]) == dv:
                break
        f = untied(small(f, rng))
    elif rng.random() < .15:
        f = small(single(rng, de, dv), rng)
    elif rng.random() < .25:
        p = rng.choice(pts(v["s"]))
        f = {"dims": de, "res": [C(x) for x in p], "spaces": [], "via": "dims"}
    else:
        f = roto(rng, de, dv)
    return {"v": v["id"], "f": f}

def system(rng, limit=14, wide=False):
    """Variables and equations; usually, every variable element has an equation written for it."""
    vars_ = []
    total = 0
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        rank = rng.choice([0, 1, 1, 1, 2, 3])
        if rank == 0:
            s = SCALAR
        else:
            off = rng.choice([0, 0, 0, 1])
            s = disjoint(rng, rank, {1: 6, 2: 3, 3: 2}[rank], rng.choice([1, 1, 1, 2]), off)
        if total + size(s) > limit:
            continue
        total += size(s)
        vars_.append({"op": "var", "id": k, "s": s})
    if not vars_:
        return system(rng, limit, wide)
    ghost = [{"id": 90, "s": [[[0, 4]]]}] if rng.random() < .3 else []
    eqs = []
    def extra(es, n):
        return [access(rng, es, vars_ + ghost, wide) for _ in range(n)]
    n_extra = rng.choice([0, 1, 1, 2, 2, 3])
    for v in vars_:
        for b in v["s"]:
            for piece in split(rng, b):
                # the equations for this piece: over a box of the same shape
                if rng.random() < .6:
                    es = piece
                else:
                    o = rng.randint(0, 2)
                    es = [[0 + o, hi - lo + o] for lo, hi in piece]
                if piece == SCALAR[0]:
                    es = piece
                own = {"v": v["id"], "f": shift(rng, es, piece)}
                if v["s"] == SCALAR:
                    own["f"] = {"dims": 1, "res": [C(0)], "spaces": [], "via": "dims"}
                acc = [own] + extra([es], rng.randint(0, n_extra))
                rng.shuffle(acc)
                eqs.append({"op": "eq", "id": len(eqs), "s": [es], "acc": acc})
    k = rng.random()
    if k < .25 and eqs:                 # make it (probably) unsolvable
        m = rng.choice(["drop", "own", "dup", "var"])
        e = rng.choice(eqs)
        if m == "drop":
            eqs.remove(e)
        elif m == "own":
            e["acc"] = extra(e["s"], rng.randint(0, 2))
        elif m == "dup":
            eqs.append(dict(e, id=len(eqs) + 7))
        else:
            vars_.append({"op": "var", "id": 50, "s": disjoint(rng, 1, 3, 1)})
    elif k < .4:                        # merge equations over the same space: some points move
        e = rng.choice(eqs)
        o = disjoint(rng, len(e["s"][0]), 4, 2)
        if size(o) == size(e["s"]):
            e["s"] = o
    rng.shuffle(eqs)
    rng.shuffle(vars_)
    return vars_, eqs

def matching_case(rng, limit=14, wide=False, runs=4):
    vars_, eqs = system(rng, limit, wide) if wide or rng.random() < .5 else dense(rng, limit)
    out = [{"op": "reset"}] + vars_ + eqs
    if rng.random() < .3:
        out.append({"op": "count"})
    opts = [(l, s, t) for l in (True, False) for s in (True, False) for t in (True, False)]
    rng.shuffle(opts)
    for l, s, t in opts[:runs]:
        out.append({"op": "match", "leaf": l, "scal": s, "threads": t, "thr": rng.choice([50, 50, 0, 20, 100, 200])})
    return out

def dense(rng, limit=12):
    """Few variables, many overlapping accesses: leaves are rare, augmenting paths long."""
    while True:
        vars_, eqs = [], []
        for k in range(rng.choice([1, 1, 2, 2, 3])):
            rank = rng.choice([1, 1, 1, 2])
            vars_.append({"op": "var", "id": k, "s": disjoint(rng, rank, {1: 7, 2: 3}[rank], rng.choice([1, 1, 2]))})
        n = sum(size(v["s"]) for v in vars_)
        if not 3 <= n <= limit:
            continue
        left = n
        while left > 0 and len(eqs) < 12:
            v = rng.choice(vars_)
            es = split(rng, rng.choice(v["s"]))[0]
            if size([es]) > left:
                continue
            left -= size([es])
            acc = []
            for _ in range(rng.choice([1, 2, 2, 3, 4])):
                w = rng.choice(vars_)
                if rng.random() < .2:
                    f = {"dims": len(es), "res": [C(x) for x in rng.choice(pts(w["s"]))], "spaces": [], "via": "dims"}
                else:
                    f = roto(rng, len(es), len(w["s"][0]), -1, 1)
                acc.append({"v": w["id"], "f": f})
            eqs.append({"op": "eq", "id": len(eqs), "s": [es], "acc": acc})
        if left == 0:
            rng.shuffle(vars_)
            if rng.random() < .85:
                vars_, eqs = solvable(rng, vars_, eqs)
                if not eqs:
                    continue
            return vars_, eqs

def boxes_of(points):
    """Disjoint boxes covering the points, merging runs along the last dimension."""
    out = []
    for p in sorted(points):
        if out and out[-1][:-1] == [[x, x + 1] for x in p[:-1]] and out[-1][-1][1] == p[-1]:
            out[-1][-1][1] += 1
        else:
            out.append([[x, x + 1] for x in p])
    return out

def incidence(vars_, eqs):
    space = {v["id"]: {tuple(p) for p in pts(v["s"])} for v in vars_}
    adj = {}
    for e in eqs:
        for p in pts(e["s"]):
            adj[(e["id"], tuple(p))] = {
                (a["v"], q) for a in e["acc"] if a["v"] in space
                for q in [tuple(min(ev(r, p, a["f"]["spaces"])) for r in a["f"]["res"])] if q in space[a["v"]]}
    return adj

def kuhn(adj, order):
    owner = {}
    def go(e, seen):
        for v in sorted(adj[e]):
            if v not in seen:
                seen.add(v)
                if v not in owner or go(owner[v], seen):
                    owner[v] = e
                    return True
        return False
    for e in order:
        go(e, set())
    return owner

def solvable(rng, vars_, eqs):
    """Keep what some maximum matching covers."""
    adj = incidence(vars_, eqs)
    order = list(adj)
    rng.shuffle(order)
    owner = kuhn(adj, order)
    es, vs = {}, {}
    for v, e in owner.items():
        es.setdefault(e[0], []).append(list(e[1]))
        vs.setdefault(v[0], []).append(list(v[1]))
    return ([dict(v, s=boxes_of(vs[v["id"]])) for v in vars_ if v["id"] in vs],
            [dict(e, s=boxes_of(es[e["id"]])) for e in eqs if e["id"] in es])
