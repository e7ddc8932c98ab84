"""Random operation histories over index sets (seeded)."""

def rbox(rng, rank, n, off=0, maxw=None):
    b = []
    for _ in range(rank):
        w = rng.randint(1, maxw or n)
        lo = rng.randint(0, max(0, n - w))
        b.append([lo + off, lo + w + off])
    return b

def rpoint(rng, rank, n, off=0):
    return [rng.randint(0, n - 1) + off for _ in range(rank)]

UNIV = {1: 24, 2: 7, 3: 4}

def history(rng, length, rank=None, tree=0, style=None, fan=None):
    rank = rank or rng.choice([1, 2, 2, 2, 3])
    n = UNIV[rank] + rng.choice([-1, 0, 0, 3])
    off = rng.choice([0, 0, 0, -3, 5])
    style = style or rng.choice(["mixed", "mixed", "points", "grow", "holes"])
    maxw = {"mixed": None, "points": 2, "grow": 3, "holes": 2}[style]
    B = lambda w=maxw: rbox(rng, rank, n, off, w)
    P = lambda: rpoint(rng, rank, n, off)
    out = [{"op": "reset", "tree": tree}]
    fan = fan if fan is not None else rng.choice([None, None, (1, 2), (1, 3), (2, 4), (2, 5), (4, 16)])
    for r in (0, 1, 2):
        cmd = {"op": "new", "r": r}
        if fan:
            cmd.update(min=fan[0], max=fan[1])
        out.append(cmd)
    if style == "holes":
        out.append({"op": "addBox", "r": 0, "box": [[off, off + n]] * rank})
        out.append({"op": "addBox", "r": 1, "box": [[off, off + n]] * rank})
    if style in ("points", "grow"):
        ctor = rng.random()
        if ctor < 0.25:
            out.append({"op": "ofBoxes", "r": 0, "boxes0": [B() for _ in range(rng.randint(0, 30))]})
        elif ctor < 0.5:
            out.append({"op": "ofPoints", "r": 0, "pts0": [P() for _ in range(rng.randint(0, 60))]})
        elif ctor < 0.6:
            out.append({"op": "setBoxes", "r": 0, "boxes0": [B() for _ in range(rng.randint(0, 30))]})
    weights = {
        "mixed": [("addPoint", 2), ("addBox", 3), ("addSet", 2), ("subPoint", 2), ("subBox", 3), ("subSet", 3),
                  ("plus", 1), ("minus", 1), ("isectBox", 1), ("isect", 1), ("compl", 1), ("copy", 1),
                  ("plusBox", 1), ("minusBox", 1), ("plusPoint", 1), ("minusPoint", 1), ("clear", .2),
                  ("ofBoxes", 1), ("ofPoints", 1), ("setBoxes", .5), ("q", 6), ("show", 1)],
        "points": [("addPoint", 10), ("subPoint", 3), ("addBox", 2), ("subBox", 1), ("addSet", 1), ("subSet", 1), ("q", 4),
                   ("isect", 1), ("compl", .5), ("copy", .5), ("minus", .5), ("plus", .5)],
        "grow": [("addBox", 8), ("subBox", 2), ("addPoint", 2), ("subPoint", 2), ("addSet", 1), ("subSet", 1), ("q", 4), ("isectBox", 1), ("minus", 1)],
        "holes": [("subPoint", 8), ("subBox", 4), ("addPoint", 3), ("subSet", 2), ("addSet", 1), ("q", 4), ("isect", 1), ("compl", 1)],
    }[style]
    names, ws = zip(*weights)
    R = lambda: rng.choice([0, 0, 1, 1, 2])
    for _ in range(length):
        op = rng.choices(names, ws)[0]
        c = {"op": op, "r": R()}
        if op in ("addPoint", "subPoint", "plusPoint", "minusPoint"):
            c["p"] = P()
        if op in ("addBox", "subBox", "isectBox", "compl", "plusBox", "minusBox"):
            c["box"] = B()
        if op in ("addSet", "subSet", "plus", "minus", "isect", "copy", "isectBox", "compl",
                  "plusBox", "minusBox", "plusPoint", "minusPoint"):
            c["a"] = R()
        if op in ("plus", "minus", "isect"):
            c["b"] = R()
        if op in ("ofBoxes", "setBoxes"):
            c["boxes0"] = [B() for _ in range(rng.randint(0, 25))]
        if op == "ofPoints":
            c["pts0"] = [P() for _ in range(rng.randint(0, 40))]
        if op == "q":
            c = {"op": "q", "a": R(), "b": R(), "p": P(), "box": B()}
        out.append(c)
    return out

def derived(rng, length):
    """Histories that exercise projections, products and compact forms."""
    rank = rng.choice([1, 2, 2, 3])
    n = {1: 12, 2: 5, 3: 4}[rank]
    off = rng.choice([0, 0, -2])
    out = [{"op": "reset"}]
    for r in (0, 1):
        if rng.random() < .5:
            out.append({"op": "ofBoxes", "r": r, "boxes0": [rbox(rng, rank, n, off, 3) for _ in range(rng.randint(0, 8))]})
        else:
            out.append({"op": "ofPoints", "r": r, "pts0": [rpoint(rng, rank, n, off) for _ in range(rng.randint(0, 30))]})
    out.append({"op": "ofBoxes", "r": 2, "boxes0": [rbox(rng, 1, 5, 0, 2) for _ in range(rng.randint(0, 3))]})
    for _ in range(length):
        op = rng.choice(["compl", "slice", "takeDims", "takeFirst", "takeLast", "dropFirst", "dropLast",
                         "append", "prepend", "compact", "addBox", "subBox", "subPoint", "addPoint", "show", "q", "isectBox", "isect"])
        a = rng.choice([0, 1])
        c = {"op": op, "r": rng.choice([3, 4, 5]), "a": a}
        if op in ("slice", "takeDims"):
            f = [rng.randint(0, 1) for _ in range(rank)]
            if sum(f) == 0:
                f[rng.randrange(rank)] = 1
            c["f"] = f
        elif op in ("takeFirst", "takeLast"):
            c["n"] = rng.randint(1, rank)
        elif op in ("dropFirst", "dropLast"):
            if rank == 1:
                continue
            c["n"] = rng.randint(0, rank - 1)
        elif op in ("append", "prepend"):
            c["b"] = 2
        elif op == "compl":
            c["box"] = rbox(rng, rank, n + 2, off - 1)
        elif op == "isectBox":
            c["box"] = rbox(rng, rank, n, off)
        elif op == "isect":
            c["b"] = rng.choice([0, 1])
        elif op in ("addBox", "subBox"):
            c["r"] = a
            c["box"] = rbox(rng, rank, n, off, 2)
        elif op in ("addPoint", "subPoint"):
            c["r"] = a
            c["p"] = rpoint(rng, rank, n, off)
        elif op == "show":
            c["r"] = rng.choice([0, 1, 2])
        elif op == "q":
            c = {"op": "q", "a": a, "b": 1 - a, "p": rpoint(rng, rank, n, off), "box": rbox(rng, rank, n, off)}
        out.append(c)
        # the operands must be intact
        if rng.random() < .3:
            out.append({"op": "show", "r": rng.choice([0, 1, 2])})
    return out

def tree_history(rng, length):
    rank = rng.choice([1, 2, 2, 3])
    n = {1: 40, 2: 12, 3: 6}[rank]
    fan = rng.choice([(1, 2), (1, 3), (2, 4), (2, 5), (3, 7), (4, 16), (4, 8)])
    out = [{"op": "reset"}] + [{"op": "tnew", "r": r, "min": fan[0], "max": fan[1]} for r in (0, 1, 2)]
    live, nid = {0: [], 1: [], 2: []}, 0
    phase = rng.choice(["balanced", "fill-drain", "bulk"])
    for k in range(length):
        r = rng.choice([0, 0, 0, 1, 2])
        x = rng.random()
        drain = phase == "fill-drain" and k > length // 2
        if phase == "bulk" and k < 3:
            objs = []
            for _ in range(rng.choice([0, 1, 5, 9, 11, 17, 18, 25, 40, 70, 90])):
                nid += 1
                objs.append([nid, rbox(rng, rank, n, 0, 3)])
            out.append({"op": "tload", "r": k, "objs": objs})
            live[k] = list(objs)
        elif live[r] and x < (0.75 if drain else 0.3):
            o = live[r].pop(rng.randrange(len(live[r])))
            live[r] = [q for q in live[r] if q != o]
            out.append({"op": "trem", "r": r, "id": o[0], "box": o[1]})
        elif x < 0.82:
            if rng.random() < 0.03 and live[r]:
                o = rng.choice(live[r])      # a second equal object
            else:
                nid += 1
                o = [nid, rbox(rng, rank, n, 0, rng.choice([1, 3, n]))]
            live[r].append(o)
            out.append({"op": "tins", "r": r, "id": o[0], "box": o[1]})
        elif x < 0.93:
            a = rng.choice([0, 1, 2])
            o = rng.choice(live[a]) if live[a] and rng.random() < .6 else [-1, rbox(rng, rank, n)]
            out.append({"op": "tq", "a": a, "b": rng.choice([0, 1, 2]), "id": o[0], "box": o[1]})
        elif x < 0.95:
            a = rng.choice([q for q in (0, 1, 2) if q != r])
            if len(live[a]) + len(live[r]) < 80:
                live[r] += live[a]
                out.append({"op": "tinsAll", "r": r, "a": a})
        elif x < 0.98:
            a = rng.choice([0, 1, 2])
            live[r] = [q for q in live[r] if q not in live[a]]
            out.append({"op": "tremAll", "r": r, "a": a})
        elif x < 0.995:
            a = rng.choice([0, 1, 2])
            live[r] = list(live[a])
            out.append({"op": "tcopy", "r": r, "a": a})
        else:
            live[r] = []
            out.append({"op": "tclear", "r": r})
    return out
