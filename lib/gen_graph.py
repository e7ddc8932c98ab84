"""Histories over the graph containers (seeded)."""
def history(rng, n, kind):
    out, vs, es, nx = [{"op": "new", "kind": kind}], [], {}, 0
    single = kind in ("weak", "single")
    ids = list(range(1, 4 * n))
    rng.shuffle(ids)
    for _ in range(n):
        m = rng.random()
        if not vs or m < .25:
            x = ids.pop()
            out.append({"op": "addv", "x": x, "val": rng.randint(0, 9)})
            vs.append(x)
        elif m < .6:
            x = ids.pop()
            a, b = rng.choice(vs), rng.choice(vs)
            if rng.random() < .12:
                b = a
            if kind == "single" and rng.random() < .4:
                a = -1
            if es and rng.random() < .15:
                a, b = es[rng.choice(list(es))]
                if not single and rng.random() < .5:
                    a, b = b, a
            out.append({"op": "adde", "x": x, "a": a, "b": b, "val": rng.randint(0, 9)})
            es[x] = (a, b)
        elif m < .7 and not single:
            x = vs.pop(rng.randrange(len(vs)))
            out.append({"op": "rmv", "x": x})
            es = {k: p for k, p in es.items() if x not in p}
        elif m < .77:
            out.append({"op": "setv", "x": rng.choice(vs), "val": rng.randint(0, 9)})
        elif m < .84 and es and not single:
            out.append({"op": "sete", "x": rng.choice(list(es)), "val": rng.randint(0, 9)})
        elif m < .87:
            out.append({"op": "getv", "x": rng.choice(vs)})
        elif m < .9 and es and not single:
            out.append({"op": "gete", "x": rng.choice(list(es))})
        elif single and m < .95:
            out.append({"op": "walk"})
        else:
            out.append({"op": "show"})
    out.append({"op": "show"})
    if single:
        out.append({"op": "walk"})
    return out
