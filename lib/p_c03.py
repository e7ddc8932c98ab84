import core, gen_sets
def rand(rng):
    out = [{"op": "reset"}]
    for _ in range(20):
        k = rng.choice(["pair", "pair", "pair", "box1", "range", "point"])
        rank = rng.choice([1, 2, 3, 4])
        n = {1: 12, 2: 6, 3: 4, 4: 3}[rank]
        off = rng.choice([0, -3, -2, 1000000])
        B = lambda r=rank: gen_sets.rbox(rng, r, n, off)
        if k == "pair":
            x, y = B(), B()
            if rng.random() < .5:      # near-mergeable pairs
                y = [list(v) for v in x]
                d = rng.randrange(rank)
                y[d] = gen_sets.rbox(rng, 1, n, off)[0]
                if rng.random() < .2:
                    d = rng.randrange(rank)
                    y[d] = gen_sets.rbox(rng, 1, n, off)[0]
            out.append({"op": "pair", "x": x, "y": y})
        elif k == "box1":
            f = [rng.randint(0, 1) for _ in range(rank)]
            f[rng.randrange(rank)] = 1
            out.append({"op": "box1", "x": B(), "y": B(rng.randint(1, 3)), "p": gen_sets.rpoint(rng, rank, n, off),
                        "n": rng.randint(1, rank), "f": f})
        elif k == "range":
            out.append({"op": "range", "x": B(1), "y": B(1), "v": rng.randint(-4, 14) + off})
        else:
            r2 = rng.choice([rank, rank, rng.randint(1, 4)])
            x, y = gen_sets.rpoint(rng, rank, 3, off), gen_sets.rpoint(rng, r2, 3, off)
            if rng.random() < .2:
                y = list(x)
            out.append({"op": "point", "x": x, "y": y, "n": rng.randint(0, rank),
                        "f": [rng.randint(0, 1) for _ in range(rank)]})
    return out
def run(c):
    core.build("set_driver")
    calls = c.generate("RangesGen.tla", "RangesGen.cfg")
    cases = [[{"op": "reset"}] + calls[k:k + 20] for k in range(0, len(calls), 20)]
    c.conform("all_small_boxes", "set_driver", cases, "RangesTrace.tla", "RangesTrace.cfg")
    c.conform("random_boxes", "set_driver", [rand(c.rng) for _ in range(c.pick(300, 6000))], "RangesTrace.tla", "RangesTrace.cfg")
