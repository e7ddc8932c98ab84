import core, gen_sets
def addlim(e):
    if "tree" in e and "boxes" in e:
        e = dict(e); e["lim"] = e.get("lim", [4, 16])
    return e
def run(c):
    core.build("set_driver")
    cases = [gen_sets.tree_history(c.rng, c.rng.choice([20, 60, 120])) for _ in range(c.pick(600, 3000))]
    c.conform("object_trees", "set_driver", cases, "RTreesTrace.tla", "RTreesTrace.cfg")
    cases = [gen_sets.history(c.rng, c.rng.choice([20, 40]), tree=1, fan=()) for _ in range(c.pick(600, 3000))]
    c.conform("set_trees", "set_driver", cases, "RTreesTrace.tla", "RTreesTrace.cfg", project=addlim)
