import core, gen_sets
def run(c):
    core.build("set_driver")
    n = c.pick(4000, 20000)
    cases = [gen_sets.history(c.rng, c.rng.choice([8, 20, 40])) for _ in range(n)]
    c.conform("random_histories", "set_driver", cases, "IndexSetsTrace.tla", "IndexSetsTrace.cfg")
