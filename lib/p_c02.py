import core, gen_sets
def run(c):
    core.build("set_driver")
    n = c.pick(4000, 20000)
    cases = [gen_sets.derived(c.rng, c.rng.choice([10, 25])) for _ in range(n)]
    c.conform("derived_operations", "set_driver", cases, "IndexSetsTrace.tla", "IndexSetsTrace.cfg")
