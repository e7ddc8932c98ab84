import core, gen_access
def run(c):
    core.build("access_driver")
    n = c.pick(6000, 60000)
    T = ("access_driver", "AccessFunctionsTrace.tla", "AccessFunctionsTrace.cfg")
    keep = ("mapp", "maps", "given", "pred", "eq")
    mine = lambda cases: [x for x in cases if x[0]["op"] in keep]
    c.conform("directed", T[0], mine(gen_access.directed()), *T[1:])
    c.conform("random_calls", T[0], gen_access.map_cases(c.rng, n), *T[1:])
    c.conform("many_boxes", T[0], mine(gen_access.big_cases(c.rng, c.pick(150, 1500))), *T[1:])
