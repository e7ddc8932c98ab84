import core, gen_deps
OPS = [{"op": "cycles"}, {"op": "cycles"}]
def run(c):
    core.build("deps_driver")
    T = ("deps_driver", "DependenciesTrace.tla", "DependenciesTrace.cfg")
    c.conform("systems", T[0], [gen_deps.case(c.rng, OPS) for _ in range(c.pick(5000, 60000))], *T[1:])
    c.conform("larger", T[0], [gen_deps.case(c.rng, OPS, 40) for _ in range(c.pick(1000, 10000))], *T[1:])
    c.conform("multi_valued", T[0], [gen_deps.case(c.rng, OPS, 14, True) for _ in range(c.pick(1000, 10000))], *T[1:])
