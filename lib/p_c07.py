import core, gen_mcim
def run(c):
    core.build("mcim_driver")
    T = ("mcim_driver", "MCIMTrace.tla", "MCIMTrace.cfg")
    n = c.pick(2500, 20000)
    c.conform("random_histories", T[0], [gen_mcim.history(c.rng, c.rng.choice([6, 12, 20])) for _ in range(n)], *T[1:])
