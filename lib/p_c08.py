import core, gen_mcim
def run(c):
    core.build("mcim_driver")
    T = ("mcim_driver", "MCIMTrace.tla", "MCIMTrace.cfg")
    c.conform("local_problems", T[0], gen_mcim.local(c.rng, c.pick(4000, 40000)), *T[1:])
