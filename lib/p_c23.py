import core, gen_model
T = ("../mo/mo_driver", "SimulationTrace.tla", "SimulationTrace.cfg")
PAR = ",schedule-parallelization"


def run(c):
    core.build(T[0])
    c.conform("models", T[0], [gen_model.case(c.rng, tail=c.rng.choice(["", PAR])) for _ in range(c.pick(900, 6000))], *T[1:])
    c.assumptions.append("Reals are exact: arithmetic in the field modulo 46337; functions such as sin are uninterpreted.")
