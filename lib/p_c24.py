import core, gen_model
T = ("../mo/mo_driver", "RuntimeTrace.tla", "RuntimeTrace.cfg")


def run(c):
    core.build(T[0])
    c.conform("programs", T[0], [gen_model.runtime_case(c.rng) for _ in range(c.pick(1000, 6000))], *T[1:])
    c.assumptions.append("Reals are exact: arithmetic in the field modulo 46337; functions such as sin are uninterpreted.")
