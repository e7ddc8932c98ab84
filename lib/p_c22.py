import core, gen_io as g
def run(c):
    core.build("io_child", "io_driver")
    T = ("io_driver", "InputsTrace.tla", "InputsTrace.cfg")
    c.conform("extensions", T[0], g.small(), *T[1:])
    c.conform("names", T[0], g.names(c.rng, c.pick(4000, 60000)), *T[1:])
    c.conform("inputs", T[0], g.inputs(c.rng, 5), *T[1:])
    c.conform("commands", T[0], g.commands(c.rng, c.pick(800, 8000)), *T[1:])
    c.assumptions.append("The standard streams are redirected to distinct files.")
