import random
import core, gen_bad, gen_model
from gen_model import var, const, at, ind, add, N
T = ("../mo/mo_driver", "WellPosedTrace.tla", "WellPosedTrace.cfg")


def beyond():
    """An element that does not exist, selected through an induction variable."""
    m = gen_model.Model(random.Random(1), dict(gen_model.FULL))
    m.declare("a", [3])
    m.declare("b", [3])
    m.eq(at(var("a"), ind(1)), N("time", "r"), [(1, 1, 3)])
    m.eq(at(var("b"), ind(1)), at(var("a"), add(ind(1), const(2))), [(1, 1, 3)])
    return [{"op": "compile", "text": m.render(), "pipes": [gen_model.P1, gen_model.P2], "keep": [0, 0, 0],
             "src": dict(m.abstract(), plain=True), "expect": "any", "seed": 1}]


def run(c):
    core.build(T[0])
    c.conform("models", T[0], [gen_bad.bad_case(c.rng) for _ in range(c.pick(2500, 12000))], *T[1:])
    c.run_known("beyond", T[0], beyond(), *T[1:],
                what="key=induction-out-of-bounds 'for i in 1:3 loop b[i] = a[i + 2]; end for' with Real[3] a is accepted: subscripts that depend on induction variables are not compared with the bounds of the array")
    c.assumptions.append("A model that a complete check could still reject for reasons outside the specification (types, cyclic function defaults) is only required not to be refused silently.")
