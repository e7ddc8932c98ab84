import core, gen_system
def run(c):
    core.build("matching_driver")
    T = ("matching_driver", "MatchingTrace.tla", "MatchingTrace.cfg")
    c.model("MatchingDesign.tla", "MatchingDesignBig.cfg" if c.thorough else "MatchingDesign.cfg")
    c.conform("systems", T[0], [gen_system.matching_case(c.rng) for _ in range(c.pick(6000, 60000))], *T[1:])
    c.conform("larger", T[0], [gen_system.matching_case(c.rng, limit=28) for _ in range(c.pick(500, 8000))], *T[1:])
    c.conform("multi_valued", T[0], [gen_system.matching_case(c.rng, 10, True) for _ in range(c.pick(600, 6000))], *T[1:])
