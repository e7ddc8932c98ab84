import core, gen_graph
def run(c):
    core.build("graph_driver")
    T = ("graph_driver", "GraphsTrace.tla", "GraphsTrace.cfg")
    for kind in ("directed", "undirected", "weak", "single"):
        c.conform(kind, T[0], [gen_graph.history(c.rng, c.rng.choice([10, 30, 60]), kind) for _ in range(c.pick(700, 10000))], *T[1:])
