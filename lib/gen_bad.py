"""Models that are not well posed, or perhaps are: valid models with one defect
introduced.  The specification decides which of them have to be refused."""
import copy
from gen_model import *


def nodes(e, path=()):
    """(parent, key) of every expression below e."""
    for k, x in enumerate(e["a"]):
        yield e["a"], k
        yield from nodes(x)
    if "e" in e and isinstance(e["e"], dict):
        yield e, "e"
        yield from nodes(e["e"])


class Spoiler:
    def __init__(self, m, rng):
        self.m, self.rng = m, rng
        self.expect, self.plain = "any", True

    # equations whose text follows from their expressions
    def simple(self):
        return [e for e in self.m.eqs if "loops" in e]

    def again(self, e):
        e["ix"] = [[]]
        for k, lo, hi in e["loops"]:
            e["ix"] = [p + [v] for p in e["ix"] for v in range(lo, hi + 1)]
        e["ftext"] = looped(e["l"][0], e["r"][0], e["loops"])

    def own(self, e):
        """Make the expressions of an equation its own."""
        e["l"], e["r"] = copy.deepcopy(e["l"]), copy.deepcopy(e["r"])
        return e

    def places(self, e, ok):
        """Expressions of the equation satisfying ok, as (container, key)."""
        out = []
        for side in ("l", "r"):
            for k, x in enumerate(e[side]):
                if ok(x):
                    out.append((e[side], k))
                out += [(c, kk) for c, kk in nodes(x) if ok(c[kk])]
        return out

    def pick(self, ok):
        """A random place in a random equation."""
        es = self.simple()
        self.rng.shuffle(es)
        for e in es:
            self.own(e)
            ps = self.places(e, ok)
            if ps:
                return (e,) + self.rng.choice(ps)
        return None

    def texted(self):
        return [e for e in self.m.eqs if e["ftext"]]

    # defects: each returns False when it does not apply --------------------
    def drop_equation(self):
        c = self.texted()
        if not c:
            return False
        x = self.rng.choice(c)
        self.m.eqs = [e for e in self.m.eqs if e is not x]

    def copy_equation(self):
        c = self.texted()
        if not c:
            return False
        self.m.eqs.append(copy.deepcopy(self.rng.choice(c)))

    def overwrite_equation(self):
        c = self.texted()
        if len(c) < 2:
            return False
        a, b = self.rng.sample(c, 2)
        self.m.eqs = [e if e is not a else copy.deepcopy(b) for e in self.m.eqs]

    def add_variable(self):
        n = self.m.name("u")
        self.m.declare(n, self.rng.choice([[], [], [2], [3], [2, 2]]))

    def add_equation(self):
        r = self.rng
        loops = []
        if r.random() < .4:
            loops = [(1, 1, r.randint(2, 3))]
        e = lambda: self.m.leaf(loops)
        self.m.eq(e(), add(e(), mul(self.m.num(), e())), loops)

    def swap_reference(self):
        """A reference to a variable becomes one to another."""
        r = self.rng
        sc = [v["n"] for v in self.m.vars if not v["sh"] and v["t"] == "r" and not v.get("skip")]
        p = self.pick(lambda x: x["o"] == "var" and x["n"] in sc)
        if not p or len(sc) < 2:
            return False
        e, c, k = p
        c[k] = var(r.choice([n for n in sc if n != c[k]["n"]]))
        self.again(e)

    def swap_unknown(self):
        """What an equation determines becomes something else."""
        r = self.rng
        es = [e for e in self.simple() if not e["loops"]]
        if not es:
            return False
        e = self.own(r.choice(es))
        ps = self.places(e, lambda x: x["o"] == "var" and x["t"] == "r" and [] in [v["sh"] for v in self.m.vars if v["n"] == x["n"]])
        if not ps:
            return False
        y = self.m.leaf([])
        ns = {c[k]["n"] for c, k in ps}
        n = r.choice(sorted(ns))
        for c, k in ps:
            if c[k]["n"] == n:
                c[k] = copy.deepcopy(y)
        self.again(e)

    def bounds(self):
        r = self.rng
        c = [e for e in self.simple() if e["loops"]]
        if not c:
            return False
        e = r.choice(c)
        k = r.randrange(len(e["loops"]))
        i, lo, hi = e["loops"][k]
        if lo == hi:
            return False
        e["loops"][k] = (i, lo + 1, hi) if r.random() < .5 else (i, lo, hi - 1)
        self.again(e)

    def subscript(self):
        """An element becomes another of the same array."""
        r = self.rng
        sh = {v["n"]: v["sh"] for v in self.m.vars}
        p = self.pick(lambda x: x["o"] == "at" and x["a"][0]["o"] == "var" and all(s["t"] != "g" for s in x["a"][1:]))
        if not p:
            return False
        e, c, k = p
        dims = sh.get(c[k]["a"][0]["n"], [])
        if len(dims) < len(c[k]["a"]) - 1:
            return False
        j = r.randrange(1, len(c[k]["a"]))
        c[k]["a"][j] = const(r.randint(1, dims[j - 1]))
        self.again(e)

    def undeclared(self):
        p = self.pick(lambda x: x["o"] == "var" and "show" not in x)
        if not p:
            return False
        e, c, k = p
        c[k] = dict(c[k], n=self.m.name("zz"))
        self.again(e)

    def undeclare(self):
        """A declaration is missing."""
        c = [v for v in self.m.vars if v["decl"] and not v.get("skip") and not v["decl"].startswith(("parameter", "constant"))
             and "=" not in v["decl"].split("(")[0]]
        if not c:
            return False
        x = self.rng.choice(c)
        self.m.vars = [v for v in self.m.vars if v is not x]
        self.m.states = [s for s in self.m.states if s[0] != x["n"]]
        # what its declaration said about its initial value is gone as well
        self.m.init = [e for e in self.m.init if "text" in e or (e["l"][0]["a"][0] if e["l"][0]["o"] == "at" else e["l"][0]).get("n") != x["n"]]

    def redeclare(self):
        c = [v for v in self.m.vars if v["decl"] and not v.get("skip")]
        x = self.rng.choice(c)
        self.m.declare(x["n"], self.rng.choice([x["sh"], [], [2]]), "r")

    def refix(self):
        """The initial value of a fixed state is given again."""
        c = [s for s in self.m.states]
        if not c:
            return False
        n, sh = self.rng.choice(c)
        l = at(var(n), *[const(self.rng.randint(1, d)) for d in sh]) if sh else var(n)
        v = self.m.num()
        self.m.inits.append("%s = %s;" % (text(l, 1), text(v)))
        self.m.init.append({"ix": [[]], "l": [l], "r": [v]})

    def initial(self):
        """An initial equation about something that is determined anyway."""
        if not self.m.scalars:
            return False
        l = self.rng.choice(self.m.scalars)
        v = self.m.num()
        self.m.inits.append("%s = %s;" % (text(l, 1), text(v)))
        self.m.init.append({"ix": [[]], "l": [l], "r": [v]})

    def unknown_function(self):
        p = self.pick(lambda x: x["o"] == "call")
        if not p:
            return False
        e, c, k = p
        c[k] = dict(c[k], n=self.m.name("zf"))
        self.again(e)

    def arguments(self):
        p = self.pick(lambda x: x["o"] == "call" and "names" not in x)
        if not p:
            return False
        e, c, k = p
        a = list(c[k]["a"])
        if a and self.rng.random() < .4:
            a[self.rng.randrange(len(a))] = self.argument()
        elif a and self.rng.random() < .5:
            a.pop(self.rng.choice([0, -1]))
        else:
            a.append(self.m.num())
        c[k] = dict(c[k], a=a)
        self.again(e)

    def argument(self):
        """A scalar, an array or a whole variable."""
        r = self.rng
        k = r.random()
        if k < .3:
            return self.m.num()
        if k < .6 and self.m.arrays:
            return var(r.choice(self.m.arrays)[0])
        return N("array", "r", *[self.m.leaf([]) for _ in range(r.randint(1, 3))])

    def argument_name(self):
        p = self.pick(lambda x: x["o"] == "call" and "names" in x)
        if not p:
            return False
        e, c, k = p
        ns = list(c[k]["names"])
        ns[self.rng.randrange(len(ns))] = self.m.name("zn")
        c[k] = dict(c[k], names=ns)
        self.again(e)

    def subscripts(self):
        """One subscript too many."""
        p = self.pick(lambda x: x["o"] == "at" and x["a"][0]["o"] == "var")
        if not p:
            return False
        e, c, k = p
        c[k] = dict(c[k], a=c[k]["a"] + [const(1)])
        self.again(e)

    def subscripted_scalar(self):
        sc = [v["n"] for v in self.m.vars if not v["sh"] and v["t"] == "r" and not v.get("skip")]
        p = self.pick(lambda x: x["o"] == "var" and x["n"] in sc)
        if not p:
            return False
        e, c, k = p
        c[k] = at(c[k], const(1))
        self.again(e)

    def component(self):
        """A component its record does not have."""
        p = self.pick(lambda x: x["o"] == "var" and "." in x["n"])
        if not p:
            return False
        e, c, k = p
        c[k] = dict(c[k], n=c[k]["n"].split(".")[0] + "." + self.m.name("zc"))
        self.again(e)

    def builtin_arguments(self):
        p = self.pick(lambda x: x["o"] in ("sin", "cos", "tan", "exp", "tanh", "sinh", "cosh", "atan", "der"))
        if not p:
            return False
        e, c, k = p
        c[k] = dict(c[k], a=[] if self.rng.random() < .3 and c[k]["o"] != "der" else c[k]["a"] + [self.m.num()])
        self.again(e)

    def out_of_bounds(self):
        sh = {v["n"]: v["sh"] for v in self.m.vars}
        p = self.pick(lambda x: x["o"] == "at" and x["a"][0]["o"] == "var" and all(s["t"] != "g" for s in x["a"][1:]))
        if not p:
            return False
        e, c, k = p
        dims = sh.get(c[k]["a"][0]["n"], [])
        if len(dims) < len(c[k]["a"]) - 1:
            return False
        j = self.rng.randrange(1, len(c[k]["a"]))
        d = dims[j - 1]
        c[k] = dict(c[k], a=list(c[k]["a"]))
        c[k]["a"][j] = const(self.rng.choice([d + 1, d + 2, 0]))
        self.again(e)

    def wrong_shape(self):
        """An array of another size."""
        p = self.pick(lambda x: x["o"] == "array" and x["a"][0]["o"] != "array")
        if not p:
            return False
        e, c, k = p
        a = list(c[k]["a"])
        if len(a) > 1 and self.rng.random() < .5:
            a.pop()
        else:
            a.append(self.m.num())
        c[k] = dict(c[k], a=a)
        self.again(e)

    # defects of functions
    def function(self):
        fs = self.m.all_funcs
        if not fs:
            return None
        f = self.rng.choice(fs)
        f["b"] = copy.deepcopy(f["b"])
        return f

    def written(self, f):
        self.m.ftexts[f["place"]] = "\n".join(f["head"] + ["algorithm"] + show(f["b"], "  ") + ["end %s;" % f["n"]])

    def statements(self, b):
        for s in b:
            yield s
            for k in ("b", "c"):
                if isinstance(s.get(k), list):
                    yield from self.statements(s[k])

    def fplaces(self, f, ok):
        out = []
        for s in self.statements(f["b"]):
            if s["s"] in ("assign", "if") and isinstance(s.get("e"), dict):
                if ok(s["e"]):
                    out.append((s, "e"))
                out += [(c, k) for c, k in nodes(s["e"]) if ok(c[k])]
        return out

    def function_reference(self):
        f = self.function()
        ps = f and self.fplaces(f, lambda x: x["o"] == "var")
        if not ps:
            return False
        c, k = self.rng.choice(ps)
        c[k] = dict(c[k], n=self.m.name("zl"))
        self.written(f)

    def function_target(self):
        f = self.function()
        ps = f and [s for s in self.statements(f["b"]) if s["s"] == "assign"]
        if not ps:
            return False
        s = self.rng.choice(ps)
        k = self.rng.random()
        if k < .2:
            s["n"] = self.m.name("zl")
        elif k < .4:
            s["n"], s["ix"] = self.rng.choice(["i1", "i2", "time"]), []
        elif k < .7:
            v = self.rng.choice([v for v in f["vars"] if v["io"] == "input"])
            s["n"], s["ix"] = v["n"], [const(1) for _ in v["sh"]]
        else:
            s["ix"] = s["ix"] + [const(1)]
        self.written(f)

    def function_subscripts(self):
        f = self.function()
        ps = f and self.fplaces(f, lambda x: x["o"] == "var" and not [v for v in f["vars"] if v["n"] == x["n"] and v["sh"]])
        if not ps:
            return False
        c, k = self.rng.choice(ps)
        if c[k]["n"] not in [v["n"] for v in f["vars"]]:
            return False
        c[k] = at(c[k], const(1))
        self.written(f)

    def function_redeclare(self):
        f = self.function()
        if not f:
            return False
        v = self.rng.choice(f["vars"])
        f["head"] = f["head"][:1] + ["  %s Real %s;" % (v["io"], v["n"])] + f["head"][1:] if v["io"] != "none" else f["head"] + ["  Real %s;" % v["n"]]
        f["vars"] = f["vars"] + [{"n": v["n"], "t": "r", "sh": [], "io": v["io"]}]
        self.written(f)

    def function_again(self):
        f = self.function()
        if not f:
            return False
        self.m.ftexts.append(self.m.ftexts[f["place"]])
        self.m.all_funcs = self.m.all_funcs + [f]

    def nothing(self):
        self.expect = "ok"

    DEFECTS = [(drop_equation, 4), (copy_equation, 4), (overwrite_equation, 4), (add_variable, 3), (add_equation, 4), (swap_reference, 3),
               (swap_unknown, 4), (bounds, 4), (subscript, 4), (undeclared, 2), (undeclare, 2), (redeclare, 1), (refix, 1), (initial, 1),
               (unknown_function, 1), (arguments, 2), (argument_name, 1), (subscripts, 1), (subscripted_scalar, 1), (nothing, 3),
               (component, 1), (builtin_arguments, 1), (out_of_bounds, 2), (wrong_shape, 2), (function_reference, 1), (function_target, 2),
               (function_subscripts, 1), (function_redeclare, 1), (function_again, 1)]


def bad_case(rng, opts=None, only=None):
    while True:
        m = Model(rng, dict(FULL, **(opts or {}))).build()
        s = Spoiler(m, rng)
        names = [f for f, w in Spoiler.DEFECTS for _ in range(w)]
        done = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            f = rng.choice(names) if only is None else next(f for f, _ in Spoiler.DEFECTS if f.__name__ == only)
            if f(s) is not False:
                done.append(f.__name__)
        if not done or (len(done) > 1 and s.expect == "ok"):
            continue
        src = dict(m.abstract(), plain=s.plain)
        return [{"op": "compile", "text": m.render(), "pipes": [P1, P2], "keep": [0, 0, 0], "src": src, "expect": s.expect, "seed": 1, "defects": done}]
