"""Generation of Modelica models that have exactly one solution (or, on
request, that are structurally singular), as text and as an abstract model."""
import re
from fractions import Fraction
P = 46337


def res(f):
    f = Fraction(f)
    return f.numerator * pow(f.denominator, P - 2, P) % P


# ------------------------------------------------------------- expressions
def N(o, t, *a, **kw):
    return dict({"o": o, "t": t, "a": list(a)}, **kw)


def const(v, t=None):
    if t == "b":
        return N("const", "b", x=int(v), text="true" if v else "false")
    if isinstance(v, int) and t != "r":
        return N("const", "i", x=v, text=str(v))
    f = Fraction(v)
    return N("const", "r", x=res(f), text=repr(float(f)))


def ty(*es):
    return "r" if any(e["t"] == "r" for e in es) else "i"


def add(a, b): return N("add", ty(a, b), a, b)
def sub(a, b): return N("sub", ty(a, b), a, b)
def mul(a, b): return N("mul", ty(a, b), a, b)
def div(a, b): return N("div", "r", a, b)
def neg(a): return N("neg", a["t"], a)
def var(n, t="r"): return N("var", t, n=n)
def at(v, *ix): return N("at", v["t"], v, *ix)
def der(e): return N("der", "r", e)
def ind(k): return N("ind", "i", k=k)


PREC = {"or": 1, "and": 2, "not": 3, "eq": 4, "neq": 4, "lt": 4, "lte": 4, "gt": 4, "gte": 4, "add": 5, "sub": 5, "neg": 5,
        "add_ew": 5, "sub_ew": 5, "mul": 6, "div": 6, "mul_ew": 6, "div_ew": 6, "pow": 7, "pow_ew": 7}
SYM = {"or": " or ", "and": " and ", "eq": " == ", "neq": " <> ", "lt": " < ", "lte": " <= ", "gt": " > ", "gte": " >= ", "add": " + ", "sub": " - ",
       "mul": " * ", "div": " / ", "pow": " ^ ", "add_ew": " .+ ", "sub_ew": " .- ", "mul_ew": " .* ", "div_ew": " ./ ", "pow_ew": " .^ "}
INDS = "ijkl"


def text(e, prec=0):
    o, a = e["o"], e["a"]
    if o == "const":
        s = e["text"]
        return s if not s.startswith("-") or prec == 0 else "(" + s + ")"
    if o == "var":
        return e.get("show", e["n"])
    if o == "ind":
        return INDS[e["k"] - 1]
    if o == "time":
        return "time"
    if o == "at":
        return text(a[0], 9) + "[" + ", ".join(text(x) for x in a[1:]) + "]"
    if o == "all":
        return ":"
    if o == "range":
        return text(a[0], 5) + ":" + (text(a[2], 5) + ":" if len(a) > 2 else "") + text(a[1], 5)
    if o == "array":
        return "{" + ", ".join(text(x) for x in a) + "}"
    if o == "select":
        s = "if %s then %s else %s" % (text(a[0]), text(a[1]), text(a[2]))
        return s if prec == 0 else "(" + s + ")"
    if o == "call":
        return e["n"] + "(" + ", ".join((nm + " = " if nm else "") + text(x) for nm, x in zip(e.get("names") or [""] * len(a), a)) + ")"
    if o in ("not", "neg"):
        s = ("not " if o == "not" else "-") + text(a[0], PREC[o] + 1)
        return s if prec < PREC[o] else "(" + s + ")"
    if o in SYM:
        p = PREC[o]
        left = text(a[0], p + 1 if o in ("pow", "pow_ew") or p == 4 else p)
        s = left + SYM[o] + text(a[1], p + 1)
        return s if prec <= p else "(" + s + ")"
    if o == "sizeof":
        return "size(" + ", ".join(text(x) for x in a) + ")"
    if o == "reduction":
        return "%s(%s for %s)" % (e["show"], text(e["e"]), ", ".join("%s in %s" % (nm, text(x)) for nm, x in zip(e["iters"], a)))
    if o == "tmp":
        return e["show"]
    return o + "(" + ", ".join(text(x) for x in a) + ")"


def strip(e):
    """The tree without the parts only needed for printing."""
    if isinstance(e, dict):
        return {k: strip(v) for k, v in e.items() if k not in ("text", "show", "iters", "ftext", "loops", "elif", "multi") and not (k == "names" and not v)}
    if isinstance(e, list):
        return [strip(x) for x in e]
    return e


# ---------------------------------------------------------------- functions
class Function:
    """A pure function: inputs, outputs, protected variables, statements.  Its
    conditions only look at Integers and at inputs that the caller binds to
    states."""

    def __init__(self, model):
        self.m, self.rng = model, model.rng
        self.vars, self.defs, self.reals, self.ints, self.dyns, self.arrs = [], [], [], [], [], []
        self.decls = []
        self.nloop = self.inl = 0

    def decl(self, n, t, sh, io, bind=None, **kw):
        tn = {"r": "Real", "i": "Integer", "b": "Boolean"}[t]
        d = "[" + ", ".join(":" if x < 0 else str(x) for x in sh) + "]" if sh else ""
        self.decls.append((io, "%s%s %s%s;" % (tn, d, n, " = " + text(bind) if bind else "")))
        v = dict(n=n, t=t, sh=sh, io=io, **kw)
        self.vars.append({k: v[k] for k in ("n", "t", "sh", "io")})
        if bind:
            self.defs.append({"n": n, "e": bind})
        return v

    def build(self):
        r, m = self.rng, self.m
        ins, outs = [], []
        for k in range(r.randint(1, 3)):
            n, q = "u%d" % k, r.random()
            if q < .55:
                dyn = r.random() < .6
                v = self.decl(n, "r", [], "input", dyn=dyn)
                self.reals.append(var(n))
                if dyn:
                    self.dyns.append(var(n))
            elif q < .75:
                v = self.decl(n, "i", [], "input")
                self.ints.append(var(n, "i"))
            else:
                v = self.decl(n, "r", [r.randint(2, 4) if q < .9 else -1], "input")
                self.arrs.append((n, v["sh"][0]))
            ins.append(v)
        default = None
        if self.m.o.get("defaults") and r.random() < .2:
            e = self.expr(1) if r.random() < .5 else m.num()
            v = self.decl("ud", "r", [], "input", m.real(e))
            ins.append(v)
            self.reals.append(var("ud"))
            default = "ud"
        todo = []
        for k in range(r.choice([1, 1, 1, 2])):
            sh = [r.randint(2, 3)] if r.random() < .2 else []
            outs.append(self.decl("y%d" % k, "r", sh, "output"))
            todo.append(("y%d" % k, "r", sh))
        for k in range(r.randint(0, 2)):
            q = r.random()
            n = "w%d" % k
            if q < .25:
                bound = self.expr(1)
                self.decl(n, "r", [], "none", m.real(bound))
                self.reals.append(var(n))
                self.assignable = True
                todo.append((n, "r", None))
            elif q < .6:
                self.decl(n, "r", [], "none")
                todo.append((n, "r", []))
            elif q < .8:
                self.decl(n, "i", [], "none")
                todo.append((n, "i", []))
            else:
                sh = [r.randint(2, 3)]
                self.decl(n, "r", sh, "none")
                todo.append((n, "r", sh))
        self.targets, body = [], []
        for n, t, sh in todo:
            if sh is None:
                self.targets.append((n, t, []))
                continue
            if sh:
                if r.random() < .5:
                    body.append(self.assign(n, [], N("array", "r", *[m.real(self.expr(1)) for _ in range(sh[0])])))
                else:
                    i = self.loopvar()
                    self.ints.append(var(i, "i"))
                    body.append(self.foreach(i, 1, sh[0], [self.assign(n, [var(i, "i")], self.expr(1))]))
                    self.ints.pop()
                self.arrs.append((n, sh[0]))
            else:
                body.append(self.assign(n, [], self.iexpr() if t == "i" else self.expr(2)))
                (self.ints if t == "i" else self.reals).append(var(n, t))
            self.targets.append((n, t, sh))
        for _ in range(r.randint(0, 3)):
            body += self.statement(2, False)
        n = m.name("f")
        f = {"n": n, "vars": self.vars, "defs": self.defs, "b": body, "ins": ins, "outs": outs, "default": default}
        lines = ["function " + n] + ["  %s %s" % d for d in self.decls if d[0] in ("input", "output")]
        if any(d[0] == "none" for d in self.decls):
            own = ["  " + d[1] for d in self.decls if d[0] == "none"]
            if r.random() < .3:
                own.reverse()
            lines += ["protected"] + own
        f.update(head=lines, place=len(m.ftexts))
        m.ftexts.append("\n".join(lines + ["algorithm"] + show(body, "  ") + ["end %s;" % n]))
        m.all_funcs.append(f)
        if not outs[0]["sh"] and not any(v["sh"] and v["sh"][0] < 0 for v in ins):
            m.funcs.append(f)

    def loopvar(self):
        self.nloop += 1
        return "i%d" % self.nloop

    def assign(self, n, ix, e):
        return {"s": "assign", "n": n, "ix": ix, "e": e}

    def foreach(self, i, lo, hi, b, st=None):
        lo, hi = (x if isinstance(x, dict) else const(x) for x in (lo, hi))
        e = N("range", "g", lo, hi, *([const(st)] if st else []))
        return {"s": "foreach", "n": i, "e": e, "b": b}

    def statement(self, d, inloop):
        r = self.rng
        k = r.random()
        n, t, sh = r.choice(self.targets)
        if k < .45 or d == 0:
            if sh:
                return [self.assign(n, [const(r.randint(1, sh[0]))], self.expr(2))]
            # Integers bound loops: within loops they do not grow.
            e = self.expr(2) if t != "i" else const(r.randint(0, 5)) if self.inl else self.iexpr()
            return [self.assign(n, [], e)]
        if k < .68:
            s = {"s": "if", "e": self.cond(), "b": self.block(d, inloop), "c": []}
            if r.random() < .6:
                s["c"] = self.block(d, inloop)
                if r.random() < .4:
                    s["c"] = [{"s": "if", "e": self.cond(), "b": self.block(d, inloop), "c": s["c"], "elif": 1}]
            return [s]
        if k < .86:
            i = self.loopvar()
            arr = [(a, z) for a, z in self.arrs]
            q = r.random()
            if arr and q < .4:
                a, z = r.choice(arr)
                hi = N("sizeof", "i", var(a), const(1)) if z < 0 or r.random() < .5 else const(z)
                self.ints.append(var(i, "i"))
                self.reals.append(at(var(a), var(i, "i")))
                b = self.looped(d, True)
                self.reals = [x for x in self.reals if not (x["o"] == "at" and x["a"][1].get("n") == i)]
                self.ints = [x for x in self.ints if x.get("n") != i]
                return [self.foreach(i, 1, hi, b)]
            lo, hi, st = self.bounds()
            multi = r.random() < .25
            self.ints.append(var(i, "i"))
            if multi:
                j = self.loopvar()
                lo2, hi2, st2 = self.bounds()
                self.ints.append(var(j, "i"))
                b = [self.foreach(j, lo2, hi2, self.looped(d, False), st2)]
                self.ints = [x for x in self.ints if x.get("n") != j]
            else:
                b = self.looped(d, True)
            self.ints = [x for x in self.ints if x.get("n") != i]
            f = self.foreach(i, lo, hi, b, st)
            if multi:
                f["multi"] = 1
            return [f]
        if k < .96:
            cs = [n for n, t, sh in self.targets if t == "i"]
            if cs:
                c = r.choice(cs)
                keep = self.targets
                self.targets = [x for x in keep if x[0] != c]
                step = self.assign(c, [], add(var(c, "i"), const(1)))
                b = (self.looped(d, True) if self.targets else [])
                self.targets = keep
                b = [step] + b if r.random() < .5 else b + [step]
                if any(x.get("s") in ("break",) for x in b[:1]):
                    b = [step] + b
                return [{"s": "loop", "pre": [], "e": N("lt", "b", var(c, "i"), const(r.randint(0, 4))), "b": b, "c": []}]
            return []
        if inloop and k < .98:
            return [{"s": "if", "e": self.cond(), "b": [{"s": "break"}], "c": []}]
        return [{"s": "if", "e": self.cond(), "b": [{"s": "return"}], "c": []}]

    def looped(self, d, brk):
        self.inl += 1
        b = self.block(d, brk)
        self.inl -= 1
        return b

    def bounds(self):
        r = self.rng
        lo = r.randint(-1, 3)
        hi = r.choice(self.ints) if self.ints and r.random() < .3 else const(r.randint(0, 4))
        st = r.choice([None, None, 1, 2, -1, -2])
        return (hi, lo, st) if st and st < 0 and r.random() < .7 else (lo, hi, st)

    def block(self, d, inloop):
        out = []
        for _ in range(self.rng.randint(1, 2)):
            out += self.statement(d - 1, inloop)
        if not out:
            n, t, sh = self.rng.choice(self.targets)
            out = [self.assign(n, [const(1)] if sh else [], self.iexpr() if t == "i" else self.expr(1))]
        return out

    def leaf(self):
        r = self.rng
        c = []
        if self.reals:
            c += [lambda: r.choice(self.reals)] * 3
        if self.ints:
            c.append(lambda: r.choice(self.ints))
        fixed = [(a, z) for a, z in self.arrs if z > 0]
        if fixed:
            def el():
                a, z = r.choice(fixed)
                return at(var(a), const(r.randint(1, z)))
            c += [el] * 2
        if self.arrs:
            c.append(lambda: N("sum", "r", var(r.choice(self.arrs)[0])))
        return r.choice(c)() if c and r.random() < .85 else self.m.num()

    def iexpr(self):
        r = self.rng
        a = r.choice(self.ints) if self.ints and r.random() < .8 else const(r.randint(-2, 4))
        k = r.random()
        if k < .3:
            return a
        b = r.choice(self.ints) if self.ints and r.random() < .4 else const(r.randint(1, 3))
        return add(a, b) if k < .7 else sub(a, b)

    def expr(self, d):
        r = self.rng
        if d <= 0:
            return self.leaf()
        k = r.random()
        a = self.expr(d - 1)
        if k < .3:
            return add(a, self.expr(r.randint(0, d - 1)))
        if k < .5:
            return sub(a, self.expr(r.randint(0, d - 1)))
        if k < .65:
            return mul(a, self.expr(r.randint(0, d - 1)))
        if k < .73:
            return div(a, self.m.num(nz=True))
        if k < .77:
            return neg(a)
        if k < .82 and a["t"] == "r":
            return N("pow", "r", a, const(r.choice([2, 3])))
        if k < .88 and (self.ints or self.dyns):
            return N("select", "r", self.cond(), a, self.expr(d - 1))
        if k < .92 and self.dyns:
            return N(r.choice(["sin", "cos", "exp", "tanh", "atan"]), "r", r.choice(self.dyns))
        if k < .97 and self.inl < 2:
            c = [f for f in self.m.funcs if self.dyns or not any(v.get("dyn") for v in f["ins"])]
            if c:
                f = r.choice(c)
                args = []
                for v in f["ins"]:
                    if v["sh"]:
                        args.append(N("array", "r", *[self.m.real(self.leaf()) for _ in range(v["sh"][0])]))
                    elif v["t"] == "i":
                        args.append(const(r.randint(0, 4)))
                    else:
                        args.append(r.choice(self.dyns) if v.get("dyn") else self.leaf())
                return N("call", "r", *args, n=f["n"], k=0)
        return a

    def cond(self, d=1):
        r = self.rng
        k = r.random()
        if d and k < .3:
            if k < .1:
                return N("not", "b", self.cond(0))
            return N("and" if k < .2 else "or", "b", self.cond(0), self.cond(0))
        if self.dyns and (not self.ints or r.random() < .5):
            return N(r.choice(["lt", "lte", "gt", "gte"]), "b", r.choice(self.dyns), const(r.randint(-3, 3)))
        a = r.choice(self.ints) if self.ints else const(r.randint(0, 3))
        return N(r.choice(["lt", "lte", "gt", "gte", "eq", "neq"]), "b", a, const(r.randint(0, 3)))


def show(b, pad):
    """The text of statements."""
    out = []
    for s in b:
        k = s["s"]
        if k == "assign":
            out.append("%s%s%s := %s;" % (pad, s["n"], "[" + ", ".join(text(x) for x in s["ix"]) + "]" if s["ix"] else "", text(s["e"])))
        elif k == "if":
            out.append("%sif %s then" % (pad, text(s["e"])))
            out += show(s["b"], pad + "  ")
            c = s["c"]
            while len(c) == 1 and c[0].get("elif"):
                out.append("%selseif %s then" % (pad, text(c[0]["e"])))
                out += show(c[0]["b"], pad + "  ")
                c = c[0]["c"]
            if c:
                out.append(pad + "else")
                out += show(c, pad + "  ")
            out.append(pad + "end if;")
        elif k == "foreach":
            head = "%sfor %s in %s" % (pad, s["n"], text(s["e"]))
            while s.get("multi"):
                s = s["b"][0]
                head += ", %s in %s" % (s["n"], text(s["e"]))
            out.append(head + " loop")
            out += show(s["b"], pad + "  ") + [pad + "end for;"]
        elif k == "loop":
            out.append("%swhile %s loop" % (pad, text(s["e"])))
            out += show(s["b"], pad + "  ") + [pad + "end while;"]
        else:
            out.append(pad + k + ";")
    return out


# ------------------------------------------------------------------- models
def looped(l, r, loops):
    """The text of an equation inside its for equations."""
    pad, lines = "  ", []
    for k, lo, hi in loops:
        lines.append("%sfor %s in %d:%d loop" % (pad, INDS[k - 1], lo, hi))
        pad += "  "
    lines.append("%s%s = %s;" % (pad, text(l, 1), text(r, 1)))
    for _ in loops:
        pad = pad[:-2]
        lines.append(pad + "end for;")
    return "\n".join(lines)


class Model:
    def __init__(self, rng, opts):
        self.rng, self.o = rng, opts
        self.vars = []      # dict(n, t, sh, decl text)
        self.eqs = []       # dict(ix, l, r, text)
        self.init = []      # equations that hold after the initialization
        self.inits = []     # texts of the initial equation section
        self.states = []
        self.params = []
        self.scalars = []   # readable scalar real expressions (states, solved algebraic ones)
        self.arrays = []    # readable arrays: (name, shape)
        self.funcs, self.all_funcs, self.ftexts, self.recs = [], [], [], []
        self.algs = []
        self.used = set()

    def chance(self, p):
        return self.rng.random() < p

    def name(self, p):
        while True:
            n = p + self.rng.choice(["", "", "a", "b", "x", "1", "2", "_q", "Z"]) + str(self.rng.randint(0, 30))
            if n not in self.used:
                self.used.add(n)
                return n

    # constants
    def num(self, nz=False):
        r = self.rng
        v = r.choice([1, 2, 3, 4, 5, 7, -1, -2, -3, Fraction(1, 2), Fraction(5, 2), Fraction(-3, 4), Fraction(1, 10), Fraction(13, 5)] + ([] if nz else [0]))
        return const(v if isinstance(v, int) else v, "r" if isinstance(v, int) and r.random() < .5 else None)

    # A readable scalar: an element of an array, with the inductions in scope
    # described as [(k, lo, hi), ...].
    def leaf(self, loops, pure=False):
        r = self.rng
        k = r.random()
        if k < .2 or not (self.scalars or self.arrays):
            return self.num()
        if k < .28 and loops:
            return ind(r.choice(loops)[0])
        if k < .34 and self.params:
            return r.choice(self.params)
        if k < .38 and self.o.get("time"):
            return N("time", "r")
        if self.arrays and (k < .7 or not self.scalars):
            n, sh = r.choice(self.arrays)
            ix = []
            for d in sh:
                ok = []
                for kk, lo, hi in loops:
                    for off in (-2, -1, 0, 1, 2):
                        if lo + off >= 1 and hi + off <= d:
                            ok.append((kk, off))
                if ok and r.random() < .8:
                    zero = [x for x in ok if x[1] == 0]
                    kk, off = r.choice(zero) if zero and r.random() < .5 else r.choice(ok)
                    e = ind(kk)
                    if off:
                        e = add(e, const(off)) if off > 0 else sub(e, const(-off))
                    ix.append(e)
                else:
                    ix.append(const(r.randint(1, d)))
            return at(var(n), *ix)
        return r.choice(self.scalars)

    def expr(self, d, loops):
        r = self.rng
        if d <= 0:
            return self.leaf(loops)
        k = r.random()
        a = self.expr(d - 1, loops)
        if k < .24:
            return add(a, self.expr(r.randint(0, d - 1), loops))
        if k < .42:
            return sub(a, self.expr(r.randint(0, d - 1), loops))
        if k < .58:
            return mul(a, self.expr(r.randint(0, d - 1), loops))
        if k < .66:
            return div(a, self.num(nz=True))
        if k < .70:
            return N("pow", "r", a, const(r.choice([2, 3]))) if a["t"] == "r" else a
        if k < .76:
            return neg(a)
        if k < .84 and self.o.get("cond") and self.dyn():
            return N("select", "r", self.cond(loops), a, self.expr(d - 1, loops))
        if k < .90 and self.o.get("math") and self.dyn():
            f = r.choice(["sin", "cos", "tan", "exp", "tanh", "sinh", "cosh", "atan"])
            return N(f, "r", self.dynleaf(loops))
        if k < .96 and self.funcs:
            return self.call(loops)
        if self.arrays and self.o.get("arrayops"):
            n, sh = r.choice(self.arrays)
            return N(r.choice(["sum", "sum", "max", "min"] if len(sh) == 1 else ["sum"]), "r", var(n))
        return a

    def dyn(self):
        return bool(self.dynamic)

    def dynleaf(self, loops):
        """Something the compiler cannot know: a state."""
        r = self.rng
        n, sh = r.choice(self.dynamic)
        if not sh:
            return var(n)
        return at(var(n), *[const(r.randint(1, d)) for d in sh])

    def cond(self, loops, d=1):
        r = self.rng
        k = r.random()
        if d and k < .15:
            return N("and", "b", self.cond(loops, 0), self.cond(loops, 0))
        if d and k < .3:
            return N("or", "b", self.cond(loops, 0), self.cond(loops, 0))
        if d and k < .4:
            return N("not", "b", self.cond(loops, 0))
        b = add(self.dynleaf(loops), self.dynleaf(loops)) if r.random() < .3 else const(r.randint(-3, 3))
        return N(r.choice(["lt", "lte", "gt", "gte"]), "b", self.dynleaf(loops), b)

    def call(self, loops, f=None):
        r = self.rng
        f = f or r.choice(self.funcs)
        args = []
        for v in f["ins"]:
            if v["sh"]:
                m = v["sh"][0]
                c = [n for n, sh in self.arrays if len(sh) == 1 and (m < 0 or sh == v["sh"])]
                if c and r.random() < .6:
                    args.append(var(r.choice(c)))
                else:
                    args.append(N("array", "r", *[self.real(self.leaf(loops)) for _ in range(m if m > 0 else r.randint(2, 4))]))
            elif v["t"] == "i":
                args.append(ind(r.choice(loops)[0]) if loops and r.random() < .5 else const(r.randint(0, 4)))
            elif v.get("dyn"):
                args.append(self.dynleaf(loops))
            else:
                args.append(self.leaf(loops))
        names = None
        if f.get("default") and r.random() < .5:
            args.pop()
        if r.random() < .15:
            names = [v["n"] for v in f["ins"]][:len(args)]
            z = list(zip(names, args))
            r.shuffle(z)
            names, args = [a for a, _ in z], [b for _, b in z]
        return N("call", "r", *args, n=f["n"], k=0, **({"names": names} if names else {}))

    # functions -------------------------------------------------------------
    def add_function(self):
        Function(self).build()

    def add_call_equation(self):
        """Unknowns that are the results of a call."""
        r = self.rng
        f = r.choice([f for f in self.all_funcs])
        e = self.call([], f)
        us = []
        for o in f["outs"]:
            n = self.name("y")
            self.declare(n, o["sh"])
            us.append(var(n))
        cs = [dict(e, k=k, sh=o["sh"]) for k, o in enumerate(f["outs"])]
        if len(us) == 1:
            l, rr = (us[0], cs[0]) if r.random() < .8 else (cs[0], us[0])
            self.eq(l, rr)
        else:
            if len(us) > 1 and r.random() < .25:
                # the last results are not used
                last = us.pop()
                cs.pop()
                self.vars = [v for v in self.vars if v["n"] != last["n"]]
            self.eqs.append({"ix": [[]], "l": us, "r": cs,
                             "ftext": "  (%s) = %s;" % (", ".join(text(u) for u in us), text(e))})
        for u, o in zip(us, f["outs"]):
            if o["sh"]:
                self.arrays.append((u["n"], o["sh"]))
            else:
                self.scalars.append(u)

    def real(self, e):
        return e if e["t"] == "r" else mul(const(1, "r"), e)

    # equations -----------------------------------------------------------
    def solved(self, u, e):
        """(l, r) of an equation equivalent to u = e."""
        r = self.rng
        k = r.random() if self.o.get("forms") else 0
        if k < .45:
            l, rr = u, e
        elif k < .55:
            c = self.num(nz=True)
            l, rr = mul(c, u) if r.random() < .5 else mul(u, c), e
        elif k < .65:
            l, rr = add(u, e) if r.random() < .5 else add(e, u), self.leaf([])
        elif k < .75:
            l, rr = sub(e, u) if r.random() < .5 else sub(u, e), self.num()
        elif k < .82:
            c, d = r.sample([2, 3, 5, 7], 2)
            l, rr = add(mul(const(c), u), e), mul(const(d), u)
        elif k < .88:
            l, rr = div(u, self.num(nz=True)), e
        elif k < .94:
            l, rr = neg(u), e
        else:
            l, rr = sub(self.num(), mul(self.num(nz=True), u)), e
        return (l, rr) if r.random() < .75 else (rr, l)

    def eq(self, l, r, loops=()):
        """loops: [(k, lo, hi)]"""
        pts = [[]]
        for k, lo, hi in loops:
            pts = [p + [v] for p in pts for v in range(lo, hi + 1)]
        self.eqs.append({"ix": pts, "l": [l], "r": [r], "loops": list(loops), "ftext": looped(l, r, loops)})

    def declare(self, n, sh, t="r", mods="", prefix=""):
        tn = {"r": "Real", "i": "Integer", "b": "Boolean"}[t]
        d = "[" + ", ".join(map(str, sh)) + "]" if sh else ""
        style = True
        self.vars.append({"n": n, "t": t, "sh": sh,
                          "decl": prefix + (tn + d + " " + n if style else tn + " " + n + d) + mods + ";"})

    # parts ---------------------------------------------------------------
    def add_params(self):
        r = self.rng
        for _ in range(r.randint(0, 3)):
            t = r.choice("rri")
            n = self.name("p")
            v = const(r.randint(1, 6)) if t == "i" else self.num(nz=True)
            if self.params and t == "r" and r.random() < .3:
                v = add(v, r.choice(self.params))
            pre = r.choice(["parameter ", "parameter ", "constant "])
            # a constant may not depend on parameters
            if v["o"] != "const":
                pre = "parameter "
            self.declare(n, [], t, " = " + text(v), pre)
            self.params.append(var(n, t))
            self.init.append({"ix": [[]], "l": [var(n, t)], "r": [v]})

    def add_states(self):
        r = self.rng
        self.dynamic = []
        for _ in range(r.randint(1, self.o.get("states", 3))):
            n = self.name("x")
            sh = r.choice([[], [], [r.randint(2, 4)], [r.randint(2, 3), r.randint(2, 3)]]) if self.o.get("arrays") else []
            v = self.num() if not self.params or r.random() < .7 else r.choice(self.params)
            each = "each " if sh else ""
            if r.random() < .7:
                self.declare(n, sh, "r", "(%sstart = %s, %sfixed = true)" % (each, text(v), each))
            else:
                self.declare(n, sh, "r", "(%sstart = %s)" % (each, text(self.num())))
                if sh:
                    ks = list(range(1, len(sh) + 1))
                    inner = "%s = %s;" % (text(at(var(n), *[ind(k) for k in ks])), text(v))
                    for k in reversed(ks):
                        inner = "for %s in 1:%d loop %s end for;" % (INDS[k - 1], sh[k - 1], inner)
                    self.inits.append(inner)
                else:
                    self.inits.append("%s = %s;" % ((n, text(v)) if r.random() < .6 else (text(v, 1), n)))
            self.init.append({"ix": self.pts(sh), "l": [at(var(n), *[ind(k + 1) for k in range(len(sh))]) if sh else var(n)], "r": [v]})
            self.states.append((n, sh))
            self.dynamic.append((n, sh))
            (self.arrays if sh else self.scalars).append((n, sh) if sh else var(n))

    def pts(self, sh):
        out = [[]]
        for d in sh:
            out = [p + [v] for p in out for v in range(1, d + 1)]
        return out

    def depth(self):
        return self.rng.randint(0, self.o.get("depth", 2))

    def loops_for(self, sh, lo=None):
        return [(k + 1, 1, d) for k, d in enumerate(sh)]

    def add_ders(self):
        r = self.rng
        for n, sh in self.states:
            if not sh:
                l, rr = self.solved(der(var(n)), self.expr(self.depth(), []))
                self.eq(l, rr)
            else:
                for loops in self.pieces(sh):
                    l, rr = self.solved(der(self.elem(n, loops)), self.expr(self.depth(), loops))
                    self.eq(l, rr, self.real_loops(loops))

    def pieces(self, sh):
        """Partition of the index space in boxes, each as loops."""
        r = self.rng
        boxes = [[(k + 1, 1, d) for k, d in enumerate(sh)]]
        for _ in range(r.choice([0, 0, 1, 2])):
            b = r.choice(boxes)
            ks = [k for k in range(len(sh)) if b[k][1] < b[k][2]]
            if not ks:
                continue
            k = r.choice(ks)
            c = r.randint(b[k][1], b[k][2] - 1)
            boxes.remove(b)
            boxes.append([(x if q != k else (x[0], x[1], c)) for q, x in enumerate(b)])
            boxes.append([(x if q != k else (x[0], c + 1, x[2])) for q, x in enumerate(b)])
        r.shuffle(boxes)
        return boxes

    def elem(self, n, loops, shift=True):
        """The element an equation over these loops is about; loops of one
        value may become constants."""
        return at(var(n), *[self.index(l) for l in loops])

    def index(self, l):
        k, lo, hi = l[:3]
        if lo == hi and (k, "c") in self.fixed:
            return const(lo)
        return ind(k)

    fixed = set()

    def real_loops(self, loops):
        return list(loops)

    def add_scalar(self):
        n = self.name("a")
        l, rr = self.solved(var(n), self.expr(self.depth(), []))
        if self.o.get("bind") and self.chance(.15):
            e = self.expr(self.depth(), [])
            self.declare(n, [], "r", " = " + text(e))
            self.eqs.append({"ix": [[]], "l": [var(n)], "r": [e], "ftext": ""})
        else:
            self.declare(n, [], "r", self.start())
            self.eq(l, rr)
        self.scalars.append(var(n))

    def start(self):
        return self.rng.choice(["", "", "", "(start = 1)", "(start = 2.5)"])

    def add_array(self):
        r = self.rng
        n = self.name("v")
        sh = [r.randint(2, 5)] if r.random() < .65 else [r.randint(1, 3), r.randint(2, 3)]
        self.declare(n, sh, "r")
        k = r.random()
        if k < .35 or not self.o.get("arrayforms"):
            for loops in self.pieces(sh):
                if all(a == b for _, a, b in loops) and r.random() < .7:
                    l, rr = self.solved(at(var(n), *[const(a) for _, a, b in loops]), self.expr(self.depth(), []))
                    self.eq(l, rr)
                    continue
                l, rr = self.solved(self.elem(n, loops), self.expr(self.depth(), loops))
                self.eq(l, rr, loops)
        elif k < .6 and len(sh) == 1:
            # recurrence, upwards or downwards, written with either index shifted
            m = sh[0]
            up = r.random() < .6
            l, rr = self.solved(at(var(n), const(1 if up else m)), self.expr(self.depth(), []))
            self.eq(l, rr)
            s = r.random() < .5
            if up:
                lo, hi = (2, m) if s else (1, m - 1)
                cur, prev = (ind(1), sub(ind(1), const(1))) if s else (add(ind(1), const(1)), ind(1))
            else:
                lo, hi = (1, m - 1) if s else (2, m)
                cur, prev = (ind(1), add(ind(1), const(1))) if s else (sub(ind(1), const(1)), ind(1))
            loops = [(1, lo, hi)]
            e = add(mul(self.num(nz=True), at(var(n), prev)), self.expr(r.randint(0, 1), loops))
            l, rr = self.solved(at(var(n), cur), e)
            self.eq(l, rr, loops)
        elif k < .7 and len(sh) == 2:
            # rows from the previous row
            self.eq(*self.solved(at(var(n), const(1), ind(1)), self.expr(self.depth(), [(1, 1, sh[1])])), [(1, 1, sh[1])])
            if sh[0] > 1:
                e = add(mul(self.num(nz=True), at(var(n), sub(ind(1), const(1)), ind(2))), self.leaf([(1, 2, sh[0]), (2, 1, sh[1])]))
                self.eq(*self.solved(at(var(n), ind(1), ind(2)), e), [(1, 2, sh[0]), (2, 1, sh[1])])
        elif k < .85 and self.o.get("whole"):
            self.eq(*self.whole(n, sh))
        elif len(sh) == 1 and self.o.get("whole"):
            m = sh[0]
            c = r.randint(1, m - 1)
            for lo, hi in ((1, c), (c + 1, m)):
                if r.random() < .5:
                    src = [(x, s) for x, s in self.arrays if len(s) == 1 and s[0] >= hi - lo + 1]
                    if src:
                        x, s = r.choice(src)
                        o = r.randint(0, s[0] - (hi - lo + 1))
                        e = at(var(x), N("range", "g", const(1 + o), const(hi - lo + 1 + o)))
                        if r.random() < .5:
                            e = mul(const(r.choice([2, 3, 5])), e)
                        self.eq(at(var(n), N("range", "g", const(lo), const(hi))), e)
                        continue
                if lo == hi:
                    self.eq(*self.solved(at(var(n), const(lo)), self.expr(self.depth(), [])))
                else:
                    self.eq(*self.solved(at(var(n), ind(1)), self.expr(self.depth(), [(1, lo, hi)])), [(1, lo, hi)])
        else:
            loops = self.loops_for(sh)
            self.eq(*self.solved(self.elem(n, loops), self.expr(self.depth(), loops)), loops)
        self.arrays.append((n, sh))

    def whole(self, n, sh):
        r = self.rng
        same = [x for x, s in self.arrays if s == sh]

        def go(d):
            k = r.random()
            if d and k < .3:
                return N(r.choice(["add", "sub"]), "r", go(d - 1), go(d - 1))
            if d and k < .5:
                return mul(self.num(nz=True) if r.random() < .6 else self.leaf([]), go(d - 1)) if r.random() < .6 \
                    else mul(go(d - 1), self.num(nz=True))
            if d and k < .6:
                return neg(go(d - 1))
            if d and k < .66:
                return div(go(d - 1), self.num(nz=True))
            if d and k < .76:
                return N(r.choice(["mul_ew", "add_ew", "sub_ew"]), "r", go(d - 1), go(d - 1))
            if same and k < .9:
                return var(r.choice(same))
            if len(sh) == 1:
                return N("array", "r", *[self.real(self.leaf([])) for _ in range(sh[0])])
            return N("array", "r", *[N("array", "r", *[self.real(self.leaf([])) for _ in range(sh[1])]) for _ in range(sh[0])])
        l, rr = var(n), go(2)
        return (l, rr) if r.random() < .8 else (rr, l)

    def add_loop(self):
        """Mutually dependent unknowns with one solution."""
        r = self.rng
        m = r.choice([2, 2, 3])
        vec = self.o.get("arrays") and r.random() < .4
        names = [self.name("c") for _ in range(m)]
        sh = [r.randint(2, 3)] if vec else []
        loops = self.loops_for(sh)
        for n in names:
            self.declare(n, sh)
        el = [self.elem(n, loops) if vec else var(n) for n in names]
        while True:
            coef = [r.choice([2, 3, 5, -2, Fraction(1, 2)]) for _ in range(m)]
            prod = Fraction(1)
            for c in coef:
                prod *= c
            if prod != 1:
                break
        for k in range(m):
            e = add(mul(const(coef[k]), el[(k + 1) % m]), self.expr(r.randint(0, 1), loops))
            lhs, rhs = (el[k], e)
            if r.random() < .3:
                lhs, rhs = sub(lhs, e), const(0)
            if r.random() < .3:
                lhs, rhs = rhs, lhs
            self.eq(lhs, rhs, loops)
        for n in names:
            (self.arrays if vec else self.scalars).append((n, sh) if vec else var(n))

    def add_bool(self):
        n = self.name("q")
        self.declare(n, [], "b")
        self.eq(var(n, "b"), self.cond([]))

    def add_record(self):
        r = self.rng
        rn, n = self.name("R"), self.name("r")
        comps = [("f%d" % k, r.choice([[], [], [2], [3]])) for k in range(r.randint(1, 3))]
        self.recs.append("record %s\n%s\nend %s;" % (rn, "\n".join("  Real%s %s;" % ("[%d]" % s[0] if s else "", c) for c, s in comps), rn))
        self.vars.append({"n": n, "t": "record", "sh": [], "rec": rn, "decl": "%s %s;" % (rn, n), "skip": True})
        order = comps[:]
        r.shuffle(order)
        for c, s in order:
            full = n + "." + c
            v = var(full)
            self.vars.append({"n": full, "t": "r", "sh": s, "decl": ""})
            if not s:
                self.eq(*self.solved(v, self.expr(self.depth(), [])))
                self.scalars.append(v)
            else:
                if r.random() < .5:
                    loops = self.loops_for(s)
                    self.eq(*self.solved(at(v, ind(1)), self.expr(self.depth(), loops)), loops)
                else:
                    self.eq(*self.whole(full, s))
                self.arrays.append((full, s))

    def build(self):
        r = self.rng
        o = self.o
        for _ in range(r.randint(0, o.get("funcs", 0))):
            self.add_function()
        self.add_params()
        self.add_states()
        for _ in range(r.randint(*o.get("parts", (1, 5)))):
            k = r.random()
            if self.all_funcs and r.random() < .35:
                self.add_call_equation()
            elif k < .35 or not o.get("arrays"):
                if o.get("loops") and r.random() < .35:
                    self.add_loop()
                else:
                    self.add_scalar()
            elif k < .75:
                self.add_array()
            elif k < .85 and o.get("loops"):
                self.add_loop()
            elif k < .92 and o.get("records"):
                self.add_record()
            elif o.get("cond"):
                self.add_bool()
        self.add_ders()
        return self

    def render(self):
        r = self.rng
        decls = [v["decl"] for v in self.vars if v["decl"]]
        if self.o.get("shuffle"):
            # parameters first, so that their values may be used
            k = len(self.params)
            rest = decls[k:]
            r.shuffle(rest)
            decls = decls[:k] + rest
        eqs = [e["ftext"] for e in self.eqs if e["ftext"]]
        r.shuffle(eqs)
        inits = self.inits[:]
        r.shuffle(inits)
        body = "\n".join("  " + d for d in decls)
        if inits:
            body += "\ninitial equation\n" + "\n".join("  " + x for x in inits)
        body += "\nequation\n" + "\n".join(eqs)
        m = "model M\n%s\nend M;" % body
        if self.ftexts or self.recs:
            return "package Q\n" + "\n".join(self.recs + self.ftexts) + "\n" + m + "\nend Q;" if self.o.get("package") else \
                "\n".join(self.recs + self.ftexts) + "\n" + m
        return m

    def abstract(self):
        return {"vars": [{k: v[k] for k in ("n", "t", "sh")} for v in self.vars if not v.get("skip")],
                "eqs": [strip(e) for e in self.eqs], "init": [strip(e) for e in self.init],
                "fn": [strip({k: f[k] for k in ("n", "vars", "defs", "b")}) for f in self.all_funcs],
                "states": [n for n, _ in self.states], "params": [p["n"] for p in self.params], "algs": [strip(a) for a in self.algs]}


FULL = dict(arrays=True, forms=True, arrayforms=True, whole=True, loops=True, cond=True, math=True, time=True, shuffle=True, records=True, arrayops=True, bind=True, funcs=2)

P1 = ("canonicalize,propagate-read-only-variables,canonicalize,auto-diff,der-chain-rule,pure-function-inlining,inline-records,function-unwrap,"
      "function-mangling,canonicalize,infer-range-boundaries,canonicalize,split-equation-sides,explicitate-equation-inductions,fold-view-accesses,"
      "create-equation-templates,call-cse,derivatives-materialization,convert-binding-equations,insert-missing-start-values,convert-model-algorithms,"
      "insert-explicit-initial-equations")
P2 = ("canonicalize,derivatives-initialization,match,split-overlapping-accesses,scalar-ranges-equation-split,single-valued-induction-elimination,"
      "variables-pruning,detect-scc,promote-variables-to-parameters,scc-solving-substitution,canonicalize,single-valued-induction-elimination,"
      "euler-forward,solve-initial-conditions,schedule,equation-explicitation,scc-absence-verification")

NEG = True
LATE = ",scalarize,explicit-cast-insertion,bmodelica.function(cse),func.func(cse),function-default-values-conversion"


def case(rng, opts=None, tail=""):
    o = dict(FULL, **(opts or {}))
    m = Model(rng, o).build()
    r = rng.randint(1, 40000)
    c = [{"op": "compile", "text": m.render(), "pipes": [P1 + "," + P2 + tail], "keep": [0, 1], "src": m.abstract(), "expect": "ok", "seed": r}]
    c.append({"op": "ic", "time": rng.randint(1, P - 1)})
    for _ in range(rng.randint(1, 2)):
        c.append({"op": "advance", "h": rng.randint(1, P - 1)})
        c.append({"op": "update", "time": rng.randint(1, P - 1)})
    return c


def filters(r, m):
    """A variable filter: its text and its entries."""
    def name():
        return r.choice([v["n"] for v in m.vars if not v.get("skip")] + ["nothing"])
    entries, texts = [], []
    shapes = {v["n"]: v["sh"] for v in m.vars}
    for _ in range(r.choice([0, 0, 1, 2, 3, 4])):
        k = r.random()
        if k < .6:
            n, rs, t = name(), [], []
            for d in shapes.get(n, [2]) if r.random() < .7 else []:
                lo, hi = r.choice([0, 1, 2, d, d + 1]), r.choice([0, 1, d, d, d - 1, d + 2])
                rs.append([lo, hi])
                t.append("%s:%s" % (lo or "$", hi or "$"))
            entries.append({"t": "var", "s": n, "r": rs, "hits": []})
            texts.append(n + ("[" + ",".join(t) + "]" if t else ""))
        elif k < .85:
            n = r.choice([n for n, _ in m.states] + [name()]) if m.states else name()
            entries.append({"t": "der", "s": n, "r": [], "hits": []})
            texts.append("der(%s)" % n)
        else:
            p = r.choice(["^.$", "x", "[a-m]", "r", "^der", "1$", "."])
            names = list(shapes) + ["der(%s)" % n for n in shapes]
            entries.append({"t": "regex", "s": p, "r": [], "hits": [n for n in names if re.search(p, n)]})
            texts.append("/%s/" % p)
    return ";".join(texts), entries


def runtime_case(rng, opts=None):
    o = dict(FULL, **(opts or {}))
    m = Model(rng, o).build()
    r = rng.randint(1, 40000)
    ft, fe = filters(rng, m)
    tail = rng.choice(["", ",schedule-parallelization", ",schedule-parallelization,schedulers-instantiation", ",schedule-parallelization,schedulers-instantiation"])
    tail += ",convert-bmodelica-to-runtime{variable-filter=%s}" % ft
    tail += rng.choice(["", LATE])
    ann, exp = "", {"start": [], "end": []}
    if rng.random() < .4:
        parts = []
        for n, k in rng.sample([("StartTime", "start"), ("StopTime", "end")], rng.randint(1, 2)):
            v = rng.choice([0, 1, 10, Fraction(1, 2), Fraction(5, 4)] + ([-1, Fraction(-3, 2)] if NEG else []))
            parts.append("%s = %s" % (n, repr(float(v)) if isinstance(v, Fraction) else v))
            exp[k] = [res(v)]
        ann = "  annotation(experiment(%s));\n" % ", ".join(parts)
    text = m.render()
    k = text.rindex("end M;")
    src = dict(m.abstract(), name="M", filter=fe, **exp)
    c = [{"op": "compile", "text": text[:k] + ann + text[k:], "pipes": [P1 + "," + P2 + tail], "keep": [0, 1], "src": src, "seed": r}]
    for _ in range(rng.choice([1, 1, 1, 2])):
        c.append({"op": "ic", "time": rng.randint(1, P - 1)})
        for _ in range(rng.randint(0, 2)):
            c.append({"op": "advance", "h": rng.randint(1, P - 1)})
            c.append({"op": "update", "time": rng.randint(1, P - 1)})
        c.append({"op": "halt"})
    return c
