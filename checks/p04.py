"""P04: macro expansion (spec/Preproc.tla)."""
import pp
from pp import *


def nontrivial(pj, e):
    return any(l["k"] == "define" for f in pj.files for l in f["lines"]) and len(e["out"]) > 2


def rand_args(rng, names, d):
    def one(d):
        r = rng.random()
        if d and r < .2: return "(" + ", ".join(one(d - 1) for _ in range(rng.randint(1, 3))) + ")"
        if d and r < .45: return use(rng, names, d - 1)
        return rng.choice(["1", "a", "b c", '"s"', "x + y", "", "7", "[ 1 ]", "zz", '"a, b"', "- 1"])
    return ", ".join(one(d) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4])))


def use(rng, names, d=2):
    n = rng.choice(names)
    return n if rng.random() < .3 else f"{n}({rand_args(rng, names, d)})"


def rand_body(rng, ps, names):
    out = []
    for _ in range(rng.randint(0, 5)):
        r = rng.random()
        if ps and r < .35: out.append(ID(rng.choice(ps)))
        elif ps and r < .45: out += [P("#"), ID(rng.choice(ps))]
        elif ps and r < .58:
            out += [ID(rng.choice(["pre", "q"] + names)), P("##"), ID(rng.choice(ps + ["post"]))]
            while rng.random() < .3: out += [P("##"), ID(rng.choice(ps + ["more"]))]
        elif ps and r < .62: out += [rng.choice([INT(4), P("-"), STR("l"), P("/")]), P("##"), ID(rng.choice(ps))]
        elif ps and r < .65: out += [ID(rng.choice(ps)), P("##"), rng.choice([INT(4), P("+"), STR("r"), P("(")])]
        elif r < .67: out += [rng.choice([INT(4), P("-")]), P("##"), rng.choice([INT(5), P("+"), STR("r")])]
        elif names and r < .8: out += toks(use(rng, names, 1)) + ([P(";")] if rng.random() < .5 else [])
        else: out += rng.choice([[INT(1)], [P("+")], [ID("k")], [STR("lit")], [P("("), ID("z"), P(")")], [P(",")], [P("(")], [P(")")]])
    return out


BUILTIN = ["ASSERT", "EXCEPTION", "TRUE", "FALSE", "SEEINVIS", "SEEMOBS", "SEEOBJS", "SEETURFS", "NO_STEPS", "FORWARD_STEPS", "SLIDE_STEPS",
           "SYNC_STEPS", "LONG_GLIDE", "RESET_COLOR", "RESET_ALPHA", "RESET_TRANSFORM", "NO_CLIENT_COLOR", "KEEP_TOGETHER", "KEEP_APART",
           "PLANE_MASTER", "TILE_BOUND", "PIXEL_SCALE", "ICON_ADD", "ICON_SUBTRACT", "ICON_MULTIPLY", "ICON_OVERLAY", "ICON_AND", "ICON_OR",
           "ICON_UNDERLAY", "LINEAR_EASING", "SINE_EASING", "CIRCULAR_EASING", "CUBIC_EASING", "BOUNCE_EASING", "ELASTIC_EASING",
           "BACK_EASING", "QUAD_EASING", "EASE_IN", "EASE_OUT"]


def rand_project(rng, recursive):
    names = [f"M{i}" for i in range(rng.randint(1, 5))]
    if rng.random() < .3: names[-1:] = [rng.choice(BUILTIN)] + ["TRUE"] * (rng.random() < .3)
    lines = []
    for i, n in enumerate(names):
        if n in BUILTIN and rng.random() < .8: continue
        avail = names if recursive else names[i + 1:]
        if rng.random() < .4:
            body = [t for t in rand_body(rng, [], avail) if t["s"] not in ("#", "##")]
            lines.append(D(n, *body))
        else:
            ps = rng.sample(["x", "y", "zz", "pre", "M9"], rng.randint(1, 3))
            va = rng.random() < .3
            if va and rng.random() < .5: ps[-1] = "__VA_ARGS__"
            body = rand_body(rng, ps, avail)
            lines.append(DF(n, ps, va, *body))
    rng.shuffle(lines)
    for _ in range(rng.randint(1, 3)):
        lines.append(T(*toks(use(rng, names) + " ; " + use(rng, names) + " ;")))
    if rng.random() < .3:   # a call spread over several lines
        n = rng.choice(names)
        lines += [T(*toks(n + "( 1 ,")), T(*toks("__LINE__ a")), T(*toks(") ; __LINE__ tail"))]
    lines.append(T(*toks("__LINE__ __FILE__ last")))
    return Project([{"path": ["env.dme"], "kind": "dm", "lines": lines}])


def chain(n, fn):
    """A non-recursive chain of n macros, within the depth the documentation promises."""
    if fn:
        lines = [DF(f"C{i}", ["x"], False, *toks(f"C{i+1}(x + {i})" if i < n else "x")) for i in range(n + 1)]
        return Project([{"path": ["env.dme"], "kind": "dm", "lines": lines + [T(*toks("C0(a) end"))]}])
    lines = [D(f"C{i}", *toks(f"a C{i+1} b" if i < n else "core")) for i in range(n + 1)]
    return Project([{"path": ["env.dme"], "kind": "dm", "lines": lines + [T(*toks("C0 end"))]}])


RECURSIVE = ["A:A A", "A:A + A + A;", "A:B B;B:A A", "F(x):F(x x)", "F(x):F(x) F(x)", "F(x):F(F(x))", "F(x):F((x, x))",
             "A:F(A) A;F(x):x x", "F(x):F(#x) F(x)", "F(x,y):F(y, x) F(x, y)", "A:A", "A:B;B:C;C:A", "F(x):G(x) G(x);G(x):F(x) F(x)"]


def recursive(spec):
    lines = []
    for d in spec.split(";"):
        if ":" not in d: continue
        h, b = d.split(":")
        lines.append(DF(h[0], h[2:-1].split(","), False, *toks(b)) if "(" in h else D(h, *toks(b)))
    lines.append(T(*toks("A ; F(1, 2) ; F(1) ; end")))
    return Project([{"path": ["env.dme"], "kind": "dm", "lines": lines}])


def run(c):
    al = [D("A", INT(1)), D("A", *toks("B")), D("A", *toks("F(2) x")), D("B", *toks("A + F")), DF("F", ["x"], False, *toks("x + x")),
          DF("F", ["x"], False, *toks("A x")), DF("F", ["x"], False, *toks("# x p ## x")),
          DF("F", ["x", "y"], False, *toks("y , x")), DF("F", ["x", "y"], True, *toks("[ y ] # y")), DF("F", ["__VA_ARGS__"], True, *toks("v ( __VA_ARGS__ )")),
          T(*toks("A ; B ;")), T(*toks("F(A) ; F ; F()")), T(*toks("F(1, a) ; F(q, (1, 2), F(3), \"s\")")), T(*toks("F(F(7))"))]
    n = 4 if c.quick else 5
    pp.check(c, f"all programs of at most {n} lines", run_gen(c, "all", al, n, nontrivial), nontrivial)
    ps = [chain(n, f) for n in (1, 2, 10, 20, 27) for f in (False, True)]
    ps += [recursive(s) for s in RECURSIVE]
    ps += [rand_project(c.rng, i % 4 == 0) for i in range(3000 if c.quick else 40000)]
    pp.check(c, "chains, recursion and random macro sets", run_cases(c, ps), nontrivial)
    return c.finish("a behaviour is one program; non-trivial when it defines a macro and produces more than two tokens", exhaustive=False)
