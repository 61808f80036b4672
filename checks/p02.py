"""P02: conditional compilation (spec/Preproc.tla)."""
import pp
from pp import *


def alphabet(c):
    return [T(ID("m"), INT(1), ID("A")), D("A", INT(1)), U("A"), IFD("A"), IFN("A"), IF(LIT(0)), IF(LIT(1)),
            ELIF(LIT(1)), ELIF(DEFD("A")), ELSE, ENDIF]


def rand_cond(rng, names, d=2):
    r = rng.random()
    if d == 0 or r < .4:
        return LIT(rng.choice([0, 1])) if rng.random() < .4 else DEFD(rng.choice(names))
    if r < .6:
        return NOT(rand_cond(rng, names, d - 1))
    if r < .8:
        return BIN(rng.choice(["and", "or"]), rand_cond(rng, names, d - 1), rand_cond(rng, names, d - 1))
    x = lambda: rng.choice([LIT(0), LIT(1), LIT(2), DEFD(rng.choice(names))])
    return BIN(rng.choice(["eq", "lt"]), x(), x())


def rand_lines(rng, n, names, depth0=0):
    lines, depth, k = [], depth0, 0
    while len(lines) < n:
        r = rng.random()
        k += 1
        if r < .3: lines.append(T(ID(f"m{k}"), *[ID(rng.choice(names)) for _ in range(rng.randint(0, 2))]))
        elif r < .35: lines.append(DF(rng.choice(names), ["x"], False, ID("x")))
        elif r < .42: lines.append(D(rng.choice(names), INT(rng.choice([0, 1, 2]))))
        elif r < .5: lines.append(U(rng.choice(names)))
        elif r < .53: lines.append({"k": rng.choice(["warn", "error"]), "n": f"w{k}"})
        elif r < .75 and depth < 6:
            depth += 1
            lines.append(rng.choice([IFD(rng.choice(names + ["__MAIN__"])), IFN(rng.choice(names)), IF(rand_cond(rng, names)),
                                     IF(rand_cond(rng, names)), IF(MAC(rng.choice(names)))]))
        elif r < .85 and (depth or rng.random() < .1):
            lines.append(rng.choice([ELSE, ELIF(rand_cond(rng, names)), ELIF(rand_cond(rng, names))]))
        elif depth or rng.random() < .1:
            depth = max(0, depth - 1); lines.append(ENDIF)
    while depth and rng.random() < .93:
        lines.append(ENDIF); depth -= 1
    lines.append(T(ID("last")))
    return lines


def nontrivial(pj, e):
    return any(l["k"] in ("if", "ifdef", "ifndef") for f in pj.files for l in f["lines"])


def dead_region(rng):
    """A dead region full of directives and conditions that would be diagnosed if they were live."""
    bad = [{"k": "if", "c": {"o": "raw", "s": rng.choice(["F(1, 2)", "F()", "undefined_thing", "1 +", "A B", "F(1"])}},
           D("A", INT(7)), U("Zzz"), {"k": "error", "n": "nope"}, INC("missing.dm"), T(*toks("F(1, 2) F() A"))]
    body, depth = [], 0
    for _ in range(rng.randint(1, 6)):
        l = rng.choice(bad)
        depth += l["k"] == "if"
        body.append(l)
        if depth and rng.random() < .4:
            body += [rng.choice([ELSE, {"k": "elif", "c": {"o": "raw", "s": "F(1, 2)"}}]), T(ID("dead"))]
    body += [ENDIF] * depth
    head = rng.choice([[IF(LIT(0))], [IFD("Zzz")], [IF(LIT(1)), T(ID("live")), ELSE], [IFN("A"), T(ID("no")), ELIF(LIT(0))]])
    return [DF("F", ["x"], False, ID("x")), D("A", INT(1))] + head + body + [ENDIF, T(*toks("A F(3) end"))]


def run(c):
    al = alphabet(c)
    n = 4 if c.quick else 5
    items = run_gen(c, "all", al, n, nontrivial)
    pp.check(c, f"all programs of at most {n} lines", items, nontrivial)
    rng = c.rng
    projects = []
    for _ in range(400 if c.quick else 4000):
        projects.append(Project([{"path": ["env.dme"], "kind": "dm", "lines": dead_region(rng)}]))
    for _ in range(3000 if c.quick else 40000):
        names = rng.sample(["A", "B", "C_1", "DEBUG", "if_", "defined_x", "TRUE", "FALSE", "SPACEMAN_DMM", "SLIDE_STEPS"], rng.randint(1, 3))
        projects.append(Project([{"path": ["env.dme"], "kind": "dm", "lines": rand_lines(rng, rng.randint(5, 40), names)}],
                                newline=rng.random() < .8))
    pp.check(c, "random programs", run_cases(c, projects), nontrivial)
    return c.finish("a behaviour is one program; non-trivial when it contains a conditional", exhaustive=False)
