"""P03: scoping of macro definitions, redefinitions and undefinitions (spec/Preproc.tla)."""
import pp
from pp import *

PATHS = (("env.dme",), ("f.dm",))


def nontrivial(pj, e):
    ks = [l["k"] for f in pj.files for l in f["lines"]]
    return "define" in ks and "t" in ks


def rand_project(rng):
    names = rng.sample(["A", "B", "C", "DEBUG", "FILE_DIR", "a_1", "proc_", "__x", "TRUE", "KEEP_APART"], rng.randint(1, 4))
    nfiles = rng.randint(1, 3)
    files = [{"path": ["env.dme"] if i == 0 else [f"f{i}.dm"], "kind": "dm", "lines": []} for i in range(nfiles)]
    uid = 0
    for i, f in enumerate(files):
        depth = 0
        for _ in range(rng.randint(4, 25)):
            uid += 1
            n = rng.choice(names)
            r = rng.random()
            if r < .3: f["lines"].append(D(n, ID(f"d{uid}")))
            elif r < .36: f["lines"].append(D(n))
            elif r < .42: f["lines"].append(DF(n, ["p"], False, ID(f"g{uid}"), ID("p")))
            elif r < .62: f["lines"].append(U(n))
            elif r < .7 and i + 1 < nfiles: f["lines"].append(INC(f"f{rng.randint(i + 1, nfiles - 1)}.dm"))
            elif r < .76: depth += 1; f["lines"].append(rng.choice([IFD(n), IFN(n)]))
            elif r < .8 and depth: f["lines"].append(ELSE)
            elif r < .86 and depth: depth -= 1; f["lines"].append(ENDIF)
            else: f["lines"].append(T(ID(n), P("("), INT(1), P(")"), P("+"), ID(n), P(";"), ID("u"), ID(n + "x")))
        f["lines"] += [ENDIF] * depth
    files[0]["lines"].append(T(*[t for n in names for t in (ID(n), P(";"))]))
    return Project(files)


def run(c):
    use = T(ID("A"), P("("), INT(8), P(")"), P("+"), ID("A"), P(";"), ID("B"), P(";"))
    al = [D("A", INT(1)), D("A", ID("x"), INT(2)), DF("A", ["p"], False, ID("p"), INT(3)), D("B", ID("A")), U("A"), U("B"), use]
    n = 5 if c.quick else 6
    pp.check(c, f"one file, at most {n} lines", run_gen(c, "one", al, n, nontrivial), nontrivial)
    al2 = [D("A", INT(1)), D("A", INT(2)), U("A"), use, INC("f.dm"), IFD("A"), ENDIF, D("DEBUG", INT(5)), T(ID("DEBUG"))]
    n = 3 if c.quick else 4
    pp.check(c, f"two files, at most {n} lines", run_gen(c, "two", al2, n, nontrivial, paths=PATHS), nontrivial)
    projects = [rand_project(c.rng) for _ in range(1500 if c.quick else 20000)]
    pp.check(c, "random projects", run_cases(c, projects), nontrivial)
    return c.finish("a behaviour is one project; non-trivial when it defines a macro and has text to expand it in", exhaustive=False)
