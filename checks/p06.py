"""P06: include order, include-once and search order (spec/Preproc.tla)."""
import pp
from pp import *


def nontrivial(pj, e):
    return any(l["k"] == "include" for l in pj.files[0]["lines"]) and len(e["fids"]) > 1


PATHS = (("env.dme",), ("a", "x.dm"), ("a", "y.dm"), ("y.dm",))


def spell(rng, frm, to):
    """A way of writing path `to` in a file at `frm`."""
    if rng.random() < .45:
        p = list(to)
    else:
        d, t = list(frm[:-1]), list(to)
        while d and len(t) > 1 and d[0] == t[0]:
            d.pop(0); t.pop(0)
        p = [".."] * len(d) + t
    if rng.random() < .1 and len(frm) > 1 and p[0] != "..":
        p = ["..", frm[-2]] + p
    return p


def rand_project(rng):
    dirs = [[], ["a"], ["b"], ["a", "c"]]
    names = ["x.dm", "y.dm", "z.dm", "w.dme"]
    paths, seen = [["env.dme"]], set()
    for _ in range(rng.randint(1, 8)):
        p = rng.choice(dirs) + [rng.choice(names)]
        if tuple(p) not in seen:
            seen.add(tuple(p)); paths.append(p)
    files = [{"path": p, "kind": "dm", "lines": []} for p in paths]
    for p, k in ((["a", "m.dmm"], "dmm"), (["skin.dmf"], "dmf"), (["b", "s.dms"], "dms"), (["a", "readme.txt"], "other"), (["noext"], "other")):
        if rng.random() < .4:
            files.append({"path": p, "kind": k, "lines": []})
    n, total = len(paths), len(files)
    for i in range(n):
        ls = files[i]["lines"]
        mode = rng.random()
        guard = f"G{i}"
        if i and mode < .15: ls += [IFN(guard), D(guard, INT(1)), MULT]
        elif i and mode < .3: ls.append(MULT)
        forward = i and .15 <= mode < .3
        depth = 0
        for j in range(rng.randint(1, 3 if forward else 7)):
            r = rng.random()
            if r < .6:
                lo = i + 1 if forward else 1
                if lo >= total: continue
                t = rng.randint(lo, total - 1)
                l = INC(*spell(rng, paths[i], files[t]["path"]))
                if rng.random() < .15: l["sep"] = "\\"
                ls.append(l)
            elif r < .65: ls.append(INC(rng.choice(["missing.dm", "a"]), "nope.dm"))
            elif r < .7: ls.append(U("Q")) if rng.random() < .5 else ls.append(D("Q", INT(1)))
            elif r < .75: ls.append(IFD("Q")); depth += 1
            elif r < .8 and depth: ls.append(ENDIF); depth -= 1
            else: ls.append(T(ID(f"t{i}_{j}"), ID("__FILE__")))
        ls += [ENDIF] * depth
        if i and mode < .15: ls += [ENDIF]
    return Project(files, newline=rng.random() < .6)


def run(c):
    al = [INC("a", "x.dm"), INC("x.dm"), INC("y.dm"), INC("..", "y.dm"), INC("a", "y.dm"), T(ID("m"))]
    n = 4 if c.quick else 5
    pp.check(c, f"all include graphs over four files with at most {n} lines",
             run_gen(c, "gen", al, n, nontrivial, paths=PATHS), nontrivial)
    ps = [rand_project(c.rng) for _ in range(3000 if c.quick else 30000)]
    pp.check(c, "random include graphs", run_cases(c, ps), nontrivial)
    return c.finish("a behaviour is one project; non-trivial when the environment includes something and at least two files are read", exhaustive=False)
