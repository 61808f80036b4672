"""P13: override chains (spec/ObjTree.tla)."""
from vlib import died
from tree import Gen, render, run_programs, errors, wanted_errors


def difference(e, o):
    got, rest = errors(o)
    want = wanted_errors(e)
    if rest:
        return "an unexpected diagnostic", [], rest
    if got != want:
        return "diagnostics differ", sorted(want - got), sorted(got - want)
    ps = {(p["p"], p["x"]): p for p in e["procs"]}
    have = {(p, x): v for p, t in o["types"].items() for x, v in t["procs"].items()}
    if set(ps) != set(have):
        return "the set of procs differs", sorted(set(ps) - set(have)), sorted(set(have) - set(ps))
    for key, p in ps.items():
        h = have[key]
        if h["lines"] != p["vals"]:
            return f"definitions of {key} in the wrong order", p["vals"], h["lines"]
        if (h["decl"] or None) != ([p["decl"], p["kind"]] if p["decl"] else None):
            return f"wrong declaration of {key}", p, h
        if h["final"] != p["final"]:
            return f"{key} declared final or not", p, h
    for w, g in zip(e["chains"], o["chains"]):
        if g == "no type":
            return "a type is missing", w, g
        chain = [list(x) for x in w["chain"]]
        if g["chain"] != chain:
            return f"wrong chain of parent calls from {w['p']} {w['x']}", chain, g["chain"]
        if (g["decl"] or []) != list(w["decl"]):
            return f"wrong declaration found from {w['p']} {w['x']}", w["decl"], g["decl"]
    return None


def run(c):
    q = c.quick
    plans = [("one family", 3000 if q else 30000, (2, 7), .06, [["datum"]], 1, .9),
             ("several families and the global scope", 2000 if q else 20000, (3, 9), .05, [["datum"], ["datum", "a"], ["obj"], ["mob"], ["atom", "movable"]], 2, .8),
             ("redirected parents", 2500 if q else 25000, (4, 8), .35, [["datum"], ["datum", "a"], ["obj"]], 1, .9)]
    for name, n, size, parents, tops, depth, procs in plans:
        progs, texts = [], []
        for _ in range(n):
            g = Gen(c.rng, procs, parents, tops, depth=depth, pnames=("pa",) if c.rng.random() < .4 else ("pa", "pb"))
            p = g.program(c.rng.randint(*size))
            progs.append(p); texts.append(render(c.rng, p))
        for k, outs, o in run_programs(c, progs, texts, False, True):
            c.count(name, any(len(x["chain"]) > 1 for x in outs[0]["chains"]), texts[k])
            if died(o):
                c.fail(died(o), texts[k], None, o); continue
            diffs = [difference(e, o) for e in outs]
            if all(diffs):
                d = diffs[-1]
                c.fail(" / ".join(x[0] for x in diffs), texts[k], d[1], d[2])
            elif any(len(x["chain"]) > 2 for x in outs[0]["chains"]):
                c.sample(texts[k], outs[0]["chains"], o["chains"])
    return c.finish("a behaviour is one whole program with the chains of all its procs; trivial when no chain has two links", exhaustive=False)
