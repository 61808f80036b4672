"""P12: the object tree (spec/ObjTree.tla)."""
from vlib import died
from tree import Gen, render, run_programs, errors, wanted_errors, MESSAGE

FLAGS = {"static": "static/", "const": "const/", "tmp": "tmp/", "final": "final/", "SpacemanDMM_private": "SpacemanDMM_private/", "SpacemanDMM_protected": "SpacemanDMM_protected/"}


def difference(e, o):
    """The first way in which observation o differs from model outcome e, or None."""
    got, rest = errors(o)
    want = wanted_errors(e)
    got = {x for x in got if x[1] not in ("dup", "precedes")}
    want = {x for x in want if x[1] not in ("dup", "precedes")}
    if rest:
        return "an unexpected diagnostic", [], rest
    if got != want:
        return "diagnostics differ", sorted(want - got), sorted(got - want)
    types = {t["p"]: t for t in e["types"]}
    ours = {p for p, t in o["types"].items() if p and (t["own"] or t["vars"] or t["procs"])}
    if ours != set(types):
        return "the set of types differs", sorted(set(types) - ours), sorted(ours - set(types))
    for p, t in types.items():
        if o["types"][p]["parent"] != t["up"]:
            return f"wrong parent of {p}", t["up"], o["types"][p]["parent"]
        if o["types"][p]["path_parent"] != p.rsplit("/", 1)[0]:
            return f"wrong path parent of {p}", p.rsplit("/", 1)[0], o["types"][p]["path_parent"]
        have = [d for d in o["descend"][p] if o["types"].get(d, {}).get("own")]
        if sorted(have) != sorted(t["sub"]):
            return f"wrong descendants of {p}", sorted(t["sub"]), sorted(have)
    vs = {(v["p"], v["x"]): v for v in e["vars"]}
    have = {(p, x): v for p, t in o["types"].items() for x, v in t["vars"].items()}
    if set(vs) != set(have):
        return "the set of variables differs", sorted(set(vs) - set(have)), sorted(set(have) - set(vs))
    undef = {l for l, k, _ in want if k == "undef"}
    for key, v in vs.items():
        h = have[key]
        w = {"line": v["line"], "decl": v["decl"] != 0}
        if w["decl"]:
            w["type"] = "/".join(v["ty"]); w["flags"] = "".join(f for m, f in FLAGS.items() if m in v["mods"])
        g = {k: h[k] for k in w}
        if g != w:
            return f"wrong variable {key}", w, g
    q = 0
    for v, g in zip(e["values"], o["values"]):
        if v["line"] == 0:
            if g is not None:
                return f"a variable found which no ancestor defines: {v['p']} {v['x']}", None, g
            continue
        if not isinstance(g, dict) or g["line"] != v["line"] or (g["decl"] or 0) != v["decl"]:
            return f"wrong value looked up: {v['p']} {v['x']}", v, g
        own = vs[(v["at"], v["x"])]
        if own["val"]["k"] == "none":
            if g["c"] not in (None, {"k": "null"}):
                return "a value never given", own, g
        elif g["c"] is not None and (own["val"]["k"] != "num" or g["c"]["k"] != "num"):
            return "wrong value", own, g
        elif g["c"] is not None:
            import struct
            if struct.unpack("f", struct.pack("I", g["c"]["bits"]))[0] != own["val"]["n"]:
                return "wrong value", own, g
            q += 1
        elif v["at"] and v["decl"] and not (set(vs[key]["mods"]) & {"static"} for key in [(v["at"], v["x"])]):
            return "a value is missing", own, g
    ps = [t["p"] for t in e["types"]]
    it = iter(o["subtype"])
    for a in ps:
        for b in ps:
            g, w = next(it), a in types[b]["sub"] or a == b
            own_a = o["types"][a]["own"]
            if own_a and g != w:
                return f"is {a} a subtype of {b}", w, g
    return None


def run(c):
    q = c.quick
    plans = [("shallow programs", 2500 if q else 25000, (1, 5), .12, [["datum"], ["datum"], ["obj"], [], ["foo"]], 1, .1),
             ("nested programs", 1500 if q else 15000, (2, 6), .08, [["datum"], ["obj"], ["atom", "movable"], ["mob"], ["turf"], ["client"], ["world"], ["list"]], 2, .1),
             ("redirected parents", 3000 if q else 30000, (3, 7), .5, [["datum"], [], ["datum"], ["obj"]], 1, .0)]
    for name, n, size, parents, tops, depth, procs in plans:
        progs, texts = [], []
        for _ in range(n):
            tp = [t for t in tops if t] or [["datum"]]
            g = Gen(c.rng, procs, parents, [t or [c.rng.choice("abc")] for t in tops] if [] in tops else tp, depth=depth)
            p = g.program(c.rng.randint(*size))
            progs.append(p); texts.append(render(c.rng, p) + "\n" * c.rng.choice([0, 0, 1, 3]))
        for k, outs, o in run_programs(c, progs, texts, True, False):
            c.count(name, len(outs[0]["types"]) > 1, texts[k])
            if died(o):
                c.fail(died(o), texts[k], None, o); continue
            diffs = [difference(e, o) for e in outs]
            if all(diffs):
                d = diffs[0] if len(diffs) == 1 else (" / ".join(x[0] for x in diffs), *diffs[-1][1:])
                c.fail(d[0], texts[k], d[1], d[2])
            else:
                c.sample(texts[k], {"types": outs[0]["types"], "errs": outs[0]["errs"]}, {p: t["parent"] for p, t in o["types"].items()})
    return c.finish("a behaviour is one whole program; trivial when it declares fewer than two types", exhaustive=False)
