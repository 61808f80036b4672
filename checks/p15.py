"""P15: saving and loading maps (spec/MapStore.tla, MapText.tla)."""
from vlib import died, Raw
import maps


def expected(state, dims, objs):
    dx, dy, dz = dims
    g = state["grid"]
    return {"dims": dims, "table": [[[g[(z * dy + y) * dx + x] for x in range(dx)] for y in range(dy)] for z in range(dz)],
            "dict": [[e["k"], [objs[o] for o in e["objs"]]] for e in state["dict"]]}


def judge(c, group, em, work):
    """work[cid] = (dims, concrete objects, ops, plain)"""
    reqs = []
    for e in em:
        dims, objs, ops = work(e)
        con = [{"o": "entry", "a": 0, "objs": [objs[1]]}]
        for o in ops:
            o = dict(o)
            if o["o"] == "entry":
                o["objs"] = [objs[x] for x in o["objs"]]
            if o["o"] == "tile":
                i = o["a"] - 1
                o["c"] = [i % dims[0] + 1, i // dims[0] % dims[1] + 1, i // dims[0] // dims[1] + 1]
            con.append(o)
        reqs.append(({"k": "map", "dims": dims, "ops": con}, [expected(s, dims, objs) for s in e["seen"]]))
    for (req, want), o in zip(reqs, c.replay([r for r, _ in reqs])):
        c.count(group, any(x["vars"] for op in req["ops"] if op["o"] == "entry" for x in op["objs"]), req)
        if died(o):
            c.fail(died(o), req, want, o); continue
        got = [{k: d.get(k) for k in ("dims", "table", "dict")} if "error" not in d else d for d in o]
        if got != want:
            c.fail("the loaded map differs from the saved one", req, want, o)
        elif any("text_differs" in d for d in o):
            c.fail("writing the loaded map gives another text", req, want, [d.get("text_differs") for d in o])
        elif any(d["views_differ"] for d in o):
            c.fail("the views of a map disagree", req, want, o)
        else:
            c.sample(req, want, o)


def objects(c, n):
    return {i: maps.obj(c.rng) for i in range(1, n + 1)}


def run(c):
    q = c.quick
    r = c.rng
    for name, nops, keys, dims in [("histories", 4, {0, 51}, [1, 2, 1]), ("histories, two-letter keys", 4, {52, 2703}, [1, 1, 2])] + ([] if q else [("long histories", 5, {0, 1}, [2, 1, 1]), ("histories, three-letter keys", 4, {2704, 65534}, [2, 1, 1])]):
        em = c.tlc("MapStore", {"Mode": "gen", "MaxOps": nops, "NKeys": keys, "NTiles": dims[0] * dims[1] * dims[2]})
        judge(c, name, em, lambda e: (dims, objects(c, 3), e["ops"]))
    # random histories
    cases, work = [], []
    for _ in range(3000 if q else 30000):
        dims = [r.randint(1, 5), r.randint(1, 5), r.randint(1, 3)]
        n = dims[0] * dims[1] * dims[2]
        objs = objects(c, 8)
        top = r.choice([10, 10, 51, 60, 60, 2703, 2800, 65534])
        pool = [k for k in {r.choice([r.randint(1, top), top, 51, 52, 53, 2703, 2704]) for _ in range(6)} if k <= top]
        known, grid, saved, ops = {0}, [0] * n, {}, []
        for _ in range(r.randint(4, 30)):
            o = r.choice(["entry", "entry", "tile", "tile", "tile", "save", "load", "drop"])
            if o == "entry":
                k = r.choice(pool or [0])
                known.add(k); ops.append({"o": o, "a": k, "b": 0, "objs": [r.randint(1, 8) for _ in range(r.randint(1, 4))]})
            elif o == "tile":
                i, k = r.randint(1, n), r.choice(sorted(known))
                grid[i - 1] = k; ops.append({"o": o, "a": i, "b": k, "objs": []})
            elif o == "drop":
                dead = [k for k in known if k not in grid]
                if dead and len(known) > 1:
                    k = r.choice(sorted(dead)); known.discard(k); ops.append({"o": o, "a": k, "b": 0, "objs": []})
            elif o == "save":
                f = r.randint(1, 2); saved[f] = (set(known), list(grid)); ops.append({"o": o, "a": f, "b": 0, "objs": []})
            elif saved:
                f = r.choice(sorted(saved)); known, grid = set(saved[f][0]), list(saved[f][1]); ops.append({"o": o, "a": f, "b": 0, "objs": []})
        ops += [{"o": "save", "a": 1, "b": 0, "objs": []}, {"o": "load", "a": 1, "b": 0, "objs": []}]
        cases.append({"tiles": n, "ops": ops}); work.append((dims, objs, ops))
    em = c.tlc("MapStore", {"Mode": "cases", "MaxOps": 0, "NKeys": set(), "NTiles": 0}, cases=cases)
    judge(c, "random histories", em, lambda e: work[e["cid"] - 1])
    # every short string content, in whatever form the writer gives it
    u = ['a', '\\"', '\\\\', ';', '}', '{', ',', ')', '/', '\t', "'", '=', '"', '\n', ' ', '\\n']
    units = Raw("{" + ", ".join("<<" + ", ".join('"' + {"\\": "\\\\", '"': '\\"', "\t": "\\t", "\n": "\\n"}.get(x, x) + '"' for x in t) + ">>" for t in u) + "}")
    em = c.tlc("MapText", {"Mode": "gen", "Units": units, "MaxUnits": 3})
    seen, reqs = set(), []
    for e in em:
        s = "".join("".join(x) for x in e["content"])
        if s in seen:
            continue
        seen.add(s)
        o = {"path": "/obj", "vars": [["v", {"str": s}], ["w", {"num": maps.bits(1)}], ["l", {"list": [[{"str": s}, None], [{"str": s or "k"}, {"str": s}]]}]]}
        reqs.append(({"k": "map", "dims": [1, 1, 1], "ops": [{"o": "entry", "a": 0, "objs": [o, {"path": "/turf", "vars": []}]}, {"o": "save", "a": 1}, {"o": "load", "a": 1}]}, o))
    for (req, o), got in zip(reqs, c.replay([x for x, _ in reqs])):
        c.count("every short string", True, req)
        want = [[0, [o, {"path": "/turf", "vars": []}]]]
        if died(got) or "error" in got[0] or got[0]["dict"] != want:
            c.fail("a string value is not the one saved", req, want, got)
        elif "text_differs" in got[0]:
            c.fail("writing the loaded map gives another text", req, want, got)
    return c.finish("a behaviour is a history of edits, saves and loads; trivial when no object carries a value", exhaustive=False)
