"""P01: interval tree = ordered multimap with exact overlap queries (spec/IntervalMap.tla)."""
from vlib import died


def per_value(content):
    return [[e["s"], e["e"], v] for e in content for v in e["v"]]


def rand_case(rng, long_):
    top = rng.choice([6, 12, 25])
    n = rng.randint(20, 150 if long_ else 60)
    style = rng.random()
    ops, live = [], []
    for i in range(n):
        def iv():
            if style < .25:
                p = rng.randint(0, top); return p, p
            s = rng.randint(0, top)
            return s, rng.randint(s, min(top, s + rng.choice([0, 1, 3, top])))
        r = rng.random()
        if style > .85 and i < n // 2:      # ascending or descending runs force rotations
            s = i % (top + 1); s = s if style > .92 else top - s
            ops.append({"op": "ins", "s": s, "e": rng.randint(s, top), "v": i}); live.append((ops[-1]["s"], ops[-1]["e"]))
        elif r < .5 or not live:
            s, e = iv(); ops.append({"op": "ins", "s": s, "e": e, "v": i}); live.append((s, e))
        elif r < .9:
            s, e = rng.choice(live) if rng.random() < .9 else iv()
            ops.append({"op": "rem", "s": s, "e": e}); live = [x for x in live if x != (s, e)]
        else:
            w = []
            for j in range(rng.randint(0, 5)):
                s, e = iv(); w.append({"s": s, "e": e, "v": 1000 + 10 * i + j}); live.append((s, e))
            ops.append({"op": "mrg", "with": w})
    return {"ops": ops, "max": top, "qs": [[a, b] for a in range(top + 1) for b in range(a, top + 1)]}


def compare(c, group, case, exp):
    pass


def check_batch(c, group, items):
    """items: list of (ops, max, expectation)"""
    obs = c.replay([{"k": "itree", "ops": o, "max": m} for o, m, _ in items])
    for (ops, mx, e), o in zip(items, obs):
        content = e["content"]
        want = {"content": per_value(content), "consumed": per_value(content)}
        byq = []
        keyed = {(x["s"], x["e"]): x["v"] for x in content}
        for q in e["queries"]:
            byq.append([[s, t] for s, t in q for _ in keyed[(s, t)]])
        want["queries"] = byq
        want["gets"] = [[keyed.get((a, b)), (a, b) in keyed, keyed.get((a, b), [])]
                        for a in range(mx + 1) for b in range(a, mx + 1)]
        first = lambda x: [x["s"], x["e"], x["v"]]
        want["min"] = first(content[0]) if content else None
        want["max"] = first(content[-1]) if content else None
        want["empty"] = not content
        d = died(o)
        c.count(group, len(content) >= 2, ops)
        if d:
            c.fail(f"interval tree operation died: {d}", ops, want, o); continue
        h = o.pop("height")
        bad = [k for k in want if o.get(k) != want[k]]
        if bad:
            c.fail(f"interval tree disagrees with the multimap on {bad}", ops, {k: want[k] for k in bad}, {k: o.get(k) for k in bad})
        elif h > e["maxh"]:
            c.fail(f"height {h} of {len(content)} intervals exceeds the AVL bound {e['maxh']}", ops, e["maxh"], h)
        elif len(ops) >= 4:
            c.sample(ops, {k: want[k] for k in ("content", "min", "max")}, {k: o[k] for k in ("content", "min", "max")})


def run(c):
    deep = not c.quick
    for mode, point, nops in ([("all", 2, 3), ("perm", 5, 7)] if c.quick else [("all", 2, 4), ("perm", 6, 8), ("perm", 5, 9)]):
        em = c.tlc("IntervalMap", {"MaxPoint": point, "MaxOps": nops, "Mode": mode})
        check_batch(c, f"{mode}-{point}-{nops}", [(e["ops"], point, e) for e in em])
    cases = [rand_case(c.rng, deep) for _ in range(400 if c.quick else 4000)]
    em = c.tlc("IntervalMap", {"MaxPoint": 0, "MaxOps": 0, "Mode": "cases"}, cases=cases)
    check_batch(c, "random", [(cases[e["cid"] - 1]["ops"], cases[e["cid"] - 1]["max"], e) for e in em])
    return c.finish("a behaviour is one operation history; non-trivial when at least two intervals are stored at its end", exhaustive=False)
