"""P10: constant folding (spec/Fold.tla, spec/FoldOne.tla)."""
from vlib import died
from fold import num, leaf, node, lst, text, tla_set, agrees

BIN = ["+", "-", "*", "/", "%", "%%", "**", "<", "<=", ">", ">=", "==", "!=", "<>", "&", "|", "^", "<<", ">>", "&&", "||"]
LEAVES = [num(0), num(1), num(2), num(5), num(7), num(1, 2), num(5, 2), num(255), num(16777215), num(24), num(33), node("un", "-", num(1)), node("un", "-", num(7)),
          node("un", "-", num(5, 2)), leaf("null"), leaf("str", ""), leaf("str", "a"), leaf("str", "1"), leaf("path", "/obj"), leaf("path", "/datum")]
FEW = [num(0), num(3), num(1, 2), node("un", "-", num(2)), leaf("null"), leaf("str", ""), leaf("str", "a")]
BATCH = 40


SPACES = [[["r", "red"], ["g", "green"], ["b", "blue"]], [["h", "hue"], ["s", "saturation"], ["v", "value"]],
          [["h", "hue"], ["s", "saturation"], ["l", "luminance"]], [["h", "hue"], ["c", "chroma"], ["y"]]]


def colour(rng, depth):
    """rgb() with its components by name or position, in any colour space."""
    sp = rng.choice([0, 1, 1, 2, 2, 3])
    top = [255] * 3 if sp == 0 else [360, 100, 100]
    val = lambda m: num(rng.choice([0, m, m // 2, m // 3, rng.randint(0, m), rng.randint(0, m), rng.randint(0, m), rng.randint(0, m + m // 20)]))
    kw = lambda n, x: node("kw", n, x)
    comps = [val(m) for m in top]
    bare = rng.choice([0, 0, 0, 1, 2, 3])
    tail = [kw(rng.choice(SPACES[sp][i]), comps[i]) for i in range(bare, 3)]
    alpha = rng.random() < .4
    if alpha and (bare < 3 or rng.random() < .5):
        tail.append(kw(rng.choice(["a", "alpha"]), val(255)))
    if rng.random() < (.9 if bare and sp else .3):
        tail.append(kw("space", num(sp if rng.random() < .95 else 4)))
    if rng.random() < .06 and tail:
        tail.pop(rng.randrange(len(tail)))
    if rng.random() < .03:
        tail.append(kw(rng.choice(["x", "r", "h", "space"]), num(1)))
    rng.shuffle(tail)
    head = comps[:bare] + ([val(255)] if bare == 3 and alpha and not any(t["o"] in ("a", "alpha") for t in tail) else [])
    return node("rgb", "", *head, *tail)


def rnd(rng, depth):
    r = rng.random()
    if depth == 0 or r < .1:
        return rng.choice([num(rng.randint(0, 9)), num(rng.randint(0, 300)), num(rng.randint(0, 16777215)), num(rng.randint(0, 63), rng.choice([2, 4, 8])),
                           leaf("null"), leaf("str", rng.choice(["", "a", "bc", "0"])), num(rng.randint(0, 3)), num(rng.randint(0, 3)), leaf("path", "/obj")])
    if r < .25:
        return node("un", rng.choice("-!~"), rnd(rng, depth - 1))
    if r < .35:
        return node("if", "", rnd(rng, depth - 1), rnd(rng, depth - 1), rnd(rng, depth - 1))
    if r < .40:
        f = rng.choice(["sin", "cos", "arcsin", "arccos"])
        x = num(rng.choice([0, 1, 30, 90, 150, 180, 270, 360, 450])) if f in ("sin", "cos") else num(rng.choice([0, 1]))
        return node("trig", f, *([node("un", "-", x) if rng.random() < .3 else x] + ([num(1)] if rng.random() < .05 else []))) if rng.random() < .9 \
            else node("trig", f, rnd(rng, depth - 1))
    if r < .43:
        return colour(rng, depth)
    if r < .46:
        return node("rgb", "", *[num(rng.choice([0, 1, 15, 16, 127, 128, 255, 255, rng.randint(0, 255), rng.randint(0, 300)])) if rng.random() < .95
                                 else rnd(rng, depth - 1) for _ in range(rng.choice([3, 3, 4, 2]))])
    if r < .56:
        r = rng.random()
        if r < .1:
            return leaf("res", rng.choice(["a.dmi", "icons/b.png"]))
        if r < .2:
            return node("nameof", "", *[leaf("ref", rng.choice(["foo", "bar_1"])) for _ in range(rng.choice([1, 1, 1, 2]))])
        if r < .25:
            return node("call", rng.choice(["text", "rand", "helper"]), rnd(rng, depth - 1))
        ent = [node("assoc", "", rng.choice([leaf("ref", rng.choice(["k", "size"])), leaf("str", "key"), leaf("path", "/obj"), num(3)]), rnd(rng, depth - 1))
               if rng.random() < .4 else rnd(rng, depth - 1) for _ in range(rng.randint(0, 4))]
        return lst(rng.choice(["list", "list", "list", "icon", "matrix", "newlist", "sound", "filter", "file", "generator", "vector"]), *ent)
    return node("bin", rng.choice(BIN), rnd(rng, depth - 1), rnd(rng, depth - 1))


def compare(c, group, items):
    reqs, parts = [], []
    for i in range(0, len(items), BATCH):
        part = [(e, v, text(e, c.rng)) for e, v in items[i:i + BATCH]]
        parts.append(part)
        reqs.append({"k": "tree", "text": "/datum/t\n" + "".join(f"\tvar/v{j} = {t}\n" for j, (_, _, t) in enumerate(part))})
    # a batch that takes the process down is split to find the culprit
    for part, r, o in zip(parts, reqs, c.replay(reqs)):
        if died(o):
            for e, v, t in part:
                one = c.replay([{"k": "tree", "text": f"/datum/t\n\tvar/v0 = {t}\n"}])[0]
                if died(one):
                    c.fail(died(one), t, v, one)
            continue
        vs = o["types"].get("/datum/t", {}).get("vars", {})
        byline = {}
        for l, d, *_ in o["errs"]:
            byline.setdefault(l, []).append(d)
        for j, (e, v, t) in enumerate(part):
            got = vs.get(f"v{j}", {}).get("c")
            errs = byline.get(j + 2, [])
            c.count(group, v["k"] not in ("open",), t)
            if v["k"] == "open":
                continue
            if v["k"] == "err":
                if not errs or got is not None:
                    c.fail("a wrong operand was folded without a diagnostic", t, v, {"value": got, "errs": errs})
            elif errs:
                c.fail("a constant expression was diagnosed", t, v, {"value": got, "errs": errs})
            elif not agrees(v, got):
                c.fail("wrong value", t, v, got)
            elif len(t) > 20:
                c.sample(t, v, got)


def run(c):
    q = c.quick
    for name, mode, leaves, bins in [("every operator on every pair of operands", "gen1", LEAVES, BIN),
                                     ("every pair of operators", "gen2", FEW[:3] + FEW[4:] if q else FEW, ["+", "-", "*", "/", "%%", "<", "==", "&", "<<", "&&", "||"] if q else BIN)]:
        em = c.tlc("FoldOne", {"Mode": mode, "Leaves": tla_set(leaves), "BinOps": set(bins), "UnOps": {"-", "!", "~"}})
        compare(c, name, [(e["e"], e["v"]) for e in em])
    cases = [{"e": colour(c.rng, 0)} for _ in range(2000 if q else 20000)]
    em = c.tlc("FoldOne", {"Mode": "cases", "Leaves": set(), "BinOps": set(), "UnOps": set()}, cases=cases)
    compare(c, "colours", [(cases[e["cid"] - 1]["e"], e["v"]) for e in em])
    cases = [{"e": rnd(c.rng, c.rng.choice([2, 3, 3, 4]))} for _ in range(8000 if q else 80000)]
    em = c.tlc("FoldOne", {"Mode": "cases", "Leaves": set(), "BinOps": set(), "UnOps": set()}, cases=cases)
    compare(c, "random expressions", [(cases[e["cid"] - 1]["e"], e["v"]) for e in em])
    return c.finish("a behaviour is the folding of one initializer; trivial when the specification leaves the value open", exhaustive=False)
