"""P07: block structure (spec/Indent.tla)."""
from vlib import died, Raw, tla_value

KINDS = [("inconsistent indentation", "uneven"), ("inconsistent multiple", "jump"), ("unmatched right brace", "unmatched")]


def render(rng, prog, one_line=False):
    out = []
    for l in prog:
        head = "".join(rng.choice("\t ") for _ in range(l["n"])) if rng.random() < .3 else rng.choice("\t ") * l["n"]
        sep = rng.choice([" ", "  ", "\t", "/**/"])
        body = sep.join(l["t"])
        if not l["t"] and rng.random() < .5:
            body = rng.choice(["// note", "/* note */", "//"])
        out.append(head + body + rng.choice(["", "", " ", " // x", "\t"]))
    return "\n".join(out) + rng.choice(["\n", "", "\n\n"])


def compare(c, group, progs, ems):
    texts = [render(c.rng, p) for p in progs]
    obs = c.replay([{"k": "indent", "text": t} for t in texts])
    for p, t, e, o in zip(progs, texts, ems, obs):
        c.count(group, len(p) > 1 and any(l["n"] for l in p) or any("{" in l["t"] for l in p), p)
        d = died(o)
        if d or o.get("over"):
            c.fail(f"no end: {d}", t, e, o); continue
        want = [[x["t"], x["l"]] for x in e["out"]]
        got = o["toks"]
        if [w[0] for w in want] != [g[0] for g in got] or any(w[1] and w[1] != g[1] for w, g in zip(want, got)):
            c.fail("block structure differs", t, want, got); continue
        errs = [[next((k for s, k in KINDS if s in x), x), l] for x, l in o["errs"]]
        if [[x["e"], x["l"]] for x in e["errs"]] != errs:
            c.fail("diagnostics differ", t, e["errs"], o["errs"]); continue
        if len(want) > 8:
            c.sample(t, want, got)


def lines(contents, ns, blank=True):
    s = {tla_value({"n": n, "t": t}) for n in ns for t in contents}
    if blank:
        s.add(tla_value({"n": 0, "t": []}))
    return Raw("{" + ", ".join(sorted(s)) + "}")


def tree(rng, depth):
    ns = []
    for _ in range(rng.randint(1, 3)):
        w = [rng.choice("abcdxyz") for _ in range(rng.randint(1, 3))]
        if rng.random() < .2:
            w += ["(", "x", ")"]
        ns.append({"w": w, "k": tree(rng, depth - 1) if depth and rng.random() < .6 else []})
    return ns


def run(c):
    q = c.quick
    for name, contents, ns, n in [
        ("lines with braces and parentheses", [["x"], ["x", "{"], ["}"], ["x", "("], [")", "x"], ["{", "x"], ["x", "}"], ["x", "{", "}"], ["x", ";", "}"]], range(0, 4), 3),
        ("braces", [["x"], ["x", "{"], ["}"], ["{"]], range(0, 3), 4 if q else 5),
        ("plain lines", [["x"]], range(0, 5), 6 if q else 7),
        ("brackets", [["x", "["], ["]", "x"], ["x", "("], [")"], ["x"]], range(0, 3), 3),
    ]:
        em = c.tlc("Indent", {"Mode": "gen", "Lines": lines(contents, ns), "MaxLines": n})
        compare(c, f"all programs of at most {n} lines: {name}", [e["prog"] for e in em], em)
    cases = []
    for _ in range(5000 if q else 50000):
        r = c.rng
        step = r.choice([1, 1, 2, 4])
        prog, cur = [], 0
        for _ in range(r.randint(2, 12)):
            cur = max(0, cur + r.choice([0, 0, step, step, -step, -step, -2 * step, r.choice([1, -1, 2 * step])] if r.random() < .9 else [r.randint(-3, 5)]))
            t = r.choice([["x"], ["a", "b"], ["a"], ["a", ";", "b"], [], ["x", "{"], ["}"], ["a", "}"], ["f", "(", "x", ")"], ["f", "("], [")"], ["["], ["]"], ["{"]])
            prog.append({"n": cur, "t": t})
        cases.append({"prog": prog})
    em = c.tlc("Indent", {"Mode": "cases", "Lines": set(), "MaxLines": 0}, cases=cases)
    compare(c, "random programs", [cases[e["cid"] - 1]["prog"] for e in em], em)
    trees = [{"tree": tree(c.rng, 4), "per": c.rng.choice([1, 2, 4])} for _ in range(1500 if q else 15000)]
    em = c.tlc("Indent", {"Mode": "tree", "Lines": set(), "MaxLines": 0}, cases=trees)
    compare(c, "block trees written with indentation and with braces", [e["prog"] for e in em], em)
    return c.finish("a behaviour is the processing of one program; non-trivial when it has an indented line or a brace", exhaustive=False)
