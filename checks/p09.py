"""P09: expression precedence (spec/Expr.tla)."""
from vlib import died, Raw, tla_value

BINS = ["**", "*", "/", "%", "%%", "+", "-", "<", "<=", ">", ">=", "<=>", "<<", ">>", "==", "!=", "<>", "~=", "~!", "&", "^", "|", "&&", "||",
        "=", "+=", "-=", "*=", "/=", "%=", "%%=", "&=", "|=", "^=", "<<=", ">>=", ":=", "&&=", "||=", "in", "?", ":", "to"]
CLASS = ["**", "%", "-", ">=", ">>", "<>", "&", "^", "|", "&&", "||", "=", "in", "?", ":", "to"]
PRE = ["-", "!", "~", "++", "--", "&", "*"]
PLAIN = [{"b": [], "a": []}]
DECOR = [{"b": b, "a": a} for b in ([], ["-"], ["!"], ["++"], ["&", "*"], ["~", "--"]) for a in ([], ["++"], ["--"], [".x"], ["[", "i", "]"])]
ATOMS = ["1", "2", "foo", "src", "null", '"s"', "x"]


def text(toks):
    out = ""
    for t in toks:
        if t in (".x", "?.x", "::x") and out[-1:].isdigit():
            out += " "                          # 1.x would be a number
        if t == "s[":
            out += ' "s['
        elif t == "]s":
            out += ']t"'
        elif t in (".x", "?.x", "::x"):
            out += t
        elif t in ("[", "?["):
            out += t
        else:
            out += " " + t
    return out.strip()


def norm(n):
    o = "<>" if n["o"] == "!=" and n["k"] == "bin" else n["o"]
    return [n["k"], o] + [norm(k) for k in n["kids"]]


def compare(c, group, items):
    obs = c.replay([{"k": "expr", "text": text(t)} for t, _ in items])
    for (t, e), o in zip(items, obs):
        c.count(group, sum(x in BINS for x in t) > 1, t)
        d = died(o)
        if d:
            c.fail(d, text(t), e, o)
        elif "err" in o:
            c.fail("a well-formed expression was rejected", text(t), norm(e), o)
        elif norm(o["tree"]) != norm(e):
            c.fail("the expression groups differently", text(t), norm(e), norm(o["tree"]))
        elif o["errs"] and not any("locate" in x for x in o["errs"]):
            c.fail("a well-formed expression was diagnosed", text(t), norm(e), o["errs"])
        elif len(t) > 8:
            c.sample(text(t), norm(e), norm(o["tree"]))


def gen(rng, depth, n):
    """A token list: n operators at this level, conditionals and brackets nested."""
    out = []
    for i in range(n + 1):
        if rng.random() < .25:
            out += [rng.choice(PRE) for _ in range(rng.choice([1, 1, 2]))]
        r = rng.random()
        if depth and r < .2:
            out += ["("] + gen(rng, depth - 1, rng.randint(0, 3)) + [")"]
        elif depth and r < .28:
            out += [rng.choice(["f(", "list("])]
            for k in range(rng.randint(0, 3)):
                out += ([","] if k else []) + gen(rng, depth - 1, rng.randint(0, 2))
            out += [")"]
        elif depth and r < .32:
            out += ["s["] + gen(rng, depth - 1, rng.randint(0, 2)) + ["]s"]
        else:
            out += [rng.choice(ATOMS)]
        while rng.random() < .2:
            r = rng.random()
            out += ["++"] if r < .2 else ["--"] if r < .3 else [rng.choice([".x", "?.x", "::x"])] if r < .7 else \
                [rng.choice(["[", "?["])] + gen(rng, max(0, depth - 1), rng.randint(0, 1)) + ["]"]
        if i < n:
            r = rng.random()
            if r < .15:
                out += ["?"] + gen(rng, max(0, depth - 1), rng.randint(0, 2)) + [":"]
            elif r < .2:
                out += ["in"] + gen(rng, max(0, depth - 1), 0) + ["to"]
            else:
                out += [rng.choice([b for b in BINS if b not in ("?", ":", "to")])]
    return out


def ambiguous(t):
    # `x ? [` lexes apart from `?[`, and an empty statement-like `in` after locate is not generated
    return any(a == "?" and b == "[" for a, b in zip(t, t[1:]))


def run(c):
    q = c.quick
    seqs = lambda xs: Raw("{" + ", ".join(tla_value([x]) for x in xs) + "}")
    dec = lambda ds: Raw("{" + ", ".join(tla_value(d) for d in ds) + "}")
    for name, ops, n, ds in [
        ("every pair of operators", BINS, 2, PLAIN),
        ("one operator of each level", CLASS, 4, PLAIN),
        ("prefixes and suffixes around one operator", BINS, 1, DECOR),
    ] + ([] if q else [("every triple of operators", BINS, 3, PLAIN), ("one operator of each level, five", CLASS, 5, PLAIN),
                       ("prefixes and suffixes around two operators", CLASS, 2, DECOR)]):
        em = c.tlc("Expr", {"Mode": "gen", "Ops": seqs(ops), "MaxOps": n, "Decor": dec(ds)})
        compare(c, f"{name}, at most {n}", [(e["text"], e["tree"]) for e in em])
    cases = [{"toks": t} for t in (gen(c.rng, 3, c.rng.randint(1, 6)) for _ in range(12000 if q else 100000)) if not ambiguous(t)]
    em = c.tlc("Expr", {"Mode": "cases", "Ops": set(), "MaxOps": 0, "Decor": set()}, cases=cases)
    compare(c, "random expressions", [(cases[e["cid"] - 1]["toks"], e["tree"]) for e in em])
    return c.finish("a behaviour is the parsing of one expression; non-trivial when it has at least two operators", exhaustive=False)
