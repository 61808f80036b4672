"""P33: doubtful conditions and operators (spec/Suspect.tla)."""
import re
from itertools import product
from vlib import died
from p09 import text as printed

CONSTS = ["0", "1", "2", "0.5", "null", '""', '"s"', "(/datum)"]
OTHERS = ["a", "b", "c", "x", "src", '"[a]"', "new /datum()"]
OPS = ["in", "in", "&", "|", "^", "&&", "&&", "||", "||", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "<<", "=", "=", "+=", "&=", "|=", "?", "?"]
PRE = ["!", "!", "!", "-", "~", "++", "--"]


def atom(r, consts, last):
    t = r.choice(CONSTS if r.random() < consts else OTHERS)
    if t == "(/datum)":
        return ["/datum"] if last and r.random() < .5 else ["(", "/datum", ")"]
    return [t]


def gen(r, depth, n, consts, top=True, loose=True):
    """n operators at this level; loose: whether assignments and `in` may stand here."""
    out = []
    for i in range(n + 1):
        pre = []
        while r.random() < .25:
            pre.append(r.choice(PRE))
        x = r.random()
        if depth and x < .28:
            a = ["("] + gen(r, depth - 1, r.randint(0, 2), consts) + [")"]
        elif depth and x < .34:
            a = [r.choice(["f(", "list("])]
            for k in range(r.randint(0, 2)):
                a += ([","] if k else []) + gen(r, depth - 1, r.randint(0, 1), consts, loose=False)
            a += [")"]
        elif depth and x < .38:
            a = ["s["] + gen(r, depth - 1, r.randint(0, 1), consts) + ["]s"]
        else:
            a = atom(r, consts, i == n and top)
        if a[0] in ("a", "b", "c", "x", "src") or (a[-1] == ")" and a != ["(", "/datum", ")"]):
            while r.random() < .12:
                y = r.random()
                a += ["++"] if y < .3 else ["--"] if y < .4 else [".x"] if y < .7 else ["["] + gen(r, max(0, depth - 1), r.randint(0, 1), consts) + ["]"]
        elif a[0] not in ("(", "/datum", "a", "b", "c", "x", "src"):
            pre = [p for p in pre if p not in ("++", "--")]
        out += pre + a
        if i < n:
            o = r.choice([o for o in OPS if loose or o not in ("in", "=", "+=", "&=", "|=")])
            if o == "?":
                out += ["?"] + gen(r, max(0, depth - 1), r.randint(0, 1), consts, top=False, loose=False) + [":"]
            else:
                out += [o]
    return out


def nonsense(t):
    # `x ? [` lexes apart from `?[`; two signs in a row are another operator; -1 and the like are numbers of their own
    return any((a == "?" and b == "[") or (a in ("+", "-", "++", "--") and b in ("-", "--", "++")) or (a in ("&", "&&") and b == "&") for a, b in zip(t, t[1:]))


PARAMS = "(a, b, c, datum/x)"


def show(r, n, case):
    """Lines of a proc with the statement; where each expression stands (from 0)."""
    k, ts = case["k"], [printed(t) for t in case["texts"]]
    head = [f"/proc/p{n}{PARAMS}"]
    if k == "value":
        return head + ["\treturn " + ts[0]], [1]
    if k == "if":
        out, at = list(head), []
        for i, t in enumerate(ts):
            at.append(len(out))
            out += [f"\t{'else ' if i else ''}if({t})", "\t\tf(1)"]
        if r.random() < .5:
            out += ["\telse", "\t\tf(2)"]
        return out, at
    if k == "for":
        return head + [f"\tfor(var/i = 1; {ts[0]}; i++)", "\t\tf(i)"], [1]
    if k == "while":
        if r.random() < .5:
            return head + [f"\twhile({ts[0]})", "\t\tf(1)"], [1]
        return head + ["\tdo", "\t\tf(1)", f"\twhile({ts[0]})"], [3]
    if k == "switch":
        return head + [f"\tswitch({ts[0]})", "\t\tif(1)", "\t\t\tf(1)"], [1]
    more = ["\t\t\tf(3)"] * r.choice([0, 0, 1, 3])
    if k == "case":
        return head + ["\tswitch(a)", "\t\tif(3, 4)", "\t\t\tf(1)"] + more + [f"\t\tif({ts[0]})", "\t\t\tf(1)"] + more, [4 + len(more)]
    # rand
    lo, hi = case["rnd"]
    # 1.8 to 3.1 and the like hold the same whole numbers
    num = lambda v: r.choice([str(v), str(v), f"({v})", f"{v - 1} + 1", f"{v * 2} / 2"])
    args = num(hi) if lo == 0 and r.random() < .5 else f"{num(lo)}, {num(hi)}"
    out, at = head + [f"\tswitch(rand({args}))"], [1]
    half = lambda h: num(h // 2) if h % 2 == 0 else f"{h / 2}"
    for c in case["cases"]:
        at.append(len(out))
        out += ["\t\tif(" + ", ".join(half(a) if a == b and r.random() < .9 else f"{half(a)} to {half(b)}" for a, b in c) + ")", "\t\t\tf(1)"] + more
    if case["els"]:
        out += ["\t\telse", "\t\t\tf(2)"]
    return out, at


def read(d):
    """A diagnosis as (kind, operator)."""
    t, s = d["t"], d["desc"]
    if t == "ambiguous_in_lhs":
        m = re.match(r"ambiguous `(.*)` on left side of an `in`", s)
        return ("in", m[1] if m else "ternary" if "ternary" in s else s)
    if t == "ambiguous_not_bitwise":
        return ("bit", re.search(r"bitwise `(.*)` operator", s)[1])
    if t == "if_condition_determinate":
        return ("if true" if s.endswith("true") else "if false", None)
    if t == "loop_condition_determinate":
        return ("loop true" if s.endswith("true") else "loop false", None)
    if t == "control_condition_static":
        return ("static", None)
    if "separated by ||" in s:
        return ("or", None)
    if "will never trigger" in s:
        return ("never", None)
    m = re.search(r"no case branch triggers for (-?\d+)", s)
    if m:
        return ("gap", m[1])
    return None


def fits(finds, reports):
    """None, or what is wrong with the reports of one line."""
    left = list(reports)
    norm = lambda o: "!=" if o == "<>" else o
    ok = lambda f, g: f["k"] == g[0] and (not f["os"] or norm(g[1]) in [norm(o) for o in f["os"]])
    for f in sorted((f for f in finds if f["must"]), key=lambda f: len(f["os"])):
        g = next((g for g in left if ok(f, g)), None)
        if g is None:
            return f"{f['k']} {'/'.join(f['os'])} is not reported"
        left.remove(g)
    for g in left:
        f = next((f for f in finds if not f["must"] and ok(f, g)), None)
        if f is None:
            return f"{g[0]} {g[1] or ''} is reported, which is not so"
        finds = [x for x in finds if x is not f]
    return None


def run(c):
    q, r = c.quick, c.rng
    cases = []
    add = lambda k, texts=(), rnd=(), cs=(), els=False: cases.append({"k": k, "texts": list(texts), "rnd": list(rnd), "cases": list(cs), "els": els})
    # one operator of each kind at either side of another, bare and in brackets
    sides = [["a"], ["!", "a"], ["-", "a"], ["a", "++"], ["!", "a", ".x"], ["(", "!", "a", ")"], ["a", ".x"], ["!", "!", "a"]]
    mids = ["in", "&", "|", "^", "&&", "==", "+", "=", "|=", "?"]
    for l, m, o in product(sides, mids, mids):
        mid = lambda k, o: ["?"] + k + [":"] if o == "?" else [o]
        add("value", [l + mid(["b"], m) + ["b"] + mid(["c"], o) + ["c"]])
        if o in ("in", "&", "|", "^"):
            add("value", [["("] + l + mid(["b"], m) + ["b", ")"] + mid(["c"], o) + ["c"]])
    # every truth of two constants or unknowns
    some = ["0", "1", "null", '""', '"s"', "a", '"[a]"', "new /datum()", "0.5"]
    for p, x, o, s, y in product([[], ["!"]], some, ["&&", "||", "==", "?", "="], [[], ["!"]], some):
        if q and r.random() < .6:
            continue
        if o == "=":
            t = ["a", "="] + s + [y]
        elif o == "?":
            t = p + [x] + ["?"] + s + [y] + [":"] + [r.choice(some)]
        else:
            t = p + [x, o] + s + [y]
        add(r.choice(["if", "for", "if", "switch", "while"]), [t])
    for x, p in product(["0", "1", "2", "0.5", "null", '""', '"s"', "/datum", "a", '"[a]"', "new /datum()"], [[], ["!"], ["!", "!"]]):
        for k in ("if", "for", "switch", "while", "value"):
            add(k, [p + [x]])
    for _ in range(6000 if q else 60000):
        consts = r.choice([.1, .5, .8])
        k = r.choice(["value", "value", "if", "if", "if", "for", "while", "switch"])
        ts = []
        for _ in range(r.randint(1, 3) if k == "if" else 1):
            t = gen(r, 2, r.choice([0, 1, 1, 2, 2, 3]), consts, loose=k != "for" or r.random() < .3)
            if k == "for" and "in" in t:
                t = ["("] + t + [")"]
            ts.append(t)
        if not any(nonsense(t) for t in ts):
            add(k, ts)
    for _ in range(500 if q else 5000):
        t = [x for x in gen(r, r.choice([0, 1, 1]), r.choice([0, 1, 1, 2]), 1, loose=False)]
        if r.random() < .3:
            t = t + ["||"] + t
        if not nonsense(t):
            add("case", [t])
    for _ in range(2000 if q else 20000):
        lo = r.choice([0, 0, 1, 1, -2, -3])
        hi = lo + r.randint(0, 5)
        cs = []
        for _ in range(r.randint(1, 4)):
            one = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                a = r.randint(2 * lo - 4, 2 * hi + 4)
                if r.random() < .7:
                    a -= a % 2
                b = a if r.random() < .5 else a + r.randint(0, 6)
                one.append([a, b])
            cs.append(one)
        add("rand", rnd=(lo, hi), cs=cs, els=r.random() < .3)
    finds = {}
    for k in range(0, len(cases), 20000):
        for e in c.tlc("Suspect", {"Mode": "cases", "Ops": set(), "MaxOps": 0, "Decor": set()}, cases=cases[k:k + 20000], init="SInit", next_="SNext", invariants=["SInv"]):
            finds[k + e["cid"] - 1] = e["finds"]
    # what the grammar leaves open (assignments within a conditional) the specification does not report on
    todo = [i for i in range(len(cases)) if i in finds]
    shown, size = [], 40
    for k in range(0, len(todo), size):
        lines = ["/datum/var/datum/x", f"/proc/f(a, b)"]
        at = {}
        for i in todo[k:k + size]:
            ls, pl = show(r, i, cases[i])
            at[i] = (len(lines) + 1, len(ls), pl)
            lines += ls
        shown.append(("\n".join(lines) + "\n", at))
    outs = c.replay([{"k": "check", "text": s[0]} for s in shown])
    for (text, at), o in zip(shown, outs):
        if died(o):
            c.fail(died(o), text, None, o); continue
        by = {}
        for d in o["errors"]:
            if d["parse"] and d["sev"] == 1:
                c.fail("a well-formed program is rejected", text, None, d); break
            g = read(d)
            if g:
                by.setdefault(d["line"], []).append(g)
        for i, (first, n, pl) in at.items():
            mine = "\n".join(text.split("\n")[first - 1:first - 1 + n])
            c.count(cases[i]["k"], any(finds[i]), mine)
            places = {first + p: f for p, f in zip(pl, finds[i])}
            got = {l: by.get(l, []) for l in range(first, first + n)}
            if cases[i]["k"] in ("case", "rand"):
                # a case is located after its block
                places = {first: sum(places.values(), [])}
                got = {l: sum(got.values(), []) if l == first else [] for l in got}
            for l in range(first, first + n):
                bad = fits(places.get(l, []), got[l])
                if bad:
                    c.fail(f"line {l - first + 1}: {bad}", mine, finds[i], {l - first + 1: g for l, g in got.items() if g})
                    break
            else:
                if any(finds[i]):
                    c.sample(mine, finds[i], {l - first + 1: g for l, g in got.items() if g})
    return c.finish("a behaviour is one statement with its expressions; trivial when there is nothing to report", exhaustive=False)
