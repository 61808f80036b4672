"""P11: constant references (spec/ConstRefs.tla)."""
from vlib import died
from fold import num, leaf, node, text, agrees

NAMES = ["aa", "bb", "cc", "dd"]


def expr(rng, names, scopes, fields, depth=2):
    r = rng.random()
    if depth == 0 or r < .3:
        r = rng.random()
        if r < .55 and names:
            return leaf("ref", rng.choice(names))
        if r < .72 and names:
            return leaf("sref", rng.choice(names), rng.choice(scopes))
        if r < .80 and fields:
            return leaf("fld", rng.choice(names), rng.choice(fields))
        return rng.choice([num(rng.randint(0, 9)), num(rng.randint(0, 9)), num(rng.randint(0, 9)), leaf("null"), leaf("str", "s")])
    if r < .42:
        return node("if", "", *[expr(rng, names, scopes, fields, depth - 1) for _ in range(3)])
    if r < .5:
        return node("bin", rng.choice(["&&", "||"]), expr(rng, names, scopes, fields, depth - 1), num(rng.randint(0, 9)))
    return node("bin", rng.choice(["+", "+", "+", "-", "*", "<", "=="]), expr(rng, names, scopes, fields, depth - 1), expr(rng, names, scopes, fields, depth - 1)) \
        if rng.random() < .5 else expr(rng, names, scopes, fields, 0)


def program(rng, maxvars):
    """A program of the specification: types with parents and variables."""
    nt = rng.randint(1, 4)
    types = [{"p": "", "up": 0, "vars": []}, {"p": "/datum", "up": 1, "vars": []}]
    redirected = {}
    for i in range(nt):
        base = rng.choice([t for t in types[1:] if t["p"] == "/datum" or rng.random() < .8] or [types[1]])
        p = base["p"] + "/t" + "abcd"[i]
        up = types.index(base) + 1
        if rng.random() < .2 and len(types) > 2:
            up = rng.randint(2, len(types))          # an earlier type, so no cycles
            redirected[p] = types[up - 1]["p"]
        types.append({"p": p, "up": up, "vars": []})
    names = NAMES[:rng.randint(2, 4)]
    scopes = [t["p"] for t in types[2:]] + ["type", "parent_type"]
    for _ in range(rng.randint(2, maxvars)):
        ti = rng.choice([0] + list(range(2, len(types))) * 2)
        x = rng.choice(names)
        t = types[ti]
        if any(v["x"] == x for v in t["vars"]):
            continue
        decl = ti == 0 or rng.random() < .6
        ty = rng.choice(types[2:])["p"] if rng.random() < .25 else ""
        v = {"x": x, "decl": decl, "st": decl and rng.random() < .06, "con": decl and (ti == 0 or rng.random() < .3), "ty": ty if decl else "", "init": True}
        if v["st"]:
            v["con"] = False
        v["e"] = expr(rng, names, scopes, names, 2)
        if not v["st"] and (ty or rng.random() < .1) and rng.random() < .6:
            v["e"] = leaf("null")
            v["init"] = not decl or rng.random() < .5
        if ti == 0 and v["e"]["k"] == "sref":
            v["e"] = num(3)
        t["vars"].append(v)
    return types, redirected


def known_overrides(types):
    """Drop most overrides of variables nothing declares (their value is never asked for)."""
    def declared(i, x):
        while i:
            if any(v["x"] == x and v["decl"] for v in types[i - 1]["vars"]):
                return True
            i = types[i - 1]["up"]
        return False
    return [(i, v) for i, t in enumerate(types, 1) for v in t["vars"] if not declared(i, v["x"])]


def render(rng, types, redirected):
    """Source text and the line of each variable."""
    items = [("v", i, j) for i, t in enumerate(types) for j in range(len(t["vars"]))]
    items += [("p", i, 0) for i, t in enumerate(types) if t["p"] in redirected] + [("t", i, 0) for i in range(2, len(types))]
    rng.shuffle(items)
    if rng.random() < .5:
        items.sort(key=lambda it: it[1] if rng.random() < .9 else rng.randint(0, len(types)))
    out, lines, cur = [], {}, None
    for kind, i, j in items:
        t = types[i]
        if kind == "p":
            line = f"parent_type = {redirected[t['p']]}"
        elif kind == "t":
            line = ""
        else:
            v = t["vars"][j]
            line = v["x"] + (" = " + text(v["e"]) if v["init"] else "")
            if v["decl"]:
                line = "var/" + ("static/" if v["st"] else "") + ("const/" if v["con"] else "") + (v["ty"][1:] + "/" if v["ty"] else "") + line
        if i == 0:
            out.append(line); cur = None
        elif cur == i and rng.random() < .8:
            if not line:
                continue
            out.append("\t" + line)
        elif not line:
            out.append(t["p"]); cur = i
        elif rng.random() < .4:
            out.append(t["p"] + "/" + line); cur = None
        else:
            out.append(t["p"]); out.append("\t" + line); cur = i
        if kind == "v":
            lines[(i, j)] = len(out)
    return "\n".join(out) + "\n", lines


def judge(c, types, vals, txt, lines, o):
    if died(o):
        return c.fail(died(o), txt, vals, o)
    errs = {}
    for l, d, *_ in o["errs"]:
        errs.setdefault(l, []).append(d)
    for i, t in enumerate(types):
        have = o["types"].get(t["p"], {}).get("vars", {})
        for j, v in enumerate(t["vars"]):
            w, got, es = vals[i][j], have.get(v["x"], {}).get("c"), errs.pop(lines[(i, j)], [])
            ex = {"var": t["p"] + "/" + v["x"], "line": lines[(i, j)], "expected": w}
            ob = {"value": got, "errs": es}
            if w["k"] == "open":
                continue
            if nonevaluable(types, i + 1, v["x"]):
                if es or got is not None:
                    return c.fail("a variable which is not a constant was evaluated", txt, ex, ob)
            elif w["k"] == "err":
                if not es or got is not None:
                    return c.fail("a faulty initializer was not diagnosed", txt, ex, ob)
                if any("recursive" in d for d in es):
                    return c.fail("recursion reported where there is none", txt, ex, ob)
            elif w["k"] == "wait":
                if got is not None or not any("recursive constant reference" in d for d in es):
                    return c.fail("a cyclic reference was not diagnosed", txt, ex, ob)
            elif es:
                return c.fail("a constant which can be evaluated was diagnosed", txt, ex, ob)
            elif not agrees(w, got):
                return c.fail("wrong value", txt, ex, ob)
    if errs:
        return c.fail("a diagnostic on a line without a variable", txt, None, errs)
    c.sample(txt, vals, o)


def nonevaluable(types, i, x):
    while i:
        for v in types[i - 1]["vars"]:
            if v["x"] == x and v["decl"]:
                return v["st"]
        i = types[i - 1]["up"]
    return False


def run(c):
    q = c.quick
    for name, n, anyorder, maxvars, orders in [("every evaluation order", 2500 if q else 15000, True, 7, 3), ("larger programs", 3000 if q else 40000, False, 14, 3)]:
        progs = [program(c.rng, maxvars) for _ in range(n)]
        for t, _ in progs:
            for i, v in known_overrides(t):
                if c.rng.random() < .8:
                    v["decl"] = True
        em = c.tlc("ConstRefs", {"AnyOrder": anyorder}, cases=[{"types": t} for t, _ in progs])
        vals = {}
        for e in em:
            if vals.setdefault(e["cid"], e["vals"]) != e["vals"]:
                raise AssertionError("specification is not confluent")
        work = [(k, *render(c.rng, *progs[k])) for k in range(n) for _ in range(orders)]
        for (k, txt, lines), o in zip(work, c.replay([{"k": "tree", "text": w[1]} for w in work])):
            types = progs[k][0]
            flat = [v["k"] for t in vals[k + 1] for v in t]
            c.count(name, any(x["e"]["k"] not in ("num", "str", "null") for t in types for x in t["vars"]), txt)
            for kind in set(flat):
                c.groups.setdefault("programs_with", {}).setdefault(kind, 0)
                c.groups["programs_with"][kind] += 1
            judge(c, types, vals[k + 1], txt, lines, o)
    return c.finish("a behaviour is one program in one declaration order; trivial when no initializer mentions a variable", exhaustive=False)
