"""P23: final, private and protected variables (spec/Protect.tla)."""
from vlib import died

# (path, parent, named: the parent follows from the path)
FAMILIES = [
    [("datum", 0, 1), ("datum/a", 1, 1), ("datum/a/b", 2, 1), ("datum/a/b/c", 3, 1), ("datum/a/d", 2, 1), ("datum/e", 1, 1)],
    [("datum", 0, 1), ("atom", 1, 1), ("atom/movable", 2, 1), ("obj", 3, 1), ("obj/x", 4, 1), ("mob", 3, 1), ("mob/y", 6, 1), ("turf", 2, 1), ("turf/z", 8, 1)],
    [("datum", 0, 1), ("datum/a", 1, 1), ("p", 2, 0), ("p/q", 3, 1), ("datum/a/b", 4, 0), ("r", 1, 1), ("datum/a/b/c", 5, 1), ("datum/a/d", 6, 0)],
]
FLAGS = {"final": ["final", "SpacemanDMM_final"], "private": ["SpacemanDMM_private"], "protected": ["SpacemanDMM_protected"]}
KIND = {"final_var": "final", "private_var": "private", "protected_var": "protected"}
READ = [[". = {e}"], ["return {e}"], ["if({e})", "\t. = 1"], ["zz({e})"], ["var/{v} = {e}"], [". = list({e})"], [". = \"a[{e}]b\""], ["for(var/{v} in {e})", "\t. = 1"], ["while({e})", "\tbreak"], ["switch({e})", "\tif(1)", "\t\t. = 1"],
        [". = {e} + 1"], [". = -{e}"], [". = {e} ? 1 : 2"], [". = 1 ? {e} : 2"], [". = new /datum({e})"], ["spawn(1)", "\t. = {e}"], ["try", "\tthrow {e}", "catch", "\t. = 2"], ["world.log << {e}"], [". = {e} == 2 && 1"], ["var/list/{v} = list()", ". = {v}[{e}]"],
        ["for(var/{v} = 0, {v} < {e}, {v}++)", "\t. = 1"], [". = abs({e})"], [". = istype({e}, /datum)"], [". = ({e})"], ["do", "\t. = 1", "while({e})"], ["var/static/{v} = {e}"], [". = initial({e})"], [". = {e} in list()"], [". = zz(z = {e})"], ["del({e})"],
        [". = pick({e}, 2)"], [". = locate({e})"], ["CRASH({e})"], [". = input(\"a\", {e})"], ["switch(rand(1, 2))", "\tif(1)", "\t\t. = {e}", "\telse", "\t\t. = 2"], ["for(var/{v} in 1 to {e})", "\t. = 1"], [". = {e}[1]"], ["{v}:", "\t. = {e}"]]
WRITE = [["{e} = 1"], ["{e} += 2"], ["{e}++"], ["--{e}"], ["{e} = {e2} = 2"], [". = {e} = 2"], ["{e}[1] = 2"], ["{e} ||= 3"], ["{e} = null"], ["{e} = list()"], ["if({e} = 1)", "\t. = 2"], ["spawn", "\t{e} = 1"], ["{e} -= 1"], ["{e} |= 1"]]


def program(r):
    types = r.choice(FAMILIES)
    N = len(types)
    parents = [t[1] for t in types]
    path = lambda t: "/" + types[t - 1][0] if t else ""
    above = lambda t: [t] + above(parents[t - 1]) if t else []
    names = ["va", "vb"] + ["tag"] * (r.random() < .3)
    keys = []
    loud = r.choice([.2, .6])
    for n in names:
        if n == "tag":
            tops = []
        else:
            tops = [1] if r.random() < .3 else r.sample(range(1, N + 1), r.choice([1, 1, 2]))
        for t in tops:
            keys.append((t, n, True))
        for t in range(1, N + 1):
            under = any(a in tops or n == "tag" for a in above(t)[1:]) or (t in tops)
            if under and r.random() < loud * .6:
                keys.append((t, n, False))
            elif t not in tops and r.random() < loud * .25:
                keys.append((t, n, True))
    keys.append((1, "oo", True))
    r.shuffle(keys)
    chunks, defs = [], ([{"ty": 1, "name": "tag", "decl": True, "flags": []}])
    ot = r.randint(1, N)
    flagged = r.choice([.3, .7])
    for t, n, d in keys:
        flags = []
        if d and n != "oo":
            if r.random() < flagged:
                flags = r.choice([["final"], ["private"], ["protected"], ["private"], ["protected"], ["final", "private"], ["final", "protected"], ["protected", "private"]])
        names_ = [r.choice(FLAGS[f]) for f in flags]
        extra = [x for x in ("static", "tmp") if r.random() < .08] if d else []
        mods = names_ + extra
        r.shuffle(mods)
        if n == "oo":
            mods += types[ot - 1][0].split("/")
        elif d and r.random() < .2:
            mods += r.choice([["list"], ["datum"], ["mob"]])
        has = not d or r.random() < .7
        val = f" = {r.choice(['1', 'null', '2', '5 + 1'])}" if has else ""
        form = r.choice(["line", "block", "deep"])
        var = ["var"] + mods if d else []
        if form == "line":
            lines = ["/".join([path(t)] + var + [n]) + val]
        elif form == "block":
            lines = [path(t), "\t" + "/".join(var + [n]) + val]
        elif d and mods:
            k = r.randint(1, len(mods))
            lines = [path(t), "\tvar", "\t\t" + "/".join(mods[:k]), "\t\t\t" + "/".join(mods[k:] + [n]) + val]
        else:
            lines = [path(t)] + (["\tvar", "\t\t" + n + val] if d else ["\t" + n + val])
        chunks.append((lines, ("def", len(defs), len(lines) - 1)))
        defs.append({"ty": t, "name": n, "decl": d, "flags": flags})
    for i, (p, q, named) in enumerate(types):
        if not named:
            chunks.append(([f"/{p}/parent_type = {path(q)}"] if r.random() < .5 else ["/" + p, f"\tparent_type = {path(q)}"], None))
        else:
            chunks.append((["/" + p], None))
    # uses
    known = {(d["ty"], d["name"]) for d in defs if d["decl"]}
    ok = [(t, n) for t in range(1, N + 1) for n in names if any((a, n) in known for a in above(t))]
    procs = []
    for i in range(r.choice([1, 2, 3])):
        ty = r.choice([0] + list(range(1, N + 1)) * 2)
        lines, ops, spots = [], [], []
        params = []
        for j in range(r.choice([1, 2, 4])):
            t, n = r.choice(ok)
            same = [x for x in ok if x[0] == ty]
            k = "object"
            v = f"v{j}"
            op = r.choice([".", ".", ".", "?.", ":", "?:"])
            form = r.choice(["local", "local", "param", "list", "oo", "oo2", "src", "src", "name", "usr", "paren", "lists", "choice"])
            if form in ("src", "name") and same:
                t, n = r.choice(same)
                e = n if form == "name" else f"src{op}{n}"
                k = "name" if form == "name" else k
            elif form in ("oo", "oo2") and any(x[0] == ot for x in ok):
                t, n = r.choice([x for x in ok if x[0] == ot])
                if form == "oo" and ty:
                    e = f"{r.choice(['', 'src.'])}oo{op}{n}"
                else:
                    s = r.randint(1, N)
                    lines.append(f"var{path(s)}/{v}")
                    e = f"{v}.oo{op}{n}"
            elif form == "usr" and types is FAMILIES[1] and any(x[0] == 6 for x in ok):
                t, n = r.choice([x for x in ok if x[0] == 6])
                e = f"usr{op}{n}"
            elif form == "param":
                params.append(f"{path(t)[1:]}/{v}")
                e = f"{v}{op}{n}"
            elif form in ("list", "lists"):
                lines.append(f"var/list{path(t)}/{v}")
                e = f"{v}[{r.choice(['1', 'x', v + '.len'])}]{op}{n}"
            else:
                lines.append(f"var{path(t)}/{v}" + r.choice(["", " = null", f" = new {path(t)}", " = new"]))
                e = f"{v}{op}{n}"
                if form == "paren":
                    e = f"({v}){op}{n}"
            at = len(lines)
            # a colon after a question mark is another matter
            s = r.choice([s for s in (READ if r.random() < .6 else WRITE) if ":" not in op or "1 ? {e}" not in s[0]])
            e2 = "zz.y" if "{e2}" in " ".join(s) else ""
            if e2:
                lines.append(f"var/datum/ww/w{j}")
                e2 = f"w{j}.ww"
                at += 1
            lines += [x.replace("{e}", e).replace("{e2}", e2).replace("{v}", f"u{j}") for x in s]
            if any(x.lstrip().startswith(y) for x in s for y in ("return", "throw", "CRASH")):
                lines[at:] = ["if(rand(1, 2) == 1)"] + ["\t" + x for x in lines[at:]]
            if r.random() < .15:
                lines[at:] = ["if(rand(1, 2) == 1)"] + ["\t" + x for x in lines[at:]]
            if k == "object" and ":" in op and e == e.rstrip() and (op + n) in e:
                k = "name"
            hit = [q for q in range(at, len(lines)) if e in lines[q]]
            ops.append({"k": k, "ty": t, "name": n})
            spots.append(hit)
        text = [f"{path(ty)}/proc/p{i}({', '.join(params + ['x'])})"] + ["\t" + x for x in lines]
        procs.append({"ty": ty, "name": f"p{i}", "ops": ops})
        chunks.append((text, ("proc", i, spots)))
    r.shuffle(chunks)
    # definitions and types may come in any order; the order of definitions counts
    out, order, uses, home = [], [], {}, {}
    for lines, what in chunks:
        if what and what[0] == "def":
            order.append(what[1]); home.setdefault((defs[what[1]]["ty"], defs[what[1]]["name"]), set()).add(len(out) + 1 + what[2])
        elif what:
            for k, hit in enumerate(what[2]):
                for h in hit:
                    uses[len(out) + 2 + h] = (what[1] + 1, k + 1)
        out += lines
    out += ["/proc/zz(x, z)", "/datum/ww/var/ww"]
    return {"parents": parents, "defs": [defs[0]] + [defs[i] for i in order], "procs": procs}, "\n".join(out) + "\n", uses, home, [path(t + 1) for t in range(N)]


def run(c):
    q = c.quick
    n = 6000 if q else 60000
    work = [program(c.rng) for _ in range(n)]
    em = {}
    for k in range(0, n, 6000):
        for e in c.tlc("Protect", {}, cases=[w[0] for w in work[k:k + 6000]], spec="Spec", properties=["Terminates"]):
            em[k + e["cid"]] = e
    outs = c.replay([{"k": "check", "text": w[1]} for w in work])
    for j, ((case, text, uses, home, paths), o) in enumerate(zip(work, outs)):
        said = em[j + 1]["said"]
        c.count("random programs", bool(said), text)
        if died(o):
            c.fail(died(o), text, said, o); continue
        got, bad = set(), None
        where = {}
        for x in said:
            if x[0] == "type":
                where[paths[x[1] - 1], x[2], x[4]] = home[x[1], x[2]]
        for d in o["errors"]:
            w = KIND.get(d["t"])
            if d["desc"].startswith("field ") and w:
                if d["line"] not in uses:
                    bad = f"a diagnosis on line {d['line']}, where nothing is"
                else:
                    got.add(("use", *uses[d["line"]], w))
                    if d["sev"] != 2:
                        bad = "not a warning: " + d["desc"]
            elif " redeclares var " in d["desc"] or (w and " overrides " in d["desc"]):
                w = w or "redeclared"
                ty, name = d["desc"].split(" ")[0], d["desc"].split('"')[1]
                a = d["notes"][0][1].split(" ")[-2]
                if ty not in paths or a not in paths:
                    bad = "a diagnosis without cause: " + d["desc"]
                    continue
                x = ("type", paths.index(ty) + 1, name, paths.index(a) + 1, w)
                if x in got:
                    bad = "diagnosed twice: " + d["desc"]
                got.add(x)
                if d["sev"] != 1:
                    bad = "not an error: " + d["desc"]
                if d["line"] not in home.get((x[1], name), ()):
                    bad = f"diagnosed on line {d['line']}: " + d["desc"]
                if name != "tag" and d["notes"][0][0] not in home.get((x[3], name), ()):
                    bad = f"declaration said to be on line {d['notes'][0][0]}: " + d["desc"]
            elif w or (d["parse"] and d["sev"] == 1):
                bad = "the program is taken as wrong: " + d["desc"]
        must = {tuple(x) for x in said if x[0] != "open"}
        may = must | {("use", *x[1:]) for x in said if x[0] == "open"}
        for x in got - may:
            bad = f"diagnosed without cause: {x}"
        for x in must - got:
            bad = f"not diagnosed: {x}"
        if bad:
            c.fail(bad, text, sorted(must), sorted(got))
        elif said:
            c.sample(text, sorted(must), sorted(got))
    return c.finish("a behaviour is a whole program; trivial when no variable's protection is broken", exhaustive=False)
