"""P20: the promise to be pure (spec/Purity.tla)."""
from vlib import died
from dmprog import Prog, Body

WHATS = [("assign", ["var", "var", "gvar", "global", "local", "shadow", "result", "mobvar", "field", "elem", "srcvar", "varfield", "copy"]), ("step", ["var", "gvar", "global", "local", "shadow", "srcvar", "varfield", "copy"]),
         ("output", ["world", "mob", "submob", "savefile", "list", "mobvar", "local"]), ("shift", ["mob", "submob", "savefile", "list", "mobvar", "local", "var", "gvar", "global"]), ("loop", ["var", "gvar", "local", "shadow"]), ("read", ["var", "gvar", "global", "local", "mobvar"])]
OPS = ["+=", "-=", "*=", "/=", "%=", "%%=", ":=", "&=", "&&=", "|=", "||=", "^=", "<<=", ">>="]
HEAD = "/datum/var/va = 1\n/datum/var/mob/vm\n/var/gva = 2\n/mob/sub\n"


def effect(r, b, what, on, glob):
    """The text of the expression; locals are declared first."""
    v = b.fresh()
    if on == "local":
        b.lines.append(f"var/{v} = 3"); name = v
    elif on in ("mob", "submob", "savefile", "list"):
        t = {"mob": "mob", "submob": "mob/sub", "savefile": "savefile", "list": r.choice(["list", "list/mob"])}[on]
        b.lines.append(f"var/{t}/{v}"); name = v
    elif on == "copy":
        b.lines.append(f"var/{v} = " + r.choice(["va", "gva", "global.gva", "src.va", "(va)", "vm"] if not glob else ["gva", "global.gva"])); name = v
    elif on == "field":
        b.lines.append(f"var/mob/{v}"); name = v + ".va"
    elif on == "elem":
        b.lines.append(f"var/list/{v} = list(1)"); name = v + "[1]"
    else:
        name = {"var": "va", "mobvar": "vm", "gvar": "gva", "global": "global.gva", "shadow": "va", "result": ".", "srcvar": "src.va", "varfield": "vm.va", "world": "world"}[on]
    if what == "assign":
        return f"{name} {r.choice(['=', '=', '=', *OPS])} {r.choice(['1', '(2 + 3)', 'list()'])}"
    if what == "loop":      # a loop over what is already a variable
        return f"for({name} in {r.choice(['list(1, 2)', '1 to 3'])}) . = 1"
    if what == "step":
        return r.choice([name + "++", name + "--", "++" + name, "--" + name])
    if what in ("output", "shift"):
        return name + " << " + r.choice(['"x"', "1", "(1 + 2)"])
    return r.choice([f"{name} + 1", f"{name} == 2", f"!{name}", f"list({name})", f"{name} << 2" if on not in ("mobvar",) else name + " + 2"])


def program(r, shape):
    g = Prog(r, r.choice([["pa"], ["pa", "pb"], ["pa", "pb", "pc"]]), r.choice([[], ["ga"], ["ga", "gb"]]), density=r.choice([.3, .5, .8]), new=r.choice([0, .3]))
    kinds = {"any": ["self", "self", "src", "on", "on", "parent", "parent", "again", "global", "new"], "self": ["self", "parent", "parent", "self", "src"], "wide": ["on", "self", "global"], "ops": ["self"]}[shape]
    cases, settings, bodies, spots = [], [], [], []
    rare = r.choice([.15, .3]) if shape != "ops" else .9
    for i, p in enumerate(g.procs):
        mark = p["name"] != "New" and (p["decl"] or (not p["ty"] and not any(q["ty"] == 0 and q["name"] == p["name"] for q in g.procs[:i]))) and r.random() < .4
        s = ["set SpacemanDMM_should_be_pure = " + r.choice(["1", "TRUE"])] if mark else []
        if r.random() < .1:
            s.append("set waitfor = 0")
        b, ops, at = Body(r), [], []
        todo = ["call"] * r.choice([0, 1, 1, 2, 3]) + ["do"] * ((r.random() < rare) + (r.random() < .1)) + ["calm"] * (r.random() < .3)
        r.shuffle(todo)
        for t in todo:
            spawn = r.random() < .12
            if t == "call":
                o = g.random_call(i, kinds)
                if not o:
                    continue
                o = {**o, "what": "", "on": ""}
                e = b.call(g, o)
                n0 = len(b.lines)
                b.put(e, spawn)
            else:
                for _ in range(100):
                    what, ons = r.choice(WHATS)
                    on = r.choice(ons)
                    sure = on not in ("local", "shadow", "result", "copy") and what in ("assign", "step", "loop", "output") or what == "shift" and on in ("mob", "submob", "savefile", "list", "mobvar")
                    if not p["ty"] and on in ("var", "mobvar", "shadow", "srcvar", "varfield"):
                        continue
                    if sure == (t == "do"):
                        break
                else:
                    continue
                o = {"k": "do", "name": "", "ty": 0, "what": what, "on": on}
                e = effect(r, b, what, on, not p["ty"])
                n0 = len(b.lines)
                if on == "shadow":
                    b.lines += [r.choice(["if(rand(1, 2) == 1)", "for(var/k in 1 to 3)", "while(rand(1, 2) == 1)"]), "\tvar/va = 5", "\t" + e]
                elif what in ("output", "loop") or on == "result" or (what != "read" and what != "shift" and r.random() < .5):
                    b.put_statement(e, spawn)
                else:
                    # a shift as a statement of its own would be output
                    b.put("(" + e + ")", spawn, statement=what != "shift")
            n = [k for k in range(n0, len(b.lines)) if b.lines[k].strip() == e]
            o = {**o, "spawn": spawn, "drop": bool(n) and o["k"] == "self"}
            ops.append(o)
            at.append(n)
        cases.append({"ty": p["ty"], "name": p["name"], "mark": mark, "ops": ops})
        settings.append(s); bodies.append(b.lines); spots.append(at)
    text, lines = g.render(settings, bodies)
    n = HEAD.count("\n")
    lines = [l + n for l in lines]
    where = [[[lines[i] + 1 + len(settings[i]) + k for k in at] for at in s] for i, s in enumerate(spots)]
    return {"parents": g.parents, "procs": cases}, g, HEAD + text, lines, where


def run(c):
    q = c.quick
    for shape, n in (("any", 2500 if q else 25000), ("self", 1500 if q else 15000), ("wide", 1000 if q else 10000), ("ops", 1000 if q else 10000)):
        work = [program(c.rng, shape) for _ in range(n)]
        em = {}
        for k in range(0, n, 5000):
            for e in c.tlc("Purity", {}, cases=[w[0] for w in work[k:k + 5000]], spec="Spec", properties=["Terminates"]):
                em[k + e["cid"]] = e
        outs = c.replay([{"k": "check", "text": w[2]} for w in work])
        for j, ((case, g, text, lines, where), o) in enumerate(zip(work, outs)):
            e = em[j + 1]
            c.count(f"random programs ({shape})", any(x[0] != x[1] for x in e["must"]), text)
            if died(o):
                c.fail(died(o), text, e, o); continue
            got, bad, dropped = set(), None, []
            byname = {g.show(i): i + 1 for i in range(len(g.procs))}
            for d in o["errors"]:
                if d["t"] == "must_be_pure":
                    root = lines.index(d["line"]) + 1 if d["line"] in lines else 0
                    words = d["desc"].split(" ")
                    named = words[words.index("calls") + 2] if "but calls a" in d["desc"] else words[-1] if "override" in d["desc"] else words[0]
                    got.add((root, byname.get(named, 0)))
                elif "discards return value" in d["desc"]:
                    dropped.append(d["line"])
                elif d["parse"] or d["t"] == "" and d["sev"] == 1 and not d["desc"].startswith("Attempting "):
                    bad = "the program is taken as wrong: " + d["desc"]
            must, may = {tuple(x) for x in e["must"]}, {tuple(x) for x in e["may"]}
            name = lambda x: g.show(x[0] - 1) + " -> " + g.show(x[1] - 1) if min(x) > 0 else str(x)
            for x in got - may:
                bad = "a promise is called broken which is not: " + name(x)
            for x in must - got:
                bad = "a broken promise is not reported: " + name(x)
            for x in set(e["broken"]) - {a for a, _ in got}:
                bad = "a broken promise is not reported: " + g.show(x - 1)
            want = sorted(l for p, i in e["dropped"] for l in where[p - 1][i - 1])
            if not bad and sorted(dropped) != want:
                bad = f"results of pure procs are dropped at {want}, reported at {sorted(dropped)}"
            if bad:
                c.fail(bad, text, {"must": sorted(map(name, must)), "may": sorted(map(name, may)), "dropped": want}, [sorted(map(name, got)), dropped])
            elif any(a != b for a, b in must):
                c.sample(text, {"must": sorted(map(name, must)), "dropped": want}, sorted(map(name, got)))
    return c.finish("a behaviour is a whole program; trivial when no marked proc reaches a side effect elsewhere", exhaustive=False)
