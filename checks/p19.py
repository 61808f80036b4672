"""P19: the promise not to sleep (spec/Sleep.tla)."""
import re
from vlib import died
from dmprog import Prog, Body

BLOCKS = ["sleep", "sleep", "alert", "input", "shell", "winget", "winexists", "world", "import", "client"]


def program(r, shape):
    g = Prog(r, r.choice([["pa"], ["pa", "pb"], ["pa", "pb", "pc"]]), r.choice([[], ["ga"], ["ga", "gb"]]), density=r.choice([.3, .5, .8]), new=r.choice([0, .3]))
    kinds = {"any": ["self", "self", "src", "on", "on", "parent", "parent", "again", "global", "new"], "self": ["self", "parent", "parent", "self", "src"], "wide": ["on", "self", "global"]}[shape]
    cases, settings, bodies = [], [], []
    rare = r.choice([.15, .3])
    for i, p in enumerate(g.procs):
        mark = p["name"] != "New" and (p["decl"] or (not p["ty"] and not any(q["ty"] == 0 and q["name"] == p["name"] for q in g.procs[:i]))) and r.random() < .4
        kind = None if mark else r.choice(["exempt", "waitfor"]) if r.random() < .1 else None
        if kind == "exempt" and not p["decl"]:
            kind = None
        s = []
        if mark:
            s.append("set SpacemanDMM_should_not_sleep = " + r.choice(["1", "TRUE"]))
        if kind == "exempt":
            s.append("set SpacemanDMM_allowed_to_sleep = " + r.choice(["1", "TRUE"]))
        if kind == "waitfor":
            s.append("set waitfor = " + r.choice(["0", "FALSE"]))
        elif r.random() < .05:
            s.append("set waitfor = 1")
        r.shuffle(s)
        b, ops, spawn = Body(r), [], False
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            spawn = r.random() < (.5 if spawn else .12)
            o = g.random_call(i, kinds)
            if o:
                ops.append({**o, "spawn": spawn})
                b.put(b.call(g, o), spawn)
        if r.random() < rare and not (mark and r.random() < .8):
            spawn = r.random() < (.5 if spawn else .15)
            ops.append({"k": "block", "name": "", "ty": 0, "spawn": spawn})
            b.put(b.block(r.choice(BLOCKS)), spawn)
        if r.random() < .1:
            b.put(r.choice(["abs(1)", 'world.GetConfig("x")', "list(1)", "rand(1, 2)"]))
        cases.append({"ty": p["ty"], "name": p["name"], "mark": mark, "free": kind is not None, "ops": ops})
        settings.append(s); bodies.append(b.lines)
    text, lines = g.render(settings, bodies)
    return {"parents": g.parents, "procs": cases}, g, text, lines


def run(c):
    q = c.quick
    for shape, n in (("any", 2500 if q else 25000), ("self", 1500 if q else 15000), ("wide", 1000 if q else 10000)):
        work = [program(c.rng, shape) for _ in range(n)]
        em = {}
        for k in range(0, n, 5000):
            for e in c.tlc("Sleep", {}, cases=[w[0] for w in work[k:k + 5000]], spec="Spec", properties=["Terminates"]):
                em[k + e["cid"]] = e
        outs = c.replay([{"k": "check", "text": w[2]} for w in work])
        for j, ((case, g, text, lines), o) in enumerate(zip(work, outs)):
            e = em[j + 1]
            c.count(f"random programs ({shape})", any(x[0] != x[1] for x in e["must"]), text)
            if died(o):
                c.fail(died(o), text, e, o); continue
            got, bad = set(), None
            byname = {g.show(i): i + 1 for i in range(len(g.procs))}
            for d in o["errors"]:
                if d["t"] == "must_not_sleep":
                    root = lines.index(d["line"]) + 1 if d["line"] in lines else 0
                    last = d["desc"].split(" ")[-1]
                    blamed = root if "built-in" in d["desc"] else byname.get(last, 0)
                    got.add((root, blamed))
                elif d["parse"] or d["t"] == "" and d["sev"] == 1:
                    bad = "the program is taken as wrong: " + d["desc"]
            must, may = {tuple(x) for x in e["must"]}, {tuple(x) for x in e["may"]}
            name = lambda x: g.show(x[0] - 1) + " -> " + g.show(x[1] - 1) if min(x) > 0 else str(x)
            for x in got - may:
                bad = "a promise is called broken which is not: " + name(x)
            blamed = {b for _, b in got}
            for x in must:
                if x[0] == x[1] and x not in got or x[1] not in blamed:
                    bad = "a broken promise is not reported: " + name(x)
            if bad:
                c.fail(bad, text, {"must": sorted(map(name, must)), "may": sorted(map(name, may))}, sorted(map(name, got)))
            elif any(a != b for a, b in must):
                c.sample(text, {"must": sorted(map(name, must))}, sorted(map(name, got)))
    return c.finish("a behaviour is a whole program; trivial when no marked proc reaches a blocking call elsewhere", exhaustive=False)
