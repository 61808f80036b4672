"""P21: contracts between procs, their overrides and callers (spec/Contracts.tla)."""
from vlib import died
from dmprog import Prog, Body

TEXT = {"call_parent": "should_call_parent", "not_call_parent": "should_not_call_parent", "not_override": "should_not_override", "private": "private_proc", "protected": "protected_proc",
        "not_sleep": "should_not_sleep", "redefined": "can_be_redefined", "odd": "should_call_parents"}
KIND = {"private_proc": "private", "protected_proc": "protected", "must_not_override": "not_override", "must_call_parent": "call_parent", "must_not_call_parent": "not_call_parent", "redefined_proc": "redefined",
        "incompatible_directive": "global", "disabled_directive": "off", "sets_directive_twice": "twice", "invalid_lint_directive_value": "value", "unknown_linter_setting": "unknown"}
LEVEL = {"off": 2, "twice": 2, "value": 2, "late": 2, "unknown": 2, "redefined": 4}
# places where an expression is easily overlooked
PLACES = [["return {e}"], ["var/{v} = 1, {v}x = {e}"], ["var/static/{v} = {e}"], ["for(var/{v} = {e}, {v} < 3, {v}++)", "\t. = 1"], ["for(var/{v} = 0, {e}, {v}++)", "\t. = 1"], ["for(var/{v} = 0, {v} < 2, {e})", "\t. = 1"],
          ["for(var/{v} in {e} to 5)", "\t. = 1"], ["for(var/{v} in 1 to {e})", "\t. = 1"], ["for(var/{v} in 1 to 9 step {e})", "\t. = 1"], ["throw {e}"], ["CRASH({e})"], ["spawn({e})", "\t. = 1"], [". = list(\"k\" = {e})"], [". = list(({e}) = 1)"],
          [". = new /list({e})"], [". = pick({e}, 2)"], [". = pick(prob({e}); 1, 2)"], [". = istype({e}, /datum)"], [". = call({e}, \"x\")()"], [". = call(/proc/zz)({e})"], ["var/list/{v} = list(1)", ". = {v}[{e}]"], ["var/list/{v} = list(1)", "{v}[{e}] = 2"],
          ["var/list/{v} = list(1)", "{v}[1] = {e}"], [". = locate({e}) in list()"], [". = ({e}) in list()"], [". = 1 in {e}"], [". = -{e}"], [". = 1 + (2 * ({e} - 3))"], [". += {e}"], ["del({e})"], [". = zz({e})"], [". = zz(1, z = {e})"], [". = input({e}) as num"],
          ["var/datum/{v} = src || {e}"], [". = {e} || new /datum"], [". = 1 ? {e} : 2"], [". = abs({e}) > 2 || abs({e2}) < 4"], ["switch({e})", "\tif(1)", "\t\t. = 1", "\telse", "\t\t. = 2"], ["do", "\t. = 1", "while({e})"], [". = \"[1] [{e}]\""], ["{e} << 1"], [". = \"x\" + {e}"],
          [". = arglist({e})"], [". = zz(arglist({e}))"], [". = rgb({e}, 1, 2)"], [". = ({e}) == 2 ? 1 : 0"], ["var/{v}[{e}]"], ["set background = 1", ". = {e}"], ["if(rand(1, 2) == 1)", "\tif(rand(1, 2) == 2)", "\t\treturn {e}"], ["{v}:", "\t. = {e}"], ["world.log << {e}"],
          ["switch(rand(1, 2))", "\tif(1)", "\t\treturn {e}", "\tif(2)", "\t\t. = 1"], [". = ~{e}"], [". = !{e}"], [". = ({e})[1]"], [". = min({e}, 2)"], [". = sound({e})"], [". = text(\"a\", {e})"], [". = icon({e})"]]
PLACES += [[". = input(\"a\") in {e}"], [". = input(\"a\", {e}) as null|anything in list()"], [". = new /datum({e})"], ["var/datum/{v} = new({e})"], ["var/datum/{v} = /datum", ". = new {v}({e})"], [". = locate(1,2,{e})"], [". = locate({e})"], ["for(var/{v} = 1 to {e})", "\t. = 1"], ["sleep({e})"], ["var/datum/{v} = {e}"], [". = {e}?:foo"], [". = {e}:foo"], [". = call({e})(1)"], [". = call(\"a\",\"b\")({e})"], [". = call_ext(\"a\",\"b\")({e})"], [". = call_ext({e},\"b\")(1)"], [". = {e} in 1 to 3"], ["if({e} in 1 to 3)", "\t. = 1"], [". = 1 in 2 to {e}"], ["try", "\tthrow {e}", "catch", "\t. = 1"], ["try", "\t. = 1", "catch(var/{v})", "\t. = {e}"], ["var/{v} = list({e}, 2)[1]"], ["for({e}, 1, 1)", "\t. = 1"], ["for(var/{v}, 1, {e})", "\t. = 1"], [". = {e} ? 1 : 2"], [". = 1 ? 2 : {e}"], ["spawn", "\t. = {e}"], ["for(var/{v}, {v2} in {e})", "\t. = 1"], ["for(.={e};1;2)", "\t. = 1"], ["while(1)", "\tif({e})", "\t\tbreak"], ["for()", "\tif({e})", "\t\tbreak"], ["switch(rand(1,2))", "\tif(1 to 2)", "\t\t. = {e}"], ["switch(rand(1,2))", "\tif(3)", "\t\t. = 1", "\telse", "\t\t. = {e}"], ["if(1)", "\t. = 1", "else if({e})", "\t. = 2"], ["var/{v} = 1", "{v} += {e}"], ["var/{v} = 1", "{v} ||= {e}"], [". = 1", "return .||{e}"], ["var/{v}/x = {e}"], ["set name = \"x\"", ". = {e}"], [". = \"a[{e}]b[2]\""], [". = list(1, {e})"], [". = alist({e} = 1)"], [". = alist(1 = {e})"], ["var/alist/{v} = new({e})"], ["var/list/{v} = new /list({e}, 2)"], ["var/list/{v} = new({e})"], ["do", "\t. = {e}", "while(rand(1,2) == 1)"], ["del {e}"], [". = animate({e}, 1)"], [". = filter(type=\"blur\", size={e})"], [". = pick({e};1, 2)"], [". = pick(1;{e}, 2)"], [". = pick(50;1,{e};2)"], [". = prob({e})"], [". = initial({e})"], ["var/{v}[5][{e}]"], [". = \"[{e}]\" + 1 ? 2 : 3"], ["src:foo({e})"], [". = (1 + {e})"], [". = ({e}) && 1"], ["if(1) . = {e}"], [". = ({e} = 2)"], [". = . = {e}"], ["world.log << {e} << 1"], ["world << 1 << {e}"], ["{v}: while(1)", "\tif({e})", "\t\tbreak {v}"]]


def program(r, shape):
    g = Prog(r, r.choice([["pa"], ["pa"], ["pa", "pb"]]), r.choice([[], [], ["ga"]]), density=r.choice([.4, .6, .9]), again=r.choice([0, .15, .3]), new=r.choice([0, 0, .4]))
    calls = shape == "calls"
    cases, settings, bodies, spots = [], [], [], []
    rate = r.choice([.2, .5]) if not calls else .3
    for i, p in enumerate(g.procs):
        sets, lines = [], []
        p["final"] = p["decl"] and r.random() < .1
        names = ["private", "protected", "protected"] if calls else ["call_parent", "call_parent", "not_call_parent", "not_call_parent", "not_override", "private", "protected", "not_sleep", "redefined"]
        first = p["decl"] or (not p["ty"] and not any(q["ty"] == 0 and q["name"] == p["name"] for q in g.procs[:i]))
        for n in range(3):
            if r.random() >= rate:
                break
            name = r.choice(names)
            if name in ("private", "protected") and not first and r.random() < .8:
                continue
            value = r.choice(["yes", "yes", "yes", "no"]) if name in ("call_parent", "not_call_parent") else "yes" if r.random() < .92 else "no"
            if r.random() < .04:
                value = "bad"
            if r.random() < .02:
                name = "odd"
            if name == "not_override" and not p["decl"] and any(q.get("final") and (q["ty"], q["name"]) == (p["ty"], p["name"]) for q in g.procs[:i]):
                continue
            sets.append({"name": name, "value": value})
            lines.append(f"set SpacemanDMM_{TEXT[name]} = " + r.choice({"yes": ["1", "TRUE"], "no": ["0", "FALSE"], "bad": ["2", '"x"', "null", "MAYBE", "-1", "1 + 0"]}[value]))
        b, ops, at = Body(r), [], []
        kinds = ["self", "src", "on", "on", "on", "parent", "again"] if calls else ["parent", "parent", "parent", "self", "on"]
        for _ in range(r.choice([0, 1, 2, 3]) if calls else r.choice([0, 0, 1, 1, 2])):
            o = g.random_call(i, kinds)
            if not o:
                continue
            e = b.call(g, o)
            n0 = len(b.lines)
            if r.random() < .5:
                v = b.fresh()
                b.lines += [x.replace("{e}", e).replace("{e2}", "3").replace("{v}", v).replace("{v2}", v + "b") for x in r.choice(PLACES)]
                if not b.lines[n0].startswith(("if", "switch")) and any(b.lines[-1].lstrip().startswith(x) for x in ("return", "throw", "CRASH")):
                    # what follows would not be looked at
                    b.lines[n0:] = ["if(rand(1, 2) == 1)"] + ["\t" + x for x in b.lines[n0:]]
            else:
                b.put(e, r.random() < .1)
            n = [k for k in range(n0, len(b.lines)) if e in b.lines[k]]
            assert len(n) == 1
            ops.append({**o, "spawn": False}); at.append(n[0])
        cases.append({"ty": p["ty"], "name": p["name"], "decl": p["decl"], "final": p["final"], "sets": sets, "ops": ops})
        settings.append(lines); bodies.append(b.lines); spots.append(at)
    text, lines = g.render(settings, bodies)
    where = {}
    for i in range(len(g.procs)):
        where[lines[i]] = (i + 1, 0)
        for k in range(len(settings[i])):
            where[lines[i] + 1 + k] = (i + 1, k + 1)
        for k, n in enumerate(spots[i]):
            where[lines[i] + 1 + len(settings[i]) + n] = (i + 1, 101 + k)
    return {"parents": g.parents, "procs": cases}, g, text + "/proc/zz(x, z)\n", where


def run(c):
    q = c.quick
    for shape, n in (("overrides", 3500 if q else 40000), ("calls", 2500 if q else 30000)):
        work = [program(c.rng, shape) for _ in range(n)]
        em = {}
        for k in range(0, n, 5000):
            for e in c.tlc("Contracts", {}, cases=[w[0] for w in work[k:k + 5000]], spec="Spec", properties=["Terminates"]):
                em[k + e["cid"]] = e
        outs = c.replay([{"k": "check", "text": w[2]} for w in work])
        for j, ((case, g, text, where), o) in enumerate(zip(work, outs)):
            e = em[j + 1]
            c.count(f"random programs ({shape})", bool(e["said"]), text)
            if died(o):
                c.fail(died(o), text, e, o); continue
            got, bad = set(), None
            for d in o["errors"]:
                k = KIND.get(d["t"]) or ("late" if "outside their initial definition" in d["desc"] else None)
                if k:
                    if d["line"] not in where:
                        bad = f"a diagnosis on line {d['line']}, where nothing is"
                    else:
                        got.add((*where[d["line"]], k))
                        if d["sev"] != LEVEL.get(k, 1):
                            bad = f"{d['desc']}: severity {d['sev']}"
                elif d["parse"]:
                    bad = "the program is taken as wrong: " + d["desc"]
            said, open_ = {tuple(x) for x in e["said"]}, {tuple(x) for x in e["open"]}
            name = lambda x: f"{x[2]} at {g.show(x[0] - 1)} " + ("itself" if x[1] == 0 else f"setting {x[1]}" if x[1] < 100 else f"call {x[1] - 100}")
            for x in got - said - open_:
                bad = "diagnosed without cause: " + name(x)
            for x in said - got - open_:
                bad = "not diagnosed: " + name(x)
            if bad:
                c.fail(bad, text, sorted(map(name, said)), sorted(map(name, got)))
            elif said:
                c.sample(text, sorted(map(name, said)), sorted(map(name, got)))
    return c.finish("a behaviour is a whole program; trivial when nothing in it breaks a contract", exhaustive=False)
