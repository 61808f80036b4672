"""P14: configured severities and threshold (spec/Diag.tla)."""
from vlib import died

SPELL = {1: ["error", "errors"], 2: ["warning", "warnings"], 3: ["info", "infos"], 4: ["hint", "hints"], 5: ["disabled", "false", "off"], 6: ["unset"]}
NAME = {1: "error", 2: "warning", 3: "info", 4: "hint"}
REAL = ["macro_redefined", "unreachable_code", "must_not_sleep", "t1", "t2"]


def toml(rng, conf, extras=("[langserver]\ndreamchecker = true\n", "[code_standards]\ndisallow_relative_proc_definitions = true\n", "# nothing\n")):
    """A configuration file with these settings."""
    parts = []
    if conf["th"] != 6 or rng.random() < .5:
        parts.append('[display]\nerror_level = "%s"\n' % rng.choice(SPELL[conf["th"]]))
    lv = list(conf["lv"])
    rng.shuffle(lv)
    if lv or rng.random() < .3:
        parts.append("[diagnostics]\n" + "".join('%s = "%s"\n' % (e["t"], rng.choice(SPELL[e["l"]])) for e in lv))
    if rng.random() < .3:
        parts.append(rng.choice(extras))
    rng.shuffle(parts)
    return "".join(parts)


PROGRAMS = ["""#define A 1
#define A 2
#undef B
/datum/a/foo()
	return
/datum/a/proc/foo()
	return 1
	world.log << "never"
/datum/a/proc/bar(var/x, static/y)
	if(1)
		return
	var/datum/d = new
	d.whatever()
	undefined_thing()
""", """/proc/one()
	set SpacemanDMM_should_not_sleep = 1
	sleep(1)
/datum/a
	var/SpacemanDMM_private/secret = 1
	var/SpacemanDMM_final/fin = 2
	proc/pure()
		set SpacemanDMM_should_be_pure = 1
		world << "x"
	proc/par()
		set SpacemanDMM_should_call_parent = 1
	proc/noover()
		set SpacemanDMM_should_not_override = 1
/datum/a/b
	fin = 3
	par()
		return
	noover()
		return
	proc/peek(datum/a/a)
		. = a.secret
		for(var/i in 1 to 0)
			break
		while(1)
			return
		if(!a & 1)
			return
		if(a in list() || 1)
			return
""", """/datum/x
	proc/f(a, b = 1)
	proc/g()
		f(c = 3)
		..()
		f() = 3
		var/tmp/z = 3
		var/list/L = list()
		L[1]++
		z[1] = 3
		if(z = 4)
			return
		return z
		z = 4
/datum/x/y
	f(a)
/datum/x/y/g()
	set SpacemanDMM_nonsense = 1
	set background = 5
	set SpacemanDMM_should_call_parent = 7
	undeclared = 99999999999
"""]


def programs(c):
    """Diagnostics of whole programs, raised by the real tools under random configurations."""
    plain = c.replay([{"k": "diag", "ops": [{"k": "program", "text": t}]} for t in PROGRAMS])
    work, cases = [], []
    for _ in range(600 if c.quick else 6000):
        i = c.rng.randrange(len(PROGRAMS))
        types = sorted({e["t"] for e in plain[i]} - {""})
        conf = {"th": c.rng.choice([1, 2, 3, 4, 6, 6, 6, 5]), "lv": [{"t": t, "l": c.rng.randint(1, 6)} for t in c.rng.sample(types, c.rng.randint(0, len(types)))]}
        nod = {"t": "", "sev": 0, "id": 0}
        cases.append([{"k": "load", "conf": conf, "d": nod}] + [{"k": "raise", "conf": {"th": 6, "lv": []}, "d": {"t": e["t"], "sev": e["sev"], "id": n + 2}} for n, e in enumerate(plain[i])])
        work.append((i, [{"k": "load", "text": toml(c.rng, conf, ["# nothing\n"])}, {"k": "program", "text": PROGRAMS[i]}]))
    em = c.tlc("Diag", {"Mode": "cases", "Types": set(), "MaxCfg": 0, "MaxRaise": 0}, cases=[{"ops": o} for o in cases])
    obs = c.replay([{"k": "diag", "ops": ops} for _, ops in work])
    key = lambda e: (e["line"], e["col"], e["t"], e["desc"], e["sev"], e["component"], str(e["notes"]))
    for e in em:
        i, ops = work[e["cid"] - 1]
        o = obs[e["cid"] - 1]
        c.count("whole programs", True, ops)
        if died(o):
            c.fail(died(o), ops, None, o); continue
        want = [dict(plain[i][k["id"] - 2], sev=k["sev"]) for k in e["kept"]]
        # the checker walks hash tables, so the order between procs is not fixed
        if sorted(map(key, o)) != sorted(map(key, want)):
            c.fail("the diagnostics of a whole program differ", ops, want, o)


def dress(rng, ops):
    """The operations with the details the specification abstracts from."""
    out = []
    for o in ops:
        o = {"k": o["k"], "conf": o["conf"], "d": dict(o["d"])}
        if o["k"] in ("load", "auto"):
            o["text"] = toml(rng, o["conf"])
        elif o["k"] == "bad":
            o["text"] = rng.choice([None, "[display\n", "[display]\nerror_level = 3\n", "[diagnostics]\nt1 = \"fatal\"\n"])
        elif o["k"] == "raise":
            same = rng.random() < .5
            line = rng.randint(1, 9)
            o["d"].update(line=line, col=rng.randint(1, 9), desc=rng.choice(["something", "bad thing", 'got "x"']), checker=rng.random() < .3,
                          notes=[[line if same else rng.randint(1, 9), f"note {i}"] for i in range(rng.choice([0, 0, 1, 2]))])
        out.append(o)
    return out


def expected(ops, kept):
    byid = {o["d"]["id"]: o["d"] for o in ops if o["k"] == "raise"}
    out = []
    for k in kept:
        if k["id"] == 0:
            out.append({"sev": k["sev"], "t": "", "config": True}); continue
        d = byid[k["id"]]
        sev = NAME[k["sev"]]
        first = f"source.dm, line {d['line']}, column {d['col']}:\n{sev}: {d['desc']}\n"
        notes = "".join(f"- {m}\n" if [l, 1] == [d["line"], d["col"]] else f"- {l}:1: {m}\n" for l, m in d["notes"])
        out.append({"line": d["line"], "col": d["col"], "sev": k["sev"], "t": d["t"], "desc": d["desc"],
                    "component": "dreamchecker" if d["checker"] else "", "notes": d["notes"],
                    "shown": (f"{d['line']}:{d['col']}: {sev}: {d['desc']}\n" + notes).rstrip("\n"), "printed": first + notes + "\n"})
    return out


def judge(c, group, work):
    for (ops, want), o in zip(work, c.replay([{"k": "diag", "ops": ops} for ops, _ in work])):
        c.count(group, any(x["k"] in ("load", "auto") for x in ops), ops)
        if died(o):
            c.fail(died(o), ops, want, o); continue
        got = [{"sev": g["sev"], "t": g["t"], "config": True} if w.get("config") and g["desc"] == "Error reading configuration file" else g
               for g, w in zip(o, want)] + o[len(want):]
        if got != want:
            c.fail("the diagnostics kept differ", ops, want, o)
        else:
            c.sample(ops, want, o)


def run(c):
    q = c.quick
    for name, ncfg, nraise in [("one configuration, every diagnostic", 1, 1)] + ([] if q else [("one configuration, two diagnostics", 1, 2)]):
        em = c.tlc("Diag", {"Mode": "gen", "Types": {"t1", "t2"}, "MaxCfg": ncfg, "MaxRaise": nraise})
        judge(c, name, [(ops, expected(ops, e["kept"])) for e in em for ops in [dress(c.rng, e["ops"])]])
    cases = []
    for _ in range(4000 if q else 40000):
        ops = []
        types = c.rng.sample(REAL, 3)
        for i in range(c.rng.randint(2, 12)):
            k = c.rng.choice(["load", "load", "bad", "auto", "noauto"] + ["raise"] * 8)
            conf = {"th": c.rng.randint(1, 6), "lv": [{"t": t, "l": c.rng.randint(1, 6)} for t in c.rng.sample(types, c.rng.randint(0, 3))]}
            d = {"t": c.rng.choice(types + [""]), "sev": c.rng.randint(1, 4), "id": i + 1}
            ops.append({"k": k, "conf": conf if k in ("load", "auto") else {"th": 6, "lv": []}, "d": d if k == "raise" else {"t": "", "sev": 0, "id": 0}})
        cases.append(ops)
    em = c.tlc("Diag", {"Mode": "cases", "Types": set(), "MaxCfg": 0, "MaxRaise": 0}, cases=[{"ops": o} for o in cases])
    judge(c, "histories", [(ops, expected(ops, e["kept"])) for e in em for ops in [dress(c.rng, cases[e["cid"] - 1])]])
    programs(c)
    return c.finish("a behaviour is a history of configuration files and raised diagnostics; trivial when nothing is configured", exhaustive=False)
