"""P27: arguments given by keyword (spec/Kwargs.tla)."""
import re
from vlib import died
from dmprog import Prog, Body, FAMILIES

NAMES = ["k", "m", "n", "loc"]
VALUES = ["1", "null", '"s"', "-2", "list(1, 2)", "/datum", "src", "1 + 2", '"a[1]b"', "rand(1, 2)", "list(k = 1)", "(1 == 2)"]
PARAMS = ["{}", "{}", "{} = 1", "datum/{}", "{} as num", "var/{}", "list/{}", "{} = null", "{}[]"]


def program(r):
    g = Prog(r, r.choice([["pa"], ["pa"], ["pa", "pb"], ["pa", "animate"]]), r.choice([[], ["ga"]]), density=r.choice([.3, .5, .9]), again=r.choice([0, .1, .3]), new=r.choice([0, 0, .3]))
    # the New which some types come with
    built = [{"ty": 1, "name": "New", "params": []}] + ([{"ty": 2, "name": "New", "params": ["loc"]}] if g.types is FAMILIES[1] else [])
    built.append({"ty": 0, "name": "animate", "params": []})        # it has others, not used here
    nb = len(built)
    base = {n: r.sample(NAMES, r.randint(0, 3)) for n in ["pa", "pb", "ga", "New", "animate"]}
    procs = []
    for p in g.procs:
        ps = list(base[p["name"]])
        if r.random() < .4:
            ps = r.sample(NAMES, r.randint(0, 3))
        procs.append({"ty": p["ty"], "name": p["name"], "params": ps})
    calls, bodies, spots = [], [], []
    for i, p in enumerate(g.procs):
        b, at = Body(r), []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            o = g.random_call(i, ["self", "src", "on", "on", "on", "on", "parent", "again", "new", "global"]) if r.random() < .97 else {"k": "global", "name": "animate", "ty": 0}
            if not o:
                continue
            args, text, kws = [], [], r.sample(NAMES, len(NAMES))
            for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
                if r.random() < .7:
                    k = kws.pop()
                    args.append(k)
                    text.append(r.choice([f"{k} = ", f"{k}=", f'"{k}" = ']) + r.choice(VALUES))
                else:
                    args.append(""); text.append(r.choice(VALUES))
            e = b.call(g, o)
            e = (e[:-2] if e.endswith("()") else e) + "(" + ", ".join(text) + ")"
            n0 = len(b.lines)
            b.put(e, r.random() < .1)
            n = [k for k in range(n0, len(b.lines)) if e in b.lines[k]]
            assert len(n) == 1
            calls.append({"by": nb + i + 1, "k": o["k"], "name": o["name"], "ty": o["ty"], "args": args}); at.append((len(calls), n[0]))
        bodies.append(b.lines); spots.append(at)
    text, lines = g.render([[] for _ in g.procs], bodies)
    out = text.split("\n")
    where = {}
    for i, p in enumerate(procs):
        line = out[lines[i] - 1]
        assert line.endswith("()")
        out[lines[i] - 1] = line[:-1] + ", ".join(r.choice(PARAMS).format(x) for x in p["params"]) + ")"
        for c, n in spots[i]:
            where[c] = lines[i] + 1 + n
    return {"parents": g.parents, "procs": built + procs, "calls": calls}, g, "\n".join(out), where, lines, nb


def run(c):
    n = 5000 if c.quick else 60000
    work = [program(c.rng) for _ in range(n)]
    em = {}
    for k in range(0, n, 5000):
        for e in c.tlc("Kwargs", {}, cases=[w[0] for w in work[k:k + 5000]], spec="Spec", properties=["Terminates"]):
            em[k + e["cid"]] = e
    outs = c.replay([{"k": "check", "text": w[2]} for w in work])
    for j, ((case, g, text, where, lines, nb), o) in enumerate(zip(work, outs)):
        e = em[j + 1]
        said = e["bad"] or e["late"] or e["missing"]
        c.count("random programs", bool(said), text)
        if died(o):
            c.fail(died(o), text, e, o); continue
        def shown(i):
            if i > nb:
                return g.show(i - nb - 1)
            p = case["procs"][i - 1]
            same = sum((q["ty"], q["name"]) == (p["ty"], p["name"]) for q in case["procs"])
            return f"{g.path(p['ty'])}/proc/{p['name']}" + (f"[0/{same}]" if same > 1 else "")
        want = {"bad": sorted((where[b["call"]], b["key"], shown(b["proc"]), tuple(sorted(shown(x) for x in b["others"]))) for b in e["bad"]),
                "late": sorted(where[x] for x, _ in e["late"]),
                "missing": sorted({(g.path(case["procs"][m["by"] - 1]["ty"]), case["procs"][m["by"] - 1]["name"], m["key"]) for m in e["missing"]})}
        uses = {}
        for u in e["used"]:
            at = (g.path(u["ty"]), u["name"], u["key"])
            uses[at] = uses.get(at, 0) + 1
        got, bad = {"bad": [], "late": [], "missing": set()}, None
        for d in o["errors"]:
            m = re.fullmatch(r'bad keyword argument "(\w+)" to (\S+)', d["desc"])
            if m:
                got["bad"].append((d["line"], m[1], m[2], tuple(sorted(x.split(": ")[1] for _, x in d["notes"] if not any(f"/{y}/" in x for y in (["image"] if g.types is FAMILIES[1] else ["image", "atom"]))))))
            elif d["desc"].startswith("proc called with non-kwargs after kwargs"):
                got["late"].append(d["line"])
            elif d["t"] == "override_missing_keyword_arg":
                over = re.search(r"overrides? of (\S+)/proc/(\w+) (is|are) missing keyword args$", d["desc"])
                if not over:
                    bad = "strange: " + d["desc"]; continue
                these = set()
                for l, x in d["notes"]:
                    m = re.fullmatch(r'(\S+) is missing "(.*)"', x)
                    if m:
                        for k in m[2].split('", "'):
                            these.add((m[1], over[2], k))
                        if not any(lines[i] == l and (g.path(p["ty"]), p["name"]) == (m[1], over[2]) for i, p in enumerate(g.procs)):
                            bad = f"{x}: nothing of the kind is at line {l}"
                said_of = set()
                for l, x in d["notes"]:
                    m = re.fullmatch(r'called with "(\w+)" here(?:, and (\d+) other places)?', x)
                    if m:
                        said_of.add(m[1])
                        if int(m[2] or 0) + 1 != uses.get((over[1], over[2], m[1])):
                            bad = f"{x}: there are {uses.get((over[1], over[2], m[1]))} calls like that on {over[1]}"
                    if m and not any(k == m[1] for _, _, k in these):
                        bad = f"{x}: of no concern"
                    if m and not any(where[i + 1] == l and m[1] in q["args"] for i, q in enumerate(case["calls"])):
                        bad = f"{x}: nothing of the kind is at line {l}"
                if said_of != {k for _, _, k in these}:
                    bad = f"calls shown for {said_of} only"
                got["missing"] |= these
            elif d["parse"] and d["sev"] == 1:
                bad = "the program is taken as wrong: " + d["desc"]
        got["bad"].sort(); got["late"].sort()
        got["missing"] = sorted(got["missing"])
        for what in want:
            if got[what] != want[what]:
                bad = f"{what}: " + str([x for x in want[what] if x not in got[what]]) + " not said, " + str([x for x in got[what] if x not in want[what]]) + " said without cause"
        if bad:
            c.fail(bad, text, want, got)
        elif said:
            c.sample(text, want, got)
    return c.finish("a behaviour is a whole program; trivial when every receiver takes everything", exhaustive=False)
