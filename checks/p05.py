"""P05: macro history (spec/Preproc.tla)."""
import pp
from pp import *

KEY = "position-ordered-history"


def use_text(line, n):
    b = [t["s"] for t in line["body"]]
    return [("q" if x == "p" else x) for x in b] if line["fn"] else b + ["(", "q", ")"]


def probe(names, depth=3):
    out = []
    for n in names:
        out.append(f"mark_{n} ;")
        for _ in range(depth):
            out += [f"#ifdef {n}", f"{n}(q) ;", f"#undef {n}"]
        out += ["#endif"] * depth
    return "\n".join(out) + "\n"


def expect(pj, names, snap, depth=3):
    out = []
    for n in names:
        out += [f"mark_{n}", ";"]
        ids = [x["id"] for x in snap if x["n"] == n][::-1][:depth]
        for f, l in ids:
            out += use_text(pj.files[f - 1]["lines"][l - 1], n) + [";"]
    return out


def words(ts):
    return [t[0] for t in ts if t[0] != "\n"]


def names_of(pj):
    return sorted({l["n"] for f in pj.files for l in f["lines"] if l["k"] in ("define", "undef")}) + ["never"]


def check(c, group, items):
    reqs, metas = [], []
    for pj, e in items:
        if e["status"] != "done":
            continue
        ns = names_of(pj)
        pt = probe(ns)
        probes = [[pj.names[s["f"] - 1], pt] for s in e["snaps"]]
        plain = [s for s in e["snaps"] if not any(l["k"] in ("include", "multiple") for l in pj.files[s["f"] - 1]["lines"])]
        probes += [[pj.names[s["f"] - 1], pj.text[pj.names[s["f"] - 1]]] for s in plain]
        reqs.append(pj.request(probes=probes, end=pt)); metas.append((pj, e, ns, plain))
    obs = c.replay(reqs)
    for (pj, e, ns, plain), o in zip(metas, obs):
        nt = len(e["snaps"]) >= 1 and any(s["defs"] for s in e["snaps"])
        c.count(group, nt, pj.text)
        d = died(o)
        if d:
            c.fail(f"died: {d}", pj.text, "answers", o); continue
        k = len(e["snaps"])
        bad = set()
        snaps = [(pj.names[s["f"] - 1], s["defs"], s["bypos"], s["f"]) for s in e["snaps"]] + [("end", e["final"], e["finalpos"], 0)]
        answers = o["probes"][:k] + o["probes"][-1:]
        for (name, truth, bypos, f), a in zip(snaps, answers):
            if not isinstance(a, list):
                c.fail(f"no history for {name}", pj.text, truth, a); bad.add(f); continue
            want, got = expect(pj, ns, truth), words(a)
            if want == got:
                continue
            bad.add(f)
            c.fail(f"macros in force at {name} differ", {"project": pj.text, "at": name}, want, got,
                   known_key=KEY if got == expect(pj, ns, bypos) else None)
        for s, a in zip(plain, o["probes"][k:-1]):
            if s["f"] in bad:
                continue
            name = pj.names[s["f"] - 1]
            want = [t for t in o["toks"] if t[1] == name and t[0] != "\n"]
            got = [t for t in a if t[1] == name and t[0] != "\n"]
            if want != got:
                c.fail(f"re-processing {name} differs from the full run", pj.text, want, got)
        if nt and not bad:
            c.sample(pj.text, {"snapshots": e["snaps"], "final": e["final"]}, [words(a) for a in answers])


def rand_project(rng, tame):
    names = rng.sample(["A", "B", "C", "Dd", "E_2", "F"], rng.randint(1, 4))
    nf = rng.randint(2, 6)
    files = [{"path": ["env.dme"] if i == 0 else [f"f{i}.dm"], "kind": "dm", "lines": []} for i in range(nf)]
    uid = 0
    for i, f in enumerate(files):
        depth, included = 0, False
        for _ in range(rng.randint(2, 14)):
            uid += 1
            n = rng.choice(names)
            r = rng.random()
            macro = not (tame and included)
            if r < .3 and macro: f["lines"].append(D(n, ID(f"d{uid}")))
            elif r < .36 and macro: f["lines"].append(DF(n, ["p"], False, ID(f"g{uid}"), ID("p")))
            elif r < .5 and macro: f["lines"].append(U(n))
            elif r < .7 and i + 1 < nf:
                f["lines"].append(INC(f"f{rng.randint(i + 1, nf - 1)}.dm")); included = True
            elif r < .76: depth += 1; f["lines"].append(rng.choice([IFD(n), IFN(n)]))
            elif r < .8 and depth: f["lines"].append(ELSE)
            elif r < .86 and depth: depth -= 1; f["lines"].append(ENDIF)
            else: f["lines"].append(T(ID(n), P("("), INT(1), P(")"), P(";")))
        f["lines"] += [ENDIF] * depth
    return Project(files)


def run(c):
    d = lambda i, n="A": D(n, ID(f"d{i}"))
    witness = Project([{"path": ["env.dme"], "kind": "dm", "lines": [INC("f.dm"), d(1)]},
                       {"path": ["f.dm"], "kind": "dm", "lines": [T(ID("A"), P(";"))]}])
    check(c, "witness of the known finding", run_cases(c, [witness]))
    al = [D("A", ID("d1")), D("A", ID("d2")), DF("A", ["p"], False, ID("g3"), ID("p")), U("A"), INC("f.dm"), INC("g.dm"), T(ID("A"), P(";"))]
    n = 3 if c.quick else 4
    check(c, f"three files, at most {n} lines", run_gen(c, "gen", al, n, None, paths=(("env.dme",), ("f.dm",), ("g.dm",))))
    ps = [rand_project(c.rng, i % 2 == 0) for i in range(3000 if c.quick else 30000)]
    check(c, "random projects", run_cases(c, ps))
    return c.finish("a behaviour is one project; non-trivial when some macro is in force when a file is first included", exhaustive=False)
