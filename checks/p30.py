"""P30: going to definitions and finding references in the language server (spec/Navigate.tla)."""
import os, shutil, tempfile, time
from collections import Counter, defaultdict
from concurrent.futures import ThreadPoolExecutor

from dmprog import PARENT_TYPE
from lsp import Dead, Server
from lsprog import program
from vlib import NPROC

FILES = ["a.dm", "b.dm"]
# where these come from is no file
BUILTIN = {"datum", "atom", "atom/movable", "obj", "mob", "turf"}
SENTINEL = "/proc/sentinel()\n\treturn\n/proc/watch()\n\tsentinel()\n"


def serve(binary, work, timeout=40):
    """Each of work: (texts, script), the script made from the uris; the answers to its requests in a
    project of its own."""
    res = [None] * len(work)
    base = tempfile.mkdtemp(prefix="vh-ls-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)

    def go(k):
        for i in range(k, len(work), NPROC):
            texts, script = work[i]
            root = os.path.join(base, str(i))
            os.mkdir(root)
            for f, t in zip(FILES + ["c.dm"], texts + [SENTINEL]):
                with open(os.path.join(root, f), "w") as h:
                    h.write(t)
            with open(os.path.join(root, "x.dme"), "w") as h:
                h.write("".join(f'#include "{f}"\n' for f in FILES + ["c.dm"]))
            s = Server(binary, root=root, timeout=timeout)
            uri = lambda f: f"file://{root}/{f}"
            try:
                for _ in range(400):
                    # the table of references comes into being behind the scenes
                    if s.run([("textDocument/references", {"textDocument": {"uri": uri("c.dm")}, "position": {"line": 3, "character": 3}, "context": {"includeDeclaration": True}})])[0]:
                        break
                    time.sleep(.02)
                else:
                    raise Dead("no references are ever found")
                msgs = script(uri)
                res[i] = [a for m, a in zip(msgs, s.run(msgs)) if m[0][0] != "!"]
            except Dead as e:
                res[i] = {"died": str(e)}
            finally:
                s.stop()
                shutil.rmtree(root, ignore_errors=True)
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(go, range(NPROC)))
    shutil.rmtree(base, ignore_errors=True)
    return res


def ask(binary, work):
    def script(queries):
        q = lambda uri, m, f, l, c: ("textDocument/" + m, {"textDocument": {"uri": uri(FILES[f])}, "position": {"line": l, "character": c}, **({"context": {"includeDeclaration": True}} if m == "references" else {})})
        return lambda uri: [q(uri, *x) for x in queries]
    pl = lambda x: (FILES.index(os.path.basename(x["uri"])) if os.path.basename(x["uri"]) in FILES else x["uri"], x["range"]["start"]["line"], x["range"]["start"]["character"])
    norm = lambda a: a if isinstance(a, dict) and "error" in a else sorted(map(pl, a if isinstance(a, list) else [a] if a else []))
    return [a if isinstance(a, dict) else [norm(x) for x in a] for a in serve(binary, [(texts, script(q)) for texts, q in work])]


def expect(case, at, w, out, texts, r):
    """Queries, each with the places its answer must have, and those it may have."""
    where = lambda o: at[o][:3]
    uses, loose = defaultdict(list), defaultdict(set)
    names = {}
    first = {}
    queries = []
    named = lambda o: texts[at[o][0]].split("\n")[at[o][1]][at[o][2]:at[o][2] + at[o][3]]
    for o, kind, decl, near, plain in out:
        f, l, c = where(o)
        # a cursor before the first name of a line is at the end of the block above as well
        pos = (f, l, c + r.randrange(0 if texts[f].split("\n")[l][:c].strip() else 1, at[o][3]))
        if kind == "open":
            loose[named(o)].add((f, l))
            continue
        if kind == "local":
            if decl:
                queries.append(("definition", pos, [where(decl)], None if plain else "none"))
            continue
        if kind == "parent":
            queries.append(("definition", pos, [where(w.decl_at["proc", near])] if near else [], None))
            continue
        uses[kind, decl].append((f, l))
        if not plain:
            place = w.tyname.get(near) if kind == "type" else w.decl_at[kind, near]
            if place and (kind != "type" or w.types[near - 1][0] not in BUILTIN):
                queries.append(("definition", pos, [where(place)], "none"))
            continue
        first.setdefault((kind, decl), []).append(pos)
        if kind == "type" and w.types[decl - 1][0] in BUILTIN:
            pass
        elif kind == "type":
            queries.append(("definition", pos, [where(w.tyname[decl])], None))
        else:
            queries.append(("definition", pos, [where(w.decl_at[kind, near])], None))
    for i, v in enumerate(case["vars"], 1):
        if v["decl"]:
            names["var", i] = v["name"]
            if v["t"]:
                loose["type", v["t"]].add(where(w.decl_at["var", i])[:2])
    for i, p in enumerate(case["procs"], 1):
        if p["decl"]:
            names["proc", i] = p["name"]
    lines = [t.split("\n") for t in texts]
    for t in range(1, w.own + 1):
        names["type", t] = None
        for k, ls in enumerate(lines):
            for n, x in enumerate(ls):
                if x.strip() == "try" and t == 1:
                    loose["type", t].add((k, n))
                if x.strip().startswith("parent_type") and x.endswith(" = " + w.path(t)):
                    loose["type", t].add((k, n))
    for s, name in names.items():
        kind, i = s
        o = w.tyname[i] if kind == "type" else w.decl_at[kind, i]
        d = where(o)
        ask = [(d[0], d[1], d[2] + r.randrange(at[o][3]))] * (kind != "type" or True)
        if s in first:
            ask.append(r.choice(first[s]))
        q = r.choice(ask)
        may = loose[name] if name else loose["type", i]
        queries.append(("references", q, sorted(uses[s]), may))
        if kind == "type" and w.types[i - 1][0] in BUILTIN:
            continue
        q = r.choice(ask)
        if kind == "var":
            v = case["vars"][i - 1]
            own = {j for j, x in enumerate(case["vars"], 1) if x["name"] == v["name"] and (x["ty"] == v["ty"] or (v["ty"] and x["ty"] and v["ty"] in w.above(x["ty"])))}
        elif kind == "proc":
            p = case["procs"][i - 1]
            own = {j for j, x in enumerate(case["procs"], 1) if x["name"] == p["name"] and (x["ty"] == p["ty"] or (p["ty"] and x["ty"] and p["ty"] in w.above(x["ty"])))}
        places = [where(o)] if kind == "type" else [where(w.decl_at[kind, j]) for j in own]
        queries.append(("implementation", q, sorted(places), None))
    return queries


def run(c):
    n = 400 if c.quick else 6000
    work = [program(c.rng) for _ in range(n)]
    em = {}
    for k in range(0, n, 5000):
        for e in c.tlc("Navigate", {}, cases=[x[0] for x in work[k:k + 5000]], spec="Spec", properties=["Terminates"]):
            em[k + e["cid"]] = e
    asked = []
    for j, (case, texts, at, w) in enumerate(work):
        asked.append(expect(case, at, w, em[j + 1]["out"], texts, c.rng))
    res = ask(c.binary("lsharness", "dmls"), [(x[1], [(m, *q) for m, q, _, _ in a]) for x, a in zip(work, asked)])
    for (case, texts, at, w), qs, out in zip(work, asked, res):
        if isinstance(out, dict):
            c.count("died", True, texts); c.fail(out["died"], texts, None, out); continue
        for (m, q, want, may), got in zip(qs, out):
            c.count(m, bool(want), [texts, m, q])
            if isinstance(got, dict):
                c.fail(f"{m}: {got['error']}", [texts, q], want, got); continue
            if m == "references":
                have = Counter(x[:2] for x in got)
                need = Counter(want)
                bad = need - have or {x for x in have - need if x not in may}
            else:
                bad = [x[:2] for x in want] != [x[:2] for x in got] and not (may == "none" and not got)
            if bad:
                c.fail(f"{m} at {q}: {sorted(bad) if m == 'references' else ''}", texts, want, got)
            elif len(want) > 1:
                c.sample([texts, m, q], want, got)
    return c.finish("a behaviour is one question about a name in a program; trivial when there is nothing to find", exhaustive=False)
