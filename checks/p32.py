"""P32: what the editor is shown follows the texts (spec/Shown.tla)."""
import os, shutil, tempfile, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

from lsp import Dead, Server
from vlib import NPROC

SEVERITY = {"bad": 1, "call": 1, "missing": 1, "fatal": 1, "warn": 2, "macro": 2, "note": 3}


def piece(x, f, i):
    """Two lines each."""
    k, n = x["k"], x["n"]
    return {"ok": f"/proc/p{f}_{i}()\n\treturn", "bad": f"/proc/p{f}_{i}()\n\treturn undef{f}_{i}", "helper": f"/proc/h{f}_{(n + [0])[0]}()\n\treturn",
            "call": f"/proc/p{f}_{i}()\n\th{(n + [0, 0])[0]}_{(n + [0, 0])[1]}()", "macro": f"#define M{(n + [0])[0]} {i}\n", "warn": f"#warn w{f}_{i}\n", "fatal": "/datum/zx 1\n"}[k]


def show(text, f):
    return "".join(piece(x, f, i) + "\n" for i, x in enumerate(text, 1))


def line(k, i):
    return 2 * i - 2 + (k in ("bad", "call"))


def case(r, env):
    n = r.randint(1, 3)
    steps, now, known, opened, stale = [], {f: None for f in range(1, n + 1)}, {}, {}, set()

    def text(f):
        out, have = [], set()
        for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
            k = r.choice(["ok", "bad", "bad", "helper", "call", "call", "macro", "macro", "warn"] + ["fatal"] * (r.random() < .12))
            m = {"helper": [r.randint(1, 2)], "call": [r.choice([f, r.randint(1, n)]), r.randint(1, 2)], "macro": [r.randint(1, 3)]}.get(k, [])
            if k == "helper" and m[0] in have:
                continue
            if k == "helper":
                have.add(m[0])
            out.append({"k": k, "n": m})
        return out
    put = lambda k, f=0, t=(), gone=False: steps.append({"k": k, "f": f, "text": list(t), "gone": gone})
    if env:
        for f in now:
            if r.random() < .85:
                now[f] = text(f); put("write", f, now[f])
        put("parse"); known = dict(now)
        for _ in range(r.randint(2, 9)):
            k = r.choice(["write"] * 3 + ["parse"] * 2 + ["names"] * 4 + ["open", "close", "change"])
            f = r.randint(1, n)
            if k == "write":
                gone = r.random() < .15
                now[f] = None if gone else text(f)
                put("write", f, now[f] or [], gone)
            elif k == "parse":
                put("parse"); known = dict(now)
            elif k == "names" and (f in opened or known[f] is not None and known[f] == now[f]):
                put("names", f)
            elif k == "open" and f not in opened:
                opened[f] = text(f); put("open", f, opened[f])
            elif k == "change" and f in opened:
                opened[f] = text(f); put("change", f, opened[f])
            elif k == "close" and f in opened:
                del opened[f]; put("close", f)
        put("parse")
        known = dict(now)
        for f in known:
            if f in opened or known[f] is not None:
                put("names", f)
    else:
        for _ in range(r.randint(2, 10)):
            f = r.randint(1, n)
            k = r.choice(["look", "look", "change", "close"]) if f in opened else "open"
            if k in ("open", "change"):
                opened[f] = text(f); put(k, f, opened[f])
                if r.random() < .7:
                    put("look", f)
            elif k == "close":
                del opened[f]; put("close", f)
            else:
                put("look", f)
    return {"n": n, "env": env, "checker": r.random() < .75, "related": r.random() < .5, "steps": steps}


def replay(binary, cases, timeout=40):
    res = [None] * len(cases)
    base = tempfile.mkdtemp(prefix="vh-sh-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)

    def go(w):
        for j in range(w, len(cases), NPROC):
            c = cases[j]
            root = os.path.join(base, str(j))
            os.mkdir(root)
            if c["env"]:
                with open(f"{root}/x.dme", "w") as h:
                    h.write("".join(f'#include "f{f}.dm"\n' for f in range(1, c["n"] + 1)))
                with open(f"{root}/SpacemanDMM.toml", "w") as h:
                    h.write(f"[langserver]\ndreamchecker = {str(c['checker']).lower()}\n")
            uri = lambda f: f"file://{root}/f{f}.dm"
            caps = {"textDocument": {"publishDiagnostics": {"relatedInformation": True}}} if c["related"] else {}
            s = Server(binary, root=root if c["env"] else None, timeout=timeout, caps=caps)
            shown, out, tasks, started = {}, [], [], False

            def look(msgs):
                trace = ("!$/setTrace", {"value": "off"})
                msgs = [trace, *msgs, trace, ("workspace/symbol", {"query": "nothing"})]
                got = s.run(msgs)
                answers = [a for m, a in zip(msgs, got) if m[0][0] != "!"]
                for m in [x for m, a in zip(msgs, got) if m[0][0] == "!" for x in a]:
                    if m["method"] == "textDocument/publishDiagnostics":
                        shown[m["params"]["uri"]] = m["params"]["diagnostics"]
                    elif m["method"] == "$window/status":
                        tasks.append(m["params"]["tasks"])
                return answers
            try:
                for st in c["steps"]:
                    k, f, names = st["k"], st["f"], None
                    doc = {"uri": uri(f)}
                    if k == "write":
                        if st["gone"]:
                            if os.path.exists(f"{root}/f{f}.dm"):
                                os.unlink(f"{root}/f{f}.dm")
                        else:
                            with open(f"{root}/f{f}.dm", "w") as h:
                                h.write(show(st["text"], f))
                    elif k == "parse":
                        tasks.clear()
                        if started:
                            look([("!experimental/dreammaker/reparse", {})])
                        started = True
                        for _ in range(2000):
                            look([])
                            if [] in tasks:
                                break
                            time.sleep(.01)
                        else:
                            raise Dead("the project is never ready")
                        look([])
                    elif k == "open":
                        look([("!textDocument/didOpen", {"textDocument": {**doc, "languageId": "dm", "version": 1, "text": show(st["text"], f)}})])
                    elif k == "change":
                        look([("!textDocument/didChange", {"textDocument": {**doc, "version": 2}, "contentChanges": [{"text": show(st["text"], f)}]})])
                    elif k == "close":
                        look([("!textDocument/didClose", {"textDocument": doc})])
                    else:
                        names = look([("textDocument/documentSymbol", {"textDocument": doc})])[0]
                        if isinstance(names, dict):
                            raise Dead("symbols: " + names["error"])
                        names = [[x["name"], x["range"]["start"]["line"]] for x in names or [] if x["kind"] in (12, 6)]
                    if not c["env"]:
                        started = True
                    view = {}
                    for u, ds in shown.items():
                        b = os.path.basename(u)
                        view[0 if b == "x.dme" else int(b[1:-3])] = [[d["range"]["start"]["line"], d["severity"], d["message"], [[int(os.path.basename(x["location"]["uri"])[1:-3]), x["location"]["range"]["start"]["line"], x["message"]] for x in d.get("relatedInformation") or []]] for d in ds]
                    out.append({"shown": view, "names": names})
                res[j] = out
            except Dead as e:
                res[j] = {"died": str(e)}
            finally:
                s.stop()
                shutil.rmtree(root, ignore_errors=True)
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(go, range(NPROC)))
    shutil.rmtree(base, ignore_errors=True)
    return res


def expected(p, related):
    k, f, i = p["k"], p["f"], p["i"]
    if k == "missing":
        return (i - 1, 1, "failed to find #include", ())
    message = {"bad": f"undefined var: \"undef{f}_{i}\"", "call": "undefined proc: \"h{}_{}\" on (global)".format(*(p["n"] + [0, 0])[:2]), "warn": f"#warn w{f}_{i}", "macro": "macro redefined: M{}".format(*(p["n"] + [0])[:1]), "fatal": ""}[k]
    note = ((p["note"][0], line("macro", p["note"][1]), "previous definition of M{}".format(p["n"][0])),) if p["note"] and related else ()
    return (line(k, i), SEVERITY[k], message, note)


def run(c):
    n = 200 if c.quick else 3000
    cases = [case(c.rng, c.rng.random() < .6) for _ in range(n)]
    em = {}
    for k in range(0, n, 4000):
        for e in c.tlc("Shown", {}, cases=cases[k:k + 4000], spec="Spec", properties=["Terminates"]):
            em[k + e["cid"]] = [{**o, "shown": [o["shown"][str(f)] for f in range(len(o["shown"]))]} for o in e["out"]]
    res = replay(c.binary("lsharness", "dmls"), cases)
    for j, (case_, got) in enumerate(zip(cases, res)):
        want = em[j + 1]
        if isinstance(got, dict):
            c.count("died", True, case_); c.fail(got["died"], case_, None, got); continue
        for s, (st, e, g) in enumerate(zip(case_["steps"], want, got)):
            mode = "project" if case_["env"] else "single"
            some = any(v["own"] for v in e["shown"])
            c.count(f"{mode}-{st['k']}", some, [case_["steps"][:s + 1], case_["related"], case_["checker"]])
            for f, v in enumerate(e["shown"]):
                need = Counter(expected(p, case_["related"]) for p in v["own"])
                need += Counter((line("macro", p["note"][1]), 3, "previous definition of M{}".format(p["n"][0]), ()) for p in v["notes"])
                wild = [x[0] for x in need if x[2] == ""]
                have = Counter()
                for ln, sev, msg, rel in g["shown"].get(f, []):
                    if msg.startswith("check for extra indentation"):
                        continue
                    if ln in wild:
                        have[ln, 1, "", ()] = 1
                    else:
                        have[ln, sev, "failed to find #include" if msg.startswith("failed to find #include") else msg, tuple(map(tuple, rel))] += 1
                if need != have:
                    c.fail(f"after step {s} ({st['k']}) file {f}: missing {sorted((need - have).elements())} extra {sorted((have - need).elements())}"[:400], case_, sorted(need.elements()), g["shown"].get(f)); break
            else:
                if st["k"] in ("names", "look"):
                    f = st["f"]
                    if sorted(line("ok", i) for i in e["names"]) != sorted(x[1] for x in g["names"]):
                        c.fail(f"after step {s} the symbols of file {f} are {g['names']}", case_, e["names"], g["names"]); break
                continue
            break
        else:
            c.sample(case_["steps"], want[-1], got[-1])
    return c.finish("a behaviour is a history up to one step; trivial when no problem is shown", exhaustive=False)
