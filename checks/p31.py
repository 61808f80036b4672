"""P31: completion, signatures, types and descriptions in the language server (spec/Navigate.tla)."""
import re
from collections import Counter

from lsprog import program
from p30 import BUILTIN, FILES, serve

KINDS = {"local": 6, "var": 5, "proc": 2, "type": 7, "keyword": 14}


def matches(name, word):
    simple = lambda s: "".join(ch for ch in s.lower() if ch.isalnum())
    return simple(word) in simple(name)


def show(w, t):
    return w.path(t) if t else "(global)"


def queries(case, texts, at, w, e, r):
    """(messages, judge of the last answer, what it is about) each."""
    out = []
    told = {a["id"]: a for a in e["told"]}
    universe = {v["name"] for v in case["vars"]} | {p["name"] for p in case["procs"]} | {b for b in ("xx", "yy", "xy", "yx", "zx", "zy", "zz", "zxx", "zyy", "zzz", "zxy", "zyx", "zza", "zzb")}
    types = {p["name"] for p in case["paths"]}
    for o, q in w.asks.items():
        a = told.get(o)
        if -o not in at or a is None or not a["known"]:
            continue
        f, ln, _ = at[-o][:3]
        lines = texts[f].split("\n")
        if q["k"] == "tree":
            lines[-1:] = (q["text"] + "\n").split("\n")
            ln = len(lines) - 2
        else:
            lines[ln:ln] = [q["text"]]
        pos = {"line": ln, "character": q["col"]}
        if q["k"] not in ("call", "callof"):
            want = Counter((n, 3 if k == "proc" and not t else KINDS[k], show(w, t) if k in ("var", "proc") else None) for n, k, t in a["names"] if matches(n, q["word"]))

            def judge(got, want=want, q=q):
                have = Counter((x["label"], x["kind"], x["detail"].removeprefix("on ") if x["kind"] in (2, 3, 5) else None) for x in got or []
                               if x["label"] in universe and x.get("detail") or x["kind"] == 14 and q["k"] in ("path", "procs", "tree") or x["kind"] == 7 and x["label"] in types)
                if have != want:
                    return sorted(want, key=str), sorted(have.elements(), key=str)
                for x in got or []:
                    # What is written for it: the name, and in a declaration its value or parameters.
                    text = x.get("insertText") or x["label"]
                    if q["k"] != "tree" or x["label"] not in universe or not x.get("detail"):
                        good = text in (x["label"], x["label"] + "/") or x["label"] not in universe
                    elif x["kind"] == 5:
                        good = text == x["label"] + " = "
                    else:
                        m = re.match(r"(\w+)\((.*)\)\n\t", text)
                        sets = [[b["name"] for b in p["params"]] for p in case["procs"] if p["name"] == x["label"] and show(w, p["ty"]) == x["detail"].removeprefix("on ")]
                        good = m and m[1] == x["label"] and [y.split("/")[-1] for y in m[2].split(", ") if y] in sets
                    if not good:
                        return "its name" + ("" if q["k"] != "tree" else " and what follows"), text
            out.append(("completion", f, "\n".join(lines), pos, judge, q["text"], bool(want)))
        else:
            want = (show(w, case["procs"][a["proc"] - 1]["ty"]) if a["proc"] else None, a["params"], q["arg"]) if a["proc"] else None

            def judge(got, want=want):
                have = None
                if got:
                    [s] = got["signatures"]
                    m = re.fullmatch(r"(.*)/(\w+)\((.*)\)", s["label"])
                    have = (m[1] or "(global)", [x["label"] for x in s["parameters"]], got["activeParameter"])
                    if [x.split("/")[-1] for x in m[3].split(", ") if x] != have[1]:
                        return want, s["label"]
                return None if have == want else (want, have)
            out.append(("signatureHelp", f, "\n".join(lines), pos, judge, q["text"], bool(want)))
    where = lambda o: at[o][:3]
    for o, kind, decl, near, plain in e["out"]:
        if o not in at or not plain or kind in ("open", "parent", "type") or r.random() < .5:
            continue
        f, l, c, n = at[o]
        pos = {"line": l, "character": c + r.randrange(0 if texts[f].split("\n")[l][:c].strip() else 1, n)}
        if kind in ("var", "local"):
            if kind == "local" and not decl:
                continue
            ty = w.btype.get(decl, (0, 0)) if kind == "local" else (case["vars"][decl - 1]["n"], case["vars"][decl - 1]["t"])
            if not ty[0] and not (ty[1] and w.types[ty[1] - 1][0] in BUILTIN):
                want = where(w.tyname[ty[1]])[:2] if ty[1] else None

                def judge(got, want=want):
                    have = None
                    if got:
                        g = got if isinstance(got, dict) else got[0]
                        have = (FILES.index(g["uri"].split("/")[-1]), g["range"]["start"]["line"]) if g["uri"].split("/")[-1] in FILES else g["uri"]
                    return None if have == want else (want, have)
                out.append(("typeDefinition", f, None, pos, judge, texts[f].split("\n")[l], bool(want)))
        if kind == "var":
            v = case["vars"][decl - 1]
            want = (show(w, v["ty"]), where(w.decl_at["var", decl])[1] + 1, w.typed((v["n"], v["t"])).lstrip("/"), v["name"])

            def judge(got, want=want):
                have = None
                for x in (got or {}).get("contents", []):
                    m = re.fullmatch(r"\[(.*)\]\(.*#L?(\d+).*\)\n```dm\nvar/(.*?)(\w+)\n```", x)
                    if m:
                        have = (m[1], int(m[2]), re.sub(r"\b(static|global|tmp)/", "", m[3]).strip("/"), m[4])
                return None if have == want else (want, (have, (got or {}).get("contents")))
            out.append(("hover", f, None, pos, judge, texts[f].split("\n")[l], True))
        elif kind == "proc" and not texts[f].split("\n")[l][:c].endswith("/proc/"):
            p = case["procs"][near - 1]
            want = (show(w, p["ty"]), where(w.decl_at["proc", near])[1] + 1, p["name"], [b["name"] for b in p["params"]])

            def judge(got, want=want):
                have = None
                for x in (got or {}).get("contents", []):
                    m = re.fullmatch(r"\[(.*)\]\(.*#L?(\d+).*\)\n```dm\nproc/(\w+)\((.*)\)\n```", x)
                    if m:
                        have = (m[1], int(m[2]), m[3], [y.split(" = ")[0].split("/")[-1] for y in m[4].split(", ") if y])
                return None if have == want else (want, (have, (got or {}).get("contents")))
            out.append(("hover", f, None, pos, judge, texts[f].split("\n")[l], True))
    return out


def run(c):
    n = 250 if c.quick else 4000
    work = [program(c.rng, .35) for _ in range(n)]
    em = {}
    for k in range(0, n, 5000):
        for e in c.tlc("Navigate", {}, cases=[x[0] for x in work[k:k + 5000]], spec="Spec", properties=["Terminates"]):
            em[k + e["cid"]] = e
    asked = [queries(*x, em[j + 1], c.rng) for j, x in enumerate(work)]

    def talk(j):
        def script(uri):
            msgs = []
            for m, f, text, pos, *_ in asked[j]:
                doc = {"uri": uri(FILES[f])}
                if text is not None:
                    msgs.append(("!textDocument/didOpen", {"textDocument": {**doc, "languageId": "dm", "version": 1, "text": text}}))
                msgs.append(("textDocument/" + m, {"textDocument": doc, "position": pos}))
                if text is not None:
                    msgs.append(("!textDocument/didClose", {"textDocument": doc}))
            return msgs
        return script
    res = serve(c.binary("lsharness", "dmls"), [(x[1], talk(j)) for j, x in enumerate(work)])
    for (case, texts, at, w), qs, out in zip(work, asked, res):
        if isinstance(out, dict):
            c.count("died", True, texts); c.fail(out["died"], texts, None, out); continue
        for (m, f, text, pos, judge, about, some), got in zip(qs, out):
            c.count(m, some, [texts, m, f, pos, about])
            if isinstance(got, dict) and "error" in got:
                c.fail(f"{m}: {got['error']}", [texts, f, about, pos], None, got); continue
            bad = judge(got)
            if bad:
                c.fail(f"{m} at {about.strip()!r}: {bad[1]!r} instead of {bad[0]!r}"[:400], [texts, f, about, pos], bad[0], bad[1])
            elif some:
                c.sample([texts, m, about], None, got)
    return c.finish("a behaviour is one question at a place of a program; trivial when there is nothing to offer", exhaustive=False)
