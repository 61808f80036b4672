"""P24: documents shared with the editor (spec/Docs.tla), against the real language server."""
import json, os, re, shutil, tempfile
import lsp

METHOD = {"open": "!textDocument/didOpen", "change": "!textDocument/didChange", "close": "!textDocument/didClose"}
S = lambda codes: "".join(map(chr, codes))
U = lambda text: [ord(c) for c in text]
ALPHABET = "aab1é\u4e2d\U0001f600\U0001d11e \t"


def messages(case, uris, look):
    out = []
    for e in case:
        u = uris[e["doc"]]
        if e["t"] == "open":
            p = {"textDocument": {"uri": u, "languageId": "dm", "version": e["v"], "text": S(e["text"])}}
        elif e["t"] == "close":
            p = {"textDocument": {"uri": u}}
        else:
            pos = lambda q: {"line": q[0], "character": q[1]}
            p = {"textDocument": {"uri": u, "version": e["v"]}, "contentChanges": [{"text": S(x["text"])} if x["whole"] else {"range": {"start": pos(x["from"]), "end": pos(x["to"])}, "text": S(x["text"])} for x in e["edits"]]}
        out.append((METHOD[e["t"]], p))
        for v in uris:
            for l in look:
                out.append((l, [v] if l == "verif/text" else {"textDocument": {"uri": v}}))
    return out


def units(line):
    return sum(2 if ord(c) > 0xffff else 1 for c in line)


def history(r):
    docs = r.choice([1, 2, 2])
    is_open, text, ver, out = [False] * docs, [""] * docs, [0] * docs, []
    nl = r.choice(["\n", "\n", "\r\n"])

    def some(n):
        return "".join(r.choice(ALPHABET) if r.random() < .75 else nl for _ in range(n))

    def place(t):
        # t is only a guess at the text then
        lines = t.split("\n")
        l = r.randrange(len(lines))
        c = r.randint(0, units(lines[l].rstrip("\r")))
        x = r.random()
        if x < .1:
            c += r.choice([1, 2, 5, 1000])
        elif x < .14:
            l = r.choice([len(lines), len(lines) + 3, 10 ** 6])
        return [l, c]
    for _ in range(r.randint(2, 9)):
        d = r.randrange(docs)
        x = r.random()
        if not is_open[d] and x < .8 or x < .05:
            text[d] = some(r.choice([0, 1, 5, 20, 60])); ver[d] = r.choice([0, 1, 1, 7]); is_open[d] = True
            out.append({"t": "open", "doc": d, "v": ver[d], "text": U(text[d])})
        elif x < .12 or not is_open[d]:
            out.append({"t": "close", "doc": d}) if r.random() < .7 else out.append({"t": "change", "doc": d, "v": 9, "edits": []})
            if out[-1]["t"] == "close":
                is_open[d] = False
        else:
            edits, t = [], text[d]
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                if r.random() < .08:
                    t = some(r.choice([0, 3, 20]))
                    edits.append({"whole": True, "from": [0, 0], "to": [0, 0], "text": U(t)})
                    continue
                a, b = place(t), place(t)
                if r.random() < .5:
                    b = [a[0], a[1] + r.choice([0, 0, 1, 2])]
                if b < a and r.random() < .9:
                    a, b = b, a
                s = some(r.choice([0, 0, 1, 2, 6]))
                edits.append({"whole": False, "from": a, "to": b, "text": U(s)})
                # roughly the text after it
                lines = t.split("\n")
                if max(a[0], b[0]) < len(lines) and a <= b:
                    off = lambda q: sum(len(l) + 1 for l in lines[:q[0]]) + min(q[1], len(lines[q[0]]))
                    t = t[:off(a)] + s + t[off(b):]
            text[d] = t
            v = ver[d] + r.choice([1, 1, 1, 1, 0, 2, -1])
            ver[d] = max(v, ver[d])
            out.append({"t": "change", "doc": d, "v": v, "edits": edits})
    return out


def procs(r):
    """Histories over texts which define a proc on each line; the disk has a text too."""
    n = iter(range(1000))
    line = lambda: r.choice([f"/proc/p{next(n)}() return", f"/proc/q{next(n)}() return // \U0001f600 \"#0000ff\"", f"// \u4e2d \"#00ff{next(n) % 90 + 10}\"", f"/proc/r{next(n)}() return // rgb(1, 2, 3)", ""])
    disk = [[line() for _ in range(r.randint(0, 5))] for _ in range(2)]
    is_open, text, ver, out = [False] * 2, [None] * 2, [0] * 2, []
    for _ in range(r.randint(2, 7)):
        d = r.randrange(2)
        x = r.random()
        if not is_open[d]:
            text[d] = r.choice([disk[d], [line() for _ in range(r.randint(0, 5))]])[:]; ver[d] = 1; is_open[d] = True
            out.append({"t": "open", "doc": d, "v": 1, "text": U("\n".join(text[d]))})
        elif x < .2:
            is_open[d] = False
            out.append({"t": "close", "doc": d})
        else:
            edits, t = [], text[d]
            for _ in range(r.choice([1, 1, 2, 3])):
                k = r.randint(0, len(t)); e = r.randint(k, min(len(t), k + 2))
                new = [line() for _ in range(r.choice([0, 1, 1, 2]))]
                if not t:
                    edits.append({"whole": True, "from": [0, 0], "to": [0, 0], "text": U("\n".join(new))}); t = new or [""]; continue
                y = r.random()
                if y < .15:
                    edits.append({"whole": False, "from": [len(t) + 3, 0], "to": [len(t) + 4, 0], "text": U("oops")}); continue
                if y < .5:
                    # within a line
                    k = r.randrange(len(t))
                    s = line()
                    cut = r.choice([0, units(t[k]), None])
                    if cut is None:
                        edits.append({"whole": False, "from": [k, 0], "to": [k, units(t[k]) + r.choice([0, 0, 3])], "text": U(s)}); t = t[:k] + [s] + t[k + 1:]
                    else:
                        edits.append({"whole": False, "from": [k, cut], "to": [k, cut], "text": U(s + "\n" if cut == 0 else "\n" + s)})
                        t = t[:k] + ([s, t[k]] if cut == 0 else [t[k], s]) + t[k + 1:]
                    continue
                last = e == len(t)
                if last:
                    a, b = [k, 0], [len(t) - 1, units(t[-1])]
                    if k == len(t):
                        continue
                    edits.append({"whole": False, "from": a, "to": b, "text": U("\n".join(new))}); t = t[:k] + (new or [""])
                else:
                    edits.append({"whole": False, "from": [k, 0], "to": [e, 0], "text": U("".join(x + "\n" for x in new))}); t = t[:k] + new + t[e:]
            ver[d] += 1
            v = ver[d] if r.random() < .9 else ver[d] - 2
            if v == ver[d]:
                text[d] = t
            else:
                ver[d] -= 1
            out.append({"t": "change", "doc": d, "v": v, "edits": edits})
    return out, ["\n".join(x) for x in disk]


def colors(text):
    out = []
    for l, line in enumerate(text.split("\n")):
        for m in re.finditer(r'"#([0-9a-f]{6})"|rgb\(1, 2, 3\)', line):
            h = m.group(1) or "010203"
            out.append((l, units(line[:m.start()]), l, units(line[:m.end()]), *(int(h[i:i + 2], 16) for i in (0, 2, 4))))
    return out


def seen_colors(res):
    return [(x["range"]["start"]["line"], x["range"]["start"]["character"], x["range"]["end"]["line"], x["range"]["end"]["character"], *(round(x["color"][k] * 255) for k in ("red", "green", "blue"))) for x in res]


def names(text):
    return sorted((m.group(1), l) for l, line in enumerate(text.split("\n")) for m in [re.match(r"/proc/(\w+)\(\)", line)] if m)


def run(c):
    q = c.quick
    binary = c.binary("lsharness", "dmls")
    small = {"NDocs": 1, "Alphabet": {97, 10, 13, 128512}, "MaxLen": 3 if q else 4, "MaxLine": 2, "MaxCol": 3 if q else 4}
    # every single edit of every small text
    groups = [("single edits, exhaustive", c.tlc("Docs", small, cases=[{"events": []}], spec="SpecAll", properties=["Terminates", "Moves"]), None)]
    n = 3000 if q else 30000
    work = [history(c.rng) for _ in range(n)]
    em = []
    for k in range(0, n, 6000):
        for e in c.tlc("Docs", {**small, "NDocs": 2}, cases=[{"events": w} for w in work[k:k + 6000]], spec="Spec", properties=["Terminates", "Moves"]):
            em.append({**e, "case": work[k + e["cid"] - 1], "cid": k + e["cid"]})
    groups.append(("random histories", em, work))
    for name, em, _ in groups:
        allowed = {}
        for e in em:
            allowed.setdefault(json.dumps(e["case"]) if not e["cid"] else e["cid"], [e["case"], []])[1].append(e["log"])
        todo = list(allowed.values())
        nd = [len(logs[0][0]["open"]) for _, logs in todo]
        outs = lsp.scripts(binary, [messages(case, [f"untitled:c{i}d{d}" for d in range(k)], ["verif/text"]) for i, ((case, _), k) in enumerate(zip(todo, nd))])
        for (case, logs), k, o in zip(todo, nd, outs):
            c.count(name, any(not x["ok"] or any(x["text"][str(d)] for d in range(k)) for x in logs[0]), case)
            show = lambda: [{**e, "text": S(e["text"])} if "text" in e else {**e, "edits": [{**x, "text": S(x["text"])} for x in e["edits"]]} if "edits" in e else e for e in case]
            if isinstance(o, dict):
                c.fail(o["died"], show(), logs, o); continue
            got = []
            for i in range(len(case)):
                texts = [x if isinstance(x, str) else None for x in o[i * (k + 1) + 1:(i + 1) * (k + 1)]]
                said = [m for m in o[i * (k + 1)] if m["method"] == "window/showMessage"]
                got.append({"ok": not said, "texts": texts})
            want = [[{"ok": x["ok"], "texts": [S(x["text"][str(d)]) if x["open"][str(d)] else None for d in range(k)]} for x in log] for log in logs]
            if got not in want:
                at = max(next(i for i in range(len(case)) if w[i] != got[i]) for w in want)
                c.fail(f"after notification {at + 1}, the server has {got[at]['texts']}" + (" and reports no error" if got[at]["ok"] else " and reports an error") + f" instead of {want[0][at]}", show(), want, got)
            else:
                c.sample(show(), want[0], got)
    # what is made of the texts
    m = 600 if q else 6000
    work = [procs(c.rng) for _ in range(m)]
    em = {}
    for e in c.tlc("Docs", {**small, "NDocs": 2}, cases=[{"events": w} for w, _ in work], spec="Spec", properties=["Terminates", "Moves"]):
        em[e["cid"]] = e["log"]
    tmp = tempfile.mkdtemp(prefix="vp24-")
    try:
        scripts = []
        for i, (case, disk) in enumerate(work):
            uris = []
            for d in range(2):
                path = os.path.join(tmp, f"c{i}d{d}.dm")
                with open(path, "w") as f:
                    f.write(disk[d])
                uris.append("file://" + path)
            scripts.append(messages(case, uris, ["verif/text", "textDocument/documentColor", "textDocument/documentSymbol"]))
        outs = lsp.scripts(binary, scripts, timeout=60)
    finally:
        shutil.rmtree(tmp)
    for j, ((case, disk), o) in enumerate(zip(work, outs)):
        log = em[j + 1]
        c.count("texts of procs", True, case)
        show = [{**e, "text": S(e["text"])} if "text" in e else {**e, "edits": [{**x, "text": S(x["text"])} for x in e["edits"]]} if "edits" in e else e for e in case]
        if isinstance(o, dict):
            c.fail(o["died"], {"disk": disk, "events": show}, log, o); continue
        bad = None
        for i, want in enumerate(log):
            said = [m["params"]["message"] for m in o[i * 7] if m["method"] == "window/showMessage"]
            if bool(said) == want["ok"]:
                bad = bad or f"notification {i + 1}: " + (f"error {said}" if said else "no error")
            for d in range(2):
                text = S(want["text"][str(d)]) if want["open"][str(d)] else disk[d]
                a, b, s = o[i * 7 + 1 + 3 * d:i * 7 + 4 + 3 * d]
                if a != text:
                    bad = bad or f"after notification {i + 1}: document {d} is {a!r} instead of {text!r}"
                elif seen_colors(b) != colors(text):
                    bad = bad or f"after notification {i + 1}: document {d} shows colors {seen_colors(b)} instead of {colors(text)}"
                else:
                    have = sorted((x["name"], x["selectionRange"]["start"]["line"]) for x in s) if isinstance(s, list) else s or []
                    if have != names(text):
                        bad = bad or f"after notification {i + 1}: document {d} has symbols {have} instead of {names(text)}"
        if bad:
            c.fail(bad, {"disk": disk, "events": show}, log, o)
    return c.finish("a behaviour is a history of notifications; trivial when every text stays empty", exhaustive=True)
