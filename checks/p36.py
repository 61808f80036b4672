"""P36: outlines and name search (spec/Outline.tla), folds and colours (spec/Marks.tla)."""
import lsp
from p30 import FILES, serve

KINDS = {5: "class", 8: "field", 6: "method", 9: "constructor", 12: "function", 13: "variable", 14: "constant"}
STEMS = ["foo", "fooBar", "foo_b", "Foo", "f_o", "ba", "Bar", "qux", "B_ar", "x9"]
BASES = ["obj", "turf", "datum", "mob"]
SEGS = ["thing", "other", "Thing2", "th_ing", "sub"]


class Text:
    """One text as lines with what they declare."""
    def __init__(self, r, used):
        self.r, self.used = r, used
        self.lines, self.text = [], []
        for _ in range(r.choice([1, 2, 3, 4, 5])):
            self.top()

    def name(self):
        while True:
            n = self.r.choice(STEMS) + str(self.r.randint(0, 40)) * (self.r.random() < .9)
            if n not in self.used:
                self.used.add(n)
                return n

    def put(self, d, k, path=("x",), abs_=False, text="", more=()):
        """A line; more: further declarations on it."""
        n = len(self.text)
        self.text.append("\t" * d + text)
        for kk, pp in [*more, (k, path)]:
            self.lines.append({"d": d, "k": kk, "path": list(pp), "abs": abs_, "at": n})

    def noise(self):
        r = self.r
        x = r.random()
        if x < .06:
            n = self.name().upper()
            if n not in self.used:
                self.used.add(n)
                self.put(0, "define", (n,), text=r.choice(["", "\t"]) + f"#define {n}" + r.choice(["", " 1", "(a) a + 1"]))
        elif x < .12:
            self.put(0, "blank", text=r.choice(["", "// note", "\t\t", "/* two */"]))

    def type_(self):
        r = self.r
        return [r.choice(BASES)] + [r.choice(SEGS) for _ in range(r.choice([1, 1, 2]))]

    def value(self):
        return self.r.choice(["", "", " = 1", " = null", ' = "s"', " = list(1, 2)"])

    def typed(self):
        r = self.r
        return r.choice([[], [], ["list"], ["obj", "thing"], ["tmp"], ["static", "obj"], ["const"]])

    def top(self):
        r = self.r
        self.noise()
        slash = r.random() < .7
        s = "/" if slash else ""
        k = r.choice(["type"] * 5 + ["proc", "proc", "var", "member", "member", "heading"])
        if k == "type":
            t = self.type_()
            self.put(0, "type", t, slash, s + "/".join(t))
            self.members(1, len(t))
        elif k == "heading":
            w = r.choice(["proc", "var"])
            self.put(0, "heading", [w], slash, s + w)
            self.group(1, w)
        else:
            t = self.type_() if k == "member" else []
            if k == "member":
                k = r.choice(["proc", "var", "override", "set"])
            self.member(0, k, t, slash)

    def group(self, d, w):
        for _ in range(self.r.choice([1, 2, 3])):
            self.noise()
            n = self.name()
            if w == "proc":
                self.proc(d, [n], False)
            else:
                t = self.typed()
                self.put(d, "var", t + [n], False, "/".join(t + [n]) + (" = 1" if "const" in t else self.value()))

    def member(self, d, k, t, slash):
        r, s = self.r, "/" if slash else ""
        if k == "var":
            p = t + ["var"] + self.typed() + [self.name()]
            self.put(d, "var", p, slash, s + "/".join(p) + (" = 1" if "const" in p else self.value()))
        elif k == "set":
            p = t + [self.name()]
            self.put(d, "var", p, slash, s + "/".join(p) + " = " + r.choice(["1", "null"]))
        elif k == "proc":
            self.proc(d, t + r.choice([["proc"], ["proc"], ["proc", "final"]] + [["verb"]] * (t != [] or d > 0)) + [self.name()], slash)
        else:
            self.proc(d, t + [r.choice([self.name(), "New", "Initialize"])], slash)

    def members(self, d, depth):
        r = self.r
        for _ in range(r.choice([1, 2, 3, 4])):
            self.noise()
            k = r.choice(["var", "var", "set", "proc", "proc", "override", "heading"] + ["type"] * (depth < 4))
            if k == "type":
                t = [r.choice(SEGS) for _ in range(r.choice([1, 1, 2]))]
                self.put(d, "type", t, False, "/".join(t))
                self.members(d + 1, depth + len(t))
            elif k == "heading":
                w = r.choice([["proc"], ["var"], ["var"], ["var", "static"]])
                self.put(d, "heading", w, False, "/".join(w))
                self.group(d + 1, w[0])
            else:
                self.member(d, k, [], False)

    def proc(self, d, p, slash):
        r = self.r
        head = ("/" if slash else "") + "/".join(p) + r.choice(["()", "(a)", "(a, var/list/b = 3)"])
        if r.random() < .12:
            self.put(d, "proc", p, slash, head + r.choice([" return 5", "", " return"]))
        else:
            self.put(d, "proc", p, slash, head)
            self.body(d + 1, 2)

    def body(self, d, deep):
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3])):
            self.noise()
            x = r.random()
            n = r.choice(["u", "v_1", "W"])
            if x < .4:
                self.put(d, "local", (n,), text="var/" + r.choice(["", "", "list/", "obj/thing/"]) + n + self.value())
            elif x < .6 and deep:
                self.put(d, "block", text=r.choice(["if(1)", "while(2)", "spawn(3)", "for(var/{} in 1 to 3)".format(n)]))
                if "for(" in self.text[-1]:
                    self.lines.insert(-1, {**self.lines[-1], "k": "local", "path": [n]})
                self.body(d + 1, deep - 1)
                if "if(" in self.text[-1] or (r.random() < .3 and self.text and any(t == "\t" * d + "if(1)" for t in self.text[-2:])):
                    pass
            elif x < .7 and deep:
                self.put(d, "block", text="try")
                self.body(d + 1, deep - 1)
                self.put(d, "block", text="catch(var/exception/e)", more=[("local", ["e"])])
                self.body(d + 1, deep - 1)
            else:
                self.put(d, "stmt", text=r.choice(["return", ". = 4", "a++", "src = usr"]))


def words(q):
    return list(q)


def query(r, names):
    n = r.choice(names)
    cut = n[:r.randint(1, len(n))]
    if r.random() < .3:
        cut = cut.replace("_", "") if r.random() < .5 else cut[:1] + r.choice("__.- :") + cut[1:]
    if r.random() < .4:
        cut = r.choice([cut.upper(), cut.lower()])
    k = r.choice(["any", "any", "any", "#", "var", "proc", "path", "path"])
    if k == "path":
        t = r.choice(SEGS).lower() if r.random() < .5 else r.choice(SEGS).upper()
        cut = r.choice(["/" + t[:r.randint(1, 9)], "obj/" + t[:2], t + "/", "/", r.choice(SEGS) + "/" + r.choice(SEGS)])
        if cut.startswith(("var/", "proc/")):
            cut = "/" + cut
    elif r.random() < .05:
        cut = r.choice(["_", "", ".", "zz"])
    return {"k": k, "s": words(cut), "text": {"any": "", "#": "#", "var": "var/", "proc": "proc/", "path": ""}[k] + cut}


def case(r):
    used = set()
    texts = [Text(r, used) for _ in FILES]
    lines = [{**l, "file": f} for f, t in enumerate(texts) for l in t.lines]
    symbols, types = [], set()
    stack = []
    # what each line declares, for the search
    for i, l in enumerate(lines):
        if l["k"] in ("blank", "stmt", "local", "block"):
            continue
        if l["k"] == "define":
            symbols.append({"kind": "constant", "name": l["path"][-1], "under": [], "i": i})
            continue
        stack = [b for b in stack if b[0] < l["d"]] if l["d"] else []
        whole = (stack[-1][1] if stack and not l["abs"] else []) + l["path"]
        w = next((n for n, x in enumerate(whole) if x in ("var", "proc", "verb")), None)
        # without one of the words, all but the last name is the type
        place = whole[:w] if w is not None else whole if l["k"] == "type" else whole[:-1]
        for n in range(1, len(place) + 1):
            types.add(tuple(place[:n]))
        if l["k"] in ("type", "heading"):
            stack.append((l["d"], whole))
        elif w is not None:
            kind = "field" if l["k"] == "var" else "function" if not place else "constructor" if whole[-1] in ("New", "Initialize") else "method"
            symbols.append({"kind": kind, "name": whole[-1], "under": place, "i": i})
    symbols += [{"kind": "class", "name": t[-1], "under": list(t[:-1]), "i": -1} for t in sorted(types)]
    names = sorted({s["name"] for s in symbols})
    every = sorted({n for s in symbols for n in [s["name"], *s["under"]]})
    qs = [query(r, names) for _ in range(8)] if names else []
    spec = {"lines": [{k: l[k] for k in ("d", "k", "path", "abs")} for l in lines], "symbols": [{k: s[k] for k in ("kind", "name", "under")} for s in symbols],
            "queries": [{"k": x["k"], "s": x["s"]} for x in qs], "spelled": [{"n": n, "s": list(n)} for n in every]}
    return spec, lines, symbols, qs, ["\n".join(t.text) + "\n" for t in texts]


def expected(e, lines, f):
    """Entries of file f: (line, kind, name, detail, parent's line and name, first and last line where it may end)."""
    sel = lambda i: lines[i - 1]
    out = []
    for x in e["entries"]:
        l = sel(x["line"])
        if l["file"] != f:
            continue
        p = e["entries"][x["parent"] - 1] if x["parent"] else None
        out.append((l["at"], x["kind"], x["name"], x["detail"], None if x["kind"] == "constant" else (sel(p["line"])["at"], p["name"]) if p else (),
                    sel(x["end"])["at"] if x["kind"] in ("class", "method", "function", "constructor") else None))
    return sorted(out, key=lambda x: (x[:4], str(x[4])))


def shown(nodes, lines, f, upto):
    """The same of what the server answers, and what is wrong with its ranges."""
    here = [l for l in lines if l["file"] == f and l["k"] not in ("blank", "define")]
    # a block is said to start at its first line
    opener = {}
    for a, b in zip(here, here[1:]):
        if a["k"] in ("type", "heading") and b["d"] > a["d"]:
            opener[b["at"]] = a
    out, bad = [], []

    def walk(ns, parent):
        for n in ns or []:
            kind = KINDS.get(n["kind"], n["kind"])
            s, z, q = n["range"]["start"], n["range"]["end"], n["selectionRange"]["start"]
            pos = lambda p: (p["line"], p["character"])
            if not (pos(s) <= pos(q) <= pos(z)):
                bad.append(f"{n['name']}: range {pos(s)} to {pos(z)}")
            at, me = s["line"], parent
            if kind == "class":
                o = opener.get(at)
                if o is None:
                    bad.append(f"a class {n['name']} at line {at}")
                    continue
                at = o["at"]
                if o["k"] == "heading":
                    walk(n.get("children"), parent)
                    continue
            me = (at, n["name"])
            out.append((at, kind, n["name"], n.get("detail") or "", None if kind == "constant" else parent, z["line"] if kind in ("class", "method", "function", "constructor") else None))
            walk(n.get("children"), me)
    walk(nodes, ())
    return sorted(out, key=lambda x: (x[:4], str(x[4]))), bad


def compare(want, got, lines, f):
    a, b = [x[:5] for x in want], [x[:5] for x in got]
    if a != b:
        less, more = [x for x in a if x not in b], [x for x in b if x not in a]
        return f"outline lacks {less[:2]}, has {more[:2]}"
    ats = sorted({l["at"] for l in lines if l["file"] == f and l["k"] not in ("blank", "define")})
    for x, y in zip(want, got):
        if x[5] is not None:
            nxt = next((n for n in ats if n > x[5]), 1 << 30)
            if not x[5] <= y[5] <= nxt:
                return f"{x[2]} ends at line {y[5]}, not {x[5]}"


# ---------------------------------------------------------------- folds and colours
def marked(r):
    out = []
    mark = lambda: r.choice(["", "", "\t", "  ", "x "]) + r.choice(["//", "//", "// ", "//  ", "/", "/*"]) + r.choice(["#region", "#region", "#endregion", "#endregion", "#Region", "#regio", "#end"]) + r.choice(["", "", " name", "\tx", "s", "-"])
    hexes = lambda: "".join(r.choice("0123456789abcdefABCDEF") for _ in range(r.choice([3, 4, 6, 8] * 4 + [2, 5, 7, 9])))
    same = lambda: "".join(2 * r.choice("0123456789abcdef") for _ in range(r.choice([3, 4])))

    def colour():
        x = r.random()
        if x < .55:
            a, b = r.choice(["''", '""', "''", '""', "'\""])
            return a + r.choice(["#", "#", "#", "#", "", "##"]) + r.choice([hexes, hexes, same])() + r.choice(["", "", "", "", "", "g"]) + b
        ns = [str(r.choice([0, 1, 17, 85, 128, 254, 255, r.randint(0, 255)])) for _ in range(r.choice([3, 3, 4, 4, 2, 5]))]
        if r.random() < .15:
            ns[r.randrange(min(3, len(ns)))] = r.choice(["256", "999", "1000", "x", "", "007"])
        sp = lambda: r.choice(["", "", "", " ", "  ", "\t", "\n"])
        return r.choice(["rgb(", "rgb(", "rgb(", "rgb (", "RGB("]) + ",".join(sp() + n for n in ns) + sp() * (r.random() < .5) + (" " if r.random() < .05 else "") + r.choice([")", ")", ")", ")", "", ","])
    nl = r.choice(["\n", "\n", "\r\n"])
    for _ in range(r.choice([1, 3, 6, 9])):
        if r.random() < .6:
            out.append(mark())
        else:
            out.append("".join(r.choice([colour, colour, lambda: r.choice(["a", " ", "é", "\U0001f600", "rgb(", '"#', "'", "//", "\u4e2d = "])])() for _ in range(r.choice([1, 2, 3]))))
    return nl.join(out) + (nl if r.random() < .7 else "")


def offset(text, i):
    """The i-th character's line and column in UTF-16 units."""
    before = text[:i]
    line = before.count("\n")
    tail = before[before.rfind("\n") + 1:]
    return {"line": line, "character": sum(2 if ord(c) > 0xffff else 1 for c in tail)}


def run(c):
    r, q = c.rng, c.quick
    dmls = c.binary("lsharness", "dmls")
    # outlines of single texts, outlines and searches in projects
    single, projects = [case(r) for _ in range(1500 if q else 12000)], [case(r) for _ in range(160 if q else 2000)]
    work = single + projects
    em = {}
    for k in range(0, len(work), 4000):
        for e in c.tlc("Outline", {}, cases=[w[0] for w in work[k:k + 4000]], spec="Spec", properties=["Terminates"]):
            em[k + e["cid"] - 1] = e
    scripts = []
    for i, w in enumerate(single):
        d = {"uri": f"file:///doc{i}.dm"}
        scripts.append([("!textDocument/didOpen", {"textDocument": {**d, "languageId": "dm", "version": 1, "text": w[4][0]}}), ("textDocument/documentSymbol", {"textDocument": d}), ("!textDocument/didClose", {"textDocument": d})])
    answers = [a if isinstance(a, dict) else [a[1]] for a in lsp.scripts(dmls, scripts)]
    asks = lambda w: lambda uri: [("textDocument/documentSymbol", {"textDocument": {"uri": uri(f)}}) for f in FILES] + [("workspace/symbol", {"query": x["text"]}) for x in w[3]]
    answers += serve(dmls, [(w[4], asks(w)) for w in projects])
    for i, (w, a) in enumerate(zip(work, answers)):
        spec, lines, symbols, qs, texts = w
        alone = i < len(single)
        show = {"texts": texts[:1] if alone else texts}
        want = [expected(em[i], lines, f) for f in range(1 if alone else 2)]
        c.count("texts" if alone else "projects", len(want[0]) > 3, texts[0] + texts[1] * (not alone))
        bad, got = None, a
        if isinstance(a, dict):
            bad = a.get("died") or "no answer"
        for f in range(0 if bad else len(want)):
            if isinstance(a[f], dict):
                bad = f"no outline: {a[f]}"
                break
            got, wrong = shown(a[f], lines, f, len(texts[f].split("\n")))
            bad = (wrong[0] if wrong else None) or compare(want[f], got, lines, f)
            if bad:
                bad = f"{FILES[f]}: {bad}"
                break
        if bad:
            c.fail(bad, show, want, got)
            continue
        for k, x in enumerate([] if alone else qs):
            res = a[2 + k]
            if isinstance(res, dict):
                bad = f"search for {x['text']!r}: {res}"
                break
            got = sorted((KINDS.get(s["kind"]), s["name"], s.get("containerName") or "", -1 if s["kind"] == 5 else s["location"]["range"]["start"]["line"], s["location"]["uri"].rsplit("/", 1)[1] if s["kind"] != 5 else "")
                         for s in res or [] if s["location"]["uri"].startswith("file:") and s["location"]["uri"].rsplit("/", 1)[1] in FILES and not (s["kind"] == 5 and not s.get("containerName")))
            exp = []
            for n in em[i]["found"][k]:
                s = symbols[n - 1]
                if s["kind"] == "class" and not s["under"]:
                    continue
                l = lines[s["i"]] if s["i"] >= 0 else None
                exp.append((s["kind"], s["name"], "".join("/" + u for u in s["under"]), l["at"] if l else -1, FILES[l["file"]] if l else ""))
            exp.sort()
            if got != exp:
                bad = f"search for {x['text']!r} lacks {[y for y in exp if y not in got][:2]}, has {[y for y in got if y not in exp][:2]}"
                c.fail(bad, show, exp, got)
                break
        if not bad:
            c.sample(show, want[0][:6], None)
    # folds and colours
    texts = [marked(r) for _ in range(1200 if q else 12000)]
    picks = [[{"n": r.randint(0, 9), "rgba": [r.choice([0, 17, 34, 255, 128, r.randint(0, 255)]) for _ in range(3)] + [r.choice([255, 255, 0, 17, 128])]} for _ in range(3)] for _ in texts]
    plain = lambda ch: ch if ord(ch) < 128 else "?"
    em = {}
    for k in range(0, len(texts), 4000):
        for e in c.tlc("Marks", {}, cases=[{"text": [plain(ch) for ch in t], "picks": p} for t, p in zip(texts[k:k + 4000], picks[k:k + 4000])], spec="Spec", properties=["Terminates"]):
            em[k + e["cid"] - 1] = e
    scripts = []
    for i, (t, p) in enumerate(zip(texts, picks)):
        d = {"uri": f"file:///m{i}.dm"}
        cs = em[i]["colours"]
        scripts.append([("!textDocument/didOpen", {"textDocument": {**d, "languageId": "dm", "version": 1, "text": t}}), ("textDocument/foldingRange", {"textDocument": d}), ("textDocument/documentColor", {"textDocument": d})]
                       + [("textDocument/colorPresentation", {"textDocument": d, "color": dict(zip(("red", "green", "blue", "alpha"), [v / 255 for v in x["rgba"]])),
                                                              "range": {"start": offset(t, cs[s["n"] - 1]["from"] - 1), "end": offset(t, cs[s["n"] - 1]["end"] - 1)}}) for x, s in zip(p, em[i]["shown"])])
    for i, a in enumerate(lsp.scripts(dmls, scripts)):
        e = em[i]
        c.count("marks", len(e["folds"]) + len(e["colours"]) > 1, texts[i])
        want = {"folds": sorted(map(list, e["folds"])), "colours": [{"range": {"start": offset(texts[i], x["from"] - 1), "end": offset(texts[i], x["end"] - 1)}, "rgba": x["rgba"]} for x in e["colours"]],
                "picked": [s["text"] for s in e["shown"]]}
        bad, got = None, a
        if isinstance(a, dict):
            bad = a["died"]
        elif any(isinstance(x, dict) for x in a):
            bad = "no answer"
        else:
            got = {"folds": sorted([x["startLine"], x["endLine"]] for x in a[1]), "colours": [{"range": x["range"], "rgba": [round(x["color"][k] * 255) for k in ("red", "green", "blue", "alpha")]} for x in a[2]],
                   "picked": [x[0]["label"] for x in a[3:]]}
            bad = next((f"{k}: {got[k]}, not {want[k]}" for k in want if got[k] != want[k]), None)
        if bad:
            c.fail(bad[:300], {"text": texts[i], "picks": picks[i]}, want, got)
    return c.finish("a behaviour is a text with its outline, a project with its outlines and searches, or a text with its marks; trivial with next to nothing in it", exhaustive=False)
