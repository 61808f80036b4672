"""P26: documentation comments (spec/DocText.tla)."""
import itertools
import random
import re
from vlib import died

WORDS = ["alpha", "b * c", "d/e", "x", "see [/obj]", "é", "😀 f", "1. one", "* item", "\"q", "'", "#define", "a;", "{", "\\ b"]


class Gen:
    def __init__(self, r):
        self.r, self.lines, self.text, self.notes, self.names = r, [], [], [], 0
        self.pending = False
        self.at = {}        # model line -> text line
        self.types = []
        self.pulls = []

    def name(self, p):
        self.names += 1
        return f"{p}{self.names}"

    # Comments.  What the source has, and the lines of its text.
    def word(self):
        w = self.r.choice(WORDS)
        return w if not w.endswith("\\") else w + "."

    def note(self, target, form=None, multi=True):
        r = self.r
        form = form or r.choice(["line", "block"])
        if target == "none":
            w = self.word()
            src = "// " + w if form == "line" else "/* " + w.replace("*", "") + " */"
            if src.startswith("// ") and r.random() < .1:
                src = "//"
            lines = [w]
        elif form == "line":
            body = r.choice(["", " ", "  ", "\t", "/", "//", " /"]) + r.choice([self.word(), self.word(), ""]) + r.choice(["", " ", " /"])
            if body.endswith("\\"):
                body += "."
            src = ("///" if target == "next" else "//!") + body
            lines = [body]
        else:
            n = r.choice([1, 1, 2, 3, 4]) if multi else 1
            lead = r.choice(["", " ", " * ", "\t", "\t* ", "*"])
            if n == 1:
                lines = [r.choice(["", " "]) + r.choice([self.word(), self.word(), ""]) + r.choice([" ", " *", "  "])]
            else:
                first = "" if target == "next" or r.random() < .5 else " " + self.word()
                lines = [first] + [lead + r.choice(["", "", " "]) + r.choice([self.word(), self.word(), self.word(), ""]) for _ in range(n - 1)]
                lines += [r.choice([" ", "", "\t"])] if r.random() < .7 else []
            lines = [l.replace("*/", "* /").replace("/*", "/ *") for l in lines]
            if lines[-1].endswith("/") or lines[-1] == "":
                lines[-1] += " "
            if target == "next" and lines[0].startswith("/"):
                lines[0] = " " + lines[0]
            body = "\n".join(lines)
            src = ("/**" if target == "next" else "/*!") + body + "*/"
            if target == "next":
                lines[0] = "*" + lines[0]
        self.notes.append({"target": target, "form": form, "lines": [[ord(c) for c in l] for l in lines], "src": src})
        return len(self.notes), src

    def put(self, k, indent, src, key="", opens=False, pre=(), post=()):
        self.lines.append({"k": k, "indent": indent, "opens": opens, "key": key, "pre": list(pre), "post": list(post)})
        self.at[len(self.lines)] = len("\n".join(self.text).split("\n")) + 1 if self.text else 1
        self.text.append("\t" * indent + src)

    def own(self, indent, target, form=None):
        n, src = self.note(target, form)
        self.put("note", indent, src, pre=[n])
        if target == "next":
            self.pending = True

    def filler(self, indent):
        r = self.r
        x = r.random()
        if x < .1:
            self.put("blank", 0, r.choice(["", "\t", "  "]))
        elif x < .2:
            self.own(indent, "none")
        elif x < .24:
            n, src = self.note("next"); _, src2 = self.note("around")
            self.put("blank", 0, f"#if 0\n{src}\n/obj/dead\n\tx = 1\n{src2}\n#endif")
        elif x < .32:
            self.macro()

    def macro(self):
        r = self.r
        n = self.name("M")
        post, tail = [], ""
        for i in range(r.choice([0, 0, 1, 2])):
            j, src = self.note(r.choice(["around", "around", "next", "none"]), multi=False)
            if self.notes[j - 1]["target"] == "none" and self.notes[j - 1]["form"] == "line":
                self.notes.pop()
                break
            post.append(j); tail += " " + src
            if self.notes[j - 1]["form"] == "line":
                break
        body = r.choice([" 1", "(a) a", "", " (2 + 3)", "(a, b) a + b", ' "s"'])
        self.put("macro", 0, f"#define {n}{body}{tail}", key="#" + n, post=post)
        self.pending = False

    def before(self, indent, own=True):
        """What comes before an item or statement."""
        r = self.r
        self.filler(indent)
        pre, head = [], ""
        if r.random() < .4:
            for _ in range(r.choice([1, 1, 2, 3])):
                self.own(indent, "next")
                self.filler(indent)
        if own and r.random() < .1:
            n, src = self.note("next", "block", multi=False)
            pre.append(n); head = src + " "
        return pre, head

    def after(self, code=False):
        """What comes after it on its line."""
        r = self.r
        post, tail = [], ""
        x = r.random()
        if x < .35:
            for _ in range(r.choice([1, 1, 2])):
                n, src = self.note("around", multi=False)
                post.append(n); tail += r.choice([" ", "\t", "  "]) + src
                if self.notes[n - 1]["form"] == "line":
                    break
        elif x < .45:
            n, src = self.note("next", multi=False)
            post.append(n); tail = " " + src
        elif x < .55:
            n, src = self.note("none", multi=False)
            post.append(n); tail = " " + src
        self.pending = any(self.notes[n - 1]["target"] == "next" for n in post)
        return post, tail

    def emit(self, indent, src, key, opens=False):
        pre, head = self.before(indent)
        post, tail = self.after()
        self.put("item", indent, head + src + tail, key=key, opens=opens, pre=pre, post=post)
        if opens and not self.pending:
            for _ in range(self.r.choice([0, 0, 1, 2])):
                self.own(indent + 1, "around")

    def code(self, indent, d=0):
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3])):
            pre, head = self.before(indent, own=False)
            if r.random() < .1 and not self.pending and self.lines[-1]["k"] == "code":
                self.own(indent, "around")
            x = r.random()
            post, tail = self.after(True)
            if x < .2 and d < 2:
                self.put("code", indent, "if (x)" + tail, post=post)
                self.code(indent + 1, d + 1)
            else:
                self.put("code", indent, r.choice(["return 1", "x = 2", "f()", "var/y = 3", "del src"]) + tail, post=post)
        if r.random() < .1:
            self.own(indent, "next")

    def proc(self, indent, head, key):
        r = self.r
        args = r.choice(["()", "(a)", "(a, b = 1)", "(obj/a, ...)"])
        if r.random() < .6:
            self.emit(indent, head + args, key, True)
            self.code(indent + 1)
        else:
            self.emit(indent, head + args, key)

    def member(self, indent, path, prefix=""):
        """A var or proc, `prefix` before its declaration."""
        r = self.r
        x = r.random()
        if x < .3:
            n = self.name("v")
            self.emit(indent, prefix + "var/" + r.choice(["", "obj/", "static/", "list/"]) + n + r.choice(["", " = 1", ' = "s"', " = null"]), f"{path}:{n}")
        elif x < .5:
            n = self.name("w")
            self.emit(indent, f"{prefix}{n} = " + r.choice(["1", "\"s\"", "list(1, 2)"]), f"{path}:{n}")
        elif x < .75:
            n = self.name("f")
            self.proc(indent, f"{prefix}proc/{n}", f"{path}:{n}()")
        elif x < .85:
            n = self.name("g")
            self.proc(indent, prefix + n, f"{path}:{n}()")
        elif x < .93:
            self.emit(indent, prefix + "var", path, True)
            for _ in range(r.choice([1, 2])):
                n = self.name("v")
                self.emit(indent + 1, r.choice(["", "obj/"]) + n + r.choice(["", " = 1"]), f"{path}:{n}")
        else:
            self.emit(indent, prefix + "proc", path, True)
            for _ in range(r.choice([1, 2])):
                n = self.name("f")
                self.proc(indent + 1, n, f"{path}:{n}()")

    def block(self, indent, path):
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3])):
            if r.random() < .25 and indent < 4:
                n = self.name("t")
                sub = f"{path}/{n}"
                opens = r.random() < .7
                self.emit(indent, n, sub, opens)
                self.types.append(sub)
                if opens:
                    self.block(indent + 1, sub)
            else:
                self.member(indent, path)
            if r.random() < .07 and not self.pending:
                k = self.lines[-1]
                if k["k"] == "item" and not k["opens"] and k["indent"] == indent:
                    self.own(indent, "around")

    def root(self):
        r = self.r
        if r.random() < .3:
            self.own(0, "around")
        for _ in range(r.choice([1, 2, 3, 4])):
            x = r.random()
            if r.random() < .2 and not self.pending:
                self.own(0, "around")
            if x < .15 and self.types:
                self.emit_type(r.choice(self.types))
            elif x < .55 or not self.types:
                t = r.choice(["/obj", "/mob", "/datum", "/turf"]) + "/" + self.name("t")
                self.types.append(t)
                self.emit_type(t)
            elif x < .8:
                t = r.choice(self.types)
                self.member(0, t, r.choice([t, t[1:]]) + "/")
            else:
                m = self.name("D")
                self.macro_item(m)
        if r.random() < .2:
            self.own(0, r.choice(["next", "none"] + ["around"] * (not self.pending)))
        return {"lines": self.lines, "notes": [{k: n[k] for k in ("target", "form", "lines")} for n in self.notes]}

    def macro_item(self, m):
        n = self.name("t")
        self.put("macro", 0, f"#define {m}(n) /obj/n", key="#" + m)
        self.pending = False
        self.emit(0, f"{m}({n})", f"/obj/{n}")
        self.types.append(f"/obj/{n}")

    def emit_type(self, t):
        opens = self.r.random() < .75
        self.emit(0, self.r.choice([t, t[1:]]), t, opens)
        if opens:
            self.block(1, t)


def blanked(g):
    """The program with its documentation turned into ordinary comments."""
    t = "\n".join(g.text) + "\n"
    at = 0
    for n in g.notes:
        i = t.find(n["src"], at)
        assert i >= 0, (n, t)
        at = i + len(n["src"])
        if n["target"] != "none":
            t = t[:i + 2] + " " + t[i + 3:]
    return t


def run(c):
    r = random.Random(c.seed)
    progs = []
    def add(g, case, group):
        progs.append((case, g, group))
    # The text of comments: all short sequences of few comments on one item.
    few = [("line", ""), ("line", " a"), ("line", "  b /"), ("line", "/"), ("line", "// c"), ("block", " d "), ("block", " "), ("block", "\n * e\n *   f\n "), ("block", "\n\n\tg*\n\n\th*\n"), ("block", "*\n i *\n*"),
           ("line", "j\t"), ("block", "k")]
    for n in range(1, 4 if c.quick else 5):
        for seq in itertools.product(few, repeat=n):
            g = Gen(r)
            for form, body in seq:
                src = "///" + body if form == "line" else "/**" + body + "*/"
                lines = [body] if form == "line" else ("*" + body).split("\n")
                g.notes.append({"target": "next", "form": form, "lines": [[ord(ch) for ch in l] for l in lines], "src": src})
                g.put("note", 0, src, pre=[len(g.notes)])
            g.put("item", 0, "/obj/t", key="/obj/t")
            add(g, {"lines": g.lines, "notes": [{k: x[k] for k in ("target", "form", "lines")} for x in g.notes]}, "texts")
    for _ in range(6000 if c.quick else 60000):
        g = Gen(r)
        add(g, g.root(), "programs")
    texts = []
    for _, g, group in progs:
        t = "\n".join(g.text) + "\n"
        if group == "programs" and r.random() < .1:
            t = t.replace("\n", "\r\n")
        texts.append(t)
    em = c.tlc("DocText", {}, cases=[p[0] for p in progs], spec="Spec", properties=["Terminates"])
    reqs = []
    for t, (_, g, group) in zip(texts, progs):
        procs = r.random() < .5
        reqs.append({"k": "docs", "text": t, "procs": procs})
        if group == "programs":
            reqs.append({"k": "tree", "text": t, "procs": procs}); reqs.append({"k": "tree", "text": blanked(g), "procs": procs})
    outs = c.replay(reqs)
    by = {e["cid"]: e for e in em}
    k = 0
    for i, ((case, g, group), text) in enumerate(zip(progs, texts)):
        e = by[i + 1]
        o = outs[k]; k += 1
        pair = None
        if group == "programs":
            pair = outs[k:k + 2]; k += 2
        c.count(group, bool(e["docs"]), text)
        bad = died(o) or (pair and (died(pair[0]) or died(pair[1])))
        if bad:
            c.fail(bad, text, e, o); continue
        raw = lambda n: [g.notes[n - 1]["form"], "\n".join("".join(map(chr, l)) for l in g.notes[n - 1]["lines"])]
        want = {d["key"]: [raw(n) for n in d["notes"]] for d in e["docs"]}
        mod = [[g.at[m["line"]], raw(m["note"])] for m in e["module"]]
        lf = lambda s: s.replace("\r\n", "\n")
        got = {}
        for key, notes, t in o["docs"]:
            if key in got:
                bad = f"{key} is documented in two places"
            got[key] = [[f, lf(x)] for f, x in notes]
        if got != want:
            bad = "the comments of " + ", ".join(x for x in sorted(set(got) | set(want)) if got.get(x) != want.get(x)) + " are others"
        elif [[l, [f, lf(x)]] for l, (f, x) in o["module"]] != mod:
            bad = "the file's comments are others"
        else:
            said = {key: lf(t) for key, _, t in o["docs"]}
            for d in e["docs"]:
                pars = ["\n".join("".join(map(chr, l)) for l in p) for p in d["text"]]
                if not re.fullmatch("\n*" + "\n\n+".join(map(re.escape, pars)) + "\n*", said[d["key"]]):
                    bad = f"the text of {d['key']} is {said[d['key']]!r}, not {pars!r}"
        if not bad and pair:
            for p in pair:
                p["errs"] = [x for x in p["errs"] if not x[1].startswith("docs on `") and not x[1].startswith("after a #define")]
            if pair[0] != pair[1]:
                bad = "the declarations differ without the comments"
        if bad:
            c.fail(bad, text, e, {"docs": o, "trees": pair if pair and pair[0] != pair[1] else None})
        elif e["docs"]:
            c.sample(text, want, got)
    return c.finish("a behaviour is a program's comments attached line by line; trivial when nothing is documented", exhaustive=False)
