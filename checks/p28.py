"""P28: damage stays where it is (spec/Damage.tla)."""
import re
from vlib import died
from p21 import PLACES

TOKEN = re.compile(r'"(?:[^"\\\[]|\[[^\]]*\])*"|\w+|[-+*/<>=!&|?.:~^%]+|[()\[\],;{}]|\s+')
WORDS = ["if", "else", "var", "return", "set", "in", "to", "as", "null", "src", ".", "..", "/", "1", "2.5", '"s"', "'a.dmi'", ",", ":", "=", "==", "+", "-", "*", "?", "!", "~", "proc", "verb", "datum", "list", "new", "for", "while", "do", "switch",
         "goto", "break", "continue", "try", "catch", "throw", "static", "tmp", "global", "operator", "input", "pick", "locate", "call", "arglist", "newlist", "::", "?.", "?:", "<<", ">>", "%%", "**", "++", "--", "&&", "||=", "~=", "x", "step", "anything",
         "num", "text", "del", "spawn", "sleep", "throw", "world", "usr", "args", "__PROC__", "__TYPE__", "~!", "%", "|", "^", "<>", "!=", "<", ">", "&=", "/=", ":=", "%%=", "final", "const", "/datum", "/list", "x()", "..()", ".()", "x[1]", "(1)", "nameof", "alist", "settings", "case", "default", "CRASH", "istype", "..."]
JUNK = [")", "= 5", "1", '"str"', "var/zx = )", "var/zx = 1 2", "]", "+", "var/zx = = 1", "proc/zx(", "proc/zx(1)", "proc/zx(a b)", "zx = ", "zx[5", "var/zx = (1", "/datum/zx 1", "zx = 1 ? 2", "'a.dmi'", "zx: 1", "var/zx = call(", "-zx", "zx = list(1", "zx ++", "var/zx = 1 +"]
FILL = ["{v}(1, 2)", "{v}.x = 1", ". = list(\"a\" = 1, 2)", "return src", "var/list/{v} = list()", "var/datum/{v} = new()", ". += \"a[1]b\"", "if(src)", "goto {v}"]
# not programs by themselves
NOT = ["for({e}, 1, 1)", "throw {e}"]


def body(r, n):
    out = []
    for k in range(r.choice([1, 1, 2, 3])):
        v = f"l{n}{'abc'[k]}"
        if r.random() < .2:
            s = r.choice(FILL).replace("{v}", v)
            out += {"if(src)": ["if(src)", "\t. = 1"]}.get(s, [s])
            if s.startswith("goto"):
                out += [f"{v}:", "\t. = 2"]
        else:
            at = r.choice(PLACES)
            e = "x" if any(":foo" in x for x in at) else r.choice(["1", "x", "zz(1)", "list(1, 2)", '"s"', "src.y", "(1 + x)"])
            out += [x.replace("{e}", e).replace("{e2}", "3").replace("{v}", v).replace("{v2}", v + "b") for x in at]
    return out


def tokens(line):
    return [t for t in TOKEN.findall(line)]


def brackets(lines):
    out = []
    for l in lines:
        for t in tokens(l):
            if not t.strip():
                continue
            out += [t] if t in "()[];" else [x for x in re.sub(r"[^()\[\]]", "", t)] if t[0] not in '"\'' else ["x"]
    return [t if t in ("(", ")", "[", "]", ";") else "x" for t in out]


def harm(r, lines, oneline, top):
    """Body lines with one token of them put in, left out or changed."""
    k = r.randrange(len(lines))
    pad = re.match(r"\s*", lines[k])[0]
    ts = tokens(lines[k][len(pad):])
    if "".join(ts) != lines[k][len(pad):]:
        return None
    x = r.random()
    at = r.randrange(len(ts) + 1)
    words = [w for w in WORDS if w != ";"]
    if x < .25:
        ts.insert(at, " " + r.choice([")", "]"]) + " ")
    elif x < .32:
        where = [i for i, t in enumerate(ts) if t in ("(", "[")]
        if not where:
            return None
        ts[r.choice(where)] = " "
    elif x < .35:
        where = [i for i, t in enumerate(ts) if t in (")", "]")]
        if not where:
            return None
        ts[r.choice(where)] = " "
    elif x < .55:
        ts.insert(at, " " + r.choice(words) + " ")
    elif x < .7:
        where = [i for i, t in enumerate(ts) if t.strip() and t not in "()[]"]
        if not where:
            return None
        ts[r.choice(where)] = " "
    elif x < .85:
        where = [i for i, t in enumerate(ts) if t.strip() and t not in "()[]"]
        if not where:
            return None
        ts[r.choice(where)] = " " + r.choice(words) + " "
    elif x < .92:
        where = sorted(r.sample(range(len(ts) + 1), 2)) if len(ts) > 1 else [0, 1]
        o = r.choice(["()", "[]"])
        ts.insert(where[1], " " + o[1] + " "); ts.insert(where[0], " " + o[0] + " ")
    elif x < .96 and k < len(lines) - 1:
        ts.insert(at, " ; ")
    elif not oneline and (k or not top):
        pad = pad + r.choice(["\t", "\t\t"]) if not pad or r.random() < .6 else pad[1:]
    else:
        return None
    out = list(lines)
    out[k] = pad + "".join(ts).strip()
    return out if out != lines and ts and "".join(ts).strip() else None


def program(r):
    """Declarations [k, path, name, first line, last line, body tokens, hurt] and texts without and with the damage."""
    decls, good, bad = [], [], []
    junk_at = r.randint(0, 14) if r.random() < .35 else -1
    n = 0

    def put(a, b=None):
        good.append(a); bad.append(a if b is None else b)

    def one(ind, path):
        nonlocal n
        n += 1
        pad = "\t" * ind
        pre = "/" if ind == 0 else ""
        if n == junk_at:
            # stands in the damaged text only
            put("", pad + r.choice(JUNK))
            decls.append(("junk", path, "", len(bad), len(bad), [], "some"))
            return
        x = r.random()
        if x < .45:
            name = f"v{n}"
            put(pad + pre + "var/" + r.choice(["", "", "list/", "datum/a/", "const/", "static/", "tmp/"]) + name + " = " + r.choice(["1", "2 + 3", '"s"', "null", "/datum/a", "list(1, 2)", "1 ? 2 : 3", "'a.dmi'", "rgb(1, 2, 3)", "-5", "list(\"a\" = 1)"]))
            decls.append(("var", path, name, len(good), len(good), [], "none"))
            return
        name = f"p{n}"
        params = r.choice(["", "", "a", "a, b", "a, b = 2", "datum/a, list/b", "a as num, b = \"x\"", "..."])
        lines = body(r, n)
        style = r.choice(["lines", "lines", "lines", "brace", "same"])
        if style == "same":
            lines = [l for l in lines if not l.startswith("\t") and not l.startswith(("if", "for", "while", "do", "switch", "try", "catch", "spawn", "else")) and not l.endswith(":") and ";" not in l][:1] or ["return 1"]
        if style == "brace" and any(l.startswith("\t") for l in lines):
            style = "lines"
        hurt = harm(r, lines, style != "lines", ind == 0) if r.random() < .4 else None
        if style == "same" and hurt and hurt[0].startswith("as"):
            hurt = None                   # says what the proc returns
        head = f"{pad}{pre}proc/{name}({params})"
        first = len(good) + 1
        for out, ls in ((good, lines), (bad, hurt or lines)):
            if style == "lines":
                out.append(head)
                out += [pad + "\t" + l for l in ls]
            elif style == "brace":
                out.append(head + " { " + "; ".join(ls) + " }")
            else:
                out.append(head + " " + ls[0])
        decls.append(("proc", path, name, first, len(good), brackets(hurt or lines), "some" if hurt else "none"))

    # the first indented line tells what an indentation is
    put("/datum/a"); put("\tvar/v0 = 1")
    decls += [("type", "/datum/a", "", 1, 1, [], "none"), ("var", "/datum/a", "v0", 2, 2, [], "none")]
    for _ in range(r.randint(2, 6)):
        if r.random() < .6:
            n += 1
            path = r.choice([f"/datum/t{n}", f"/datum/a/t{n}", f"/obj/t{n}"])
            put(path)
            decls.append(("type", path, "", len(good), len(good), [], "none"))
            for _ in range(r.randint(0, 4)):
                one(1, path)
        else:
            one(0, "")
    return decls, "\n".join(good) + "\n", "\n".join(bad) + "\n"


def view(o, cut, hurt):
    """The tree as comparable entries: what -> contents."""
    out = {}
    for p, t in o["types"].items():
        if t["own"]:
            out["type", p, ""] = (t["parent"], t["line"])
        for n, v in t["vars"].items():
            out["var", p, n] = (v["line"], v["decl"], v["type"], v["flags"], None if cut else str(v["c"]))
        for n, q in t["procs"].items():
            out["proc", p, n] = (q["decl"], q["lines"], [(b and b[:2] + ([b[2]] if ("proc", p, n) not in hurt else [])) for b in q["bodies"]])
    return out


def describe(k):
    return k[0] + " " + k[1] + ("/" + k[2] if k[2] else "")


def damaged(c):
    n = 4000 if c.quick else 50000
    work = [program(c.rng) for _ in range(n)]
    cases = [{"lines": [{"k": d[0], "body": d[5], "hurt": d[6]} for d in w[0]]} for w in work]
    em = {}
    for k in range(0, n, 5000):
        for e in c.tlc("Damage", {}, cases=cases[k:k + 5000], spec="Spec", properties=["Terminates"]):
            em[k + e["cid"]] = e
    outs = c.replay([{"k": "tree", "text": t, "procs": True, "bodies": True} for w in work for t in w[1:3]])
    for j, (decls, good, text) in enumerate(work):
        e, a, b = em[j + 1], outs[2 * j], outs[2 * j + 1]
        c.count("damaged programs", bool(e["said"]) or any(d[6] == "some" for d in decls), text)
        for o, t in ((a, good), (b, text)):
            if died(o):
                c.fail(died(o), t, e, o)
        if died(a) or died(b) or e["status"] == "undetermined":
            continue
        bad = None
        if [x for x in a["errs"] if x[2] == "Error"]:
            c.fail("a well-formed program is taken as wrong: " + str(a["errs"][0][:2]), good, e, a["errs"]); continue
        cut = e["status"] == "cut"
        hurt = {("proc", d[1], d[2]) for d in decls if d[0] == "proc" and d[6] == "some"}
        whole, got = view(a, cut, hurt), view(b, cut, hurt)
        key = lambda d: (d[0], d[1], d[2])
        keep = {key(decls[i - 1]) for i in e["kept"]}
        want = {k: v for k, v in whole.items() if k in keep}
        stop = [d for d in decls if d[0] == "junk"]
        # whether the last declaration before, on the very line that makes no sense, counts is open
        got = {k: v for k, v in got.items() if not (k not in want and any(d[3] == (v[0] if k[0] == "var" else v[1] if k[0] == "type" else v[1][-1]) for d in stop)) and "zx" not in k}
        for k in want:
            if k not in got:
                bad = describe(k) + " is lost"
            elif got[k] != want[k]:
                bad = f"{describe(k)} is not as it was: {want[k]} became {got[k]}"
        for k in got:
            if k not in want:
                bad = describe(k) + " is there although " + ("nothing is read after line " + str(stop[0][3]) if k in whole else "nothing declares it")
        bodies = {("proc", p, n): q["bodies"] for p, t in b["types"].items() for n, q in t["procs"].items()}
        lines = {}
        for i, d in enumerate(decls):
            for l in range(d[3], d[4] + 1):
                lines[l] = i + 1
        errs = {}
        for x in b["errs"]:
            if x[2] == "Error":
                errs.setdefault(lines.get(x[0], -x[0]), []).append(x[:2])
        for i, s in e["state"]:
            lost = bodies.get(key(decls[i - 1]), [[0, 0, None]])[-1][2] is None
            if s == "whole" and lost:
                bad = describe(key(decls[i - 1])) + " has no body"
            if s == "lost" and not lost:
                bad = describe(key(decls[i - 1])) + " has a body although its brackets do not pair up"
            if s == "open" and lost and i not in errs:
                bad = describe(key(decls[i - 1])) + " has no body and nothing is said"
        for i in e["said"]:
            # what is not closed on its line goes on after it
            if any(d[0] == "junk" for d in decls[i - 1:i]) and text.split("\n")[decls[i - 1][3] - 1].rstrip().endswith(("(", "[5", "(1")):
                later = [x for x in errs if x > i or x < 0]
                if later:
                    errs = {**{x: y for x, y in errs.items() if x not in later}, i: []}
            if i not in errs:
                bad = f"nothing is said about line {decls[i - 1][3]}"
        for i in errs:
            if i < 1 or decls[i - 1][6] != "some" or i > max(e["kept"] + e["said"]):
                bad = "said about something in order: " + str(errs[i])
        if bad:
            c.fail(bad, text, e, {"errs": b["errs"]})
        elif e["said"]:
            c.sample(text, e, b["errs"])


PIECES = WORDS + ["{", "}", "(", ")", "[", "]", ";", "\n", "\n\t", "\n\t\t", "\n", "\t", " ", "//", "/*", "*/", "///", "//!", "/**", '"', "'", '{"', '"}', '"[', '[', '@"', "#", "##", "\\", "\\\n", "#if 1", "#else", "#endif", "#define X(a) #a", "#define Y", "#undef Y", "X(", "Y", "#warn x", "#error y", "#pragma multiple",
                  "#ifdef Y", "#include \"x\"", "#elif 0", "defined(Y)", "1e999", "0x", "1.#INF", "1.#IND", ".5", "5.", "99999999999999999999", "\u00e9", "$", "`", "\\x41", "@{", "!", "\x00", "var", "proc", "/obj", "var/x", "=", "a", "b", "parent_type", "/obj/a", "a()", "()", "set", "as", "/proc/a", "newlist(", "list(", "pick(", "rgb(", "if(", "switch(", "for(", "..."]


def soup(r, text):
    """Anything at all: pieces, or a program with some of it replaced."""
    if r.random() < .25:
        return "".join(r.choice(PIECES) + r.choice(["", " ", "", "\n"]) for _ in range(r.randint(1, 40)))
    ts = re.findall(r"\w+|\s|.", text)
    for _ in range(r.choice([1, 1, 2, 3, 5, 10])):
        if not ts:
            break
        x, at = r.random(), r.randrange(len(ts))
        if x < .35:
            ts.insert(at, r.choice(PIECES))
        elif x < .55:
            ts[at] = r.choice(PIECES)
        elif x < .75:
            ts.pop(at)
        elif x < .8:
            del ts[at:]
        elif x < .9:
            to = r.randrange(len(ts)); ts[at], ts[to] = ts[to], ts[at]
        else:
            to = min(len(ts), at + r.randint(1, 12)); ts[at:at] = ts[at:to]
    return "".join(ts)


def anything(c):
    n = 8000 if c.quick else 150000
    work = []
    for _ in range(n):
        if c.rng.random() < .5 or not work:
            base = program(c.rng)[1]
        work.append(soup(c.rng, base))
    outs = c.replay([{"k": k, "text": t, "procs": True, "bodies": True} for t in work for k in ("tree", "check")])
    for j, t in enumerate(work):
        a, b = outs[2 * j], outs[2 * j + 1]
        c.count("any text at all", True, t)
        for o in (a, b):
            if died(o):
                c.fail(died(o), t, "an end", o); break


def run(c):
    damaged(c)
    anything(c)
    return c.finish("a behaviour is a whole program; trivial when nothing in it is damaged", exhaustive=False)
