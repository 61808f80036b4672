"""Rendering of abstract preprocessor projects and comparison with real runs (spec/Preproc.tla)."""
import os, re
from vlib import died

ID = lambda s: {"k": "id", "s": s}
INT = lambda s: {"k": "int", "s": str(s)}
P = lambda s: {"k": "p", "s": s}
STR = lambda s: {"k": "str", "s": s}
T = lambda *ts: {"k": "t", "toks": list(ts)}
D = lambda n, *body: {"k": "define", "n": n, "fn": False, "ps": [], "va": False, "body": list(body)}
DF = lambda n, ps, va, *body: {"k": "define", "n": n, "fn": True, "ps": ps, "va": va, "body": list(body)}
U = lambda n: {"k": "undef", "n": n}
IFD = lambda n: {"k": "ifdef", "n": n}
IFN = lambda n: {"k": "ifndef", "n": n}
IF = lambda c: {"k": "if", "c": c}
ELIF = lambda c: {"k": "elif", "c": c}
ELSE = {"k": "else"}
ENDIF = {"k": "endif"}
INC = lambda *p: {"k": "include", "p": list(p)}
MULT = {"k": "multiple"}
LIT = lambda v: {"o": "lit", "v": v}
DEFD = lambda n: {"o": "def", "n": n}
MAC = lambda n: {"o": "mac", "n": n}
NOT = lambda a: {"o": "not", "a": a}
BIN = lambda o, a, b: {"o": o, "a": a, "b": b}
TOK = re.compile(r'[A-Za-z_]\w*|\d+|##|#|"[^"]*"|\.\.\.|[-+*/(),;\[\]{}<>=]')


def toks(s):
    """Abstract tokens of a piece of source text."""
    out = []
    for m in TOK.findall(s):
        out.append(INT(m) if m.isdigit() else ID(m) if m[0].isalpha() or m[0] == "_" else STR(m[1:-1]) if m[0] == '"' else P(m))
    return out


def cond_text(c):
    o = c["o"]
    if o == "lit": return str(c["v"])
    if o == "def": return f"defined({c['n']})"
    if o == "raw": return c["s"]
    if o == "mac": return c["n"]
    if o == "not": return "!" + ("(" + cond_text(c["a"]) + ")" if c["a"]["o"] in ("and", "or", "eq", "lt") else cond_text(c["a"]))
    op = {"and": "&&", "or": "||", "eq": "==", "lt": "<"}[o]
    w = lambda x: "(" + cond_text(x) + ")" if x["o"] in ("and", "or", "eq", "lt") else cond_text(x)
    return f"{w(c['a'])} {op} {w(c['b'])}"


def shown(t):
    return f'"{t["s"]}"' if t["k"] == "str" else t["s"]


def join(ts):
    """Text of tokens and the column of each; an identifier is glued to a following '('."""
    text, cols = "", []
    for i, t in enumerate(ts):
        if text and not (t["s"] == "(" and t["k"] == "p"):
            text += " "
        cols.append(len(text) + 1)
        text += shown(t)
    return text, cols


def render_line(l):
    k = l["k"]
    if k == "t":
        return join(l["toks"])
    if k == "define":
        ps = ""
        if l["fn"]:
            q = list(l["ps"])
            if l["va"]:
                q[-1] = "..." if q[-1] == "__VA_ARGS__" else q[-1] + "..."
            ps = "(" + ", ".join(q) + ")"
        b = join(l["body"])[0]
        return f"#define {l['n']}{ps}" + (" " + b if b else ""), []
    if k in ("undef", "ifdef", "ifndef"):
        return f"#{k} {l['n']}", []
    if k in ("if", "elif"):
        return f"#{k} {cond_text(l['c'])}", []
    if k == "include":
        return '#include "' + l.get("sep", "/").join(l["p"]) + '"', []
    if k == "multiple":
        return "#pragma multiple", []
    if k in ("warn", "error"):
        return f"#{k} {l['n']}", []
    return "#" + k, []


def render(lines, newline=True):
    r = [render_line(l) for l in lines]
    return "\n".join(x[0] for x in r) + ("\n" if newline and r else ""), [x[1] for x in r]


KINDS = [(r"^unmatched #(\w+)", r"unmatched \1"), (r"^unterminated #if", "unterminated"),
         (r"^macro redefined: (.*)", r"redefined \1"), (r"^macro undefined while not defined: (.*)", r"undefined \1"),
         (r"^duplicate #include", "duplicate"), (r"^failed to find #include", "notfound"),
         (r"^wrong number of arguments to macro", "args"), (r"max recursion depth", "recursion"),
         (r"^unknown extension|^filename has no ext", "badext"), (r"^#(warn|error) (.*)", r"\1 \2")]


def kind_of(e, lines_by_file):
    for pat, rep in KINDS:
        m = re.search(pat, e["desc"])
        if m:
            return m.expand(rep)
    ls = lines_by_file.get(e["file"], [])
    if 1 <= e["l"] <= len(ls) and ls[e["l"] - 1]["k"] in ("if", "elif"):
        return "cond"
    return "other: " + e["desc"]


class Project:
    """files: list of {path: [segs], kind, lines}"""

    def __init__(self, files, newline=True, markers=False):
        self.files = files
        self.names = ["/".join(f["path"]) for f in files]
        self.markers = markers
        self.text, self.cols = {}, {}
        for f, n in zip(files, self.names):
            if f.get("kind", "dm") == "dm":
                self.text[n], self.cols[n] = render(f["lines"], newline)
            else:
                self.text[n], self.cols[n] = "not code\n", []
        self.by = {n: f["lines"] for n, f in zip(self.names, files)}

    def request(self, probes=None, end=None):
        return {"k": "pp", "files": [[n, t] for n, t in self.text.items()], "env": self.names[0],
                "probes": probes, "end": end}


def squeeze(ts):
    out = []
    for t in ts:
        if t[0] == "\n" and (not out or out[-1][0] == "\n"):
            continue
        out.append(t)
    while out and out[-1][0] == "\n":
        out.pop()
    return out


def expected(pj, e):
    """Expected tokens [text, file, line, col] (newline tokens as separators only) and diagnostics."""
    ts = []
    for t in e["out"]:
        n = pj.names[t["f"] - 1]
        if t["s"] == "\n":
            ts.append(["\n"]); continue
        col = pj.cols[n][t["l"] - 1][t["i"] - 1]
        s = t["s"]
        if s.startswith("@FILE"):
            s = '"' + pj.names[int(s[5:]) - 1] + '"'
        ts.append([s, n, t["l"], col])
    errs = sorted([x["kind"], pj.names[x["f"] - 1], x["l"]] for x in e["errs"])
    return squeeze(ts), errs


def observed(pj, o):
    # which spelling of its path __FILE__ shows is not specified
    norm = lambda t: ['"' + os.path.normpath(t[0][1:-1]) + '"'] + t[1:] if t[0].startswith('"') and "/../" in t[0] else t
    ts = squeeze([["\n"] if t[0] == "\n" else norm(t) for t in o["toks"]])
    errs = sorted([kind_of(x, pj.by), x["file"], x["l"]] for x in o["errs"])
    return ts, errs


def check(c, group, items, nontrivial, want_errs=True):
    """items: (Project, expectation); compares output tokens (text and position) and diagnostics."""
    obs = c.replay([pj.request() for pj, _ in items])
    for (pj, e), o in zip(items, obs):
        if e["status"] == "unspec":
            continue
        c.count(group, nontrivial(pj, e), pj.text)
        d = died(o)
        if d:
            c.fail(f"preprocessing died: {d}", pj.text, e["status"], o); continue
        if e["status"] == "big":
            continue
        if "openfail" in o or o.get("over"):
            c.fail("preprocessing did not finish", pj.text, e["status"], str(o)[:2000]); continue
        gt, ge = observed(pj, o)
        if e["status"] == "recursion":
            if not any(x[0] == "recursion" for x in ge):
                c.fail("runaway macro recursion without a diagnostic", pj.text, "a recursion diagnostic", ge)
            continue
        wt, we = expected(pj, e)
        stray = {(x[1], x[2]) for x in we if x[0] == "unmatched elif"}
        if stray:   # what becomes of the rest of a stray #elif's line is not part of the property
            gt = squeeze([t for t in gt if len(t) == 1 or (t[1], t[2]) not in stray])
        if gt != wt:
            c.fail("token stream differs", pj.text, wt, gt)
        elif ge != we:
            c.fail("diagnostics differ", pj.text, we, ge)
        elif len(pj.text) >= 1 and len(wt) >= 2:
            c.sample(pj.text, {"tokens": wt, "errors": we}, {"tokens": gt, "errors": ge})


def from_gen(e, paths, **kw):
    return Project([{"path": p, "kind": "dm", "lines": ls} for p, ls in zip(paths, e["prog"])], **kw)


def run_gen(c, group, alphabet, maxlines, nontrivial, paths=(("env.dme",),), **kw):
    from vlib import Raw
    em = c.tlc("Preproc", {"Mode": "gen", "MaxLines": maxlines, "Alphabet": Raw("{" + ",\n".join(tla(l) for l in alphabet) + "}"),
                           "Paths": [list(p) for p in paths], "Limit": 40}, **kw)
    items = [(from_gen(e, [list(p) for p in paths]), e) for e in em]
    return items


def mentioned(pj):
    """The words a project mentions, among which its initial macros are found."""
    return sorted({w for t in pj.text.values() for w in re.findall(r"[A-Z_]{4,}", t)})


def run_cases(c, projects):
    em = c.tlc("Preproc", {"Mode": "cases", "MaxLines": 0, "Alphabet": set(), "Paths": [], "Limit": 40},
               cases=[{"files": p.files, "uses": mentioned(p)} for p in projects])
    return [(projects[e["cid"] - 1], e) for e in em]


def tla(v):
    from vlib import tla_value
    return tla_value(v)
