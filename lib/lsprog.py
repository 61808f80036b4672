"""Programs whose names carry numbers, for asking the language server about them."""
import re

from dmprog import PARENT_TYPE, Prog

NONE = {"k": "value"}


def mark(o, n):
    return f"\x01{o}\x02{n}"


def strip(text):
    """The plain text, and where each number is: {o: (line, column, length)}, from 0."""
    at, out = {}, []
    for ln, line in enumerate(text.split("\n")):
        line, n = re.subn(r"\x03(\d+)\x04", lambda m: at.__setitem__(-int(m[1]), (ln, 0, 0)) or "", line)
        s, pos = "", 0
        for m in re.finditer(r"\x01(\d+)\x02(\w+|\.\.)", line):
            s += line[pos:m.start()]
            at[int(m[1])] = (ln, len(s), len(m[2]))
            s += m[2]
            pos = m.end()
        out.append(s + line[pos:])
    return "\n".join(out), at


class World(Prog):
    def __init__(self, r):
        super().__init__(r, ["pa", "pb"], ["gp", "gq"][:r.choice([1, 2])], density=r.choice([.25, .45]), again=0, new=0)
        self.own = len(self.types)
        self.types, self.parents = list(self.types), list(self.parents)
        for x in ("list", "mob"):
            if not any(p == x for p, _ in self.types):
                near = [self.index(y) for y in ("atom/movable", "atom", "datum") if any(p == y for p, _ in self.types)] if x == "mob" else []
                self.types.append((x, 0)); self.parents.append((near + [0])[0])
        self.o = 0
        self.decl_at = {}          # ("var", i) / ("proc", i) / ("type", t): number of the declaring name
        self.vars, self.text = [], []
        taken = []
        for n in ("va", "vb", "vc"):
            for t in r.sample(range(1, self.own + 1), r.choice([1, 2])):
                if not any(m == n and (s in self.above(t) or t in self.above(s) or s == t) for s, m in taken):
                    taken.append((t, n))
                    self.add(t, n, True)
        for t, n in taken:
            for s in range(1, self.own + 1):
                if t in self.above(s) and r.random() < .3:
                    self.add(s, n, False)
        for n in ("ga", "gb"):
            self.add(0, n, True)

    def index(self, x):
        return [p for p, _ in self.types].index(x) + 1

    def num(self):
        self.o += 1
        return self.o

    def some(self):
        r = self.r
        t = r.choice([0] + list(range(1, self.own + 1)) * 3)
        return (r.choice([0, 0, 0, 1, 1, 2]) if t else r.choice([0, 0, 1]), t)

    def typed(self, ty, o=0):
        if not ty[1]:
            return "/list" * ty[0]
        *a, z = self.path(ty[1])[1:].split("/")
        return "/list" * ty[0] + "".join("/" + x for x in a) + "/" + (mark(o, z) if o else z)

    def value(self):
        """An initial value."""
        r = self.r
        t, o = r.randint(1, self.own), self.num()
        k = r.choice(["path", "new", "list", "value", "value"])
        if k == "value":
            return NONE, r.choice(["null", "1", '"s"'])
        p = self.typed((0, t), o)
        if k == "path":
            return {"k": "path", "t": t, "o": o}, p
        if k == "new":
            return {"k": "new", "t": t, "o": o, "args": []}, "new " + p + r.choice(["", "()"])
        return {"k": "list", "args": [{"k": "path", "t": t, "o": o}]}, f"list({p})"

    def add(self, t, n, decl):
        r = self.r
        ty, o = self.some(), self.num()
        e, s = self.value() if not decl or r.random() < .6 else (NONE, "")
        self.vars.append({"ty": t, "name": n, "n": ty[0], "t": ty[1], "decl": decl, "e": e})
        self.decl_at["var", len(self.vars)] = o
        static = "/global" if decl and (not t and r.random() < .3) else ""
        self.text.append(f"{self.path(t)}{'/var' if decl else ''}{static}{self.typed(ty) if decl else ''}/{mark(o, n)}" + (f" = {s}" if s else ""))


class Writer:
    """The body of one proc."""
    colon = True

    def __init__(self, w, r, i, asking=0):
        self.asking, self.pending = asking, None
        self.w, self.r, self.p, self.i = w, r, w.procs[i], i
        self.lines, self.stmts = [], []
        self.binds = {}            # binding -> number of its name
        self.scopes = [[("usr", (0, w.index("mob")))] + ([("src", (0, self.p["ty"]))] if self.p["ty"] else [])]
        params = []
        self.params = []
        for n in r.sample(["xx", "yy", "va", "gb"], r.choice([0, 1, 2, 3])):
            b, t, v = self.bind(n, r.random() < .3, True)
            params.append(t); self.params.append(b); self.scopes[0].append(v)
        self.ptext = ", ".join(params)

    def bind(self, n, init=False, param=False):
        w, r = self.w, self.r
        ty, b, o = w.some(), w.num(), w.num()
        e, s = w.value() if init else (NONE, "")
        self.binds[b] = b
        w.btype[b] = ty
        pre = r.choice(["var", ""]) if param else "var"
        t = pre + w.typed(ty, o) + "/" + mark(b, n) + (f" = {s}" if s else "")
        return {"name": n, "n": ty[0], "t": ty[1], "o": o if ty[1] else 0, "b": b, "e": e}, t if pre else t[1:], (n, ty)

    def basic(self, ty):
        return 0 if not ty or ty[0] else ty[1]

    def args(self, d):
        a = [self.expr(d + 1) for _ in range(self.r.choice([0, 1, 1, 2]))]
        return [x[0] for x in a], ", ".join(x[1] for x in a)

    def members(self, t):
        return [v for v in self.w.vars if v["ty"] and v["decl"] and (v["ty"] == t or t and v["ty"] in self.w.above(t))]

    def primary(self, d):
        r, w = self.r, self.w
        k = r.choice(["name"] * 4 + (["field"] * 3 + ["index", "mcall", "mcall", "call", "gname", "gcall", "again", "parent", "paren", "list"] if d < 3 else ["name"]))
        o = w.num()
        if k == "name":
            loc = [v for s in self.scopes for v in s]
            x = r.random()
            if x < .55:
                n, ty = r.choice(loc)
            elif x < .75:
                v = r.choice([v for v in w.vars if not v["ty"]]); n, ty = v["name"], (v["n"], v["t"])
            else:
                v = r.choice(self.members(self.p["ty"]) or w.vars[-2:]); n, ty = v["name"], (v["n"], v["t"])
                if r.random() < .1:
                    n, ty = r.choice(["xx", "yy", "vc", "zz"]), None
            return {"k": "name", "n": n, "o": o}, mark(o, n), ty
        if k == "gname":
            v = r.choice([v for v in w.vars if not v["ty"]])
            return {"k": k, "n": v["name"], "o": o}, "global." + mark(o, v["name"]), (v["n"], v["t"])
        if k == "field":
            a, t, ty = self.primary(d + 1)
            for _ in range(3):
                if not self.members(self.basic(ty)):
                    a, t, ty = self.primary(d + 1)
            ok = self.members(self.basic(ty))
            v = r.choice(ok) if ok and r.random() < .9 else r.choice([v for v in w.vars if v["ty"] and v["decl"]])
            return {"k": k, "a": a, "n": v["name"], "o": o}, f"{t}{r.choice(['.', '.', '?.'])}{mark(o, v['name'])}", (v["n"], v["t"]) if v in ok else None
        if k == "index":
            a, t, ty = self.primary(d + 1)
            for _ in range(3):
                if not ty or not ty[0]:
                    a, t, ty = self.primary(d + 1)
            b = self.expr(d + 2)
            return {"k": k, "a": a, "b": b[0]}, f"{t}{r.choice(['', '', '?'])}[{b[1]}]", (ty[0] - 1, ty[1]) if ty and ty[0] else None
        x, s = self.args(d)
        if k == "mcall":
            a, t, ty = self.primary(d + 1)
            for _ in range(2):
                if not self.basic(ty):
                    a, t, ty = self.primary(d + 1)
            n = r.choice(["pa", "pb"])
            return {"k": k, "a": a, "n": n, "o": o, "args": x}, f"{t}{r.choice(['.', '.', '?.'])}{mark(o, n)}({s})", None
        if k == "call":
            n = r.choice(["pa", "pb", "gp", "gq"] + ["zp"] * (r.random() < .2))
            return {"k": k, "n": n, "o": o, "args": x}, f"{mark(o, n)}({s})", None
        if k == "gcall":
            n = r.choice(["gp", "gq"])
            return {"k": k, "n": n, "o": o, "args": x}, f"global.{mark(o, n)}({s})", None
        if k == "again":
            return {"k": k, "args": x}, f".({s})", None
        if k == "parent":
            return {"k": k, "o": o, "args": x}, f"{mark(o, '..')}({s})", None
        if k == "list":
            return {"k": k, "args": x}, f"list({s})", None
        e = self.expr(d + 1)
        return {"k": "paren", "a": e[0]}, f"({e[1]})", e[2]

    def expr(self, d=0):
        r, w = self.r, self.w
        k = r.choice(["primary"] * 6 + (["path", "new", "bin", "choice", "assign", "text", "pick", "locate", "not", "procpath", "made", "made", "make", "prefab", "self", "ref", "input", "dyn"] if d < 2 else ["value"]))
        if k == "primary":
            return self.primary(d)
        if k == "value":
            return NONE, r.choice(["1", '"s"', "null", "2.5"]), None
        t, o = r.randint(1, w.own), w.num()
        if k == "path":
            return {"k": k, "t": t, "o": o}, w.typed((0, t), o), None
        if k == "procpath":
            ok = [p for p in w.procs if p["ty"] and p["decl"]]
            if not ok:
                return self.primary(d)
            p = r.choice(ok)
            return {"k": k, "t": p["ty"], "n": p["name"], "o": o, "o2": 0}, f"{w.path(p['ty'])}/proc/{mark(o, p['name'])}", None
        if k == "new":
            x, s = self.args(d)
            return {"k": k, "t": t, "o": o, "args": x}, f"(new {w.typed((0, t), o)}({s}))", (0, t)
        if k == "made":         # of the type which is asked for
            x, s = self.args(d)
            return {"k": "new", "t": -1, "o": 0, "args": x}, f"new({s})" if s or r.random() < .5 else "new", None
        if k == "make":         # of the type held by a variable
            x, s = self.args(d)
            a = self.chain()
            while a[0]["k"] not in ("name", "field") or not re.fullmatch(r"[\w.]*", strip(a[1])[0]) or "\x01" not in a[1] or a[1].startswith("global"):
                a = self.chain()
            return {"k": k, "a": a[0], "args": x}, f"(new {a[1]}({s}))" if s or r.random() < .5 else f"(new {a[1]})", None
        if k == "prefab":
            o2, e = w.num(), self.primary(d + 1)
            v = r.choice(self.members(t) or [v for v in w.vars if v["ty"]])
            return {"k": k, "t": t, "o": o, "o2": o2, "n": v["name"], "a": e[0]}, f"{w.typed((0, t), o)}{{{mark(o2, v['name'])} = {e[1]}}}", None
        if k == "self":
            if r.random() < .5:
                return {"k": "type", "o": o}, mark(o, "__TYPE__"), None
            return {"k": "proc", "o": o}, mark(o, "__PROC__"), None
        if k == "ref":
            a = self.primary(d + 1)
            n = r.choice(["pa", "pb"])
            return {"k": k, "a": a[0], "n": n, "o": o}, f"{a[1]}::{mark(o, n)}()", None
        a, b = self.primary(d + 1), self.primary(d + 1)
        if k == "bin":
            return {"k": k, "a": a[0], "b": b[0]}, f"({a[1]} {r.choice(['+', '-', '||', '&&', '==', '<', '|'])} {b[1]})", None
        if k == "choice":
            c = self.primary(d + 1)
            return {"k": k, "c": c[0], "a": a[0], "b": b[0]}, f"({c[1]} ? {a[1]} : {b[1]})", None
        if k == "assign":
            a = self.target(d)
            return {"k": k, "a": a[0], "b": b[0]}, f"({a[1]} {r.choice(['=', '+='])} {b[1]})", None
        if k == "text" and r.random() < .4:
            return {"k": "group", "args": [a[0], b[0]]}, f'"[{a[1]}]a[{b[1]}]"', None
        if k == "text":
            return {"k": "group", "args": [a[0]]}, f'"a[{a[1]}]b"', None
        if k == "input":
            return {"k": "group", "args": [a[0], b[0]]}, f"(input({a[1]}, \"s\") as null|anything in {b[1]})", None
        if k == "dyn":
            x, s = self.args(d)
            return {"k": "group", "args": [a[0], b[0]] + x}, f"call({a[1]}, {b[1]})({s})", None
        if k == "pick" and r.random() < .4:
            return {"k": "group", "args": [a[0], b[0]]}, f"pick({a[1]}; 1, {b[1]})", None
        if k == "pick":
            return {"k": "group", "args": [a[0], b[0]]}, f"pick({a[1]}, {b[1]})", None
        if k == "locate":
            return {"k": "group", "args": [a[0], b[0]]}, f"(locate({a[1]}) in {b[1]})", None
        return {"k": "group", "args": [a[0]]}, f"(!{a[1]})", None

    def target(self, d):
        while True:
            a = self.primary(d + 1)
            if a[0]["k"] in ("name", "field", "index", "gname"):
                return a

    # statements
    def put(self, text, indent, **kw):
        s = {"before": [], "binds": [], "after": [], "open": False, "close": False, "asks": []}
        s.update(kw)
        if self.pending:
            s["asks"] = [self.pending]
            text = f"\x03{self.pending['id']}\x04" + text
            self.pending = None
        self.lines.append("\t" * indent + text)
        self.stmts.append(s)

    def close(self, **kw):
        self.stmts.append({"before": [], "binds": [], "after": [], "open": False, "close": True, "asks": [], **kw})

    def chain(self):
        """Names and members of what they hold."""
        r = self.r
        for _ in range(12):
            a = self.primary(2)
            x = a[0]
            while x["k"] == "field":
                x = x["a"]
            if x["k"] == "name" and (self.basic(a[2]) or r.random() < .2):
                return a
        if self.p["ty"] and self.r.random() < .7:
            return {"k": "name", "n": "src", "o": self.w.num()}, "src", (0, self.p["ty"])
        return {"k": "global"}, "global", None

    def ask(self, indent):
        """Something one may be typing here: what is typed, the place of the cursor in it, what it asks."""
        r, w = self.r, self.w
        o = w.num()
        k = r.choice(["any", "of", "of", "call", "callof", "path"])
        q = {"id": o, "k": k, "a": NONE, "n": "", "t": 0}
        some = [v[0] for s in self.scopes for v in s] + [x["name"] for x in w.vars + w.procs] + ["qqq"]
        word = r.choice(some)
        if r.random() < .6:
            word = word[r.randrange(len(word)):][:r.choice([1, 2])]
        if r.random() < .2:
            word = word.upper() if r.random() < .5 else "_" + word
        text = ""
        if k in ("of", "callof"):
            a = self.chain()
            q["a"] = a[0]
            text = a[1] + r.choice([".", ".", "?."])
            if r.random() < .4:
                word = ""
        arg = 0
        if k == "path":
            if r.random() < .5:
                q["k"] = k = "procs"
            t = q["t"] = r.randint(1, w.own) if k == "path" or r.random() < .9 else 0
            if word and r.random() < .6:
                word = r.choice("abcdeqrxyzmp")
            if r.random() < .4:
                word = ""
            text = r.choice([". = ", "xx(1, ", "return "]) + (w.typed((0, t)) if t else "") + ("/proc/" if k == "procs" else "/")
        if k in ("any", "of", "path", "procs"):
            text += word
            cur = len(strip(text)[0]) - (r.randrange(len(word)) if word else 0)
            if text.startswith("xx("):
                text += ")"
        else:
            word = q["n"] = r.choice(["gp", "gq"] if k == "call" and r.random() < .3 or q["a"]["k"] == "global" else ["pa", "pb"])
            args = [r.choice(["1", '"s"', "xx", "null", "list(1, 2)", "rand(1)"]) for _ in range(r.choice([1, 1, 2, 3]))]
            arg = r.randrange(len(args))
            text += word + "(" + ", ".join(args[:arg] + [""])
            # somewhere in the argument but in no call within it
            cur = len(strip(text)[0]) + 1
            text += ", ".join(args[arg:]) + ")"
        w.asks[o] = {"text": "\t" * (indent + 1) + strip(text)[0], "col": indent + 1 + cur, "word": word, "arg": arg, "k": k}
        self.pending = q

    def fresh(self, *texts):
        live = {v[0] for s in self.scopes for v in s} | set(re.findall(r"[a-z]\w+", " ".join(texts)))
        return self.r.choice([n for n in ("xx", "yy", "xy", "yx", "va", "vb", "ga", "gb", "zx", "zy", "zz", "zxx", "zyy", "zzz", "zxy", "zyx", "zza", "zzb") if n not in live])

    def block(self, indent, depth):
        r = self.r
        n = len(self.lines)
        for _ in range(r.choice([2, 3, 4] if depth == 0 else [1, 1, 2])):
            self.statement(indent, depth)
        if len(self.lines) == n:
            self.lines.append("\t" * indent + ". = 1")

    def inside(self, header, indent, depth, names=(), **kw):
        self.put(header, indent, open=True, **kw)
        self.scopes.append(list(names))
        self.block(indent + 1, depth + 1)
        self.scopes.pop()

    def statement(self, indent, depth):
        r, w = self.r, self.w
        if self.asking and r.random() < self.asking:
            self.ask(indent)
        self.statement_(indent, depth)
        self.pending = None

    def statement_(self, indent, depth):
        r, w = self.r, self.w
        k = r.choice(["var"] * 4 + ["assign", "dot", "call", "lshift", "return", "del", "crash", "throw"] + (["if", "if", "while", "do", "each", "each", "pair", "range", "steps", "spawn", "switch", "try", "for"] if depth < 2 else []))
        if k == "var":
            # which variable its own name means in its value is another matter
            e = self.expr() if r.random() < .7 else None
            b, t, v = self.bind(self.fresh(e[1] if e else ""))
            if e:
                b["e"] = e[0]; t += " = " + e[1]
            self.put(t, indent, binds=[b]); self.scopes[-1].append(v)
        elif k == "assign":
            a, b = self.target(0), self.expr()
            self.put(f"{a[1]} {r.choice(['=', '+='])} {b[1]}", indent, before=[a[0], b[0]])
        elif k == "dot":
            e = self.expr()
            self.put(". = " + e[1], indent, before=[e[0]])
        elif k == "del":
            e = self.primary(0)
            self.put(f"del({e[1]})", indent, before=[e[0]])
        elif k == "call":
            for _ in range(30):
                e = self.primary(0)
                if e[0]["k"] in ("call", "gcall", "mcall", "parent", "again"):
                    self.put(e[1], indent, before=[e[0]]); break
        elif k == "lshift":
            a, b = self.primary(1), self.primary(1)
            if a[1][0] not in '("./':
                self.put(f"{a[1]} << {b[1]}", indent, before=[a[0], b[0]])
        elif k in ("return", "crash", "throw"):
            e = self.expr()
            self.put("if(rand(1, 2) == 1)", indent, open=True)
            self.put({"return": "return {}", "crash": "CRASH({})", "throw": "throw {}"}[k].format(e[1]), indent + 1, before=[e[0]])
            self.close()
        elif k in ("if", "while", "switch", "spawn"):
            e = self.expr()
            t = f"({e[1]})"
            if k == "switch":
                self.put("switch" + t, indent, before=[e[0]])
                self.inside(f"if({r.choice(['1', '1, 2', '1 to 3'])})", indent + 1, depth); self.close()
                if r.random() < .5:
                    f = self.primary(1)
                    self.inside(f"if({f[1]})", indent + 1, depth, before=[f[0]]); self.close()
                if r.random() < .3:
                    f, h = self.primary(1), self.primary(1)
                    self.inside(f"if({f[1]} to {h[1]})", indent + 1, depth, before=[f[0], h[0]]); self.close()
                if r.random() < .5:
                    self.inside("else", indent + 1, depth); self.close()
                return
            self.inside(k + t, indent, depth, before=[e[0]]); self.close()
            while k == "if" and r.random() < .3:
                f = self.expr()
                self.inside(f"else if({f[1]})", indent, depth, before=[f[0]]); self.close()
            if k == "if" and r.random() < .4:
                self.inside("else", indent, depth); self.close()
        elif k == "do":
            n = len(self.stmts)
            self.inside("do", indent, depth)
            gone = {b["name"] for s in self.stmts[n:] for b in s["binds"]}
            e = self.expr()
            while gone & set(re.findall(r"[a-z]\w+", e[1])):
                e = self.expr()
            self.lines.append("\t" * indent + f"while({e[1]})")
            self.close(before=[e[0]])
        elif k in ("each", "pair"):
            e = self.primary(0)
            if k == "each" and r.random() < .3:
                n, o = self.target_name(), w.num()
                self.inside(f"for({mark(o, n)} in {e[1]})", indent, depth, before=[{"k": "name", "n": n, "o": o}, e[0]]); self.close()
                return
            if k == "pair" and r.random() < .3:
                n, o, b2, n2 = self.target_name(), w.num(), w.num(), self.fresh(e[1])
                if n != n2:
                    self.inside(f"for({mark(o, n)}, {mark(b2, n2)} in {e[1]})", indent, depth, [(n2, (0, 0))], before=[{"k": "name", "n": n, "o": o}, e[0]], binds=[{"name": n2, "n": 0, "t": 0, "o": 0, "b": b2, "e": NONE}]); self.close()
                    return
            b, t, v = self.bind(self.fresh(e[1]))
            if k == "pair":
                b2 = w.num()
                self.scopes.append([v]); n2 = self.fresh(e[1]); self.scopes.pop()
                self.inside(f"for({t}, {mark(b2, n2)} in {e[1]})", indent, depth, [v, (n2, (0, 0))], before=[e[0]], binds=[b, {"name": n2, "n": 0, "t": 0, "o": 0, "b": b2, "e": NONE}])
            else:
                self.inside(f"for({t}{r.choice(['', '', ' as anything', ' as mob'])} in {e[1]})", indent, depth, [v], before=[e[0]], binds=[b])
            self.close()
        elif k == "for":
            b, t, v = self.bind(self.fresh())
            self.inside(f"for({t})", indent, depth, [v], binds=[b]); self.close()
        elif k == "range":
            a, b = self.primary(1), self.primary(1)
            to = f"{a[1]} to {b[1]}"
            if r.random() < .35:
                n, o = self.target_name(), w.num()
                self.inside(f"for({mark(o, n)} {r.choice(['in', '='])} {to})", indent, depth, before=[{"k": "name", "n": n, "o": o}, a[0], b[0]])
            else:
                n, o = self.fresh(to), w.num()
                self.inside(f"for(var/{mark(o, n)} {r.choice(['in', '='])} {to})", indent, depth, [(n, (0, 0))], before=[a[0], b[0]], binds=[{"name": n, "n": 0, "t": 0, "o": 0, "b": o, "e": NONE}])
            self.close()
        elif k == "steps":
            b, t, v = self.bind(self.fresh(), True)
            self.scopes.append([v])
            c, i, j = self.primary(1), self.target(1), self.primary(1)
            self.scopes.pop()
            sep = r.choice([",", ";"])
            self.inside(f"for({t}{sep} {c[1]}{sep} {i[1]} = {j[1]})", indent, depth, [v], binds=[b], after=[c[0], i[0], j[0]]); self.close()
        elif k == "try":
            self.inside("try", indent, depth); self.close()
            n, o = self.fresh(), w.num()
            w.btype[o] = (0, 1)
            t = r.choice(["", f"(var/datum/{mark(o, n)})", "()"])
            named = "/datum/" in t
            self.inside("catch" + t, indent, depth, [(n, (0, 1))] if named else [], binds=[{"name": n, "n": 0, "t": 1, "o": 0, "b": o, "e": NONE}] if named else []); self.close()

    def target_name(self):
        return self.r.choice([v[0] for s in self.scopes for v in s if v[0] not in ("src", "usr")] + ["ga", "gb"])


def program(r, asking=0):
    """(case, [texts], {o: (file, line, col, len)}, world)"""
    w = World(r)
    bodies, procs = [], []
    chunks = []
    w.binds, w.tyname, w.asks, w.btype = {}, {}, {}, {}
    for i, p in enumerate(w.procs):
        b = Writer(w, r, i, asking)
        if r.random() < .6 or i == 0:
            b.block(0, 0)
        o = w.num()
        w.decl_at["proc", i + 1] = o
        w.binds.update(b.binds)
        head = f"{w.path(p['ty'])}{'/proc' if p['decl'] or not p['ty'] else ''}/{mark(o, p['name'])}({b.ptext})"
        chunks.append("\n".join([head] + ["\t" + x for x in b.lines or ["return"]]))
        procs.append({"ty": p["ty"], "name": p["name"], "decl": p["decl"], "params": b.params, "body": b.stmts, "ops": []})
    extra = w.text
    r.shuffle(extra)
    for t, _ in w.types[:w.own]:
        o = w.num()
        w.tyname[w.types.index((t, _)) + 1] = o
    heads = []
    for t in range(1, w.own + 1):
        s = w.typed((0, t), w.tyname[t])
        if w.types[t - 1][0] in PARENT_TYPE:
            s += f"\n\tparent_type = /{PARENT_TYPE[w.types[t - 1][0]]}"
        heads.append(s)
    # the types are mentioned first where they are declared
    two = r.random() < .5
    files = [heads + [], []]
    rest = chunks + extra
    r.shuffle(rest)
    for x in rest:
        files[r.randint(0, 1) if two else 0].append(x)
    texts, at = [], {}
    for k, f in enumerate(files):
        t, m = strip("\n".join(f) + "\n")
        texts.append(t)
        at.update({o: (k, *v) for o, v in m.items()})
    under = lambda p: [q for q, _ in w.types].index(p.rpartition("/")[0]) + 1 if "/" in p else 0
    tree = []
    for _ in range(3 * bool(asking)):
        t, o = r.randint(0, w.own), w.num()
        word = r.choice([r.choice("abcdeqrxyzmpv"), "", r.choice(["va", "pa", "g", "movable", "b", "atom", "at"])])
        nested = bool(t) and r.random() < .4
        word = word or "v" * nested
        head = (w.typed((0, t))[r.choice([0, 1]):] if t else "") + ("\n\t" if nested else "/") + word
        w.asks[o] = {"text": head, "col": len(head.split("\n")[-1]) - (r.randrange(len(word)) if word else 0), "word": word, "arg": 0, "k": "tree"}
        tree.append({"id": o, "k": "tree", "a": NONE, "n": "", "t": t})
        at[-o] = (r.randrange(2) if two else 0, -1, 0)
    case = {"tree": tree, "paths": [{"under": under(p), "name": p.split("/")[-1]} for p, _ in w.types], "parents": w.parents, "vars": w.vars, "procs": procs, "list": w.index("list"), "mob": w.index("mob")}
    return case, texts, at, w
