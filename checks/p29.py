"""P29: what names in bodies stand for, and static types (spec/Names.tla)."""
import re
from collections import Counter

from dmprog import FAMILIES, PARENT_TYPE, Prog
from vlib import died

EXTRA = ["list", "atom", "turf", "mob", "obj"]
NOTE = {"control_condition_static", "if_condition_determinate", "loop_condition_determinate", "redefined_proc", "unreachable_code"}
WAYS = [(r'undefined var: "(\w+)"$', "var", "n"), (r'undefined global var: "(\w+)"$', "gvar", "n"), (r'undefined proc: "(\w+)" on (.*)$', "proc", "nt"), (r'undefined global proc: "(\w+)"$', "gproc", "n"), (r'undefined field: "(\w+)" on (.*)$', "field", "nt"),
        (r'field access requires static type: "(\w+)"$', "sfield", "n"), (r'proc call requires static type: "(\w+)"$', "sproc", "n"), (r"invalid list access on (.*)$", "index", "t"), (r"failed to resolve path (.*)$", "path", "n"),
        (r"no type hint available on implicit new\(\)$", "hint", ""), (r"proc has no parent: .*$", "noparent", ""), (r"Attempting (operator\+\+|operator--) on a (.*) which does not overload .*$", "incr", "nt"), (r"undefined type: .*$", "type", ""), (r'no typepath found for: "(\w+)"$', "static", "n"), (r"static access requires a static typepath, .* found instead$", "static", ""),
        (r"iterating over a /datum which might not be an /atom$", "hintiter", ""), (r"iterating over a (.*) which cannot be iterated$", "iter", "t")]
OPENS = {"afield": ("field", "sfield"), "aproc": ("proc", "sproc"), "aindex": ("index",), "aincr": ("incr",), "aiter": ("iter", "hintiter")}
# global.x and ::x are the same, but said in other words
GLOBALLY = {"gvar": "field", "gproc": "proc"}
NONE = {"k": "none"}


class World(Prog):
    def __init__(self, r):
        ops = r.sample(["operator[]", "operator++", "operator--"], r.choice([0, 0, 1, 1, 2]))
        super().__init__(r, ["pa", "pb"][:r.choice([1, 2, 2])] + ops, ["gp", "gq"][:r.choice([1, 2])], density=r.choice([.2, .4]), new=0)
        self.own = len(self.types)
        self.types, self.parents = list(self.types), list(self.parents)
        for x in EXTRA:
            if not any(p == x for p, _ in self.types):
                up = {"list": 0, "atom": 1}.get(x) if x in ("list", "atom") else self.index("atom")
                self.types.append((x, up)); self.parents.append(up)
        V = lambda ty, n, k=0, t=0: {"ty": ty, "name": n, "n": k, "t": t}
        I = self.index
        self.vars = [V(1, "tag"), V(I("list"), "len"), V(I("list"), "tag"), V(I("atom"), "name"), V(I("atom"), "contents", 1, I("atom")), V(I("mob"), "key")]
        self.text = []
        taken = []
        for n in ("va", "vb", "vc"):
            for t in r.sample(range(1, self.own + 1), r.choice([1, 2, 3])):
                if not any(m == n and (s in self.above(t) or t in self.above(s) or s == t) for s, m in taken):
                    taken.append((t, n))
                    ty = self.some(r)
                    self.vars.append(V(t, n, *ty))
                    self.text.append(f"{self.path(t)}/var{self.typed(ty)}/{n}" + r.choice(["", " = null"]))
        for n in ("ga", "gb"):
            ty = self.some(r)
            self.vars.append(V(0, n, *ty))
            self.text.append(f"/var{r.choice(['', '', '/global'])}{self.typed(ty)}/{n}")
        for p in self.procs:
            p["params"] = [{"name": n, **dict(zip(("n", "t"), self.some(r)))} for n in ("a", "b", "c")[:r.choice([0, 1, 2, 3])]]
            p["as"] = [0, 0]
            p["ret"] = self.returns(r, p["params"]) if r.random() < .35 else NONE
            if p["decl"] and p["ret"] is NONE and r.random() < .15 and "operator" not in p["name"]:
                p["as"] = [0, r.choice([I("mob"), I("obj"), I("turf")] + list(range(1, self.own + 1)))]
        self.builtin = [{"ty": I("list"), "name": n, "decl": True, "params": [], "ret": NONE, "as": [0, 0], "body": []} for n in ("Add", "Copy", "operator[]")]

    def index(self, x):
        return [p for p, _ in self.types].index(x) + 1

    def some(self, r, bad=False):
        """A declared type: <<lists, type>>."""
        x = r.random()
        t = r.choice([0] + list(range(1, self.own + 1)) * 3)
        if x < .15:
            t = r.choice([self.index("mob"), self.index("turf")])
        return (r.choice([0, 0, 0, 1, 1, 2]) if t else r.choice([0, 0, 1]), t)

    def typed(self, ty):
        return "/list" * ty[0] + (self.path(ty[1]) if ty[1] else "")

    def returns(self, r, params, depth=0):
        k = r.choice(["type"] * 3 + ["null"] + (["param", "ptype", "ptype"] if params else []) + ["or", "and", "cond"] * (depth < 2))
        if k == "type":
            ty = r.choice([(0, r.randint(1, self.own)), (1, r.randint(1, self.own)), (1, 0)])
            return {"k": k, "n": ty[0], "t": ty[1]}
        if k in ("param", "ptype"):
            return {"k": k, "i": r.randint(1, len(params)), "n": r.choice([0, 0, 1, 1, 2])}
        f = lambda: self.returns(r, params, depth + 1)
        return {"k": k, "a": f(), "b": f(), "c": f()}

    def ret_text(self, x, params):
        k = x["k"]
        if k == "type":
            return self.typed((x["n"], x["t"]))
        if k == "null":
            return "null"
        if k in ("param", "ptype"):
            return params[x["i"] - 1]["name"] + ("[_]" * x["n"] + ".type" if k == "ptype" else "")
        a, b, c = (self.ret_text(x[f], params) for f in "abc")
        return {"or": f"({a} || {b})", "and": f"({a} && {b})", "cond": f"({c} ? {a} : {b})"}[k]

    # what the generator needs to know to write mostly sensible programs
    def field_of(self, r, t):
        ok = [v for v in self.vars if v["ty"] and (v["ty"] == t or v["ty"] in self.above(t))]
        return r.choice(ok) if ok and r.random() < .8 else {"name": r.choice(["va", "vb", "vc", "zz", "len", "key", "tag"]), "n": 0, "t": 0}

    def proc_of(self, r, t):
        ok = [p for p in self.procs + self.builtin if p["ty"] and "operator" not in p["name"] and (p["ty"] == t or p["ty"] in self.above(t))]
        return r.choice(ok)["name"] if ok and r.random() < .8 else r.choice(["pa", "pb", "zp", "Add"])


class Writer:
    """The body of one proc."""

    def __init__(self, w, r, i):
        self.w, self.r, self.p = w, r, w.procs[i]
        self.scopes = [[("args", (1, 0)), ("usr", (0, w.index("mob")))] + ([("src", (0, self.p["ty"]))] if self.p["ty"] else []) + [(a["name"], (a["n"], a["t"])) for a in self.p["params"]]]
        self.lines, self.stmts, self.k = [], [], 0

    def basic(self, ty):
        return self.w.index("list") if ty and ty[0] else ty[1] if ty else 0

    def names(self):
        r, w = self.r, self.w
        x = r.random()
        loc = [v for s in self.scopes for v in s]
        if x < .6:
            return r.choice(loc)
        if x < .75:
            return r.choice([(v["name"], (v["n"], v["t"])) for v in w.vars if not v["ty"]])
        if x < .9:
            v = r.choice(w.vars)
            return v["name"], (v["n"], v["t"])
        return r.choice(["zz", "zy", "src", "va", "q1", "q2"]), None

    def args(self, d, q=None):
        r = self.r
        a = [self.expr(d + 1) for _ in range(r.choice([0, 1, 1, 2]))]
        kws = []
        if q and q["params"] and r.random() < .3:
            a = a[:1]
            for prm in r.sample(q["params"], r.choice([1, min(2, len(q["params"]))])):
                e = self.expr(d + 1)
                kws.append((prm["name"], e))
        text = ", ".join([x[1] for x in a] + [f"{n} = {e[1]}" for n, e in kws])
        return {"args": [x[0] for x in a], "kws": [{"name": n, "e": e[0]} for n, e in kws]}, text

    def primary(self, d):
        """An expression something may follow: (node, text, guessed type)."""
        r, w = self.r, self.w
        k = r.choice(["name"] * 5 + (["field", "field", "index", "mcall", "call", "call", "paren", "gname", "gcall", "list", "builtin", "again", "parent", "unlint", "static"] if d < 3 else ["name"]))
        if k == "name":
            n, t = self.names()
            return {"k": "name", "n": n}, n, t
        if k == "gname":
            n = r.choice(["ga", "gb", "zg"])
            v = [v for v in w.vars if not v["ty"] and v["name"] == n]
            return {"k": "gname", "n": n}, r.choice(["global.{}", "(::{})"]).format(n), (v[0]["n"], v[0]["t"]) if v else None
        if k == "field":
            a, t, ty = self.primary(d + 1)
            v = w.field_of(r, self.basic(ty))
            op = r.choice([".", ".", ".", "?.", ":", "?:"]) if self.colon else r.choice([".", ".", "?."])
            return {"k": "field", "a": a, "n": v["name"], "strict": ":" not in op}, f"{t}{op}{v['name']}", (v["n"], v["t"]) if ":" not in op else None
        if k == "static":
            v = r.choice([v for v in w.vars if v["ty"]])
            under = [t for t in range(1, w.own + 1) if v["ty"] == t or v["ty"] in w.above(t)] or [1]
            x = r.random()
            if x < .5:
                t = r.choice(under)
                a, s = {"k": "path", "t": t, "n": ""}, w.path(t)
            elif x < .6:
                a, s = {"k": "path", "t": self.p["ty"], "n": ""}, "__TYPE__"
                if not self.p["ty"]:
                    a, s = {"k": "path", "t": under[0], "n": ""}, w.path(under[0])
            else:
                a, s, ty = self.primary(4)
                v = w.field_of(r, self.basic(ty)) if r.random() < .8 else v
            n = v["name"] if r.random() < .9 else "zz"
            return {"k": "static", "a": a, "n": n}, f"{s}::{n}", (v["n"], v["t"])
        if k == "index":
            a, t, ty = self.primary(d + 1)
            if not ty or not ty[0]:
                a, t, ty = self.primary(d + 1)
            b = self.expr(d + 2) if r.random() < .5 else ({"k": "value"}, "1", None)
            return {"k": "index", "a": a, "b": b[0]}, f"{t}{r.choice(['', '', '?'])}[{b[1]}]", (ty[0] - 1, ty[1]) if ty and ty[0] else None
        if k == "mcall":
            a, t, ty = self.primary(d + 1)
            n = w.proc_of(r, self.basic(ty))
            op = r.choice([".", ".", ".", "?.", ":", "?:"]) if self.colon else r.choice([".", ".", "?."])
            x, s = self.args(d)
            return {"k": "mcall", "a": a, "n": n, "strict": ":" not in op, **x}, f"{t}{op}{n}({s})", self.guess(n)
        if k in ("call", "gcall"):
            n = r.choice([p["name"] for p in w.procs if "operator" not in p["name"]] + ["zp"] * (r.random() < .5)) if k == "call" else r.choice(["gp", "gq", "gp", "zp"])
            q = None
            if k == "call":
                t = w.resolves(self.p["ty"], n) if self.p["ty"] else None
                t = 0 if t is None else t
                q = [p for p in w.procs if (p["ty"], p["name"]) == (t, n)][-1:] or [None]
            else:
                q = [p for p in w.procs if (p["ty"], p["name"]) == (0, n)][-1:] or [None]
            x, s = self.args(d, q[0])
            return {"k": k, "n": n, **x}, (r.choice(["global.{}", "(::{})"]) if k == "gcall" else "{}").format(f"{n}({s})"), self.guess(n)
        if k == "again":
            x, s = self.args(d, self.p)
            return {"k": k, **x}, f".({s})", None
        if k == "parent":
            x, s = self.args(d)
            return {"k": k, **x}, f"..({s})", None
        if k == "unlint":
            return {"k": "value"}, f"SpacemanDMM_unlint({self.expr(d + 1)[1]})", None
        if k == "list":
            a = [self.expr(d + 1) for _ in range(r.choice([0, 1, 2]))]
            return {"k": "group", "n": ["list"], "args": [x[0] for x in a]}, "list(" + ", ".join(r.choice(["", "", '"k" = ', "zk = "]) + x[1] for x in a) + ")", (1, 0)
        if k == "builtin":
            n, ty = r.choice([("get_step", (0, w.index("turf"))), ("range", (1, w.index("atom"))), ("viewers", (1, w.index("mob"))), ("typesof", (1, 0)), ("view", (1, w.index("atom"))), ("abs", (0, 0)), ("oview", (1, w.index("atom")))])
            a = self.expr(d + 1)
            return {"k": "builtin", "n": ty[0], "t": ty[1], "args": [a[0]]}, f"{n}({a[1]})", ty
        a = self.expr(d + 1, True)
        return {"k": "paren", "a": a[0]}, f"({a[1]})", a[2]

    def guess(self, n):
        q = [p for p in self.w.procs if p["name"] == n and p["ret"]["k"] == "type"]
        return (q[0]["ret"]["n"], q[0]["ret"]["t"]) if q else None

    colon = True

    def expr(self, d=0, inner=False):
        r, w = self.r, self.w
        k = r.choice(["primary"] * 8 + (["value", "path", "new", "bin", "or", "and", "choice", "step", "assign", "text", "pick", "locate", "not", "hint"] if d < 2 else ["value"]))
        if k == "primary":
            return self.primary(d)
        if k == "value":
            return {"k": "value"}, r.choice(["1", '"s"', "null", "2.5", "rand(1, 2)"]), None
        if k == "path":
            t = r.randint(1, w.own) if r.random() < .85 else 0
            return {"k": "path", "t": t, "n": "/datum/zz"}, w.path(t) if t else "/datum/zz", None
        if k in ("new", "hint"):
            t = -1 if k == "hint" else r.randint(1, w.own) if r.random() < .85 else 0
            args, s = self.args(d) if r.random() < .6 else ({"args": [], "kws": []}, None)
            text = "new" + ("" if t == -1 else " " + (w.path(t) if t else "/datum/zz")) + (f"({s})" if s is not None else "")
            if s is None and t == -1:
                text += "()"
            return {"k": "new", "t": t, "n": "/datum/zz", **args}, f"({text})", None
        if k in ("bin", "or", "and"):
            a, b = self.primary(d + 1), self.primary(d + 1)
            op = {"or": "||", "and": "&&"}.get(k) or r.choice(["+", "-", "|", "&", "^", "==", "<", "*", "<<"])
            e = {"k": k, "n": op, "a": a[0], "b": b[0]}, f"({a[1]} {op} {b[1]})", a[2]
            return e
        if k == "choice":
            c = self.primary(d + 1)
            old, self.colon = self.colon, False
            a = self.primary(d + 1)
            b = self.primary(d + 1) if r.random() < .6 else a
            self.colon = old
            return {"k": k, "c": c[0], "a": a[0], "b": b[0]}, f"({c[1]} ? {a[1]} : {b[1]})", a[2]
        if k == "step":
            a = self.target(d)
            op = r.choice(["operator++", "operator--"])
            s = op[-2:]
            return {"k": k, "n": op, "a": a[0]}, f"({a[1] + s if r.random() < .6 else s + a[1]})", None
        if k == "assign":
            return self.assign(d, True)
        if k == "text":
            a = self.expr(d + 1)
            return {"k": "group", "n": [], "args": [a[0]]}, f'"a[{a[1]}]b"', None
        if k == "pick":
            a, b = self.expr(d + 1), self.expr(d + 1)
            return {"k": "group", "n": [], "args": [a[0], b[0]]}, f"pick({a[1]}, {b[1]})", None
        if k == "locate":
            a, b = self.expr(d + 1), self.primary(d + 1)
            return {"k": "group", "n": [], "args": [a[0], b[0]]}, f"(locate({a[1]}) in {b[1]})", None
        a = self.primary(d + 1)
        return {"k": "group", "n": [], "args": [a[0]]}, r.choice(["(!{})", "(-{})", "(~{})"]).format(a[1]), None

    def target(self, d):
        while True:
            a = self.primary(d + 1)
            if a[0]["k"] in ("name", "field", "index", "gname") and "SpacemanDMM_unlint" not in a[1]:
                return a

    def assign(self, d, inner=False):
        r = self.r
        a = self.target(d)
        b = self.expr(d + 1)
        op = r.choice(["=", "=", "+=", "-="])
        return {"k": "assign", "n": op, "a": a[0], "b": b[0]}, (f"({a[1]} {op} {b[1]})" if inner else f"{a[1]} {op} {b[1]}"), None

    # statements
    def put(self, text, indent, **kw):
        s = {"before": [], "binds": [], "after": [], "open": False, "close": False, "iter": False, "line": len(self.lines)}
        s.update(kw)
        self.lines.append("\t" * indent + text)
        self.stmts.append(s)

    def fresh(self):
        if self.r.random() < .12:
            # hides another variable
            old = [v[0] for s in self.scopes[:-1] for v in s if v[0] not in ("src", "usr", "args")]
            n = self.r.choice(old + ["ga", "va"])
            if not any(v[0] == n for v in self.scopes[-1]):
                return n
        self.k += 1
        return f"q{self.k}"

    def var(self, init=True):
        r, w = self.r, self.w
        ty = w.some(r)
        bad = r.random() < .04
        n = self.fresh()
        e = None
        if init and r.random() < .7:
            e = self.expr() if r.random() < .75 else ({"k": "new", "t": -1, "n": "", "args": [], "kws": []}, r.choice(["new", "new()"]), None)
            if r.random() < .1:
                f = self.primary(1)
                e = {"k": "or", "n": "||", "a": f[0], "b": e[0]}, f"{f[1]} || {e[1]}", None
            # a path held by a variable is another matter
            while self.path_like(e[0]):
                e = self.expr()
        b = {"name": n, "n": 0 if bad else ty[0], "t": -1 if bad else ty[1], "e": e[0] if e else NONE}
        text = f"var{r.choice(['', '', '', '/static'])}{'/datum/zz' if bad else w.typed(ty)}/{n}"
        return b, text + (f" = {e[1]}" if e else ""), (n, (0, 0) if bad else ty)

    def path_like(self, e):
        return e["k"] == "path" or any(self.path_like(v) for v in e.values() if isinstance(v, dict))

    def block(self, indent, depth):
        r = self.r
        mark = len(self.lines)
        for _ in range(r.choice([1, 2, 3, 4] if depth == 0 else [1, 1, 2])):
            self.statement(indent, depth)
        if len(self.lines) == mark:
            self.lines.append("\t" * indent + ". = 1")

    def inside(self, header, indent, depth, binds=(), names=(), before=(), after=(), iter=False):
        self.put(header, indent, open=True, before=list(before), binds=list(binds), after=list(after), iter=iter)
        self.scopes.append(list(names))
        self.block(indent + 1, depth + 1)
        self.scopes.pop()

    def close(self, **kw):
        # a block ends on its last line
        self.stmts.append({"before": [], "binds": [], "after": [], "open": False, "close": True, "iter": False, "line": len(self.lines) - 1, **kw})

    def statement(self, indent, depth):
        r, w = self.r, self.w
        k = r.choice(["var"] * 3 + ["assign", "dot", "call", "lshift", "return", "del"] + (["if", "if", "while", "do", "each", "each", "pair", "range", "steps", "spawn", "switch", "try", "for"] if depth < 2 else []))
        if k == "var":
            b, t, v = self.var()
            self.put(t, indent, binds=[b]); self.scopes[-1].append(v)
        elif k == "assign":
            e = self.assign(0)
            self.put(e[1], indent, before=[e[0]])
        elif k == "dot":
            e = self.expr()
            self.put(". = " + e[1], indent, before=[{"k": "assign", "n": "=", "a": {"k": "name", "n": "."}, "b": e[0]}])
        elif k == "del":
            e = self.primary(0)
            self.put(f"del({e[1]})", indent, before=[e[0]])
        elif k == "call":
            for _ in range(30):
                e = self.primary(0)
                if e[0]["k"] in ("call", "gcall", "mcall", "parent", "again"):
                    self.put(e[1], indent, before=[e[0]]); break
        elif k == "lshift":
            a, b = self.primary(1), self.primary(1)
            if a[1][0] in '("./':
                return
            self.put(f"{a[1]} << {b[1]}", indent, before=[a[0], b[0]])
        elif k == "return":
            e = self.expr()
            self.put("if(rand(1, 2) == 1)", indent, open=True)
            self.put("return " + e[1], indent + 1, before=[e[0]])
            self.close()
        elif k in ("if", "while", "switch", "spawn"):
            e = self.expr()
            t = f"({e[1]})"
            if k == "switch":
                self.put("switch" + t, indent, before=[e[0]])
                self.inside(f"if({r.choice(['1', '1, 2', '1 to 3'])})", indent + 1, depth); self.close()
                if r.random() < .5:
                    f = self.primary(1)
                    self.inside(f"if({f[1]})", indent + 1, depth, before=[f[0]]); self.close()
                if r.random() < .4:
                    self.inside("else", indent + 1, depth); self.close()
                return
            self.inside(k + t, indent, depth, before=[e[0]]); self.close()
            while k == "if" and r.random() < .3:
                f = self.expr()
                self.inside(f"else if({f[1]})", indent, depth, before=[f[0]]); self.close()
            if k == "if" and r.random() < .3:
                self.inside("else", indent, depth); self.close()
        elif k == "do":
            mark = len(self.stmts)
            self.inside("do", indent, depth)
            # whether the block's own variables are still there is another matter
            gone = {b["name"] for s in self.stmts[mark:] for b in s["binds"]}
            e = self.expr()
            while gone & set(re.findall(r"\w+", e[1])):
                e = self.expr()
            self.lines.append("\t" * indent + f"while({e[1]})")
            self.close(before=[e[0]])
        elif k in ("each", "pair"):
            self.colon = False
            e = self.primary(0)
            self.colon = True
            b, t, v = self.var(False)
            v2 = self.fresh() if k == "pair" else None
            if v2 == b["name"]:
                return
            bare = r.random() < .3
            second = f", {v2}" if v2 else ""
            binds, names = [b], [v]
            before = []
            if bare:
                n = r.choice([self.names()[0], "zz"])
                binds, names, before = [], [], [{"k": "name", "n": n}]
                t = n
            if v2:
                binds = binds + [{"name": v2, "n": 0, "t": 0, "e": NONE}]
                names = names + [(v2, (0, 0))]
            anything = "" if v2 or bare else r.choice(["", "", " as anything", " as mob"])
            self.inside(f"for({t}{second}{anything} in {e[1]})", indent, depth, binds, names, before + [e[0]], iter=True); self.close()
        elif k == "for":
            b, t, v = self.var(False)
            self.inside(f"for({t})", indent, depth, [b], [v]); self.close()
        elif k == "range":
            self.colon = False
            a, b, s = self.primary(1), self.primary(1), self.primary(1) if r.random() < .3 else None
            self.colon = True
            n = self.fresh()
            parts = [a[0], b[0]] + ([s[0]] if s else [])
            to = f"{a[1]} to {b[1]}" + (f" step {s[1]}" if s else "")
            if r.random() < .35:
                n = r.choice([self.names()[0], "zz"])
                self.inside(f"for({n} in {to})", indent, depth, before=parts + [{"k": "name", "n": n}])
            else:
                self.inside(f"for(var/{n} {r.choice(['in', '='])} {to})", indent, depth, [{"name": n, "n": 0, "t": 0, "e": NONE}], [(n, (0, 0))], parts)
            self.close()
        elif k == "steps":
            self.colon = False
            if r.random() < .7:
                b, t, v = self.var()
                self.scopes.append([v])
                binds, names, before = [b], [v], []
            else:
                x = self.assign(0)
                self.scopes.append([])
                binds, names, before, t = [], [], [x[0]], x[1]
            c, i = self.primary(1), self.assign(1)
            self.scopes.pop()
            self.colon = True
            self.inside(f"for({t}, {c[1]}, {i[1]})" if r.random() < .6 else f"for({t}; {c[1]}; {i[1]})", indent, depth, binds, names, before, [c[0], i[0]]); self.close()
        elif k == "try":
            self.inside("try", indent, depth); self.close()
            n = self.fresh()
            t = r.choice(["", f"(var/datum/{n})", "()"])
            named = "/datum/" in t
            self.inside("catch" + t, indent, depth, [{"name": n, "n": 0, "t": 1, "e": NONE}] if named else [], [(n, (0, 1))] if named else []); self.close()


def program(r):
    w = World(r)
    settings, bodies = [], []
    for i, p in enumerate(w.procs):
        settings.append([f"set SpacemanDMM_return_type = {w.ret_text(p['ret'], p['params'])}"] if p["ret"] is not NONE else [])
        b = Writer(w, r, i)
        if r.random() < .4 or i == 0:
            b.block(0, 0)
        bodies.append(b)
    lines = []
    names = ["/" + x for x, _ in w.types[:w.own]]
    out = []
    procs = list(w.builtin)
    order = list(range(len(w.procs)))
    for i in order:
        p = w.procs[i]
        ps = ", ".join((("/var" * (r.random() < .3) + w.typed((a["n"], a["t"])) + "/" + a["name"])[1:]) for a in p["params"])
        tail = " as " + w.path(p["as"][1]) if p["as"][1] and r.random() < .5 else " as " + {"/mob": "mob", "/obj": "obj", "/turf": "turf"}.get(w.path(p["as"][1]), w.path(p["as"][1])) if p["as"][1] else ""
        out.append(f"{w.path(p['ty'])}{'/proc' if p['decl'] or not p['ty'] else ''}/{p['name']}({ps}){tail}")
        out += ["\t" + s for s in settings[i]]
        base = len(out) + 1
        body = [{**s, "line": base + s["line"]} for s in bodies[i].stmts]
        out += ["\t" + x for x in bodies[i].lines] or ["\treturn"]
        procs.append({"ty": p["ty"], "name": p["name"], "decl": p["decl"], "params": p["params"], "ret": p["ret"], "as": p["as"], "body": body})
    text = w.text[:]
    r.shuffle(text)
    for t, _ in w.types[:w.own]:
        out.append("/" + t)
        if t in PARENT_TYPE:
            out.append(f"\tparent_type = /{PARENT_TYPE[t]}")
    case = {"parents": w.parents, "vars": w.vars, "procs": procs, "list": w.index("list"), "mob": w.index("mob"), "atom": w.index("atom")}
    return case, "\n".join(out + text) + "\n", [w.path(i + 1) for i in range(len(w.types))]


def judge(out, o, paths):
    """The first thing wrong, or None; and what was found."""
    must, may = Counter(), set()
    for line, sure, (k, n, t) in out:
        k = GLOBALLY.get(k, k)
        if sure == "must":
            must[line, k, n, t] += 1
        else:
            may.add((line, k, n))
    got = Counter()
    for d in o["errors"]:
        if d["t"] in NOTE or "keyword arg" in d["desc"] or "never reached" in d["desc"] or "non-kwargs" in d["desc"] or "in a spawn has no effect" in d["desc"] or d["desc"].startswith("Switch branches on rand"):
            continue
        for pat, k, what in WAYS:
            m = re.match(pat, d["desc"])
            if m:
                n = m[1] if "n" in what else ""
                t = m[len(what)] if "t" in what else None
                t = 0 if t in (None, "list") or t[:1] != "/" else paths.index(t) + 1 if t in paths else -9
                k = GLOBALLY.get(k, k)
                if k == "incr" and t and paths[t - 1] == "/list":
                    t = 0
                got[d["line"], k, n, t] += 1
                sev = {"sfield": 2, "sproc": 2, "hintiter": 4}.get(k, 1)
                if d["sev"] != sev:
                    return f"severity {d['sev']}: {d['desc']}", got
                break
        else:
            if d["sev"] <= 2:
                return "the program is taken as wrong: " + d["desc"], got
    if must - got:
        return f"not reported: {min(must - got)}", got
    for x in got - must:
        line, k, n, t = x
        if k == "static" and any(m[:2] == (line, "afield") for m in may):
            continue
        ok = any((line, a, b) in may for a in [k] + [y for y, z in OPENS.items() if k in z] for b in {n, ""} if b == n or a in ("aindex", "aincr", "aiter"))
        if not ok:
            return f"reported without cause: {x}", got
    return None, got


def run(c):
    n = 3500 if c.quick else 60000
    work = [program(c.rng) for _ in range(n)]
    em = {}
    for k in range(0, n, 5000):
        for e in c.tlc("Names", {}, cases=[w[0] for w in work[k:k + 5000]], spec="Spec", properties=["Terminates"]):
            em[k + e["cid"]] = e
    outs = c.replay([{"k": "check", "text": w[1]} for w in work])
    for j, ((case, text, paths), o) in enumerate(zip(work, outs)):
        out = em[j + 1]["out"]
        c.count("random programs", bool(out), text)
        if died(o):
            c.fail(died(o), text, out, o); continue
        bad, got = judge(out, o, paths)
        if bad:
            c.fail(bad, text, sorted(map(str, out)), sorted(map(str, got)) + [d["desc"] for d in o["errors"] if d["sev"] <= 2 and d["parse"]])
        elif out:
            c.sample(text, out, sorted(map(str, got)))
    return c.finish("a behaviour is a whole program whose bodies are run through statement by statement; trivial when there is nothing to report", exhaustive=False)
