"""Programs of types and procs for the checker: abstract, and as text."""

FAMILIES = [
    [("datum", 0), ("datum/a", 1), ("datum/a/b", 2), ("datum/a/b/c", 3), ("datum/a/d", 2), ("datum/e", 1)],
    [("datum", 0), ("atom", 1), ("atom/movable", 2), ("obj", 3), ("obj/x", 4), ("mob", 3), ("mob/y", 6), ("turf", 2), ("turf/z", 8)],
    [("datum", 0), ("datum/a", 1), ("datum/a/b", 2), ("datum/q", 3), ("datum/q/c", 4), ("datum/a/r", 5), ("datum/e", 1)],
]
# parents which do not follow from the path
PARENT_TYPE = {"datum/q": "datum/a/b", "datum/a/r": "datum/q/c"}


class Prog:
    """types: [(path, parent)], procs: [{ty, name, decl}] in text order (ty 0 is the global scope)."""

    def __init__(self, r, names, globals_, density=.45, again=.1, new=.15):
        self.r = r
        self.types = r.choice(FAMILIES)
        self.parents = [p for _, p in self.types]
        keys = []
        for n in names:
            ts = [t for t in range(1, len(self.types) + 1) if r.random() < density] or [r.randint(1, len(self.types))]
            for t in ts:
                keys += [(t, n)] * (2 if r.random() < again else 1)
        # /atom has a New which does not pass the call on to /datum's
        keys += [(t, "New") for t in range(2 if self.types is FAMILIES[1] else 1, len(self.types) + 1) if r.random() < new]
        keys += [(0, g) for g in globals_]
        r.shuffle(keys)
        self.procs = []
        for t, n in keys:
            first = not any((p["ty"], p["name"]) == (t, n) for p in self.procs)
            top = n != "New" and not any((a, n) in keys for a in self.above(t))
            self.procs.append({"ty": t, "name": n, "decl": first and top})

    def above(self, t):
        while t and self.parents[t - 1]:
            t = self.parents[t - 1]
            yield t

    def path(self, t):
        return "/" + self.types[t - 1][0] if t else ""

    def resolves(self, t, n):
        """The type whose own proc n runs on t, or None."""
        have = {(p["ty"], p["name"]) for p in self.procs}
        for a in [t, *self.above(t)] if t else [0]:
            if (a, n) in have:
                return a
        return None

    def show(self, i):
        p = self.procs[i]
        same = [j for j, q in enumerate(self.procs) if (q["ty"], q["name"]) == (p["ty"], p["name"])]
        # a few types come with a New of their own
        n = p["name"] == "New" and self.path(p["ty"]) in ("/datum", "/atom")
        return f"{self.path(p['ty'])}/proc/{p['name']}" + (f"[{same.index(i) + n}/{len(same) + n}]" if len(same) + n > 1 else "")

    def previous(self, i):
        p = self.procs[i]
        if any((q["ty"], q["name"]) == (p["ty"], p["name"]) for q in self.procs[:i]):
            return True
        return bool(p["ty"]) and any(self.resolves(a, p["name"]) is not None for a in list(self.above(p["ty"]))[:1])

    def random_call(self, i, kinds):
        """A call the i-th proc can make."""
        r, p = self.r, self.procs[i]
        k = r.choice(kinds)
        names = sorted({q["name"] for q in self.procs if q["ty"] and q["name"] != "New"})
        globs = sorted({q["name"] for q in self.procs if not q["ty"]})
        t = r.randint(1, len(self.types))
        if k in ("self", "src") and p["ty"]:
            ok = [n for n in names if self.resolves(p["ty"], n) is not None] + (globs if k == "self" else [])
            if ok:
                return {"k": k, "name": r.choice(ok), "ty": 0}
        if k == "self" and not p["ty"] and globs:
            return {"k": k, "name": r.choice(globs), "ty": 0}
        if k == "on":
            ok = [(t, n) for t in range(1, len(self.types) + 1) for n in names if self.resolves(t, n) is not None]
            if ok:
                t, n = r.choice(ok)
                return {"k": k, "name": n, "ty": t}
        if k == "new":
            return {"k": k, "name": "New", "ty": t}
        if k == "parent" and (p["name"] == "New" or self.previous(i)):
            return {"k": k, "name": "", "ty": 0}
        if k == "again":
            return {"k": k, "name": "", "ty": 0}
        if k == "global" and globs:
            return {"k": k, "name": r.choice(globs), "ty": 0}
        return None

    def render(self, settings, bodies):
        """settings[i]: lines, bodies[i]: lines (indented from one tab); the text and the line of each proc."""
        out, lines = [], []
        for p, s, b in zip(self.procs, settings, bodies):
            lines.append(len(out) + 1)
            out.append(f"{self.path(p['ty'])}{'/proc' if p['decl'] or not p['ty'] else ''}{'/final' if p.get('final') else ''}/{p['name']}()")
            out += ["\t" + x for x in s] + ["\t" + x for x in b or ["return"]]
        for t, _ in self.types:
            out.append("/" + t)
            if t in PARENT_TYPE:
                out.append(f"\tparent_type = /{PARENT_TYPE[t]}")
        return "\n".join(out) + "\n", lines


class Body:
    """Statements around expressions."""

    def __init__(self, r):
        self.r, self.n, self.lines, self.spawned = r, 0, [], -1

    def spawn(self, s):
        """The statements s spawned, maybe in the spawned block before, maybe by a spawn there."""
        r = self.r
        again = self.spawned == len(self.lines) and r.random() < .7
        if not again or r.random() < .5:
            s = [r.choice(["spawn(1)", "spawn", "spawn(0)"])] + ["\t" + x for x in s]
        self.lines += ["\t" + x for x in s] if again else s
        self.spawned = len(self.lines)

    def fresh(self):
        self.n += 1
        return f"v{self.n}"

    def call(self, prog, o):
        """Text of a call; a receiver may need a local first."""
        k, n = o["k"], o["name"]
        if k == "self":
            return f"{n}()"
        if k == "src":
            return f"src.{n}()"
        if k == "on":
            v = self.fresh()
            self.lines.append(f"var{prog.path(o['ty'])}/{v}" + self.r.choice(["", " = null"]))
            return f"{v}{self.r.choice(['.', '.', '?.'])}{n}()"
        if k == "new":
            return f"new {prog.path(o['ty'])}()" if self.r.random() < .8 else f"new {prog.path(o['ty'])}"
        if k == "parent":
            return "..()"
        if k == "again":
            return ".()"
        return f"global.{n}()"

    def block(self, kind):
        if kind == "client":
            v = self.fresh()
            self.lines.append(f"var/client/{v}")
            return f"{v}.{self.r.choice(['MeasureText', 'SoundQuery'])}()"
        return {"world": 'world.Export("x")', "import": "world.Import()", "sleep": "sleep(1)", "alert": 'alert("x")', "input": 'input("x")', "shell": 'shell("x")', "winget": 'winget(null, "x", "y")', "winexists": 'winexists(null, "x")'}[kind]

    def put_statement(self, e, spawn=False):
        """The statement e, possibly inside others."""
        r = self.r
        v = self.fresh()
        s = r.choice([[e], [e], ["if(rand(1, 2) == 1)", "\t" + e], ["if(rand(1, 2) == 1)", "\t. = 1", "else", "\t" + e], [f"for(var/{v} in 1 to 3)", "\t" + e], ["while(rand(1, 2) == 1)", "\t" + e],
                      ["switch(rand(1, 3))", "\tif(1)", "\t\t" + e, "\telse", "\t\t. = 1"], ["try", "\t" + e, f"catch(var/exception/{v})", "\t. = 3"], ["do", "\t" + e, "while(rand(1, 2) == 1)"]])
        if spawn:
            self.spawn(s)
        else:
            self.lines += s

    def put(self, e, spawn=False, inside=False, statement=True):
        """A statement which evaluates e."""
        r = self.r
        v = self.fresh()
        shapes = [[e], [e], [f"var/{v} = {e}"], [f". = {e}"], [f"if({e})", "\t. = 1"], ["if(rand(1, 2) == 1)", "\t" + e, "else", "\t. = 2"], ["if(rand(1, 2) == 1)", "\t. = 2", "else if(" + e + ")", "\t. = 3"],
                  [f"while({e})", "\tbreak"], [f"for(var/{v} in 1 to 3)", "\t" + e], [f"switch({e})", "\tif(1)", "\t\t. = 1"], ["switch(rand(1, 3))", "\tif(1, 2)", "\t\t" + e, "\telse", "\t\t. = 1"],
                  ["try", "\t" + e, f"catch(var/exception/{v})", "\t. = 3"], ["try", "\t. = 3", f"catch(var/exception/{v})", "\t" + e], [f". = list({e}, 1)"], [f'. = "a[{e}]b"'], [f". = {e} ? 1 : 2"], [f". = rand(1, 2) == 1 ? 1 : {e}"],
                  [f". = rand(1, 2) == 1 && {e}"], [f". = !{e}"], [f". = abs({e})"], [f". = ({e})"], [f"for(var/{v} in {e})", "\t. = 1"], [f"for(var/{v} = 0, {v} < 3, {v}++)", "\t" + e], ["do", "\t. = 1", f"while({e})"], [f"for(var/{v} in list(1, 2))", "\t" + e],
                  ["if(rand(1, 2) == 1)", f"\treturn {e}"], ["if(rand(1, 2) == 1)", f"\tthrow {e}"], [f". = list({e} = 1)"], [f". = list(k = {e})"], [f". = list(1, 2)[{e}]"], [f"for(var/{v} in 1 to {e})", "\t. = 1"], [f"for(var/{v} in {e} to 5 step 2)", "\t. = 1"],
                  [f"for(var/{v} = {e}, {v} < 3, {v}++)", "\t. = 1"], [f". = {e} in list(1)"], [f". = locate(1) in list({e})"], [f". = pick({e}, 2)"], [f". = pick({e}; 1, 2)"], [f". = 1 + ({e} || 2)"], [f". = -{e}"], [f"del(list({e}))"]]
        if not statement:
            shapes = [s for s in shapes if not any(x.strip() == e for x in s)]
        s = r.choice(shapes)
        if not spawn and not inside and r.random() < .2:
            s = ["if(rand(1, 2) == 1)"] + ["\t" + x for x in s]
        if spawn:
            if r.random() < .3:
                s = ["if(rand(1, 2) == 1)"] + ["\t" + x for x in s]
            if r.random() < .3:
                s = ["if(rand(1, 2) == 1)", "\t" + r.choice(["spawn(1)", "spawn", "spawn(0)"])] + ["\t\t" + x for x in s]
            else:
                self.spawn(s)
                return
        self.lines += s
