"""P22: unreachable code (spec/Flow.tla)."""
from vlib import died

CONDS = {"dyn": ["rand(1, 2) == 1", "prob(50)", "x", "!x", "x > 1", "x && y", "1 && x", "x || 0"],
         "true": ["1", '"a"', "/datum", "!0", "list()", "1 && 2", "0 || 3", "new /datum", "!null", "(5)", "1 ? 2 : 0", "0.5"],
         "false": ["0", "null", '""', "!1", "0 || null", "1 && 0", "(0)", "!/datum", "0 ? 1 : 0"]}


class Gen:
    def __init__(self, r, exits, consts):
        self.r, self.exits, self.consts = r, exits, consts
        self.stmts, self.blocks, self.lines, self.where, self.arms, self.n = [], [], [], {}, {}, 0

    def cond(self):
        r = self.r
        return r.choice(["true", "false"]) if r.random() < self.consts else "dyn"

    def block(self, of, depth, ind, loops, size, spawned):
        b = {"body": [], "of": of}
        self.blocks.append(b)
        me = len(self.blocks)
        for _ in range(size):
            b["body"].append(self.stmt(depth, ind, loops, spawned))
        return me

    def emit(self, ind, text):
        self.lines.append("\t" * ind + text)
        return len(self.lines)

    def stmt(self, depth, ind, loops, spawned):
        r = self.r
        k = None
        if r.random() < self.exits:
            k = r.choice(["return", "return", "return", "crash", "throw"] + (["break", "continue", "break", "continue"] if loops else []))
        elif depth and r.random() < .6:
            k = r.choice(["if", "if", "if", "if", "switch", "switch", "while", "do", "do", "for", "list", "once", "once", "forever", "spawn", "try", "label"])
        else:
            k = "plain"
        s = {"k": k, "blocks": [], "conds": [], "up": 0}
        self.stmts.append(s)
        me = len(self.stmts)
        self.n += 1
        v = f"v{self.n}"
        size = lambda: r.choice([1, 1, 2, 2, 3])
        sub = lambda i, l=loops, sp=spawned: self.block(me, depth - 1, i, l, size(), sp)
        put = lambda t: self.where.setdefault(me, self.emit(ind, t))
        if k == "plain":
            put(r.choice(["foo()", ". = 1", "foo(1)", "x++", f"var/{v} = 2", "world << 1", "del(x)"]))
        elif k == "return":
            put(r.choice(["return", "return x", "return foo()"]) if not spawned else "return")
        elif k == "crash":
            put(r.choice(['CRASH("x")', "CRASH()"]))
        elif k == "throw":
            put("throw x")
        elif k in ("break", "continue"):
            named = [(n, l) for n, l in enumerate(reversed(loops), 1) if l]
            if named and r.random() < .4:
                s["up"], l = r.choice(named)
                put(f"{k} {l}")
            else:
                s["up"] = 1
                put(k)
        elif k == "if":
            for i in range(r.choice([1, 1, 1, 2, 3])):
                c = self.cond()
                s["conds"].append(c)
                t = ("else " if i else "") + f"if({r.choice(CONDS[c])})"
                self.arms[me, i + 1] = l = self.emit(ind, t)
                self.where.setdefault(me, l)
                s["blocks"].append(sub(ind + 1))
            if r.random() < .65:
                s["conds"].append("else")
                self.emit(ind, "else")
                n = len(self.stmts)
                s["blocks"].append(sub(ind + 1))
                self.arms[me, len(s["blocks"])] = self.where[n + 1]
        elif k == "switch":
            put(r.choice(["switch(x)", "switch(foo())"]))
            for i in range(r.choice([1, 1, 2, 3])):
                s["conds"].append("dyn")
                self.emit(ind + 1, f"if({r.choice([str(2 * i), f'{10 * i + 10} to {10 * i + 15}', f'{100 + i}, {200 + i}'])})")
                s["blocks"].append(sub(ind + 2))
            if r.random() < .65:
                s["conds"].append("else")
                self.emit(ind + 1, "else")
                s["blocks"].append(sub(ind + 2))
        elif k in ("spawn", "try", "label"):
            if k == "spawn":
                put(r.choice(["spawn", "spawn(1)"]))
                s["blocks"].append(sub(ind + 1, [], True))
            elif k == "label":
                put(f"{v}:")
                s["blocks"].append(sub(ind + 1))
            else:
                put("try")
                s["blocks"].append(sub(ind + 1))
                self.emit(ind, r.choice(["catch", f"catch(var/exception/{v})"]))
                s["blocks"].append(sub(ind + 1))
            s["conds"] = ["dyn"] * len(s["blocks"])
        else:
            c, name = "dyn", ""
            if r.random() < .3:
                # a label of its own; the statement is the label's block
                name = "l" + v
            inner, i2 = s, ind
            if name:
                s["k"], s["conds"] = "label", ["dyn"]
                put(name + ":")
                b = {"body": [], "of": me}
                self.blocks.append(b)
                s["blocks"] = [len(self.blocks)]
                inner = {"k": k, "blocks": [], "conds": [], "up": 0}
                self.stmts.append(inner)
                b["body"].append(len(self.stmts))
                i2 = ind + 1
            at = len(self.stmts) if name else me
            if k in ("while", "for", "do"):
                c = self.cond()
            e = r.choice(CONDS[c])
            head = {"while": f"while({e})", "do": "do", "for": r.choice([f"for(var/{v} = 0, {e}, {v}++)", f"for(var/{v} = 0; {e}; {v}++)"]), "forever": "for()",
                    "list": r.choice([f"for(var/{v} in foo())", f"for(var/{v} in 1 to x)", f"for(var/{v} in x to 9)", f"for(var/{v} in 5 to 1 step {r.choice([1, 2])})", f"for(var/{v} in 1 to 5 step -1)", f"for(var/mob/{v} in world)", f"for(var/{v} in 9 to 2)", f"for(var/{v}, {v}b in alist())"]),
                    "once": r.choice([f"for(var/{v} in 1 to 5)", f"for(var/{v} in 3 to 3)", f"for(var/{v} = 1 to 4)", f"for(var/{v} in 1 to 9 step 2)", f"for(var/{v} in 9 to 1 step -1)"])}[k]
            l = self.emit(i2, head)
            self.where[at] = l
            self.blocks.append(None)
            bi = len(self.blocks)
            b = {"body": [], "of": at}
            self.blocks[bi - 1] = b
            for _ in range(size()):
                b["body"].append(self.stmt(depth - 1, i2 + 1, loops + [name], spawned))
            if k == "do":
                self.emit(i2, f"while({e})")
            inner["blocks"], inner["conds"] = [bi], [c]
        return me


def program(r):
    g = Gen(r, r.choice([.2, .35, .5]), r.choice([0, 0, .2, .4]))
    g.lines.append("/proc/pa(x, y)")
    g.block(0, r.choice([2, 3, 4]), 1, [], r.choice([1, 2, 3, 4]), False)
    return {"stmts": g.stmts, "blocks": g.blocks}, "\n".join(g.lines) + "\n/proc/foo(x)\n", g


def run(c):
    q = c.quick
    n = 6000 if q else 30000
    work = []
    while len(work) < n:
        w = program(c.rng)
        if len(w[0]["stmts"]) <= 40:
            work.append(w)
    em = {}
    for k in range(0, n, 6000):
        for e in c.tlc("Flow", {}, cases=[w[0] for w in work[k:k + 6000]], spec="Spec", properties=["Terminates"]):
            em[k + e["cid"]] = e
    outs = c.replay([{"k": "check", "text": w[1]} for w in work])
    for j, ((case, text, g), o) in enumerate(zip(work, outs)):
        e = em[j + 1]
        c.count("random bodies", bool(e["must"]), text)
        if died(o):
            c.fail(died(o), text, e, o); continue
        bad = None
        at = {l: s for s, l in g.where.items()}
        got = {"dead": [], "shadowed": [], "notest": [], "constant": [], "tests": []}
        for d in o["errors"]:
            if d["desc"] == "possible unreachable code here":
                got["dead"].append(d["line"])
            elif d["t"] == "unreachable_code":
                got["shadowed"].append(d["line"])
            elif d["desc"].startswith("do while terminates"):
                got["notest"].append(d["line"])
            elif d["t"] == "if_condition_determinate":
                got["constant"].append((d["line"], "true" in d["desc"]))
            elif d["t"] == "loop_condition_determinate":
                got["tests"].append((d["line"], "true" in d["desc"]))
            elif d["parse"] and d["sev"] == 1:
                bad = "the program is taken as wrong: " + d["desc"]
        skipped = set(e["skipped"])
        for l in got["dead"]:
            if at.get(l) not in e["may"]:
                bad = f"line {l} is called unreachable, but it is not"
        for s in e["must"]:
            if g.where[s] not in got["dead"]:
                bad = f"line {g.where[s]} is unreachable, which is not reported"
        if len(set(got["dead"])) != len(got["dead"]):
            bad = "a line is reported twice"
        for l in got["notest"]:
            if at.get(l) not in e["notest"]:
                bad = f"the condition of line {l} is evaluated, but said not to be"
        for s in e["mustnotest"]:
            if g.where[s] not in got["notest"]:
                bad = f"the condition of line {g.where[s]} is never evaluated, which is not reported"
        cond = lambda s, i: case["stmts"][s - 1]["conds"][i - 1] == "true"
        for what, all_ in (("shadowed", [(g.arms[s, i], s) for s, i in e["shadowed"]]), ("constant", [((g.arms[s, i], cond(s, i)), s) for s, i in e["constant"]]), ("tests", [((g.where[s], cond(s, 1)), s) for s in e["tests"]])):
            have = list(got[what])
            for x, s in all_:
                if x in have:
                    have.remove(x)
                elif s not in skipped:
                    bad = f"{what}: {x} is not reported"
            if have:
                bad = f"{what}: {have} reported without cause"
        if bad:
            c.fail(bad, text, {k: e[k] for k in ("must", "may")}, got)
        elif e["must"]:
            c.sample(text, {"must": sorted(g.where[s] for s in e["must"]), "may": sorted(g.where[s] for s in e["may"])}, got)
    return c.finish("a behaviour is a proc body run in all ways at once; trivial when no code must be recognised as unreachable", exhaustive=False)
