"""P38: settings, filters, empty searches and spawned returns (spec/Settings.tla)."""
import re
from vlib import died

LINTER = ["should_not_override", "should_call_parent", "should_not_call_parent", "private_proc", "protected_proc", "should_not_sleep", "allowed_to_sleep", "should_be_pure", "can_be_redefined"]
ODD = ["should_call_parents", "Should_be_pure", "pure", "", "private", "waitfor", "should_not_override_", "background", "can_be_redefine", "name"]
SWITCHES = ["background", "waitfor", "hidden", "instant", "popup_menu"]
TEXTS = ["name", "desc", "category"]
UNKNOWN = ["Name", "invisible", "icon", "names", "descr", "wait_for", "category_", "SpacemanDM_x", "spacemanDMM_pure", "verb", "opacity", "dir"]
FIELDS = {"alpha": "x y icon render_source flags", "angular_blur": "x y size", "bloom": "threshold size offset alpha", "color": "color space", "displace": "x y size icon render_source flags", "drop_shadow": "x y size offset color", "blur": "size",
          "layer": "x y icon render_source flags color transform blend_mode", "motion_blur": "x y", "outline": "size color flags", "radial_blur": "x y size", "rays": "x y size color offset density threshold factor flags",
          "ripple": "x y size repeat radius falloff flags", "wave": "x y size offset flags"}
ALL = sorted({f for v in FIELDS.values() for f in v.split()} | {"name"})
FLAGS = ["MASK_INVERSE", "MASK_SWAP", "FILTER_COLOR_RGB", "FILTER_COLOR_HSV", "FILTER_COLOR_HSL", "FILTER_COLOR_HCY", "FILTER_OVERLAY", "FILTER_UNDERLAY", "OUTLINE_SHARP", "OUTLINE_SQUARE", "WAVE_BOUNDED", "WAVE_SIDEWAYS"]
OWNFLAGS = {"alpha": FLAGS[:2], "color": FLAGS[2:6], "displace": FLAGS[6:7], "layer": FLAGS[6:8], "rays": FLAGS[6:8], "outline": FLAGS[8:10], "ripple": FLAGS[10:11], "wave": FLAGS[10:12]}
OPEN = {"if": ["if({c})"], "while": ["while({c})"], "spawn": ["spawn", "spawn()", "spawn(5)", "spawn(rand(1, 9))"], "for": ["for(var/{v} in 1 to 3)", "for(var/datum/{v} in world)", "for(var/{v} = 0, {v} < 3, {v}++)"], "do": ["do"], "try": ["try"]}
SHAPES = [("unknown", r'^unknown setting "(.*)"$', 2), ("linter", r'^unknown linter setting "(.*)"$', 2), ("switch", r"^set (\w+) must be 0/1/TRUE/FALSE$", 2), ("text", r"^set (\w+) must have a string value$", 2), ("range", r"^set (invisibility) must be 0-100$", 2),
          ("late", r"^set statement not at the top of the proc$", 1), ("return", r"^returning a value in a spawn has no effect$", 2), ("find", r"^list\.Find\(\) with no arguments", 2), ("notype", r"^filter\(\) called without mandatory keyword parameter 'type'$", 1),
          ("order", r"^proc called with non-kwargs after kwargs: filter\(\)$", 1), ("nottext", r"^filter\(\) called with non-string type", 1), ("badtype", r"^filter\(\) called with invalid type keyword parameter value '(.*)'$", 1), ("key", r"^filter\(type=\"(.*)\"\) called with invalid keyword parameter '(.*)'$", 1),
          ("flag", r"^filter\(type=\"(.*)\"\) called with invalid '(\w+)' flag '(.*)'$", 1), ("value", r"^filter\(type=\"(.*)\"\) called with invalid '(\w+)' value '", 1), ("several", r"^filter\(type=\"(.*)\"\) '(\w+)' parameter must have one value", 1),
          ("access", r"^filter\(\) flag fields cannot have unary ops", 1), ("extreme", r"^filter\(type=\"(.*)\"\), extremely invalid value passed to '(\w+)' field$", 1)]
SEV = {k: s for k, _, s in SHAPES}


def said(desc):
    for k, rx, _ in SHAPES:
        m = re.match(rx, desc)
        if m:
            return (k, *m.groups())


def value(r, name):
    """(abstract, text) of a setting's value."""
    c = r.choice(["int"] * 4 + ["TRUE", "FALSE", "str", "str", "null", "word", "expr", "float", "path"])
    if name in TEXTS and r.random() < .5:
        c = "str"
    if name == "invisibility" and r.random() < .6:
        c = "int"
    n = 0
    if c == "int":
        n = r.choice([0, 1, 0, 1, 2, 100, 101, 99, 255, 60, 10000000]) if name == "invisibility" else r.choice([0, 1, 0, 1, 0, 1, 2, 3, 10])
        t = str(n)
    else:
        t = {"TRUE": ["TRUE"], "FALSE": ["FALSE"], "str": ['"x"', '""', '"0"', '"a[1 + 1]b"', "{\"a\"}", '"Ünï"'], "null": ["null"], "word": ["MAYBE", "usr", "true", "src", "zz"], "expr": ["1 + 0", '"a" + "b"', "1 == 1", "0 || 1", "zz2 + 1"],
             "float": ["0.5", "1.5", "50.25"], "path": ["/datum", "/datum/a"]}[c]
        t = r.choice(t)
    if r.random() < .06:
        t = f"({t})"
    if c in ("TRUE", "FALSE"):
        c, n = "int", int(c == "TRUE")
    return {"c": c, "n": n}, t


def flags(r, ty, depth=0):
    """A value for a field of flags: an abstract tree and its text."""
    x = r.random()
    if x < .3 and depth < 3:
        l, tl = flags(r, ty, depth + 1); rr, tr = flags(r, ty, depth + 1)
        if rr["o"] == "or":
            tr = f"({tr})"
        if l["o"] == "other":
            tl = f"({tl})"
        if rr["o"] == "other":
            tr = f"({tr})"
        if l["o"] == "or" and r.random() < .2:
            tl = f"({tl})"
        return {"o": "or", "l": l, "r": rr}, tl + r.choice([" | ", "|"]) + tr
    if x < .72:
        n = r.choice(OWNFLAGS[ty]) if ty in OWNFLAGS and r.random() < .75 else r.choice(FLAGS + ["zz3", "src0", "b0", "WAVE_BOUNDED2", "MASK_SWAPPED", "FILTER_OVER"])
        return {"o": "name", "n": n}, n
    if x < .86:
        i = r.choice([0, 0, 0, 1, 2, 3])
        return {"o": "int", "i": i}, str(i)
    c = r.choice(["literal", "access", "other"])
    t = {"literal": ["null", '"x"', "1.5", "/datum", "rand()", "list(0)"], "access": ["~WAVE_BOUNDED", "!zz3", "src.x0", "zz3[1]", "src.x0.x0", "-zz3", "~FILTER_OVERLAY"], "other": ["MASK_SWAP + MASK_INVERSE", "1 & WAVE_BOUNDED", "zz3 ? 1 : 2", "zz3 || 0", "1 - zz3"]}[c]
    return {"o": c}, r.choice(t)


def call(r, n):
    """A call of filter(): (abstract arguments, text)."""
    args = []
    ty = r.choice(list(FIELDS))
    x = r.random()
    if x < .84:
        args.append(({"n": "type", "v": {"o": "text", "s": ty}}, f'"{ty}"'))
    elif x < .89:
        bad = r.choice(["", "Blur", "gaussian_blur", "colour", "drop shadow", "alpha_mask", "none", "rgb"])
        args.append(({"n": "type", "v": {"o": "text", "s": bad}}, f'"{bad}"'))
    elif x < .93:
        args.append(({"n": "type", "v": {"o": "odd"}}, r.choice(["5", "null", "zz3", "/datum", "1.5", "rand()", "src.x0"])))
    names = FIELDS[ty].split()
    used = set()
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        f = r.choice(names) if r.random() < .8 else r.choice(ALL)
        if f in ("flags", "space") and f not in names and r.random() < .3:
            continue
        if f in used:
            continue
        used.add(f)
        args.append((f, None))
    if ty in OWNFLAGS and r.random() < .7:
        f = "space" if ty == "color" else "flags"
        if f not in used:
            args.append((f, None))
    out = []
    for a, t in args:
        if t is None:
            if a in ("flags", "space"):
                v, t = flags(r, ty)
                if r.random() < .08:
                    t = f"({t})"
            else:
                v, t = {"o": "literal"}, r.choice(["1", "2", '"#fff"', "null", "zz3", "rand(1, 2)"])
            a = {"n": a, "v": v}
        out.append((a, t))
    r.shuffle(out)
    pos = []
    y = r.random()
    if y < .08:
        pos = [({"n": "", "v": {"o": "arglist"}}, "arglist(zz3)")]
    elif y < .14:
        pos = [({"n": "", "v": {"o": "literal"}}, r.choice(['"blur"', "5", "zz3"]))]
        if r.random() < .3:
            pos.append(({"n": "", "v": {"o": "arglist"}}, "arglist(zz3)"))
    late = []
    if out and r.random() < .06:
        late = r.choice([[({"n": "", "v": {"o": "arglist"}}, "arglist(zz3)")], [({"n": "", "v": {"o": "literal"}}, "zz3")]])
        if r.random() < .5:
            out = [x for x in out if x[0]["n"] != "type"] or out
    key = lambda k: f'"{k}"' if r.random() < .1 else k
    return [a for a, _ in pos + out + late], "(" + ", ".join([t for _, t in pos] + [f"{key(a['n'])} = {t}" if r.random() < .7 else f"{key(a['n'])}={t}" for a, t in out] + [t for _, t in late]) + ")"


WRAP = [". = {e}", "var/{v} = {e}", "src.filters += {e}", "zz({e})", ". = list(1, {e})", ". = list(\"a\" = {e})", "zz(1, {e}, 2)", "src.filters = list({e})", ". = rand() || {e}", ". = rand(1, 2) == 1 ? {e} : null", "zz(zz({e}))", "{e}", "if({e}) zz(1)", "var/static/{v} = {e}"]


class Gen:
    def __init__(self, r, ownfilter):
        self.r, self.own, self.items, self.lines, self.n = r, ownfilter, [], [], 0

    def fresh(self):
        self.n += 1
        return f"v{self.n}"

    def add(self, item, text, depth):
        self.items.append(item)
        self.lines.append("\t" * (depth + 1) + text)

    def setting(self, depth):
        r = self.r
        x = r.random()
        if x < .25:
            n = r.choice(LINTER)
            self.add({"k": "set", "lint": True, "name": "SpacemanDMM_" + n, "val": {"c": "int", "n": 1}}, f"set SpacemanDMM_{n} = 1", depth); return
        if x < .33:
            n = r.choice(ODD)
            self.add({"k": "set", "lint": True, "name": "SpacemanDMM_" + n, "val": {"c": "int", "n": 1}}, f"set SpacemanDMM_{n} = {r.choice(['1', 'TRUE', '2'])}", depth); return
        if x < .40:
            n = r.choice(UNKNOWN)
        elif x < .46:
            self.add({"k": "set", "lint": False, "name": "src", "val": {"c": "expr", "n": 0}}, r.choice(["set src in view(1)", "set src = usr.contents", "set src in world", "set src = usr"]), depth); return
        else:
            n = r.choice(SWITCHES + TEXTS + ["invisibility", "invisibility"])
        v, t = value(r, n)
        self.add({"k": "set", "lint": False, "name": n, "val": v}, f"set {n} = {t}", depth)

    def block(self, depth, innermost, spawned):
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3]) if depth else r.choice([0, 1, 2, 3, 4])):
            x = r.random()
            if x < .3:
                own = self.own and r.random() < .5
                a, t = call(r, self.n)
                e = ("src." if own and r.random() < .5 else "global." if self.own and not own else "") + "filter" + t
                self.add({"k": "filter", "args": a, "own": own}, r.choice(WRAP).replace("{e}", e).replace("{v}", self.fresh()), depth)
            elif x < .4:
                lst, n = r.random() < .7, r.choice([0, 0, 1, 1, 2])
                e = (r.choice(["lst", "src.filters", "src.vars", "al", "world.contents", "list(1)", "(lst)"]) if lst else r.choice(["own", "src", "new /datum/own()"])) + ".Find(" + ["", r.choice(["null", "1", "src"]), "src, 2"][n] + ")"
                if "list(1)" in e or "world" in e:
                    e = e.replace("list(1)", "lst").replace("world.contents", "src.filters")
                self.add({"k": "find", "n": n, "list": lst}, r.choice(WRAP[:11]).replace("{e}", e).replace("{v}", self.fresh()), depth)
            elif x < .5:
                self.add({"k": "do"}, r.choice(["zz(1)", ". = 1", f"var/{self.fresh()} = 2", "src.x0 = 3"]), depth)
            elif x < .62:
                self.setting(depth)
            elif depth < 3:
                b = r.choice(["if", "while", "spawn", "spawn", "for", "do", "try", "switch"])
                if b == "switch":
                    self.add({"k": "open", "b": b}, "switch(rand(1, 3))", depth)
                    self.add({"k": "open", "b": b}, r.choice(["if(1)", "if(1, 2)", "if(1 to 2)"]), depth + 1)
                    self.block(depth + 2, b, spawned)
                    self.items.append({"k": "close"}); self.lines.append(None)
                    self.items.append({"k": "close"}); self.lines.append(None)
                    continue
                self.add({"k": "open", "b": b}, r.choice(OPEN[b]).replace("{c}", r.choice(["rand(1, 2) == 1", "zz3"])).replace("{v}", self.fresh()), depth)
                self.block(depth + 1, b, spawned or b == "spawn")
                self.items.append({"k": "close"})
                self.lines.append({"do": "\t" * (depth + 1) + "while(rand(1, 2) == 1)", "try": "\t" * (depth + 1) + "catch"}.get(b))
                if b == "try":
                    self.items.append({"k": "open", "b": b}); self.lines.append(None)
                    self.block(depth + 1, b, spawned)
                    self.items.append({"k": "close"}); self.lines.append(None)
                if b == "if" and r.random() < .3:
                    self.add({"k": "open", "b": "else"}, r.choice(["else", "else if(zz3)"]), depth)
                    self.block(depth + 1, "else", spawned)
                    self.items.append({"k": "close"}); self.lines.append(None)
            else:
                self.add({"k": "do"}, ". = 4", depth)
        if depth and not self.lines[-1]:
            self.add({"k": "do"}, ". = 5", depth)
        if innermost in ("if", "spawn", "") and r.random() < (.6 if spawned else .2):
            v = r.random() < .7
            self.add({"k": "return", "v": v}, "return" + (r.choice([" 1", " null", " .", " src", "(2)", " zz(1)"]) if v else ""), depth)


def program(r):
    procs, text = [], ["/proc/zz(a, b, c)", "/datum/var/x0", "/datum/own/proc/Find(a, b)", "/datum/var/list/filters", "/datum/proc/Find(a, b)", "/obj/t/proc/filter(type, size, color, x, y, offset, flags, border, render_source, icon, space, transform, blend_mode, density, threshold, factor, repeat, radius, falloff, alpha, name)"]
    where = {}
    for p in range(r.choice([1, 2, 3, 4])):
        kind = r.choice(["global", "datum", "own", "verb", "sub"])
        g = Gen(r, kind == "own")
        for _ in range(r.choice([0, 0, 1, 2, 3, 4])):
            g.setting(0)
        g.add({"k": "do"}, "var/list/lst = list(1)", 0); g.add({"k": "do"}, "var/alist/al = alist()", 0); g.add({"k": "do"}, "var/datum/own/own = new", 0); g.add({"k": "do"}, "var/zz3 = rand()", 0); g.add({"k": "do"}, "var/src0 = 1, b0 = 2, WAVE_BOUNDED2 = 1, MASK_SWAPPED = 1, FILTER_OVER = 1", 0)
        g.block(0, "", False)
        text.append({"global": f"/proc/p{p}()", "datum": f"/datum/proc/p{p}()", "own": f"/obj/t/proc/p{p}()", "verb": f"/mob/verb/p{p}()", "sub": f"/datum/own/proc/p{p}()"}[kind])
        if kind == "global":
            # no src to speak of
            g.lines = [l.replace("src.filter(", "filter(") if l else l for l in g.lines]
        if kind == "global":
            text[-1] = f"/obj/t2/proc/p{p}()"
        for i, l in enumerate(g.lines):
            if l is None:
                continue
            text.append(l)
            where[len(text)] = (p + 1, i + 1)
        if not g.lines:
            text.append("\treturn")
        procs.append({"items": g.items})
    return {"procs": procs}, "\n".join(text) + "\n", where


def run(c):
    n = 3500 if c.quick else 40000
    work = [program(c.rng) for _ in range(n)]
    em = {}
    for k in range(0, n, 5000):
        for e in c.tlc("Settings", {}, cases=[w[0] for w in work[k:k + 5000]], spec="Spec", properties=["Terminates"]):
            em[k + e["cid"]] = e
    outs = c.replay([{"k": "check", "text": w[1]} for w in work])
    for j, ((case, text, where), o) in enumerate(zip(work, outs)):
        e = em[j + 1]
        c.count("random procs", bool(e["said"]), text)
        if died(o):
            c.fail(died(o), text, e, o); continue
        got, bad = set(), None
        for d in o["errors"]:
            s = said(d["desc"])
            if s:
                if s[0] == "late":
                    s = ("late",)
                if d["line"] not in where:
                    bad = f"a diagnosis on line {d['line']}, where nothing is"
                else:
                    got.add((*where[d["line"]], s))
                if d["sev"] != SEV[s[0]]:
                    bad = f"{d['desc']}: severity {d['sev']}"
                if s[0] in ("key", "flag", "value", "several", "extreme") and not any(f"/filters/{s[1]} " in x[1] for x in d["notes"]):
                    bad = f"{d['desc']}: its notes do not lead to the filter"
            elif d["parse"]:
                bad = "the program is taken as wrong: " + d["desc"]
            elif "filter" in d["desc"] or "keyword" in d["desc"] or "unreachable" in d["desc"] or "undefined" in d["desc"]:
                bad = "said besides: " + d["desc"]
        want = {(x[0], x[1], ("late",) if x[2][0] == "late" else tuple(x[2])) for x in e["said"]}
        name = lambda x: f"proc {x[0]} item {x[1]}: {' '.join(x[2])}"
        for x in got - want:
            bad = "said without cause: " + name(x)
        for x in want - got:
            bad = "not said: " + name(x)
        if bad:
            c.fail(bad, text, sorted(map(name, want)), sorted(map(name, got)))
        elif want:
            c.sample(text, sorted(map(name, want)), sorted(map(name, got)))
    return c.finish("a behaviour is a program of procs; trivial when nothing is to be said about it", exhaustive=False)
