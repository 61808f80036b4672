"""P17: icon metadata and its cells (spec/Icon.tla)."""
from vlib import died, Raw

DIRS = [1, 2, 4, 8, 5, 9, 6, 10]
ORDER = [2, 1, 4, 8, 6, 10, 5, 9]


def cell(s, d, f):
    i = ORDER.index(d)
    return s["offset"] + (i if i < s["dirs"] else 0) + f * s["dirs"]


def text(rng, lines, w, h):
    out = ["# BEGIN DMI", "version = 4.0", f"\twidth = {w}", f"\theight = {h}"]
    for o in lines:
        k = o["k"]
        v = {"state": f'"{o["s"]}"', "delay": ",".join("%g" % (x / 2) for x in o["l"]), "hotspot": "1,2,1"}.get(k, str(o["n"]))
        out.append(("" if k == "state" else "\t") + f"{k} = {v}")
    return "\n".join(out + ["# END DMI", ""])


def judge(c, group, work, render=True):
    """work: (lines, states)"""
    r = c.rng
    reqs = []
    for lines, states in work:
        w, h = r.randint(1, 4), r.randint(1, 4)
        total = sum(s["dirs"] * s["frames"] for s in states)
        cols = r.choice([1, 2, 3, 5, max(1, total), max(1, int(total ** .5 + 1))])
        rows = -(-total // cols) + r.randint(0, 1) or 1
        if cols * w > 3000 or rows * h > 3000:
            cols = int(total ** .5) + 1; rows = cols
        qs = []
        for s in states:
            qs += [[s["name"], s["dup"], d, r.randrange(s["frames"]), cols * w] for d in DIRS]
        qs += [["nothing", 0, 2, 0, cols * w], [states[0]["name"] if states else "", 7, 2, 0, cols * w]]
        reqs.append({"k": "icon", "text": text(r, lines, w, h), "sheet": [w, h, cols, rows], "queries": qs, "render": render})
    for (lines, states), req, o in zip(work, reqs, c.replay(reqs)):
        c.count(group, len(states) > 1, req["text"])
        w, h, cols, rows = req["sheet"]
        if died(o) or "error" in o:
            c.fail(died(o) or "a well-formed description is refused", req, states, o); continue
        bad = None
        m = o["meta"]
        if (m["w"], m["h"]) != (w, h) or len(m["states"]) != len(states):
            bad = "size or number of states"
        else:
            for s, g in zip(states, m["states"]):
                d = [x / 2 for x in s["delays"][:s["frames"]]] or [1.0] * s["frames"]
                want = dict(name=s["name"], dup=s["dup"], dirs=s["dirs"], frames=s["frames"], n=s["dirs"] * s["frames"], loop=s["loop"], rewind=s["rewind"], movement=s["movement"], offset=s["offset"])
                if {k: v for k, v in g.items() if k != "delays"} != want or g["delays"][:len(d)] != d:
                    bad = f"state {s['name']!r} {s['dup']}"
        if not bad:
            by = {(s["name"], s["dup"]): s for s in states}
            for q, g in zip(req["queries"], o["got"]):
                s = by.get((q[0], q[1]))
                if not states:
                    want = {"rect": [0, 0, w, h]} if q[1] == 0 else None
                    if want and (not g or g["rect"] != want["rect"]):
                        bad = f"query {q}"
                    continue
                if s is None:
                    if g is not None and (g["rect"] is not None or g["index"] is not None):
                        bad = f"query {q}: a state that is not there"
                    continue
                n = cell(s, q[2], q[3])
                want = {"rect": [n % cols * w, n // cols * h, w, h], "index": n, "dir": cell(s, q[2], 0), "offset": s["offset"], "shown": s["name"] + (f" ({s['dup']})" if s["dup"] else "")}
                if g != want:
                    bad = f"query {q}: {g} instead of {want}"
            zero = [q for q in req["queries"] if q[1] == 0]
            for q, g in zip(zero, o["images"]):
                s = by.get((q[0], 0))
                n = cell(s, q[2], 0) if s else None
                want = [n % cols * w, n // cols * h, w, h] if s else ([0, 0, w, h] if not states else None)
                if g != want:
                    bad = f"rectangle of {q}: {g} instead of {want}"
            fr = list(o["frames"])
            for s in states:
                rowsx = [[cell(s, d, f) for d in ORDER[:s["dirs"]]] for f in range(s["frames"])]
                want = rowsx + (rowsx[::-1] if s["rewind"] else [])
                g = fr.pop(0)
                png = fr.pop(0) if fr and isinstance(fr[0], dict) else None
                if g != want or (png and png["png"] != want[0]) or (s["frames"] == 1 and not s["delays"] and not png):
                    bad = f"rendered frames of {s['name']!r} {s['dup']}: {g} {png} instead of {want}"
        if bad:
            c.fail("the icon differs: " + bad, req, states, o)
        else:
            c.sample(req, states, o)


def random_lines(r):
    lines = [] if r.random() < .95 else []
    names = r.sample(["", "a", "b", "wall-1", "door open", "é", "x(1)", "#a", "a = b", "A"], r.randint(1, 4))
    for _ in range(r.randint(0 if r.random() < .1 else 1, 7)):
        lines.append({"k": "state", "s": r.choice(names), "n": 0, "l": []})
        n = r.choice([1, 1, 2, 3, 4, 9, 20])
        lines.append({"k": "dirs", "s": "", "n": r.choice([1, 1, 4, 8]), "l": []})
        lines.append({"k": "frames", "s": "", "n": n, "l": []})
        rest = []
        if r.random() < .5:
            ds = [r.choice([2, 2, 1, 3, 4, 10, 201]) for _ in range(r.choice([n, n, n, n + 2, max(1, n - 1)]))]
            rest.append({"k": "delay", "s": "", "n": 0, "l": ds if r.random() < .7 else [2] * len(ds)})
        for k, vs in (("loop", [0, 1, 5]), ("rewind", [0, 1]), ("movement", [0, 1]), ("hotspot", [0])):
            if r.random() < .3:
                rest.append({"k": k, "s": "", "n": r.choice(vs), "l": []})
        r.shuffle(rest)
        if r.random() < .15:     # a state with defaults only
            lines.pop(); lines.pop()
            rest = [x for x in rest if x["k"] != "delay"]
        lines += rest
    return lines


def damage(c):
    r = c.rng
    reqs = []
    for _ in range(2500 if c.quick else 20000):
        t = text(r, random_lines(r), 2, 2)
        k = r.random()
        i = r.randrange(len(t))
        if k < .3:
            t = t[:i]
        elif k < .7:
            t = t[:i] + r.choice(["=", '"', "\n", "9" * 30, "-", ",", " = ", "\\", "x", "0", "é", ""]) + t[i + r.choice([0, 1, 5]):]
        else:
            ls = t.split("\n")
            if r.random() < .5:
                r.shuffle(ls)
            else:
                ls.insert(r.randint(0, len(ls)), r.choice(["dirs = 5", "dirs = 4", "frames = 4", "frames = -1", "delay = 1,x", "delay = 1", "loop = -1", "rewind = 300", "what = 3", "state = x", 'state = "a\\"b"', "width = 0", "height = 0", "width = 99999999999", "frames = 4000000000", "state = \"", ""]))
            t = "\n".join(ls)
        reqs.append({"k": "icon", "text": t, "queries": [["a", 0, d, 0, w] for d in DIRS for w in (0, 1, 64)]})
    for req, o in zip(reqs, c.replay(reqs)):
        c.count("damaged descriptions", True, req["text"])
        if died(o):
            c.fail(died(o), req, "an error or metadata", o)


def run(c):
    q = c.quick
    # the compass
    rose = c.tlc("Icon", {"Mode": "compass", "Names": set(), "MaxStates": 0, "DirCounts": set(), "FrameCounts": set()})[0]["compass"]
    o = c.replay([{"k": "icon", "compass": True}])[0]
    c.count("compass", True, "compass")
    key = lambda e: e["d"]
    want = [d if d in DIRS else None for d in range(-3, 20)]
    if died(o) or sorted(o["compass"], key=key) != sorted(rose, key=key) or o["ints"] != want or sorted(o["cardinals"]) != [1, 2, 4, 8] or sorted(o["diagonals"]) != [5, 6, 9, 10] \
            or sorted(o["steps"]) != sorted([e["d"], e["x"], e["y"]] for e in rose):
        c.fail("directions do not turn as on the compass", "compass", rose, o)
    em = c.tlc("Icon", {"Mode": "gen", "Names": {"a", "b"}, "MaxStates": 3, "DirCounts": {1, 4, 8}, "FrameCounts": {1, 2} if q else {1, 2, 3}})
    judge(c, "every short sequence of states", [(e["lines"], e["states"]) for e in em])
    cases = [{"lines": random_lines(c.rng)} for _ in range(1500 if q else 15000)]
    em = c.tlc("Icon", {"Mode": "cases", "Names": set(), "MaxStates": 0, "DirCounts": set(), "FrameCounts": set()}, cases=cases)
    judge(c, "random descriptions", [(cases[e["cid"] - 1]["lines"], e["states"]) for e in em])
    damage(c)
    return c.finish("a behaviour is an icon description with its sheet; trivial with fewer than two states", exhaustive=False)
