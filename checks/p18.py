"""P18: drawing maps (spec/Minimap.tla)."""
from vlib import died

DIRS = [1, 2, 4, 8, 5, 6, 9, 10]
PATHS = ["obj/a", "obj/a/b", "obj/ab", "obj/a/b/c", "turf/t", "turf/t/u", "area/r", "area/r/s", "mob/m", "obj", "turf", "area", "mob"]
NUMS = {"layer": [16, 32, 33, 34, 40, 48, 47, -8, -16, 0, 96, 1], "plane": [0, 0, 1, -1, 2, -5, 15], "alpha": [255, 0, 128, 1, 254, 77], "dir": DIRS + [0, 3, 16],
        "invisibility": [0, 60, 61, 101, 1]}
OFFS = ["pixel_x", "pixel_y", "pixel_w", "pixel_z", "step_x", "step_y"]
COLOURS = ["black", "silver", "gray", "grey", "white", "maroon", "red", "purple", "fuchsia", "magenta", "green", "lime", "olive", "gold", "yellow", "navy", "blue", "teal", "aqua", "cyan"]


def v(k, i=0, s="", l=()):
    return {"k": k, "i": i, "s": s, "l": list(l)}


def random_vars(r, icons, p, path):
    out = {}
    if r.random() < p:
        out["icon"] = v("str", s=r.choice([i["path"] for i in icons] * 4 + ["none.dmi", ""])) if r.random() < .95 else v("null")
    if r.random() < p:
        out["icon_state"] = v("str", s=r.choice(["", "a", "b", "c", "A"])) if r.random() < .95 else v("null")
    for x, vals in NUMS.items():
        if r.random() < p * (.7 if x in ("layer", "plane") else .3):
            out[x] = v("num", i=r.choice(vals)) if x in ("layer", "plane") or r.random() < .95 else v("null")
    for x in OFFS if path[:3] in ("obj", "mob") else OFFS[:4]:      # only movable things step
        if r.random() < p * .3:
            out[x] = v("num", i=r.choice([r.randint(-40, 40), r.randint(-4, 4), 32, -32, 200, -200])) if r.random() < .9 else r.choice([v("null"), v("str", s="5")])
    if r.random() < p * .5:
        k = r.random()
        out["color"] = v("str", s=r.choice(COLOURS * 4 + ["Red", "crimson", ""])) if k < .4 else v("hex", l=[r.randrange(16) for _ in range(r.choice([6, 6, 3]))]) if k < .95 else v("null")
    return [{"x": x, "v": y} for x, y in r.sample(sorted(out.items()), len(out))]


def world(r):
    icons = []
    for i in range(r.randint(1, 2)):
        states = [{"name": r.choice(["", "a", "b", "c"]), "dirs": r.choice([1, 1, 4, 8]), "frames": r.choice([1, 1, 2])} for _ in range(r.randint(1, 4))]
        icons.append({"path": "xy"[i] + ".dmi", "w": r.choice([32, 32, 8, 5, 48, 64]), "h": r.choice([32, 32, 8, 7, 48, 64]), "holes": r.choice([3, 5, 7, 50]), "states": states})
    types = [{"path": p.split("/"), "vars": random_vars(r, icons, .7, p)} for p in r.sample(PATHS, r.randint(2, 7))]
    w, h = r.randint(1, 3), r.randint(1, 3)
    names = ["/".join(t["path"]) for t in types] * 3 + ["obj/nope", "obj", "turf"]
    # a type under a declared one exists too
    pool = [{"path": p.split("/"), "vars": random_vars(r, icons, .35, p)} for p in r.choices(names, k=r.randint(1, 6))]
    cell = lambda: [r.choice(pool) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
    have = {tuple(t["path"]) for t in types}
    for t in list(types):       # parents come into being with their children
        for n in range(2, len(t["path"])):
            if tuple(t["path"][:n]) not in have:
                have.add(tuple(t["path"][:n])); types.append({"path": t["path"][:n], "vars": []})
    return {"types": types, "icons": icons, "rows": [[cell() or [r.choice(pool)] for _ in range(w)] for _ in range(h)],
            "hideAreas": r.random() < .4, "hideInvisible": r.random() < .5, "hidden": [p.split("/") for p in r.sample(PATHS, r.choice([0, 0, 1, 2]))]}


def palette():
    """One tile for every colour, every pixel of every sprite visible."""
    names = COLOURS + ["Red", "crimson", "", "rgb"]
    vals = [v("str", s=n) for n in names] + [v("null"), v("num", i=3), v("hex", l=[1, 2, 3, 4]), v("hex", l=[10, 11, 12, 13, 14, 15]), v("hex", l=[0, 12, 3])]
    icons = [{"path": "x.dmi", "w": 32, "h": 32, "holes": 1000, "states": [{"name": "", "dirs": 1, "frames": 1}]}]
    nums = {"layer": v("num", i=48), "plane": v("num")}
    types = [{"path": ["obj"], "vars": []}, {"path": ["obj", "a"], "vars": [{"x": "icon", "v": v("str", s="x.dmi")}] + [{"x": x, "v": nums[x]} for x in nums]}]
    cells = [[{"path": ["obj", "a"], "vars": [{"x": "color", "v": c}]}] for c in vals]
    for at in range(0, len(cells), 10):
        row = cells[at:at + 10]
        yield {"types": types, "icons": icons, "rows": [row], "hideAreas": False, "hideInvisible": False, "hidden": []}, [[32 * i + d, d] for i in range(len(row)) for d in (4, 9, 20)]


def literal(x, val):
    if val["k"] == "null":
        return "null"
    if val["k"] == "num":
        return "%g" % (val["i"] / 16) if x == "layer" else str(val["i"])
    if val["k"] == "hex":
        return '"#' + "".join("%x" % d for d in val["l"]) + '"'
    return "'%s'" % val["s"] if x == "icon" and val["s"] else '"%s"' % val["s"]


def texts(r, w):
    dm = "".join("/" + "/".join(t["path"]) + "\n" + "".join(f"\t{a['x']} = {literal(a['x'], a['v'])}\n" for a in t["vars"]) for t in w["types"])
    obj = lambda o: "/" + "/".join(o["path"]) + ("{" + "; ".join(f"{a['x']} = {literal(a['x'], a['v'])}" for a in o["vars"]) + "}" if o["vars"] else "")
    keys, out, grid = {}, [], []
    for row in w["rows"]:
        line = ""
        for cell in row:
            t = "(" + ",".join(map(obj, cell)) + ")"
            if t not in keys:
                keys[t] = "abcdefghijklmnop"[len(keys)]
                out.append(f'"{keys[t]}" = {t}\n')
            line += keys[t]
        grid.append(line)
    # other levels must not show
    blank = ["a" * len(grid[0])] * len(grid)
    z = r.choice([0, 0, 1])
    levels = [grid, blank] if z == 0 else [blank, grid]
    return dm, "".join(out) + "\n" + "".join('(1,1,%d) = {"\n%s\n"}\n' % (i + 1, "\n".join(g)) for i, g in enumerate(levels)), z


def sheets(r, w):
    for ic in w["icons"]:
        n = sum(s["dirs"] * s["frames"] for s in ic["states"])
        cols = r.choice([1, 2, n, int(n ** .5) + 1])
        text = "# BEGIN DMI\nversion = 4.0\n\twidth = %d\n\theight = %d\n" % (ic["w"], ic["h"])
        for s in ic["states"]:
            text += 'state = "%s"\n\tdirs = %d\n\tframes = %d\n' % (s["name"], s["dirs"], s["frames"])
            if s["frames"] > 1:
                text += "\tdelay = " + ",".join("1" * s["frames"]) + "\n"
        yield {"path": ic["path"], "w": ic["w"], "h": ic["h"], "holes": ic["holes"], "cols": cols, "rows": -(-n // cols), "text": text + "# END DMI\n"}


def points(r, w, lo, hi, n):
    """Pixels near the edges of sprites, and others."""
    W, H = 32 * (hi[0] - lo[0] + 1), 32 * (hi[1] - lo[1] + 1)
    by = {tuple(t["path"]): {a["x"]: a["v"] for a in t["vars"]} for t in w["types"]}
    out = []
    rows = w["rows"]
    for y, row in enumerate(rows):
        for x, cell in enumerate(row):
            for o in cell:
                val = {}
                for k in range(1, len(o["path"]) + 1):
                    val.update(by.get(tuple(o["path"][:k]), {}))
                val.update({a["x"]: a["v"] for a in o["vars"]})
                ic = [i for i in w["icons"] if i["path"] == val.get("icon", {}).get("s")]
                if ic:
                    off = lambda xs: sum(val[a]["i"] for a in xs if a in val)      # nothing for null
                    l = 32 * (x - lo[0]) + off(["pixel_x", "pixel_w", "step_x"])
                    t = 32 * (y - (len(rows) - 1 - hi[1]) + 1) - ic[0]["h"] - off(["pixel_y", "pixel_z", "step_y"])
                    xs = [l - 1, l, l + 1, l + ic[0]["w"] - 1, l + ic[0]["w"], l + ic[0]["w"] // 2]
                    ys = [t - 1, t, t + 1, t + ic[0]["h"] - 1, t + ic[0]["h"], t + ic[0]["h"] // 2]
                    out += [[r.choice(xs), r.choice(ys)] for _ in range(6)] + [[r.randint(l, l + ic[0]["w"] - 1), r.randint(t, t + ic[0]["h"] - 1)] for _ in range(2)]
    out = [p for p in out if 0 <= p[0] < W and 0 <= p[1] < H]
    out = r.sample(out, min(n, len(out)))
    while len(out) < n + 4:
        out.append([r.randrange(W), r.randrange(H)])
    return out


def run(c):
    r, q = c.rng, c.quick
    cases, reqs = [], []
    fixed = list(palette())
    for k in range(len(fixed) + (500 if q else 6000)):
        w, dots = fixed[k] if k < len(fixed) else (world(r), None)
        W, H = len(w["rows"][0]), len(w["rows"])
        rects = [((a, b), (e, f)) for a in range(W) for e in range(a, W) for b in range(H) for f in range(b, H)]
        looks = []
        for lo, hi in [((0, 0), (W - 1, H - 1))] + ([] if dots else r.sample(rects, min(len(rects), 2))):
            look = {"min": list(lo), "max": list(hi), "look": dots or points(r, w, lo, hi, 20)}
            looks.append(look); cases.append({**w, **look})
        dm, text, z = texts(r, w)
        inc = [x for x, y in (("hide-areas", w["hideAreas"]), ("hide-invisible", w["hideInvisible"])) if y]
        reqs.append({"k": "render", "dm": dm, "map": text, "z": z, "icons": list(sheets(r, w)), "include": ",".join(inc), "exclude": "all", "looks": looks,
                     "config": "[map_renderer]\nhide_invisible = [%s]\n" % ", ".join('"/%s%s"' % ("/".join(p), r.choice(["", "/"])) for p in w["hidden"])})
    em = {e["cid"]: e for e in c.tlc("Minimap", {}, cases=cases)}
    n = 0
    show = lambda ps: [p if p[3] else [0, 0, 0, 0] for p in ps]
    for req, o in zip(reqs, c.replay(reqs)):
        views = req["looks"]
        want = [em[n + i + 1] for i in range(len(views))]
        n += len(views)
        bad = died(o) or o.get("error")
        case = {k: req[k] for k in ("dm", "map", "z", "include", "config", "looks", "icons")}
        c.count("random maps", max(e["n"] for e in want) > 1, req["dm"] + req["map"])
        if bad:
            c.fail(bad, case, want, o); continue
        for look, e, g in zip(views, want, o["views"]):
            if [g["w"], g["h"]] != [e["w"], e["h"]]:
                bad = f"view {look['min']}..{look['max']}: {g['w']}x{g['h']} pixels instead of {e['w']}x{e['h']}"
            for p, a, b in zip(look["look"], show(e["img"]), show(g["img"])):
                if a != b and not bad:
                    bad = f"view {look['min']}..{look['max']}: pixel {p} is {b} instead of {a}"
        if bad:
            c.fail("another picture: " + bad, case, want, o)
        else:
            c.sample(case, want, o)
    return c.finish("a behaviour is a map with its types and icons and up to three views; trivial with fewer than two sprites", exhaustive=False)
