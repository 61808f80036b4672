"""P25: icon smoothing (spec/Smooth.tla)."""
from vlib import died

BITS = {"n": 1, "s": 2, "e": 4, "w": 8, "ne": 16, "se": 32, "sw": 64, "nw": 128}
SIDES = {"nw": "nw", "ne": "ne", "sw": "sw", "se": "se"}
CORNERS = ["nw", "ne", "sw", "se"]
JUNCTIONS = [sum(BITS[d] for d in BITS if m & BITS[d]) for m in range(256) if all(not m & BITS[c] or (m & BITS[c[0]] and m & BITS[c[1]]) for c in CORNERS)]
STATES = ["plain", "space", "plating"] + [f"{i + 1}-{s}" for i, c in enumerate(CORNERS) for s in ("f", c, c[0], c[1], "i")] + \
    [f"d-{c}{s}" for c in CORNERS for s in ("", "-0", "-1")] + [f"b-{j}{s}" for j in JUNCTIONS for s in ("", "-d")] + [f"{j}{s}" for j in ("-0", "-3", "-15", "-255") for s in ("", "-d")]
ICONS = ["x.dmi", "y.dmi", "z.dmi", "s.dmi"]
AT = {ic: 170 * k for k, ic in enumerate(ICONS)}
VALUE = {"2016": {"true": 1, "more": 2, "diagonal": 4, "border": 8}, "2020": {"corners": 1, "bitmask": 2, "diagonal": 4, "border": 8}, "2025": {"bitmask": 1, "diagonal": 4, "border": 8}}
PASS = {"2016": "icon-smoothing-2016", "2020": "icon-smoothing", "2025": "icon-smoothing-2025"}
PATHS = ["turf/closed/wall", "turf/closed/wall/r", "turf/closed/wallish", "turf/closed/mineral", "turf/open/floor", "turf/open/floor/plating", "turf/open/space/basic", "turf/open/lava",
         "obj/window", "obj/window/big", "obj/windows", "obj/table"]
BLANK = {"flags": [], "can": {"k": "same", "l": []}, "groups": [], "loose": False, "icon": "x.dmi", "sicon": "", "state": "plain", "base": "b", "fixed": False, "raw": False, "dx": 0, "dy": 0}


def mark(p):
    return 4 + p % 27, 1 + p // 27 % 27


def path_of(p):
    return "/" + "/".join(p)


def dm_vars(system, k, path, group):
    """The variables which give an object of this path these values."""
    p = "/".join(path)
    can = "null" if k["can"]["k"] == "same" else "list(" + ", ".join(path_of(x) if system == "2016" else group(x) for x in k["can"]["l"]) + ")"
    out = {"smooth" if system == "2016" else "smoothing_flags": str(sum(VALUE[system][f] for f in k["flags"])), "canSmoothWith": can,
           "smoothing_groups": "list(" + ", ".join(map(group, k["groups"])) + ")" if k["groups"] else "null",
           "icon": f"'{k['icon']}'", "smooth_icon": f"'{k['sicon']}'" if k["sicon"] else "null", "icon_state": f'"{k["state"]}"', "base_icon_state": f'"{k["base"]}"',
           "fixed_underlay": 'list("space" = 1)' if k["fixed"] else "null"}
    mineral = 4 if p.startswith("turf/closed/mineral") else 0
    out["pixel_x"], out["pixel_y"] = str(k["dx"] + mineral), str(k["dy"] + mineral)
    if path[0] == "obj":
        out["can_be_unanchored"], out["anchored"] = k["dmloose"]
    out["broken"] = out["burnt"] = "0"
    out["post_init_icon_state"] = "null"
    if k["raw"]:
        if k["rawhow"] == "post":
            out["post_init_icon_state"] = '"q"'
        else:
            out[k["rawhow"]] = "1"
    return out


def values(r, system, path):
    k = dict(BLANK)
    p = "/".join(path)
    names = list(VALUE[system])
    if r.random() < .75:
        k["flags"] = sorted(f for f in names if r.random() < .5)
    if "space" not in p and r.random() < .5:
        l = [x.split("/") for x in r.sample(PATHS + ["turf/closed", "turf", "obj"], r.randint(0, 3))] if system == "2016" else r.sample("1234", r.randint(0, 3))
        k["can"] = {"k": "list", "l": l}
    k["groups"] = r.sample("1234", r.choice([0, 1, 1, 2]))
    k["icon"] = r.choice(ICONS[:3]); k["sicon"] = r.choice(["", "", "s.dmi"]); k["base"] = r.choice(["b", "b", "b", ""])
    k["fixed"] = r.random() < .2
    k["dx"], k["dy"] = r.choice([(0, 0)] * 4 + [(2, -1)])
    k["dmloose"] = r.choice([("0", "1"), ("0", "1"), ("0", "0"), ("1", "1"), ("1", "0")]) if path[0] == "obj" else ("0", "0")
    k["loose"] = k["dmloose"] == ("1", "0")
    k["raw"] = r.random() < .1 and system != "2016"
    if k["raw"]:
        hows = (["broken", "burnt"] if p.startswith("turf/open/floor") else []) + (["post"] if system == "2025" and not p.startswith("turf/closed") else [])
        k["raw"] = bool(hows)
        if hows:
            k["rawhow"] = r.choice(hows)
    return k


def world(r):
    system = r.choice(["2016", "2020", "2020", "2025"])
    nums = r.random() < .5
    group = (lambda g: g) if nums else (lambda g: f'"g{g}"')
    types = {p: values(r, system, p.split("/")) for p in r.sample(PATHS, r.randint(2, 6)) + ["turf/open/floor/plating", "turf/open/space/basic"]}
    for p in types:
        types[p] = {**types[p], "raw": False} if "post" == types[p].get("rawhow") and r.random() < .5 else types[p]
    seen, dm = {}, "/atom/var/smooth\n/atom/var/smoothing_flags\n" + "".join(f"/atom/var/{x}\n" for x in ("canSmoothWith", "smoothing_groups", "smooth_icon", "base_icon_state", "fixed_underlay", "broken", "burnt", "post_init_icon_state")) + "/atom/movable/var/can_be_unanchored\n/atom/movable/var/anchored\n"
    for p in sorted(types):
        vs = dm_vars(system, types[p], p.split("/"), group)
        up = next((q for q in sorted(seen, key=len, reverse=True) if p.startswith(q + "/")), None)
        dm += "/" + p + "\n" + "".join(f"\t{x} = {y}\n" for x, y in vs.items() if not (up and seen[up].get(x) == y and r.random() < .7))
        seen[p] = vs
    kinds, texts = [], []
    for p in types:
        path = p.split("/")
        kinds.append({**types[p], "path": path}); texts.append(path_of(path))
        if r.random() < .4:
            k = {**types[p], "path": path}
            new = values(r, system, path)
            for f in r.sample(["flags", "can", "groups", "icon", "sicon", "base", "fixed"], r.randint(1, 3)):
                k[f] = new[f]
            a, b = dm_vars(system, k, path, group), seen[p]
            kinds.append(k); texts.append(path_of(path) + "{" + "; ".join(f"{x} = {y}" for x, y in a.items() if b[x] != y) + "}" if a != b else path_of(path))
    turfs = [i + 1 for i, k in enumerate(kinds) if k["path"][0] == "turf"]
    objs = [i + 1 for i, k in enumerate(kinds) if k["path"][0] == "obj"]
    w, h = r.randint(1, 5), r.randint(1, 5)
    liked = r.choice(turfs)
    cell = lambda: (r.sample(objs, min(len(objs), r.choice([1, 1, 2]))) if objs and r.random() < .4 else []) + [liked if r.random() < .5 else r.choice(turfs)]
    rows = [[cell() for _ in range(w)] for _ in range(h)]
    space = {**types["turf/open/space/basic"], "path": ["turf", "open", "space", "basic"]}
    plating = {**types["turf/open/floor/plating"], "path": ["turf", "open", "floor", "plating"]}
    return {"system": system, "kinds": kinds, "rows": rows, "space": space, "plating": plating}, dm, texts


def map_text(rows, texts):
    keys, out, grid = {}, "", ""
    for row in rows:
        for cell in row:
            t = "(" + ",".join(texts[i - 1] for i in cell) + ")"
            if t not in keys:
                keys[t] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[len(keys)]
                out += f'"{keys[t]}" = {t}\n'
            grid += keys[t]
        grid += "\n"
    return out + '\n(1,1,1) = {"\n' + grid + '"}\n'


def neighbourhoods():
    """Every neighbourhood of a tile, under every way of smoothing: (world, dm, texts) and its maps."""
    for system in VALUE:
        main = ["true"] if system == "2016" else ["corners", "bitmask"] if system == "2020" else ["bitmask"]
        for m in main:
            for extra in ([], ["diagonal"], ["border"], ["diagonal", "border"]):
                wall = {**BLANK, "flags": sorted([m] + extra), "icon": "y.dmi", "path": ["turf", "closed", "wall"], "dmloose": ("0", "0")}
                floor = {**BLANK, "path": ["turf", "open", "floor", "plating"], "state": "plating"}
                space = {**BLANK, "path": ["turf", "open", "space", "basic"], "state": "space"}
                kinds = [wall, floor, space]
                dm = "".join("/" + "/".join(k["path"]) + "\n" + "".join(f"\tvar/{x} = {y}\n" if x not in ("icon", "icon_state", "pixel_x", "pixel_y") else f"\t{x} = {y}\n" for x, y in dm_vars(system, k, k["path"], str).items()) for k in kinds)
                maps = []
                for n in range(256):
                    bits = [n >> i & 1 for i in range(8)]
                    rows = [[[1 if b else 2] for b in bits[0:3]], [[1 if bits[3] else 2], [1], [1 if bits[4] else 2]], [[1 if b else 2] for b in bits[5:8]]]
                    maps.append(rows)
                yield {"system": system, "kinds": kinds, "space": space, "plating": floor}, dm, [path_of(k["path"]) for k in kinds], maps


def judge(e, view, marks, height):
    """What differs, if anything."""
    lo, hi = view
    W, H = 32 * (hi[0] - lo[0] + 1), 32 * (hi[1] - lo[1] + 1)
    top = height - 1 - hi[1]

    def spot(o, p):
        if p["icon"] not in AT or p["state"] not in STATES:
            return None, (p["icon"], p["state"])
        i = STATES.index(p["state"])
        x, y = mark(AT[p["icon"]] + i)
        q = (32 * (o["x"] - lo[0]) + p["dx"] + x, 32 * (o["y"] - top) - p["dy"] + y)
        return (q if 0 <= q[0] < W and 0 <= q[1] < H else None), (p["icon"], p["state"])
    seen = {(m[0], m[1]): (ICONS[m[2] - 1], STATES[m[3] + 256 * m[4]]) for m in marks}
    must, owner, open_ = {}, {}, []
    for o in e["out"]:
        if not (lo[0] <= o["x"] <= hi[0] and top <= o["y"] <= top + hi[1] - lo[1]):
            # its pieces, moved by a few pixels, may not reach over: nothing outside the view is drawn
            continue
        if len(o["alts"]) == 1:
            for p in o["alts"][0]:
                q, what = spot(o, p)
                if q:
                    must.setdefault(q, set()).add(what); owner[q] = o
        else:
            open_.append(o)
    claimed = {q: set(w) for q, w in must.items()}
    for o in open_:
        fits = []
        for alt in o["alts"]:
            for p in alt:
                q, what = spot(o, p)
                if q:
                    claimed.setdefault(q, set()).add(what)
        for alt in o["alts"]:
            mine = {q for q, _ in (spot(o, p) for p in alt) if q}
            others = {q for a in o["alts"] for q, _ in (spot(o, p) for p in a) if q} - mine - set(must)
            fits.append(mine <= set(seen) and (not others & set(seen) or bool(open_[1:])))
        if not any(fits):
            return f"tile {o['x']},{o['y']}: none of {[[p['state'] for p in a] for a in o['alts']]} is drawn"
    for q, w in must.items():
        if q not in seen:
            o = owner[q]
            return f"tile {o['x']},{o['y']} (from the top left): {sorted(w)} is not drawn"
    for q, what in seen.items():
        if what not in claimed.get(q, ()):
            return f"at pixel {q}: {what} is drawn" + (f" instead of {sorted(claimed[q])}" if q in claimed else "")
    return None


def run(c):
    r, q = c.rng, c.quick
    icons = [{"path": ic, "states": STATES, "at": AT[ic]} for ic in ICONS]
    cases, reqs, index = [], [], []
    for w, dm, texts, maps in neighbourhoods():
        todo = []
        for rows in maps:
            cases.append({**w, "rows": rows}); todo.append({"text": map_text(rows, texts), "min": [0, 0], "max": [2, 2]})
        for k in range(0, len(todo), 64):
            index.append(("every neighbourhood", list(range(len(cases) - len(todo) + k, len(cases) - len(todo) + k + 64))))
            reqs.append({"k": "smooth", "icons": icons, "dm": dm, "include": PASS[w["system"]], "maps": todo[k:k + 64]})
    for _ in range(1500 if q else 20000):
        w, dm, texts = world(r)
        W, H = len(w["rows"][0]), len(w["rows"])
        text = map_text(w["rows"], texts)
        cases.append(w)
        views = [{"text": text, "min": [0, 0], "max": [W - 1, H - 1]}]
        if r.random() < .5:
            a, b = sorted([r.randrange(W), r.randrange(W)]); e, f = sorted([r.randrange(H), r.randrange(H)])
            views.append({"text": text, "min": [a, e], "max": [b, f]})
        index.append(("random maps", [len(cases) - 1] * len(views)))
        reqs.append({"k": "smooth", "icons": icons, "dm": dm, "include": PASS[w["system"]], "maps": views})
    em = {e["cid"]: e for e in c.tlc("Smooth", {}, cases=[{k: w[k] for k in ("system", "kinds", "rows", "space", "plating")} for w in cases])}
    for req, (name, which), o in zip(reqs, index, c.replay(reqs)):
        bad = died(o) or o.get("error")
        for k, n in enumerate(which):
            e, m = em[n + 1], req["maps"][k]
            c.count(name, any(len(x["alts"]) > 1 or len(x["alts"][0]) > 1 or "-" in x["alts"][0][0]["state"] for x in e["out"]), [req["dm"], m])
            wrong = bad or judge(e, (m["min"], m["max"]), o["marks"][k], len(cases[n]["rows"]))
            case = {"dm": req["dm"], "map": m, "include": req["include"]}
            if wrong:
                c.fail(wrong, case, e["out"], o if bad else [[x, y, ICONS[a - 1], STATES[b + 256 * d]] for x, y, a, b, d in o["marks"][k]])
            else:
                c.sample(case, e["out"], o["marks"][k])
    return c.finish("a behaviour is a map with its types; trivial when nothing in it smooths", exhaustive=False)
