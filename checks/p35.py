"""P35: what rendering passes make of a map's objects (spec/Passes.tla)."""
import random
from vlib import died

PASSES = ["hide-space", "hide-areas", "hide-invisible", "random", "pretty", "spawners", "overlays", "transit-tube", "gravity-gen", "only-powernet", "only-pipenet",
          "fancy-layers", "smart-cables", "only-wires-and-pipes"]
SMOOTH = ["icon-smoothing-2016", "icon-smoothing", "icon-smoothing-2025"]
DIRS = [1, 2, 4, 8, 5, 6, 9, 10]
CONTRABAND = ["aspev_syndie", "microwave", "singletank_bomb", "kudzu", "free_drone", "lusty_xenomorph"]
LEGIT = ["aspev_hardhat", "aspev_piping", "aspev_meth", "aspev_epi", "aspev_delam", "cleanliness", "help_others", "build", "bless_this_spess", "science", "ue_no",
         "safety_internals", "safety_eye_protection"]
RELICS = ["shock_kit", "armor-igniter-analyzer", "infra-igniter0", "infra-igniter1", "radio-multitool", "prox-radio1", "radio-radio", "timer-multitool0", "radio-igniter-tank"]
TAPES = ["tape_white", "tape_blue", "tape_red", "tape_yellow", "tape_purple"]
PLANTS = ["applebush"] + ["plant-%02d" % i for i in range(0, 31)]
VENTS = [f"{a}-{n}" for a in ("vent_map", "vent_map_on", "vent_map_siphon_on", "scrub_map", "scrub_map_on") for n in range(0, 6)]
CABLE = [l + s + n for l in ("l1", "l2") for s in ["-noconnection"] + ["".join(f"-{d}" for d in (1, 2, 4, 8) if m & d) for m in range(1, 16)] for n in ("", "-node")]
COMMON = ["", "a", "b"]
# what each sheet holds, by the family of types it is for
SHEETS = {
    "misc.dmi": COMMON,
    "door.dmi": COMMON + ["a_open", "b_open", "a_door", "b_door", "welded", "locked", "unlocked", "securecrateemag", "securecrater", "securecrateg", "lid", "fill_closed", "glass_closed"],
    "lid.dmi": ["lid", "a", "glass_closed"],
    "machine.dmi": COMMON + ["scr", "key", "apcox-1", "apco3-2", "apco0-3", "apco1-3", "apco2-3", "fire_overlay", "fire_disabled", "book-0", "ill"]
                   + [f"oxygen-{i}" for i in range(6)] + [f"plasma-{i}" for i in range(7)] + ["on_%d" % i for i in range(1, 10)] + ["activated"],
    "random.dmi": COMMON + CONTRABAND + LEGIT + RELICS + TAPES + ["lipstick", "sign1", "sign2", "sign3"] + PLANTS,
    "vents.dmi": COMMON + VENTS + ["vent_off", "vent_out", "vent_in", "scrub_off", "scrub_on"],
    "cables.dmi": COMMON + CABLE,
    "tubes.dmi": COMMON + ["decorative", "decorative_diag"],
    "icons/turf/floors.dmi": ["plating", "a"],
    "icons/obj/structures.dmi": ["grille", "a"],
    "icons/turf/space.dmi": ["", "a", "plating", "grille"],
    "icons/obj/items_and_weapons.dmi": ["syndballoon", "a"],
    "icons/obj/fluff/flora/plants.dmi": PLANTS,
}
FACING = {"tubes.dmi", "misc.dmi"}      # drawn in eight directions
FIRST = {}
_n = 0
for _s, _states in SHEETS.items():
    FIRST[_s] = _n
    _n += len(_states) * (8 if _s in FACING else 1)
assert _n < 32 * 30, _n

F = lambda *a: list(a)
FAMILIES = {
    "space": ["/turf/template_noop", "/turf/open/space", "/turf/open/floor", "/turf/open/floor/plating", "/turf/closed", "/turf/closed/mineral", "/turf/open", "/area"],
    "hidden": ["/obj/effect/mapping_helpers", "/obj/effect/spawner/xmastree", "/obj/item/toy/syndicateballoon", "/obj/item/toy"],
    "vending": ["/obj/machinery/vending/snack", "/obj/machinery/vending/snack/random", "/obj/machinery/vending/snack/blue", "/obj/machinery/vending/snack/red", "/obj/machinery/vending/snack/red/dark",
                "/obj/machinery/vending/cola", "/obj/machinery/vending/cola/random", "/obj/machinery/vending/cola/black", "/obj/machinery/vending/cola/sun"],
    "sheets": ["/obj/item/bedsheet", "/obj/item/bedsheet/random", "/obj/item/bedsheet/wiz", "/obj/item/bedsheet/clown"],
    "loot": ["/obj/effect/spawner/lootdrop", "/obj/item/toy", "/obj/item/relic", "/obj/item/toy/duck"],
    "posters": ["/obj/structure/sign/poster/contraband/random", "/obj/structure/sign/poster/official/random", "/obj/structure/sign/poster/random", "/obj/structure/sign/poster"],
    "things": ["/obj/item/kirbyplants/random", "/obj/item/twohanded/required/kirbyplants/random", "/obj/item/relic", "/obj/item/lipstick/random", "/obj/item/tape/random", "/obj/item/kirbyplants"],
    "signs": ["/obj/structure/sign/barsign", "/datum/barsign", "/datum/barsign/one", "/datum/barsign/two", "/datum/barsign/three", "/datum/barsign/two/four"],
    "spawners": ["/obj/effect/spawner/structure", "/obj/effect/spawner/structure/window", "/obj/structure/grille", "/obj/item/toy"],
    "crates": ["/obj/structure/closet/crate", "/obj/structure/closet/crate/secure", "/obj/structure/closet", "/obj/structure/closet/fire"],
    "machines": ["/obj/machinery/computer", "/obj/machinery/power/solar_control", "/obj/machinery/door/airlock", "/obj/machinery/door/airlock/glass", "/obj/machinery/door"],
    "apc": ["/obj/machinery/power/apc", "/obj/machinery/power/terminal", "/obj/machinery/power/apc/auto"],
    "glass": ["/turf/closed/indestructible/fakeglass", "/turf/closed/indestructible"],
    "pretty": ["/obj/structure/bookcase", "/obj/item/storage/box", "/obj/item/storage/box/papersack", "/obj/machinery/firealarm", "/obj/structure/tank_dispenser", "/obj/item/storage/box/papersack/smile"],
    "tubes": ["/obj/structure/transit_tube" + x for x in ("", "/station", "/station/reverse", "/junction", "/junction/flipped", "/curved", "/curved/flipped", "/diagonal", "/horizontal", "/diagonal/topleft")],
    "gravity": ["/obj/machinery/gravity_generator/main", "/obj/machinery/gravity_generator/part", "/obj/machinery/gravity_generator"],
    "cables": ["/obj/structure/cable", "/obj/structure/cable", "/obj/structure/cable/blue", "/obj/structure/cable/multilayer", "/obj/machinery/power/smes", "/obj/machinery/power/terminal", "/obj/structure/grille",
               "/obj/structure/cable_bridge", "/obj/machinery/power/apc"],
    "pipes": ["/obj/machinery/atmospherics/pipe", "/obj/machinery/atmospherics/pipe/visible", "/obj/machinery/atmospherics/pipe/visible/cyan", "/obj/machinery/atmospherics/pipe/hidden", "/obj/machinery/atmospherics/components/unary",
              "/obj/machinery/atmospherics/components/unary/vent", "/obj/structure/cable"],
    "layers": ["/obj/effect/turf_decal", "/obj/structure/disposalpipe", "/obj/structure/lattice", "/obj/machinery/navbeacon", "/obj/machinery/power/terminal", "/turf/closed/mineral", "/turf/open/floor",
               "/obj/structure/cable", "/turf/open", "/obj/structure"],
}
SHEET = {"crates": "door.dmi", "machines": None, "apc": "machine.dmi", "pretty": "machine.dmi", "gravity": "machine.dmi", "things": "random.dmi", "posters": "random.dmi", "signs": "random.dmi",
         "loot": "random.dmi", "pipes": "vents.dmi", "cables": "cables.dmi", "tubes": "tubes.dmi"}
CHOOSES = ("/random", "/lootdrop", "/barsign", "/relic")
# the pass that has most to do with a family
ABOUT = {"space": "hide-space", "hidden": "hide-invisible", "spawners": "spawners", "crates": "overlays", "machines": "overlays", "apc": "overlays", "glass": "overlays", "pretty": "pretty",
         "tubes": "transit-tube", "gravity": "gravity-gen", "cables": "smart-cables", "pipes": "fancy-layers", "layers": "fancy-layers"}
SYSTEM = {"/datum", "/atom", "/atom/movable", "/obj", "/mob", "/turf", "/area"}


def v(k, i=0, s="", l=()):
    return {"k": k, "i": i, "s": s, "l": list(l)}


num = lambda i: v("num", i)
st = lambda s: v("str", s=s)
NULL = v("null")


def up(p):
    return {"/obj": "/atom/movable", "/mob": "/atom/movable", "/turf": "/atom", "/area": "/atom", "/atom": "/datum", "/datum": "", "/atom/movable": "/atom"}.get(p) or ("" if p == "/datum" else p.rsplit("/", 1)[0] or "/datum")


def ancestors(p):
    parts = p.split("/")[1:]
    return ["/" + "/".join(parts[:i]) for i in range(1, len(parts) + 1)]


class World:
    def __init__(self, r, family=None, few=False):
        self.r = r
        fam = family or r.choice(sorted(FAMILIES))
        self.family = fam
        fams = [fam] + ([] if few else r.sample(sorted(FAMILIES), r.choice([0, 0, 1, 2])))
        names = []
        for f in fams:
            pick = [p for p in FAMILIES[f] if r.random() < (.9 if f == fam else .5)]
            for p in pick:
                names.append((p, f))
                x = r.random()
                if x < .12:
                    names.append((p + "/sub", f))
                elif x < .2:
                    names.append((p + "x", f))          # only looks alike
        self.types, self.ix, self.fam = [], {}, {}
        for p in ["/datum", "/atom", "/atom/movable", "/obj", "/mob", "/turf", "/area"]:
            self.have(p, None)
        for p, f in names:
            self.have(p, f)
        # not too much at once is left to chance
        self.objects = [p for p in self.ix if p not in SYSTEM and not p.startswith("/datum") and self.fam[p]]
        for t in self.types:
            t["vars"] = self.vars(t["path"], self.fam[t["path"]], 1)

    def have(self, p, f):
        for q in ancestors(p):
            if q not in self.ix:
                self.ix[q] = len(self.types) + 1
                self.types.append({"path": q, "up": self.ix.get(up(q), 0), "isa": ancestors(q), "in": q.rsplit("/", 1)[0], "last": q.rsplit("/", 1)[1], "visible": "visible" in q, "vars": []})
                self.fam[q] = f
            elif self.fam[q] is None and q == p:
                self.fam[q] = f

    def vars(self, p, f, much):
        """Variables of a type (much = 1) or an object in place."""
        r = self.r
        if f is None or p in SYSTEM:
            return []
        out = {}
        put = lambda x, val, pr=.6: out.__setitem__(x, val) if r.random() < pr * much else None
        flag = lambda x, pr=.5: put(x, r.choice([num(1), num(1), num(0), NULL, st("x"), st("")]), pr)
        if p.startswith("/datum/barsign"):
            if p != "/datum/barsign":
                put("icon", st(r.choice(["sign1", "sign2", "sign3"])), .9)
                put("hidden", r.choice([num(1), num(0)]), .4)
            return self.order(out)
        sheet = ("tubes.dmi" if p.startswith("/obj/machinery/power/terminal") and r.random() < .6 else 0) or SHEET.get(f) or ("door.dmi" if "/door" in p else "machine.dmi" if "/machinery" in p else r.choice(["misc.dmi"] * 3 + sorted(SHEETS)))
        if much == 1 or r.random() < .15:
            put("icon", st(sheet) if r.random() < .93 else r.choice([NULL, st(""), st("icons/turf/space.dmi"), st("none.dmi")]), .97 / much)
        states = SHEETS[sheet] if f == "pipes" or sheet not in ("door.dmi", "machine.dmi", "random.dmi", "cables.dmi", "tubes.dmi") else COMMON
        put("icon_state", st(r.choice(states)), .8)
        put("dir", num(r.choice(DIRS[:4] * 3 + DIRS + [0, 3])), .9 if f in ("tubes", "apc") else .3)
        put("layer", num(r.choice([16, 32, 40, 48, 64, -32, 96] + [66, 70] * (f == "gravity"))), .4)
        put("plane", num(r.choice([0, 0, 1, -1])), .3)
        put("color", r.choice([st("red"), st("navy"), st("odd"), NULL]), .15)
        put("alpha", num(r.choice([255, 128, 0])), .1)
        put("pixel_x", num(r.choice([4, -3, 32, 16])), .12)
        put("pixel_y", num(r.choice([4, -3, -32, 8])), .12)
        put("pixel_z", num(r.choice([2, -7])), .05)
        put("invisibility", num(r.choice([0, 60, 61, 101])), .1)
        if f == "hidden" and r.random() < .4 * much:
            out["icon"], out["icon_state"] = st("icons/obj/items_and_weapons.dmi"), st("syndballoon")
        if f == "crates":
            for x in ("opened", "broken", "locked", "secure", "welded", "enable_door_overlay", "icon_door_override", "has_closed_overlay"):
                flag(x, .9 if x == "enable_door_overlay" and much == 1 else .55)
            for x in ("weld_w", "weld_z", "lid_w", "lid_z"):
                put(x, num(r.choice([3, -5, 10])), .3)
            put("icon_door", r.choice([st("a"), st("b"), NULL, num(3)]), .4)
            put("lid_icon_state", r.choice([st("lid"), st("a"), NULL]), .5)
            put("lid_icon", r.choice([st("lid.dmi"), NULL]), .4)
        if f == "machines":
            flag("glass"), flag("can_be_glass", .6)
            put("overlays_file", r.choice([st("lid.dmi"), st("door.dmi"), NULL]), .6)
            put("icon_screen", r.choice([st("scr"), NULL, st("key")]), .6)
            put("icon_keyboard", r.choice([st("key"), NULL]), .6)
        if f == "pretty":
            put("illustration", r.choice([st("ill"), NULL, st("a")]))
            put("oxygentanks", r.choice([num(i) for i in range(-1, 7)] + [NULL]))
            put("plasmatanks", r.choice([num(i) for i in range(-1, 8)] + [NULL]))
        if f == "cables":
            put("cable_layer", r.choice([st("l1"), st("l2"), NULL]), .3)
        if f == "loot":
            put("loot", self.loot(), .9 if much == 1 else .3)
            put("lootcount", num(r.choice([0, 1, 1, 1, 2, 3])), .9)
            flag("lootdoubles", .7)
        if f == "spawners":
            put("spawn_list", r.choice([v("list", l=[self.entry() for _ in range(r.randint(0, 4))])] * 5 + [NULL]), .8)
        return self.order(out)

    def order(self, out):
        return [{"x": x, "v": y} for x, y in self.r.sample(sorted(out.items()), len(out))]

    def entry(self, chancy=False):
        r = self.r
        # at most one entry chooses again, and among few: the choices multiply
        few = lambda x: chancy and x.startswith(("/obj/item/relic", "/obj/item/tape"))
        p = r.choice([x for x in self.ix if x.startswith("/obj/") and (not self.chancy(x) or few(x))] * 4 + ["/obj/none"])
        return {"k": r.choice(["path"] * 5 + ["str", "num"]), "s": p, "w": r.choice([1, 1, 1, 0, 2, 5]), "has": False}

    def loot(self):
        r = self.r
        es = [self.entry(k == 0) for k in range(r.choice([0, 1, 1, 2, 2, 3]))]
        for e in es:
            if e["k"] == "num":
                e["k"] = "str"
            e["has"] = r.random() < .6
            if not e["has"]:
                e["w"] = 1
        return v("list", l=es)

    def object(self, path=None):
        p = path or self.r.choice(self.objects + ["/obj/none"] * (self.r.random() < .05))
        if p not in self.ix:
            return {"t": 0, "vars": [], "path": p}
        return {"t": self.ix[p], "vars": self.vars(p, self.fam[p], .3), "path": p}

    def chancy(self, p):
        return any(c in p for c in CHOOSES)


def literal(x, val):
    if val["k"] == "null":
        return "null"
    if val["k"] == "num":
        return "%g" % (val["i"] / 16) if x == "layer" else str(val["i"])
    if val["k"] == "list":
        one = lambda e: {"path": e["s"], "str": '"%s"' % e["s"], "num": "7"}[e["k"]]
        return "list(" + ", ".join(one(e) + (f" = {e['w']}" if e["has"] else "") for e in val["l"]) + ")"
    return "'%s'" % val["s"] if x in ("icon", "lid_icon", "overlays_file") and val["s"].endswith("dmi") else '"%s"' % val["s"]


def program(w):
    """Text of the types; new variables are declared where they first appear."""
    known = {"icon", "icon_state", "dir", "layer", "plane", "color", "alpha", "pixel_x", "pixel_y", "pixel_z", "invisibility"}
    names = sorted({a["x"] for t in w.types for a in t["vars"]} - known)
    text = "/datum\n" + "".join(f"\tvar/{x}\n" for x in names)
    for t in w.types:
        if t["path"] not in SYSTEM:
            own = t["path"].startswith("/datum") or up(t["path"]) == "/datum"     # these have none of an atom's variables
            text += t["path"] + "\n" + "".join(f"\t{'var/' if own and a['x'] in known else ''}{a['x']} = {literal(a['x'], a['v'])}\n" for a in t["vars"])
    return text


def case(r, w, repeat=None, include=None):
    """A map, the passes and the rectangle."""
    width, height = (1, 1) if repeat else (r.choice([1, 2, 3]), r.choice([1, 2, 3]))
    if w.family == "cables" and not repeat:
        width, height = r.choice([(3, 3), (2, 3), (3, 1)])
    if w.family == "gravity" and not repeat and r.random() < .7:
        width, height = 3, 3
    chance = 1 if r.random() < .5 else 0
    if repeat:
        chance = 1
    objects = [o for o in w.objects if not w.chancy(o)]
    risky = [o for o in w.objects if w.chancy(o)]
    keys, rows = [], []
    for y in range(height):
        row = []
        for x in range(width):
            if keys and r.random() < .35 and not any(w.chancy(o["path"]) for o in keys[-1]):
                row.append(len(keys))
                continue
            k = [w.object(r.choice(objects)) for _ in range(r.choice([0, 1, 1, 2, 3, 3 + 2 * (w.family == "cables")]))] if objects else []
            if w.family == "cables" and r.random() < .5:
                k = [w.object(p) for p in r.sample(["/obj/structure/cable", "/obj/machinery/power/smes", "/obj/machinery/power/terminal"], r.choice([2, 3, 3])) if p in w.objects]
            # some spawner or other makes something
            if chance and risky and r.random() < (1 if repeat else .4):
                k.append(w.object(r.choice(risky))); chance -= 1
            if not k:
                k = [w.object("/turf") if "/turf" in w.ix else w.object()]
            if r.random() < .03:
                k.append(w.object("/obj/none"))
            keys.append(k); row.append(len(keys))
        rows.append(row)
    # dictionary entries are the same when their texts are
    texts, index = [], {}
    ren = {}
    ks = []
    for i, k in enumerate(keys):
        t = "(" + ",".join(o["path"] + ("{" + "; ".join(f"{a['x']} = {literal(a['x'], a['v'])}" for a in o["vars"]) + "}" if o["vars"] else "") for o in k) + ")"
        if t not in index:
            index[t] = len(ks) + 1; ks.append(k); texts.append(t)
        ren[i + 1] = index[t]
    rows = [[ren[x] for x in row] for row in rows]
    names = "abcdefghijklmnop"
    text = "".join(f'"{names[i]}" = {t}\n' for i, t in enumerate(texts)) + '\n(1,1,1) = {"\n' + "\n".join("".join(names[x - 1] for x in row) for row in rows) + '\n"}\n'
    lo, hi = (0, 0), (width - 1, height - 1)
    if r.random() < .3:
        lo = (r.randint(0, width - 1), r.randint(0, height - 1))
        hi = (r.randint(lo[0], width - 1), r.randint(lo[1], height - 1))
    x = r.random()
    inc, exc = [], []
    if include is not None:
        inc, exc = include, ["all"]
    elif x < .45:
        inc, exc = r.sample(PASSES, r.choice([1, 2, 3])), ["all"]
        if r.random() < .5:
            inc = [ABOUT.get(w.family, "random")] + [n for n in inc if n not in (ABOUT.get(w.family), "random") and not n.startswith("only")]
    elif x < .6:
        inc, exc = ["all"], r.sample(PASSES, 3) + ["only-powernet", "only-pipenet"]
    elif x < .9:
        inc, exc = r.sample(PASSES, r.choice([0, 0, 1])), r.sample(PASSES, r.choice([0, 0, 1, 2]))
    exc = exc + [s for s in SMOOTH if s not in exc]
    config = [{"n": n, "on": r.random() < .5} for n in r.sample(PASSES, r.choice([0, 0, 1, 2, 3]))] if r.random() < .5 else []
    paths = [t["path"] for t in w.types if t["path"] not in ("/datum", "/atom", "/atom/movable")]
    hidden = r.sample(paths, 1) if r.random() < .2 else []
    layers = [{"path": p, "n": len(p), "layer": r.choice([40, -24, 8, 72, -200])} for p in r.sample(paths, min(len(paths), r.choice([0, 0, 0, 1, 2, 3])))]
    for l in layers:        # names of the same length do not contain one another, so their order does not matter
        pass
    toml = "[map_renderer]\nhide_invisible = [%s]\n[map_renderer.render_passes]\n%s[map_renderer.fancy_layers]\n%s" % (
        ", ".join('"%s%s"' % (p, r.choice(["", "/"])) for p in hidden), "".join(f'{c["n"]} = {str(c["on"]).lower()}\n' for c in config),
        "".join('"%s%s" = %s\n' % (l["path"], r.choice(["", "/"]), "%g" % (l["layer"] / 16) if l["layer"] % 16 else "%d.0" % (l["layer"] // 16)) for l in layers))
    model = {"types": w.types, "keys": [[{"t": o["t"], "vars": o["vars"]} for o in k] for k in ks], "rows": rows, "min": list(lo), "max": list(hi),
             "include": inc, "exclude": exc, "config": config, "hidden": hidden, "layers": layers}
    req = {"k": "passes", "dm": program(w), "map": text, "config": toml, "include": ",".join(inc), "exclude": ",".join(exc), "min": list(lo), "max": list(hi), "repeat": repeat or 1,
           "rarest": min([rarest(w, o) for k in ks for o in k], default=1), "icons": [{"path": s, "states": SHEETS[s], "dirs": 8 if s in FACING else 1, "first": FIRST[s]} for s in SHEETS]}
    return model, req


# ---------------------------------------------------------------- pictures
ORDER = [2, 1, 4, 8, 6, 10, 5, 9]       # directions as the sheets have them


def colour(g):
    return (1 + g % 251, (g * 7 + 3) % 256, (g * 29 + 11) % 256)


def cell(s):
    sheet = SHEETS.get(s["icon"])
    if sheet is None or s["state"] not in sheet:
        return None
    n = sheet.index(s["state"])
    return FIRST[s["icon"]] + (n * 8 + ORDER.index(s["dir"]) if s["icon"] in FACING else n)


def dots(g):
    c = colour(g)
    return [(g % 32, g // 32, c + (255,)), (0, 31, c + (255,)), (1, 31, c + (128,))]


def times(a, b):
    return a * b // 255


def over(src, dst):
    oa = src[3] + times(dst[3], 255 - src[3])
    if oa == 0:
        return (0, 0, 0, 0)
    return tuple(min(255, (src[i] * src[3] + dst[i] * dst[3] * (255 - src[3]) // 255) // oa) for i in range(3)) + (oa,)


def picture(sprites, model):
    lo, hi = model["min"], model["max"]
    top = len(model["rows"]) - hi[1]        # the first row shown, from 1
    w, h = 32 * (hi[0] - lo[0] + 1), 32 * (hi[1] - lo[1] + 1)
    out = {}
    for s in sprites:
        g = cell(s)
        if g is None:
            continue
        x0, y0 = 32 * (s["x"] - 1 - lo[0]) + s["ox"], 32 * (s["y"] - top) - s["oy"]
        for dx, dy, c in dots(g):
            at = (x0 + dx, y0 + dy)
            if 0 <= at[0] < w and 0 <= at[1] < h:
                out[at] = over(tuple(times(a, b) for a, b in zip(c, s["col"])), out.get(at, (0, 0, 0, 0)))
    return sorted([*at, *c] for at, c in out.items() if c[3])


def told(marks):
    """Which states are seen where, for reports."""
    names = {}
    for s in SHEETS:
        for i, state in enumerate(SHEETS[s]):
            for d in range(8 if s in FACING else 1):
                g = FIRST[s] + (i * 8 + d if s in FACING else i)
                names[colour(g)] = f"{s}:{state}" + (f":{ORDER[d]}" if s in FACING else "")
    return [f"{names.get(tuple(m[2:5]), m[2:])}@{m[0]},{m[1]}" for m in marks]


def rarest(w, o):
    """A lower bound of any choice's chance."""
    def value(x):
        for a in o["vars"]:
            if a["x"] == x:
                return a["v"]
        t = o["t"]
        while t:
            for a in w.types[t - 1]["vars"]:
                if a["x"] == x:
                    return a["v"]
            t = w.types[t - 1]["up"]
        return NULL
    p = 1 / 32
    if "/lootdrop" in o["path"]:
        es, n = value("loot")["l"], value("lootcount")["i"]
        ws = [e["w"] for e in es if e["w"] > 0] or [1] * len(es)
        for _ in range(n if ws else 0):
            p *= min(ws) / sum(ws) / (9 if any(self_choosing(e["s"]) for e in es) else 1)
        p *= 32
    return p


def self_choosing(p):
    return any(x in p for x in CHOOSES)


def fixed(r):
    """Every choice comes up, over many drawings."""
    for f, paths in [("vending", None), ("sheets", None), ("posters", None), ("things", None), ("signs", None), ("loot", None)]:
        for p in FAMILIES[f]:
            if any(x in p for x in CHOOSES) and not p.startswith("/datum"):
                for _ in range(3):
                    yield f, p


def run(c):
    r, q = c.rng, c.quick
    models, reqs = [], []
    for f, p in fixed(r):
        w = World(r, f, few=True)
        if p not in w.objects:
            w.have(p, f)
            w.objects.append(p)
            for t in w.types:
                if not t["vars"]:
                    t["vars"] = w.vars(t["path"], w.fam[t["path"]], 1)
        w.objects = [p]
        m, q2 = case(r, w, repeat=2000, include=["random"])
        models.append(m); reqs.append(q2)
    for k in range(2400 if q else 24000):
        w = World(r, sorted(FAMILIES)[k % len(FAMILIES)])
        if not w.objects:
            continue
        m, q2 = case(r, w)
        models.append(m); reqs.append(q2)
    want = {}
    for k in range(0, len(models), 3000):
        for e in c.tlc("Passes", {}, cases=models[k:k + 3000], spec="Spec", properties=["Terminates"]):
            want.setdefault(k + e["cid"], []).append(e)
    for i, (m, req, o) in enumerate(zip(models, reqs, c.replay(reqs))):
        ways = []
        for e in want[i + 1]:
            y = picture(e["sprites"], m)
            if y not in ways:
                ways.append(y)
        show = {k: req[k] for k in ("dm", "map", "config", "include", "exclude", "min", "max")}
        c.count("repeated" if req["repeat"] > 1 else "random maps", max(len(e["sprites"]) for e in want[i + 1]) > 1, req["dm"] + req["map"])
        bad = died(o) or o.get("error")
        if bad:
            c.fail(bad, show, told(ways[0]), o); continue
        seen = [sorted(x) for x in o["seen"]]
        for x in seen:
            if x not in ways:
                near = min(ways, key=lambda y: len({tuple(a) for a in y} ^ {tuple(a) for a in x}))
                extra, less = [a for a in x if a not in near], [a for a in near if a not in x]
                bad = f"another picture: {told(extra)[:4]} instead of {told(less)[:4]}"
                break
        if not bad and (1 - req["rarest"]) ** req["repeat"] < 1e-10:      # nothing is missed by chance
            for y in ways:
                if y not in seen:
                    bad = f"never drawn: {told(y)[:4]}"
                    break
        if bad:
            c.fail(bad, show, [told(y) for y in ways][:8], [told(x) for x in seen][:8])
        else:
            c.sample(show, [told(y) for y in ways][:2], [told(x) for x in seen][:2])
    return c.finish("a behaviour is a map with its types, the passes asked for and what they choose; trivial with fewer than two sprites", exhaustive=False)
