"""Rendering of map files and values (spec/MapFile.tla, MapText.tla, MapStore.tla)."""
import struct

B52 = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def bits(text):
    return struct.unpack("<I", struct.pack("<f", float(text)))[0]


def num(k):
    n = 0
    for d in k:
        n = n * 52 + d
    return n


def letters(k):
    return "".join(B52[d] for d in k)


# ------------------------------------------------------------------- values
def number(rng):
    """The bits of a number with at most six significant digits."""
    r = rng.random()
    if r < .4:
        return bits(rng.choice([0, 1, -1, 2, 5, 10, 32, -16, 255, 100, 1000, 99999, 999999, -999999, 123456]))
    digits = rng.randint(1, 6)
    m = rng.randint(10 ** (digits - 1), 10 ** digits - 1)
    e = rng.randint(-4, 3) if r < .7 else rng.randint(-36, 32 - digits + 5)
    return bits(f"{rng.choice(['', '-'])}{m}e{e}")


CHARS = ["a", "b", " ", "x", ";", "}", "{", ",", ")", "(", "/", "//", "'", "=", "\t", '\\"', "\\\\", "\\n", "\\[", "\\'", "\\t", "é", "<b>", "\\icon", ".", "%", "&", "#", "*", "/*", "1"]


def string(rng, hard=True):
    s = [rng.choice(CHARS) for _ in range(rng.randint(0, 6))]
    r = rng.random()
    if hard and r < .25:      # line breaks or bare quotes
        s.insert(rng.randint(0, len(s)), rng.choice(['"', "\n", '"', '\n\n', '""']))
        if r < .05:
            s.insert(rng.randint(0, len(s)), '"}')
    return "".join(s)


def resource(rng):
    return rng.choice(["icons/", "", "sound/a b/"]) + rng.choice(["x.dmi", "a;b.dmi", 'q"r.png', "b}c.ogg", "d,e(1).dmi", "f=g.dmi", "h//i.dmi", "é.dmi"])


def path(rng, depth=None):
    return "".join("/" + rng.choice(["obj", "turf", "area", "a", "b1", "c_d", "effect", "mob"]) for _ in range(depth or rng.randint(1, 4)))


def value(rng, depth=0):
    r = rng.random()
    if r < .3:
        return {"num": number(rng)}
    if r < .65:
        return {"str": string(rng)}
    if r < .75:
        return {"res": resource(rng)}
    if r < .82:
        return {"path": path(rng)}
    if r < .86 or depth > 2:
        return {"null": 1}
    k = rng.choice(["list", "list", "list", "matrix", "newlist", "icon", "sound", "filter", "file", "new"])
    if k == "list":
        out = []
        for _ in range(rng.randint(0, 3)):
            if rng.random() < .4:
                out.append([rng.choice([{"str": string(rng, False) or "k"}, {"path": path(rng)}, {"res": resource(rng)}]), value(rng, depth + 1)])
            else:
                out.append([value(rng, depth + 1), None])
        return {"list": out}
    if k == "matrix":
        return {"matrix": [[{"num": number(rng)}, None] for _ in range(6)]}
    if k == "newlist":
        return {"newlist": [[{"path": path(rng)}, None] for _ in range(rng.randint(0, 2))]}
    if k == "icon":
        return {"icon": [[{"res": resource(rng)}, None], [{"str": "s"}, None]]}
    if k == "sound":
        return {"sound": [[{"res": resource(rng)}, None]]}
    if k == "filter":
        return {"filter": [[{"str": "type"}, {"str": "blur"}], [{"str": "size"}, {"num": number(rng)}]]}
    if k == "file":
        return {"file": [[{"str": "x"}, None]]}
    return {"new": [path(rng), None]}


def obj(rng, rich=True):
    names = ["name", "dir", "icon_state", "pixel_x", "desc", "tag", "v_1", "a2"]
    n = rng.choice([0, 0, 1, 1, 2, 4]) if rich else 0
    return {"path": path(rng), "vars": [[k, value(rng)] for k in rng.sample(names, n)]}


# --------------------------------------------------------------------- files
def render(rng, f, nl="\n", header=True, dictionary=None):
    """The text of a file of MapFile.tla; `dictionary` gives the objects' text per key."""
    out = []
    if header:
        out.append(rng.choice(["//MAP CONVERTED BY dmm2tgm.py THIS HEADER COMMENT PREVENTS RECONVERSION, DO NOT REMOVE", "// (1,1,1) \"x\" = {", ""]))
    for i, k in enumerate(f["dict"]):
        body = dictionary[i] if dictionary else rng.choice(["(/turf/a,/area)", "(\n/obj/b{\n\tname = \"x\"\n\t},\n/turf/a,\n/area)", "(/obj{dir = 4; name = \"a;b\"},/turf,/area)", "(/turf)"])
        out.append(f'"{letters(k)}" = {body}'.replace("\n", nl))
    out.append("")
    for b in f["blocks"]:
        rows = "".join(letters(r) + nl for r in b["rows"])
        if rows and rng.random() < .15:
            rows = rows[:-len(nl)]            # the last row directly followed by the quote
        out.append(f'({b["x"]},{b["y"]},{b["z"]}) = {{"{nl}{rows}"}}')
        if rng.random() < .3:
            out.append("")
    return nl.join(out) + rng.choice(["", nl])
