"""P37: the map tool's commands (spec/MapTool.tla)."""
import json, os, shutil, struct, subprocess, tempfile, zlib
from concurrent.futures import ThreadPoolExecutor
import maps

NPROC = os.cpu_count() or 4
TYPES = [("/turf/t%d" % i, 2) for i in range(4)] + [("/obj/o%d" % i, 3) for i in range(3)] + [("/obj/low", 1), ("/mob/m", 4)]
COLOURS = [(10 + 25 * i, 250 - 20 * i, 40 + (i * 70) % 200, 255) for i in range(len(TYPES))]
CODE = "".join(f"{p}\n\ticon = 'a.dmi'\n\ticon_state = \"s{i}\"\n\tlayer = {l}\n" for i, (p, l) in enumerate(TYPES)) + "/obj/plain\n"
# things on tiles: text, type
THINGS = [(p, i) for i, (p, _) in enumerate(TYPES)] + [(p + v, i) for i, (p, _) in enumerate(TYPES) for v in ('{name = "x"}', "{tag = 1}")]
TURFS = [i for i, (t, _) in enumerate(THINGS) if t.startswith("/turf")]
REST = [i for i, (t, _) in enumerate(THINGS) if not t.startswith("/turf")]


def png(w, h, px, text):
    raw = b"".join(b"\0" + b"".join(bytes(px[y][x]) for x in range(w)) for y in range(h))
    chunk = lambda k, d: struct.pack(">I", len(d)) + k + d + struct.pack(">I", zlib.crc32(k + d))
    return b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 6, 0, 0, 0)) + chunk(b"zTXt", b"Description\0\0" + zlib.compress(text.encode())) + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b"")


def unpng(data):
    """Width, height and pixels (RGBA) of a PNG without interlacing."""
    at, idat, plte, trns = 8, b"", b"", b""
    while at < len(data):
        n, k = struct.unpack(">I4s", data[at:at + 8])
        d = data[at + 8:at + 8 + n]
        at += 12 + n
        if k == b"IHDR":
            w, h, depth, kind, _, _, lace = struct.unpack(">IIBBBBB", d)
            assert lace == 0 and depth <= 8
        elif k == b"IDAT":
            idat += d
        elif k == b"PLTE":
            plte = d
        elif k == b"tRNS":
            trns = d
    ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[kind]
    raw, bpp, row = zlib.decompress(idat), max(1, ch * depth // 8), (w * ch * depth + 7) // 8
    prev, out, at = bytearray(row), [], 0
    for _ in range(h):
        f, line = raw[at], bytearray(raw[at + 1:at + 1 + row])
        at += 1 + row
        for i in range(row):
            a, b, c = line[i - bpp] if i >= bpp else 0, prev[i], prev[i - bpp] if i >= bpp else 0
            if f == 1:
                p = a
            elif f == 2:
                p = b
            elif f == 3:
                p = (a + b) // 2
            elif f == 4:
                q = a + b - c
                p = min((abs(q - a), 0, a), (abs(q - b), 1, b), (abs(q - c), 2, c))[2]
            else:
                p = 0
            line[i] = (line[i] + p) & 255
        prev = line
        if depth < 8:
            vals = [(line[i * depth // 8] >> (8 - depth - i * depth % 8)) & ((1 << depth) - 1) for i in range(w * ch)]
            if kind == 0:
                vals = [v * 255 // ((1 << depth) - 1) for v in vals]
        else:
            vals = list(line)
        px = []
        for x in range(w):
            v = vals[x * ch:x * ch + ch]
            if kind == 3:
                px.append((*plte[3 * v[0]:3 * v[0] + 3], trns[v[0]] if v[0] < len(trns) else 255))
            elif kind == 0:
                px.append((v[0], v[0], v[0], 0 if trns and trns[1] == v[0] else 255))
            elif kind == 2:
                px.append((*v, 0 if trns and tuple(trns[1::2]) == tuple(v) else 255))
            elif kind == 4:
                px.append((v[0], v[0], v[0], v[1]))
            else:
                px.append(tuple(v))
        out.append(px)
    return w, h, out


def sheet():
    n = len(TYPES)
    text = "# BEGIN DMI\nversion = 4.0\n\twidth = 32\n\theight = 32\n" + "".join(f'state = "s{i}"\n\tdirs = 1\n\tframes = 1\n' for i in range(n)) + "# END DMI\n"
    return png(32 * n, 32, [[COLOURS[x // 32] for x in range(32 * n)] for _ in range(32)], text)


def one_map(r, like=None):
    """A map, often little different from another."""
    if like and r.random() < .8:
        m = json.loads(json.dumps(like))
        if r.random() < .5:     # other keys for the same
            order = list(range(len(m["keys"])))
            r.shuffle(order)
            m["keys"] = [like["keys"][i] for i in order]
            at = {k: i for i, k in enumerate(order)}
            m["tiles"] = [[[at[k] for k in row] for row in z] for z in like["tiles"]]
        if r.random() < .3 and m["h"] > 1:
            m["h"] -= 1
            m["tiles"] = [z[:-1] if r.random() < .5 else z[1:] for z in m["tiles"]]
        if r.random() < .3:
            m["w"] += 1
            m["tiles"] = [[row + [r.randrange(len(m["keys"]))] for row in z] for z in m["tiles"]]
        if r.random() < .3 and m["d"] > 1:
            m["d"] -= 1
            m["tiles"].pop()
        for _ in range(r.choice([0, 0, 1, 3])):
            m["tiles"][r.randrange(m["d"])][r.randrange(m["h"])][r.randrange(m["w"])] = r.randrange(len(m["keys"]))
    else:
        w, h, d = r.choice([1, 2, 3, 5]), r.choice([1, 2, 3, 4]), r.choice([1, 1, 2, 3])
        keys = []
        for _ in range(r.choice([1, 2, 3, 6])):
            things = [r.choice(REST) for _ in range(r.choice([0, 0, 1, 2, 3]))] + [r.choice(TURFS)]
            if r.random() < .3:
                r.shuffle(things)
            keys.append(things)
        if r.random() < .4:
            keys.append(list(r.choice(keys)))
        m = {"w": w, "h": h, "d": d, "keys": keys, "tiles": [[[r.randrange(len(keys)) for _ in range(w)] for _ in range(h)] for _ in range(d)]}
    m["letters"] = r.choice([1, 2, 3])
    m["first"] = r.choice([0, 5, 40])
    m["columns"] = r.random() < .5
    m["bad"] = False
    return m


def text(m):
    name = lambda k: "".join(maps.B52[(k + m["first"]) // 52 ** i % 52] for i in reversed(range(m["letters"])))
    if m["letters"] == 1:
        name = lambda k: maps.B52[k + m["first"]]
    out = ["".join(f'"{name(k)}" = ({",".join(THINGS[t][0] for t in ts)})\n' for k, ts in enumerate(m["keys"])), "\n"]
    for z in range(m["d"]):
        if m["columns"]:
            for x in range(m["w"]):
                out.append(f"({x + 1},1,{z + 1}) = {{\"\n" + "".join(name(row[x]) + "\n" for row in reversed(m["tiles"][z])) + '"}\n')
        else:
            out.append(f"(1,1,{z + 1}) = {{\"\n" + "".join("".join(map(name, row)) + "\n" for row in reversed(m["tiles"][z])) + '"}\n')
    s = "".join(out)
    if m["bad"]:
        s = s[:-4] if m["bad"] == 1 else s.replace("(1,1,1)", "(0,1,1)")
    return s


def command(r, ms):
    good = [i for i, m in enumerate(ms) if not m["bad"]]
    k = r.choice(["diff", "diff", "info", "minimap", "minimap", "many"])
    if k == "diff":
        return {"k": k, "files": [r.choice(good) for _ in range(2)]}
    if k == "info":
        return {"k": k, "files": r.sample(good, r.randint(1, len(good)))}
    if k == "minimap":
        files = r.sample(range(len(ms)), r.randint(1, len(ms)))
        flat = all(ms[i]["d"] == 1 for i in files)
        co = lambda n: [r.randint(0, 6), r.randint(0, 5), r.randint(0, 4)][:n]
        return {"k": k, "files": files, "min": r.choice([[], [], co(3), co(2)]), "max": r.choice([[], [], co(3)] + [co(2)] * flat), "jobs": r.choice([1, 1, 4, 0])}
    parts = []
    for i in r.sample(good, r.randint(1, len(good))):
        m, cs = ms[i], []
        for _ in range(r.choice([0, 1, 2, 3])):
            x0, y0 = r.randint(0, m["w"]), r.randint(0, m["h"])
            cs.append({"z": r.randint(1, m["d"]), "x0": x0, "y0": y0, "x1": r.choice([0, r.randint(max(1, x0), m["w"] + 2)]), "y1": r.choice([0, r.randint(max(1, y0), m["h"] + 2)])})
        parts.append({"m": i, "all": r.random() < .3, "chunks": cs})
    return {"k": k, "parts": parts, "jobs": r.choice([1, 4])}


def case(r):
    ms = []
    for i in range(r.choice([2, 2, 3])):
        ms.append(one_map(r, ms[-1] if ms else None))
    if r.random() < .25:
        ms += [{**one_map(r), "bad": r.choice([1, 2])} for _ in range(r.choice([1, 1, 2]))]
    return ms, [command(r, ms) for _ in range(4)]


def spec(ms, cmds):
    up = lambda xs: [x + 1 for x in xs]
    out = []
    for m in cmds:
        m = dict(m)
        m.pop("jobs", None)
        if "files" in m:
            m["files"] = up(m["files"])
        if "parts" in m:
            m["parts"] = [{**p, "m": p["m"] + 1} for p in m["parts"]]
        out.append(m)
    return {"maps": [{**{k: m[k] for k in ("w", "h", "d", "letters")}, "bad": bool(m["bad"]), "keys": [up(k) for k in m["keys"]], "tiles": [[up(row) for row in z] for z in m["tiles"]]} for m in ms],
            "layer": [TYPES[t][1] for _, t in THINGS], "commands": out}


def picture(path):
    """Types by their colours; anything else is said."""
    w, h, px = unpng(open(path, "rb").read())
    if w % 32 or h % 32:
        return f"{w} x {h} pixels"
    out = []
    for y in range(0, h, 32):
        row = []
        for x in range(0, w, 32):
            seen = {px[yy][xx] for yy in range(y, y + 32) for xx in range(x, x + 32)}
            row.append(COLOURS.index(min(seen)) if len(seen) == 1 and min(seen) in COLOURS else f"{sorted(seen)[:2]}")
        out.append(row)
    return out


def carry_out(tool, root, k, m, ms):
    """What the tool does for a command, as the specification puts it."""
    name = lambda i: f"maps/m{i}.dmm"
    args = {"diff": lambda: ["diff-maps", *map(name, m["files"])], "info": lambda: ["map-info", "-j", *map(name, m["files"])],
            "minimap": lambda: ["--jobs", str(m["jobs"]), "minimap", "--disable", "all", "-o", f"out{k}/deep"] + [f"--min={','.join(map(str, m['min']))}"] * bool(m["min"]) + [f"--max={','.join(map(str, m['max']))}"] * bool(m["max"]) + [*map(name, m["files"])],
            "many": lambda: ["--jobs", str(m["jobs"]), "render-many"]}[m["k"]]()
    if m["k"] in ("minimap", "many"):
        args = ["-e", "x.dme"] + args
    feed = None
    if m["k"] == "many":
        chunk = lambda c: {"z": c["z"], **{n: c[v] for n, v in (("min_x", "x0"), ("min_y", "y0"), ("max_x", "x1"), ("max_y", "y1")) if c[v]}}
        feed = json.dumps({"output_directory": f"out{k}/deep", "disable": ["all"], "files": [{"path": name(p["m"]), **({} if p["all"] else {"chunks": [chunk(c) for c in p["chunks"]]})} for p in m["parts"]]})
    p = subprocess.run([tool, *args], cwd=root, input=feed, capture_output=True, text=True, timeout=60)
    if m["k"] not in ("minimap",) and p.returncode:
        return f"exit status {p.returncode}: {p.stderr[-200:]}"
    if m["k"] == "diff":
        ls = p.stdout.split("\n")[2:]
        return {"sized": any("different size" in l for l in ls), "places": [[int(n) for n in l.split("(")[1].rstrip(")").split(", ")] for l in ls if "different tile" in l]}
    if m["k"] == "info":
        d = json.loads(p.stdout)
        return {"maps": [(lambda i: {"size": i["size"], "letters": i["key_length"], "keys": i["num_keys"]})(d.get(name(i)) or d) for i in m["files"]]} if len(d) == len(m["files"]) else d
    d = os.path.join(root, f"out{k}/deep")
    files = {f: picture(os.path.join(d, f)) for f in sorted(os.listdir(d))} if os.path.isdir(d) else {}
    if m["k"] == "many":
        files = {"pics": files, "named": [[c["filename"] for c in f["chunks"]] for f in json.loads(p.stdout)["files"]]}
    else:
        files = {"pics": files}
    return {**files, "failed": p.returncode > 0}


def wanted(e, m):
    if "pics" not in e:
        return e
    rows = lambda p: [[THINGS[t - 1][1] for t in row] for row in p["rows"]]
    if m["k"] == "minimap":
        return {"pics": {f"m{p['file'] - 1}-{p['z']}.png": rows(p) for p in e["pics"]}, "failed": e["failed"] > 0}
    name = lambda p: f"m{p['file'] - 1}_z{p['z']}_chunk{p['chunk'] - 1}.png"
    return {"pics": {name(p): rows(p) for p in e["pics"]}, "named": [[name(p) for p in e["pics"] if p["file"] - 1 == f["m"]] for f in m["parts"]], "failed": False}


def run(c):
    r, q = c.rng, c.quick
    tool = c.mtool()
    work = [case(r) for _ in range(700 if q else 12000)]
    em = {}
    for k in range(0, len(work), 1000):
        for e in c.tlc("MapTool", {}, cases=[spec(*w) for w in work[k:k + 1000]], spec="Spec", properties=["Terminates"]):
            em[k + e["cid"] - 1] = e["out"]
    base = tempfile.mkdtemp(prefix="mtool-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    dmi = sheet()

    def go(i):
        ms, cmds = work[i]
        root = os.path.join(base, str(i))
        os.makedirs(os.path.join(root, "maps"))
        with open(os.path.join(root, "x.dme"), "w") as f:
            f.write(CODE)
        with open(os.path.join(root, "a.dmi"), "wb") as f:
            f.write(dmi)
        for n, m in enumerate(ms):
            with open(os.path.join(root, f"maps/m{n}.dmm"), "w") as f:
                f.write(text(m))
        out = []
        for k, m in enumerate(cmds):
            try:
                out.append(carry_out(tool, root, k, m, ms))
            except subprocess.TimeoutExpired:
                out.append("no answer")
            except Exception as x:
                out.append(f"nothing sensible: {x!r}")
        shutil.rmtree(root, ignore_errors=True)
        return out
    with ThreadPoolExecutor(NPROC) as ex:
        done = list(ex.map(go, range(len(work))))
    shutil.rmtree(base, ignore_errors=True)
    for i, ((ms, cmds), got) in enumerate(zip(work, done)):
        for k, m in enumerate(cmds):
            want = wanted(em[i][k], m)
            big = bool(want.get("places")) or len(want.get("pics", want.get("maps", ""))) > 1
            c.count(m["k"], big, json.dumps([ms, m]))
            show = {"maps": [text(x) for x in ms], "command": m}
            if got[k] != want:
                c.fail(f"{m['k']}: {got[k] if isinstance(got[k], str) else 'otherwise than said'}", show, want, got[k])
            else:
                c.sample(show, want, got[k])
    return c.finish("a behaviour is one command on generated maps; trivial with no difference or at most one map or picture", exhaustive=False)
