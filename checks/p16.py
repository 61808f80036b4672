"""P16: reading map files (spec/MapFile.tla, MapText.tla)."""
from vlib import died, Raw
import maps


def judge(c, group, em, dress):
    by = {}
    for e in em:
        key = e["cid"] or repr((e["dict"], e["blocks"]))
        by.setdefault(key, []).append(e)
    work = [(es, t) for es in by.values() for t in [dress(es[0])]]
    for (es, text), o in zip(work, c.replay([{"k": "map", "text": t} for _, t in work])):
        c.count(group, any(e["ok"] for e in es), text)
        if died(o):
            c.fail(died(o), text, es, o); continue
        wants = [e["table"] if e["ok"] else None for e in es]
        got = o["ok"]["table"] if "ok" in o else None
        if got not in wants:
            c.fail("a file is read as another map" if got is not None else "a well-formed file is refused", text, wants, o); continue
        if got is not None:
            e = es[0]
            dims = [len(got[0][0]), len(got[0]), len(got)]
            if o["ok"]["dims"] != dims or o["ok"]["kl"] != len(e["dict"][0]) or [k for k, _ in o["ok"]["dict"]] != sorted({maps.num(k) for k in e["dict"]}) or o["ok"]["views_differ"]:
                c.fail("dimensions, keys or views differ", text, wants, o); continue
        c.sample(text, wants, o)


def plain(c):
    return lambda e: maps.render(c.rng, e, nl=c.rng.choice(["\n", "\n", "\r\n"]))


def random_file(r):
    """A random map cut into blocks, most of the time well formed."""
    dx, dy, dz = r.randint(1, 6), r.randint(1, 6), r.randint(1, 3)
    kl = r.choice([1, 1, 2, 2, 3])
    top = [0, 52, 2704, 65536][kl]
    keys = sorted({r.randrange(top) for _ in range(r.randint(1, 8))} | ({top - 1} if r.random() < .3 else set()))
    let = lambda n: [n // 52 ** (kl - 1 - i) % 52 for i in range(kl)]
    at = {(x, y, z): r.choice(keys) for x in range(1, dx + 1) for y in range(1, dy + 1) for z in range(1, dz + 1)}
    blocks = []
    for z in range(1, dz + 1):
        cuts = [1, dx + 1] if r.random() < .3 else sorted({1, dx + 1} | {r.randint(1, dx + 1) for _ in range(r.randint(0, dx))})
        for a, b in zip(cuts, cuts[1:]):
            ys = [1, dy + 1] if r.random() < .7 else sorted({1, dy + 1, r.randint(1, dy + 1)})
            for p, q in zip(ys, ys[1:]):
                blocks.append({"x": a, "y": p, "z": z, "rows": [sum((let(at[x, y, z]) for x in range(a, b)), []) for y in range(q - 1, p - 1, -1)]})
    if r.random() < .5:
        r.shuffle(blocks)
    f = {"dict": [let(k) for k in keys], "blocks": blocks, "cut": False}
    m = r.random()
    if m < .5:
        return f
    b = r.choice(blocks); i = r.randrange(len(b["rows"]))
    k = r.randrange(9)
    if k == 0:
        b["rows"][i] = b["rows"][i][:-1]
    elif k == 1:
        b["rows"][i] = b["rows"][i] + [r.randrange(52)]
    elif k == 2:
        b["rows"][i] = b["rows"][i] + let(r.choice(keys))
    elif k == 3:
        del b["rows"][i]
    elif k == 4:
        blocks.append(dict(b))
    elif k == 5:
        blocks.remove(b)
    elif k == 6:
        f["dict"].insert(r.randint(0, len(f["dict"])), [r.randrange(52) for _ in range(r.choice([x for x in (1, 2, 3, 4, 5) if x != kl]))])
    elif k == 7:
        b[r.choice("xyz")] += r.choice([1, 2, -1, 1000, 1000000, 2000000000])
    else:
        b["rows"].insert(i, [])
    return f


def known(f):
    """Files whose dictionary the specification says nothing about are left out."""
    return len({maps.num(k) for k in f["dict"]}) == len(f["dict"])


def texts(c):
    """Every short value in each written form."""
    u = ['a', '\\"', '\\\\', ';', '}', '{', ',', ')', '/', '\t', "'", '=', '"', '\n', ' ', '\\n', '@', '(', '\\']
    units = Raw("{" + ", ".join("<<" + ", ".join('"' + {"\\": "\\\\", '"': '\\"', "\t": "\\t", "\n": "\\n"}.get(x, x) + '"' for x in t) + ">>" for t in u) + "}")
    em = c.tlc("MapText", {"Mode": "gen", "Units": units, "MaxUnits": 2 if c.quick else 3})
    work = []
    for e in em:
        s = "".join("".join(x) for x in e["content"])
        v = {"res" if e["form"] == "resource" else "str": s}
        t = "".join(e["text"])
        t = t.replace("=", c.rng.choice(["=", " = "]), 1).replace(";w=1}", c.rng.choice([";w=1}", "; w = 1}", ";\n\tw = 1\n\t}"]))
        sep = c.rng.choice(["", "\n\t"])
        t = f'"a" = (/obj/x{{{sep}{t},\n/turf,/area)\n\n(1,1,1) = {{"\na\n"}}\n'
        work.append((t.replace("\n", "\r\n") if c.rng.random() < .3 else t, v))
    for (t, v), o in zip(work, c.replay([{"k": "map", "text": t.encode().decode("latin1")} for t, _ in work])):
        c.count("values", True, t)
        want = [[0, [{"path": "/obj/x", "vars": [["v", v], ["w", {"num": maps.bits(1)}]]}, {"path": "/turf", "vars": []}, {"path": "/area", "vars": []}]]]
        if died(o) or "ok" not in o or o["ok"]["dict"] != want or o["ok"]["table"] != [[[0]]]:
            c.fail("the values of an object are misread", t, want, o)


def damage(c):
    """Text cut or corrupted anywhere: never a crash; a cut inside an item is an error."""
    r = c.rng
    work = []
    for _ in range(250 if c.quick else 2500):
        f = random_file(r)
        while not known(f) or f["cut"]:
            f = random_file(r)
        t = maps.render(r, f)
        for _ in range(8):
            k = r.random()
            if k < .4:
                work.append((t[:r.randrange(len(t))], None))
            elif k < .7:
                i = r.randrange(len(t)); work.append((t[:i] + r.choice(['"', "(", ")", "{", "}", ",", "\n", "0", "9" * 25, "\\", "a", "z" * 300, "/", ";", "=", "\x00", "\xff", "@", "'"]) + t[i + r.choice([0, 1]):], None))
            elif k < .85:
                i, j = sorted((r.randrange(len(t)), r.randrange(len(t)))); work.append((t[:i] + t[j:], None))
            else:
                i, j = sorted((r.randrange(len(t)), r.randrange(len(t)))); work.append((t[:j] + t[i:], None))
    # cut inside the last block or the last key of a well-formed file
    for _ in range(300 if c.quick else 3000):
        f = random_file(r)
        f["cut"] = True
        t = maps.render(r, f, header=False)
        i = r.randrange(len(f["blocks"]) + 1)
        if i < len(f["blocks"]):
            spots = [p for p in range(len(t)) if t.startswith(") = {", p)]
            p = spots[i]; start = t.rindex("(", 0, p); end = t.index('"}', p)
            work.append((t[:r.randint(start + 1, end)], "error"))
        else:
            p = t.index("("); end = t.index(")", p)
            work.append((t[:r.randint(2, end)], "error"))
    for (t, want), o in zip(work, c.replay([{"k": "map", "text": t.encode("latin1", "replace").decode("latin1"), "dictonly": True} for t, _ in work])):
        c.count("damaged text", True, t)
        if died(o):
            c.fail(died(o), t, "an error or a map", o)
        elif want and "ok" in o:
            c.fail("a truncated file is accepted", t, want, o)


def run(c):
    q = c.quick
    judge(c, "small maps in both styles", c.tlc("MapFile", {"Mode": "maps", "MaxDim": 3, "MaxBlocks": 0, "KeyLens": {1, 2, 3}}), plain(c))
    judge(c, "every short sequence of blocks", c.tlc("MapFile", {"Mode": "blocks", "MaxDim": 0, "MaxBlocks": 1 if q else 2, "KeyLens": set()}), plain(c))
    fs = [f for f in (random_file(c.rng) for _ in range(2500 if q else 25000)) if known(f)]
    judge(c, "random files", c.tlc("MapFile", {"Mode": "cases", "MaxDim": 0, "MaxBlocks": 0, "KeyLens": set()}, cases=fs), lambda e: maps.render(c.rng, e, nl=c.rng.choice(["\n", "\r\n"])))
    texts(c)
    damage(c)
    return c.finish("a behaviour is the text of a map file; trivial when the model refuses it", exhaustive=False)
