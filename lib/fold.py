"""Constant expressions: abstract trees, source text and observed values."""
import struct
from fractions import Fraction
from vlib import Raw, tla_value


def num(n, d=1):
    return {"k": "num", "o": "", "n": n, "d": d, "s": "", "a": []}


def leaf(k, s="", o=""):
    return {"k": k, "o": o, "n": 0, "d": 1, "s": s, "a": []}


def lst(f, *a):
    return {"k": "list", "o": "", "n": 0, "d": 1, "s": f, "a": list(a)}


def node(k, o, *a):
    return {"k": k, "o": o, "n": 0, "d": 1, "s": "", "a": list(a)}


def text(e, rng=None):
    k = e["k"]
    if k == "num":
        v = Fraction(e["n"], e["d"])
        if e["d"] == 1:
            if rng and rng.random() < .2:
                return hex(e["n"])
            return str(e["n"])
        return str(float(v))
    if k == "str":
        return '"' + e["s"] + '"'
    if k == "null":
        return "null"
    if k == "path":
        return "(" + e["s"] + ")"         # a bare path would swallow a division sign
    if k == "ref":
        return e["s"]
    if k == "sref":
        return e["o"] + "::" + e["s"]
    if k == "fld":
        return e["o"] + "." + e["s"]
    a = [text(x, rng) for x in e["a"]]
    if k == "un":
        return f"{e['o']}({a[0]})" if e["a"][0]["k"] in ("bin", "if", "un") else f"{e['o']}{a[0]}"
    if k == "bin":
        return f"({a[0]} {e['o']} {a[1]})"
    if k == "if":
        return f"({a[0]} ? {a[1]} : {a[2]})"
    if k == "trig":
        return f"{e['o']}({', '.join(a)})"
    if k == "rgb":
        return f"rgb({', '.join(a)})"
    if k == "res":
        return "'" + e["s"] + "'"
    if k == "nameof":
        return f"nameof({', '.join(a)})"
    if k == "call":
        return f"{e['o']}({', '.join(a)})"
    if k == "kw":
        return f"{e['o']} = {a[0]}" if not rng or rng.random() < .8 else f'"{e["o"]}" = {a[0]}'
    if k == "assoc":
        return f"{a[0]} = {a[1]}"
    if k == "list":
        return f"{e['s']}({', '.join(a)})"
    raise ValueError(k)


def tla(e):
    return (f'E({tla_value(e["k"])}, {tla_value(e["o"])}, {e["n"]}, {e["d"]}, {tla_value(e["s"])}, <<{", ".join(tla(x) for x in e["a"])}>>)')


def tla_set(es):
    return Raw("{" + ", ".join(tla(e) for e in es) + "}")


def f32(bits):
    return struct.unpack("f", struct.pack("I", bits))[0]


def agrees(v, obs):
    """Does the folded constant obs have the value v of the specification?"""
    if obs is None:
        return False
    if v["k"] == "num":
        if obs["k"] != "num":
            return False
        got, want = f32(obs["bits"]), Fraction(v["n"], v["d"])
        if got != got or got in (float("inf"), float("-inf")):
            return False
        if v["x"]:
            return Fraction(got) == want
        return abs(Fraction(got) - want) <= max(Fraction(1), abs(want)) * Fraction(1, 1 << 22)
    if v["k"] == "null":
        return obs["k"] == "null"
    if v["k"] == "list":
        return (obs["k"] == "list" and obs["s"] == v["s"] and len(obs["a"]) == len(v["a"]) and
                all(agrees(w["key"], o[0]) and (agrees(w["v"], o[1]) if w["hv"] else o[1] is None) for w, o in zip(v["a"], obs["a"])))
    return obs["k"] == v["k"] and obs["s"] == v["s"]
