"""P08: lexer (spec/Lexer.tla)."""
import re, struct
from vlib import died, Raw, tla_value

KINDS = [("still skipping comments", "comment"), ("unterminated string literal", "string"), ("unterminated resource", "resource"),
         ("raw string terminator", "raw"), ("raw string", "raw"), ("illegal byte", "illegal"), ("bad base-", "badint"),
         ("bad float", "badfloat"), ("backslash in line comment", "backslash"), ("precision loss", "precision")]

FRAGS = {
    "strings": ['"', "[", "]", "\\", "a", " ", '{"', '"}', "\n"],
    "comments": ["/", "*", "\n", "!", "\\", "a", '"', " "],
    "numbers": ["0", "x", "1", "9", ".", "e", "-", "_", "f"],
    "puncts": ["<", ">", "=", "&", "|", "?", "~", "!", ":", "[", "."],
    "puncts2": ["*", "+", "-", "%", "^", "/", "{", "}", ";", ",", "=", "#"],
    "layout": ["\t", " ", "\n", "\\", "ab", "\r", "#", "in", "("],
    "raw": ["@", '"', "(", ")", "{", "}", "a", "\n", "'", "\\"],
    "crcomments": ["//", "/", "\\", "\r", "\n", "a", "/*", "*/"],
    "crstrings": ['"', "\\", "\r", "\n", "a", "[", "]", '{"', '"}'],
    "crraw": ["@", '"', "{", "}", "\r", "\n", "a", "'"],
    "crdirectives": ["#", "warn", " ", "\r", "\n", "a", "\\"],
    "directives": ["#", "warn", " ", "\n", "x", "error", "\\", "'"],
    "directive brackets": ["#", "warn", "\n", "[", "]", "x", "\""],
}
PIECES = ["abc", "in", "_x9", "if", "proc", "12", "0", "007", "0x1F", "0xabc", "1.5", "3.", "1e5", "2.5e-3", "1E+2", "1_000", "123456789", "4294967296",
          "16777217", "1.#INF", "1.#IND", "089", '"plain"', '"a\\"b"', '"x[y]z"', '"[a][b]"', '"a[ "n[1]" ]b"', "{\"multi\nline \"quoted\" [x] end\"}",
          '"esc \\[ \\] \\n"', "'icons/a.dmi'", "'it\\'s'", '@"raw \\ [x]"', '@{"raw " block"}', "@(END)body)END", "@#hash#", "// line\n", "/// doc line\n",
          "//! inner\n", "/* block */", "/** doc */", "/*! inner */", "/* a /* nested */ b */", "/* multi\n line */", "\\\n", "\\\n\t ", "\n", "\n\t", "\n\t\t",
          "\n    ", " ", "\t", "\r\n", "#define ", "\n#warn some text here\n", "\n#warn a[1] b]\n", "\n#error see list[x", "\n#error oh, it's \"bad\"\n", "(", ")", "[", "]", "{", "}", ";", ",", ".", "..", "...",
          "::", ":=", "?.", "?:", "?[", "<<=", ">>=", "<=>", "%%=", "&&=", "||=", "**", "~!", "~=", "!=", "##", "<>", "->", "=", "==", "+", "++", "-", "--",
          "$", "`", "/", "//\\\n x\n", '"line \\\n   cont"', "a?b:c", "a ? b : c", "x[1]", "list(1,2)"]


# Bytes beyond ASCII: to the machine each is a character of no meaning, written as a control character in the model's text.
HIGH = {0xC3: "\x01", 0xA9: "\x02", 0xE2: "\x03", 0x98: "\x04", 0x83: "\x05", 0xE9: "\x06", 0xFC: "\x0e"}
model = lambda t: "".join(HIGH.get(b, chr(b)) for b in (t if isinstance(t, bytes) else t.encode()))
BACK = {v: k for k, v in HIGH.items()}
real = lambda t: bytes(BACK.get(x, ord(x)) for x in t)


def decoded(s):
    """Text is UTF-8, or if it is not, Latin-1."""
    b = real(s)
    try:
        return b.decode()
    except UnicodeDecodeError:
        return b.decode("latin-1")


FOREIGN = ['"\u00e9"', '"a [b] \u2603[c]\u2603"', "'\u00e9.dmi'", "// \u2603\n", "/// \u00e9\n", "/* \u2603\n */", "/** \u00e9 */", "\u00e9", "x\u2603y", '@"\u2603"',
           b'"\xe9"', b'"\xc3"', b'"\xe9 [a] \xfc"', b"// \xe9\n", b"'\xfc'", b'{"\xe9\n"}', b"/// \xe9\n", b"\xe9", b"a\xfc", "\n#warn \u00e9 x\n", b"\n#error \xe9\n"]


def f32(lex):
    v = {"inf": float("inf"), "nan": float("nan")}.get(lex)
    if v is None:
        v = float(lex)
        try:
            v = struct.unpack("f", struct.pack("f", v))[0]
        except OverflowError:
            v = float("inf")
    return v


def same(w, g):
    if w["k"] == "float" or w["k"] == "bigint":
        if w["k"] == "bigint" and int(w["s"]) < 2 ** 31:
            return g[0] == "int" and g[1] == str(int(w["s"]))
        if g[0] != "float":
            return False
        got = struct.unpack("f", struct.pack("I", int(g[1])))[0]
        want = f32(w["s"])
        return got == want or (got != got and want != want)
    return [w["k"], decoded(w["s"])] == g[:2]


def kinds(errs):
    out = []
    for d, _ in errs:
        out.append(next((k for s, k in KINDS if s in d), "other: " + d))
    return out


def compare(c, group, items):
    obs = c.replay([{"k": "lex", "bytes": list((b"\xef\xbb\xbf" if e.get("bom") else b"") + real(t))} for t, e in items])
    for (text, e), o in zip(items, obs):
        c.count(group, len(e["toks"]) >= 3, text)
        d = died(o)
        if d or o.get("over"):
            c.fail(f"lexing did not end: {d}", text, e["status"], o); continue
        if e["status"] == "open":
            continue
        want = [t for t in e["toks"]]
        got = o["toks"]
        errs = kinds(o["errs"])
        if e["status"] == "eofcomment":      # nothing is promised after an unterminated comment but the diagnostic
            if "comment" not in errs or got[:len(want)] and not all(same(w, g) for w, g in zip(want, got)):
                c.fail("unterminated comment", text, e, o)
            continue
        big = any(t["k"] == "bigint" for t in want)
        unterminated = any(x in ("string", "raw", "resource") for x in e["errs"])
        ok = len(want) == len(got)
        if ok:
            for i, (w, g) in enumerate(zip(want, got)):
                if [w["l"], w["c"]] != g[2:]:
                    ok = False
                elif not same(w, g) and not (unterminated and w["k"] in ("str", "ib", "ip", "ie", "res")):
                    ok = False
        if not ok:
            c.fail("tokens differ", text, [[t["k"], t["s"], t["l"], t["c"]] for t in want], got); continue
        we, ge = sorted(set(e["errs"])), sorted(set(errs) - ({"precision"} if big else set()))
        if we != ge:
            c.fail("diagnostics differ", text, we, o["errs"]); continue
        if len(want) > 6:
            c.sample(text, want, got)


def run(c):
    n = 4 if c.quick else 5
    for name, fr in FRAGS.items():
        em = c.tlc("Lexer", {"Mode": "gen", "Frags": Raw("{" + ", ".join(tla_value(f) for f in fr) + "}"), "MaxFrags": n}, properties=("Progress",))
        compare(c, f"{name}: all texts of at most {n} fragments", [(e["text"], e) for e in em])
    cases = []
    for _ in range(6000 if c.quick else 60000):
        t = "".join(c.rng.choice(PIECES) + c.rng.choice(["", "", " ", "\n"]) for _ in range(c.rng.randint(1, 14)))
        if c.rng.random() < .2:
            t = t.replace("\r", "").replace("\n", "\r\n")
        if c.rng.random() < .1:
            parts = [c.rng.choice(FOREIGN if c.rng.random() < .5 else PIECES) for _ in range(c.rng.randint(1, 10))]
            t = "".join(model(x) + c.rng.choice([" ", "\n"]) for x in parts)
        cases.append({"text": t})
    em = c.tlc("Lexer", {"Mode": "cases", "Frags": set(), "MaxFrags": 0}, cases=cases)
    compare(c, "random texts", [(cases[e["cid"] - 1]["text"], e | {"bom": c.rng.random() < .1}) for e in em])
    return c.finish("a behaviour is the lexing of one text; non-trivial when it has at least three tokens", exhaustive=False)
