"""Random whole programs for spec/ObjTree.tla: statements, source text, comparison."""
from vlib import died

OPERATORS = ["operator" + x for x in ("% %= %% %%= & &= * ** *= / /= + ++ += - -- -= < << <<= <= <=> > >= >> >>= ^ ^= | |= ~ ~= := [] []= " + '""').split()]
NOVAL = {"k": "none", "n": 0, "p": []}


def val(n):
    return {"k": "num", "n": n, "p": []}


def pathval(p, k="path"):
    return {"k": k, "n": 0, "p": p}


class Gen:
    def __init__(self, rng, procs, parents, tops, names="abc", vars=("va", "vb", "vc"), pnames=("pa", "pb"), depth=2):
        if rng.random() < .25:
            pnames = (rng.choice(OPERATORS), *pnames[1:])
        self.rng, self.procs, self.parents, self.tops, self.names, self.vars, self.pnames, self.depth = rng, procs, parents, tops, names, vars, pnames, depth

    def type_path(self, known=()):
        r = self.rng
        p = [*r.choice(self.tops)]
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
            p.append(r.choice(self.names))
        return p

    def stmt(self, path, end="none", v=NOVAL, body=(), abs=False, list=False):
        return {"abs": abs, "path": path, "end": end, "v": v, "body": [*body], "line": 0, "list": list}

    def member(self, pre):
        """A variable or proc entry below the path elements `pre`."""
        r = self.rng
        x = r.random()
        if x < self.parents:
            q = r.random()
            v = pathval(self.type_path()) if q < .8 else pathval(self.type_path(), "str") if q < .95 else val(3)
            return self.stmt(pre + ["parent_type"], "val", v)
        if x < self.parents + (1 - self.parents) * self.procs:
            name = r.choice(self.pnames)
            if r.random() < .45:
                return self.stmt(pre + [r.choice(["proc", "proc", "verb"])] + ["final"] * (r.random() < .15) + [name], "args")
            if r.random() < .15:
                return self.stmt(pre + [r.choice(["proc", "verb"])] + ["final"] * (r.random() < .3), "block",
                                 body=[self.stmt([r.choice(self.pnames)], "args") for _ in range(r.randint(1, 3))])
            return self.stmt(pre + [name], "args")
        name = r.choice(self.vars)
        mods = r.sample(["tmp", "const", "static", "global", "final", "SpacemanDMM_final", "SpacemanDMM_private", "SpacemanDMM_protected"], r.choice([0, 0, 0, 1, 1, 2, 3]))
        ty = self.type_path() if r.random() < .3 else []
        if r.random() < .5:
            if r.random() < .2:
                body = [self.stmt((ty if r.random() < .3 else []) + [r.choice(self.vars)], "val", val(r.randint(0, 99))) for _ in range(r.randint(1, 3))]
                if r.random() < .3:
                    body = [self.stmt([r.choice(["tmp", "const", "static"])], "block", body=body)]
                return self.stmt(pre + ["var"] + mods[:1] + (ty[:1] if r.random() < .4 else []), "block", body=body)
            if r.random() < .15:
                return self.stmt(pre + ["var"] + mods + ty + [name], "none", list=True)
            return self.stmt(pre + ["var"] + mods + ty + [name], "val", val(r.randint(0, 99)), list=r.random() < .1)
        return self.stmt(pre + [name], "val", val(r.randint(0, 99)))

    def body(self, depth):
        r = self.rng
        out = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if depth and x < .3:
                out.append(self.stmt([r.choice(self.names) for _ in range(r.choice([1, 1, 2]))], "block", body=self.body(depth - 1)))
            elif x < .4:
                out.append(self.stmt([r.choice(self.names)], "none"))
            elif x < .44:
                out.append(self.stmt(self.type_path(), "none", abs=True))
            elif x < .48:
                m = self.member(self.type_path())
                m["abs"] = True
                out.append(m)
            elif x < .55:
                out.append(self.member([r.choice(self.names)]))
            else:
                out.append(self.member([]))
        return out

    def program(self, n):
        r = self.rng
        out = []
        for _ in range(n):
            p = self.type_path()
            x = r.random()
            if x < .5:
                s = self.stmt(p, "block", body=self.body(self.depth))
            elif x < .62:
                s = self.stmt(p, "none")
            elif x < .7 and self.vars:
                s = self.member([])
                if s["path"][0] == "parent_type":
                    s = self.stmt(p, "none")
            else:
                s = self.member(p)
            s["abs"] = s["abs"] or r.random() < .8
            out.append(s)
        return out


def render(rng, prog):
    """Source text; fills in the line of every statement."""
    out = []

    def head(s):
        t = ("/" if s["abs"] else "") + "/".join(s["path"]) + "[]" * s["list"]
        if s["end"] == "val":
            v = s["v"]
            p = "/" + "/".join(v["p"])
            t += " = " + (str(v["n"]) if v["k"] == "num" else p if v["k"] == "path" else '"' + p + '"')
        elif s["end"] == "args":
            t += "()" if rng.random() < .8 else "(a, b)"
        return t

    def walk(ss, ind):
        for s in ss:
            pad = "" if braced else "\t" * ind
            out.append(pad + head(s))
            s["line"] = len(out)
            if s["end"] == "block":
                if braced:
                    out[-1] += " {"
                walk(s["body"], ind + 1)
                if braced:
                    out.append("}")
            elif s["end"] == "args" and rng.random() < .7:
                if braced:
                    out[-1] += rng.choice([" { return; }", " return;"])
                else:
                    out.append("\t" * (ind + 1) + "return")
            elif braced:
                out[-1] += ";"
    braced = rng.random() < .3
    walk(prog, 0)
    if braced:                            # escaped newlines, so that only the braces give the structure
        tops = {s["line"] for s in prog}
        return "".join(l + ("\n" if i + 2 in tops or i + 1 == len(out) else " \\\n") for i, l in enumerate(out))
    return "\n".join(out) + "\n"


MESSAGE = {"undef": "undefined var '{}' on type", "badparent": "bad parent type for {}:", "notallowed": "not allowed to change {}/parent_type",
           "nested": "nested absolute path inside", "cycle": "cycle in parent_type of {}", "badvalue": "value of {}/parent_type must be",
           "dup": "duplicate definition of ", "precedes": "override of "}


def member(path):
    """The last name of a path (operators may have slashes of their own)."""
    return "operator/" + path.split("operator/")[1] if "operator/" in path else path.rsplit("/", 1)[1]


def errors(o):
    """Observed errors as (line, class, detail)."""
    out, rest = set(), []
    for l, d, sev, et, col in o["errs"]:
        for k, m in MESSAGE.items():
            a, _, b = m.partition("{}")
            if d.startswith(a) and (b in d):
                if k == "nested":
                    det = ""
                elif k == "dup":
                    det = member(d)
                elif k == "precedes":
                    det = member(d.split(" ")[2])
                    if et != "override_precedes_definition" or sev != "Hint":
                        det += " with severity " + sev
                else:
                    det = d[len(a):].split(b)[0] if b else d[len(a):]
                if k == "undef" and det not in ("va", "vb", "vc"):
                    break                 # built-in variables are not modelled
                out.add((l if k != "cycle" else 0, k, det)); break
        else:
            rest.append([l, d])
    return out, rest


def wanted_errors(e):
    return {(l if k != "cycle" else 0, k, d) for l, k, d in e["errs"]}


def run_programs(c, progs, texts, want_values, want_chains):
    """Model outcomes and observations of every program: (k, [outcome], observation)."""
    em = c.tlc("ObjTree", {}, cases=[{"prog": p} for p in progs])
    by = {}
    for e in em:
        for f in ("values", "chains"):
            e[f].sort(key=lambda v: (v["p"], v["x"]))
        e["types"].sort(key=lambda t: t["p"])
        by.setdefault(e["cid"] - 1, []).append(e)
    reqs = []
    for k in range(len(progs)):
        e = by[k][0]
        reqs.append({"k": "tree", "text": texts[k], "procs": False,
                     "values": [[v["p"], v["x"]] for v in e["values"]] if want_values else [],
                     "chains": [[v["p"], v["x"]] for v in e["chains"]] if want_chains else [],
                     "subtype": [[a["p"], b["p"]] for a in e["types"] for b in e["types"]] if want_values else [],
                     "descend": [t["p"] for t in e["types"]] if want_values else []})
    return [(k, by[k], o) for k, o in enumerate(c.replay(reqs))]
