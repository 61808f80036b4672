"""P34: the generated documentation (spec/Handbook.tla)."""
import concurrent.futures
import html.parser
import os
import random
import re
import shutil
import subprocess
import tempfile
import vlib

NATIVE = ["datum", "atom", "atom/movable", "obj", "mob", "turf", "area", "world", "client", "list"]
NATIVE_VARS = [("atom", "desc"), ("atom", "icon"), ("atom/movable", "screen_loc"), ("mob", "key"), ("world", "fps")]
NATIVE_PROCS = [("datum", "New"), ("atom", "Click"), ("atom/movable", "Move"), ("mob", "Login"), ("", "abs"), ("", "viewers")]
INPUTS = ["mob", "obj", "text", "num", "file", "turf", "key", "null", "area", "icon", "sound", "message", "anything", "password", "command_text", "color"]
MANY = {"movable": ["mob", "obj"], "atom": ["mob", "obj", "turf", "area"]}
OF = {"mob": "mob", "obj": "obj", "turf": "turf", "area": "area", "movable": "atom/movable", "atom": "atom", "list": "list"}
NAMES = ["ant", "bee", "cat", "dog"]


class Gen:
    def __init__(self, r):
        self.r, self.items, self.files, self.text, self.n, self.docs = r, [], [], {}, 0, []
        self.line = {}
        self.used = set()
        self.refs = []

    def word(self):
        self.n += 1
        return f"w{self.n}"

    # ---- documentation
    def doc(self, p=.7, paras=None, titles=.2, refs=True):
        """[title or None, paragraphs of tokens]"""
        r = self.r
        if r.random() > p:
            return (None, [])
        n = paras or r.choice([1, 1, 1, 2, 2, 3])
        title = None
        if r.random() < titles:
            w = self.word()
            title = r.choice([(w, w)] * 3 + [(f"{w} & {w}x", f"{w} & {w}x"), (f"*{w}* b", f"{w} b"), (f"`{w}`", w), (f"{w} < 3", f"{w} < 3"), (f"**{w}** s \"q\"", f"{w} s \"q\"")])
        ps = []
        for _ in range(n):
            toks = [self.word()]
            for _ in range(r.choice([0, 0, 1, 2]) if refs else 0):
                toks.append(self.ref())
                if r.random() < .5:
                    toks.append(self.word())
            ps.append(toks)
        return (title, ps)

    def ref(self):
        ref = {"k": "?", "text": self.word() + " t" if self.r.random() < .3 else ""}
        self.refs.append(ref)
        return ref

    def path(self, some=.7):
        r = self.r
        if self.used and r.random() < some:
            p = r.choice(sorted(self.used))
            if r.random() < .2:
                p = p.rsplit("/", 1)[0] if "/" in p else p
            elif r.random() < .2:
                p += "/" + r.choice(NAMES)
            return p
        return "/".join([r.choice(["obj", "obj", "mob", "datum", "zed", "turf", "atom"])] + [r.choice(NAMES) for _ in range(r.choice([0, 1, 1, 2]))])

    def settle(self):
        """What the crosslinks are to."""
        r = self.r
        vs = [(i["path"], i["name"], i["k"]) for i in self.items if i["k"] in ("var", "proc")]
        ms = [i["name"] for i in self.items if i["k"] == "macro"]
        fs = [f["name"] for f in self.files if f["kind"] == "md" or f["name"].endswith(".dm")]
        ts = ["/".join(i["path"]) for i in self.items if i["k"] == "type"]
        split = lambda p: p.split("/") if p else []
        for ref in self.refs:
            x = r.random()
            ref.update(path=[], name="")
            if x < .15:
                ref["k"], ref["name"] = "macro", r.choice(ms or ["M1"])
                ref["src"] = ref["name"]
                if ref["name"] not in ms:
                    ref["k"] = "word"
            elif x < .3:
                f = r.choice(fs + ["code/none.dm", "code/none.md"])
                ref["k"], ref["src"] = "file", f
                ref["path"] = module(f)
            elif x < .6:
                p = r.choice(ts) if ts and r.random() < .6 else self.path()
                ref["k"], ref["path"], ref["src"] = "type", p.split("/"), "/" + p
            elif x < .88:
                k = r.choice(["var", "proc", "short"])
                if r.random() < .15:
                    k0, (p, n) = r.choice([("var", v) for v in NATIVE_VARS] + [("proc", v) for v in NATIVE_PROCS])
                    k = k0 if k != "short" or not p else k
                elif vs and r.random() < .8:
                    p, n, k0 = r.choice(vs); p = "/".join(p)
                    if k != "short" and r.random() < .9:
                        k = k0
                    if r.random() < .2 and p:
                        p += "/" + r.choice(NAMES)
                else:
                    p, n = self.path(), r.choice(["v1", "p1", "p9"])
                if k == "short" and not p:
                    k = "word"
                ref["k"], ref["path"], ref["name"] = k, split(p), n
                mid = {"var": "/var/", "proc": r.choice(["/proc/", "/proc/", "/verb/"]), "short": "/", "word": ""}[k]
                ref["src"] = ("/" + p if p else "") + mid + n
                if k == "word":
                    ref["src"] = n
            else:
                gv = [n for p, n, k in vs if not p and k == "var"]
                ref["k"], ref["name"] = "word", r.choice(gv + ["nothing", "v9"])
                ref["src"] = ref["name"]
            if ref["k"] == "word":
                ref["path"] = []

    # ---- files
    def put(self, f, line):
        self.text[f].append(line)
        return len(self.text[f])

    def add(self, k, f, path="", name="", decl=False, doc=(None, []), to="", **more):
        split = lambda p: p.split("/") if p else []
        it = {"k": k, "file": f, "path": split(path), "name": name, "decl": decl, "doc": doc, "to": split(to), **more}
        self.items.append(it)
        return it

    def comments(self, f, indent, doc, mark="///"):
        """Placed once what they link to is known."""
        self.text[f].append((indent, doc, mark))

    def declare(self, f, indent, k, path, prefix=""):
        r = self.r
        name = r.choice(["v1", "v2", "v3", "x1"] if k == "var" else ["p1", "p2", "p3", "x1"])
        if path and path not in NATIVE and r.random() < .1:
            name = r.choice(["desc", "icon"] if k == "var" else ["New", "Click"])
        if (path, k, name) in self.seen:
            return
        self.seen.add((path, k, name))
        decl = not path or (r.random() < .5 and name[0] in "vpx" and len(name) == 2)
        doc = self.doc(.6)
        self.comments(f, indent, doc)
        info = []
        if k == "var":
            typ, flags = "", ""
            if decl:
                flags = r.choice(["", "", "static/", "const/", "tmp/", "static/const/"])
                typ = r.choice(["", "", "list", self.path(), "list/" + self.path()])
                src = f"{prefix}var/{flags}{typ + '/' if typ else ''}{name}" + (" = 1" if "const" in flags or r.random() < .3 else "")
            else:
                src = f"{prefix}{name} = {r.choice(['1', 'null', chr(34) + 's' + chr(34)])}"
            inp = self.inputs(.15) if decl and " = 1" not in src else ""
            it = self.add("var", f, path, name, decl, doc, typ=typ, flags=flags, inp=inp)
            src += inp
            self.put(f, (it, "\t" * indent + src))
        else:
            params = []
            for i in range(r.choice([0, 0, 1, 2])):
                params.append((r.choice(["", self.path()]), f"a{i}", self.inputs(.3)))
            ps = ", ".join((t + "/" + n if t else n) + i for t, n, i in params)
            word = r.choice(["proc", "proc", "verb"]) if path and decl else "proc" if decl else ""
            ret = self.path() if decl and r.random() < .2 else ""
            how = r.choice(["as", "set"])
            inp = self.inputs(.2, ["list"]) if decl and not ret else ""
            it = self.add("proc", f, path, name, decl, doc, params=params, word=word, ret=ret, inp=inp)
            self.put(f, (it, "\t" * indent + f"{prefix}{word + '/' if word else ''}{name}({ps})" + (f" as /{ret}" if ret and how == "as" else "") + inp))
            if r.random() < .1:
                self.put(f, "\t" * (indent + 1) + "set waitfor = 0")
            if ret and how == "set":
                self.put(f, "\t" * (indent + 1) + f"set SpacemanDMM_return_type = /{ret}")
            self.put(f, "\t" * (indent + 1) + "return")

    def inputs(self, p, more=()):
        r = self.r
        if r.random() > p:
            return ""
        return " as " + "|".join(r.choice([r.sample(INPUTS + list(more), r.choice([1, 1, 2, 3])), ["mob", "obj"], ["turf", "mob", "obj", "area"], ["movable"], ["atom", "num"]]))

    def dm(self, f):
        r = self.r
        for _ in range(r.choice([0, 1, 2, 3, 4, 5])):
            x = r.random()
            if x < .2:
                doc = self.doc(1, titles=.35)
                self.comments(f, 0, doc, "//!")
                it = self.add("note", f, doc=doc)
            elif x < .4:
                n = r.choice(["M1", "M2", "M3", "M4"])
                if (f, n) in self.seen:
                    continue
                self.seen.add((f, n))
                doc = self.doc(.6)
                if r.random() < .3:
                    self.put(f, "#undef " + n) if n in self.defd else 0
                if n in self.defd:
                    continue
                self.defd.add(n)
                self.comments(f, 0, doc)
                args = r.choice(["", "", "(a)", "(a, b)", "(a, rest...)"])
                it = self.add("macro", f, name=n, doc=doc, args=args)
                self.put(f, (it, f"#define {n}{args} 1"))
            elif x < .8:
                p = self.path(.3)
                self.used.add(p)
                if p in self.open:
                    continue
                self.open.add(p)
                doc = self.doc(.6)
                self.comments(f, 0, doc)
                it = self.add("type", f, p, doc=doc)
                self.put(f, (it, "/" + p))
                if r.random() < .4 and p not in NATIVE and p.split("/")[0] in ("obj", "mob", "turf", "atom"):
                    w = self.word()
                    v, shown = r.choice([(w, w), ("\\improper " + w, w), ("\\proper " + w, w), (w + " & <b>", w + " & <b>"), (w + "  c", w + " c")])
                    self.add("name", f, p, name=shown)
                    self.put(f, f'\tname = "{v}"')
                    self.seen.add((p, "var", "name"))
                if r.random() < .15 and p not in NATIVE and self.parents:
                    to = r.choice(self.parents)
                    self.add("parent", f, p, to=to)
                    self.put(f, f"\tparent_type = /{to}")
                for _ in range(r.choice([0, 0, 1, 2, 3])):
                    self.declare(f, 1, r.choice(["var", "proc"]), p)
                if p not in NATIVE and not any(i["k"] == "parent" and "/".join(i["path"]) == p for i in self.items) and p.split("/")[0] == "obj" and p.count("/") == 1:
                    self.parents.append(p)
            elif x < .9:
                p = self.path()
                self.used.add(p)
                self.declare(f, 0, r.choice(["var", "proc"]), p, f"/{p}/")
            else:
                self.declare(f, 0, r.choice(["var", "proc"]), "", "/")
            if r.random() < .3:
                self.put(f, "")

    def project(self):
        r = self.r
        self.seen, self.defd, self.open, self.parents = set(), set(), set(), []
        dms = r.sample(["code/ant.dm", "code/bee.dm", "code/sub/cat.dm", "code/sub/a-b.dm", "code/sub/a.dm", "code/sub/a/x.dm", "mods/dog.dm", "top.dm", "code/ant-x.dm", "code/ant/y.dm"], r.choice([1, 2, 3, 4]))
        mds = r.sample(["code/guide.md", "code/README.md", "code/sub/readme.md", "code/ant.md", "code/notes.txt", "code/.git/x.md", "other/y.md", "mods/Readme.txt", "code/sub/a/z.md", "code/.z.md", "mods/a/b/c.txt"], r.choice([0, 0, 1, 2, 3]))
        self.names = ["x.dme"] + dms + mds
        kinds = {f: "dm" if f[-3:] in (".dm", "dme") else "md" for f in self.names}
        for f in self.names:
            self.text[f] = []
            self.files.append({"name": f, "module": module(f), "top": f.split("/")[0], "hidden": any(b.startswith(".") for b in f.split("/")), "kind": kinds[f]})
        for f in mds:
            txt = f.endswith(".txt")
            doc = self.doc(1, titles=0 if txt else .4, refs=not txt)
            self.add("page", f, doc=doc)
        order = r.sample(dms, len(dms))
        inc = {}
        self.put("x.dme", "/world")
        self.put("x.dme", '\tname = "World <1>"')
        for f in order:
            self.put("x.dme", f'#include "{f.replace("/", chr(92)) if r.random() < .3 else f}"')
            self.dm(f)
        if r.random() < .3:
            self.dm("x.dme")
        self.settle()
        config = {}
        if r.random() < .25:
            config["use_typepath_names"] = "true"
        tops = sorted({f.split("/")[0] for f in self.names if "/" in f})
        dirs = []
        if r.random() < .25:
            dirs = r.sample(tops, r.randint(1, len(tops))) if tops else []
            if dirs:
                config["module_directories"] = "[" + ", ".join(f'"{d}"' for d in dirs) + "]"
        index = 0
        if mds and r.random() < .3:
            index = self.names.index(r.choice(mds)) + 1
            config["index_file"] = f'"{self.names[index - 1]}"'
        self.config = config
        self.write()
        case = {"files": [{k: f[k] for k in ("module", "top", "hidden", "kind")} for f in self.files], "dirs": dirs, "index": index,
                "items": [{"k": i["k"], "file": self.names.index(i["file"]) + 1, "path": i["path"], "name": i["name"], "decl": i["decl"], "to": i["to"],
                           "doc": {"title": i["doc"][0] is not None, "paras": len(i["doc"][1]),
                                   "refs": [{k: t[k] for k in ("k", "path", "name")} for p in i["doc"][1] for t in p if isinstance(t, dict)]}} for i in self.items]}
        return case

    def write(self):
        """The files' text."""
        r = self.r
        self.out = {}
        para = lambda p: "".join((r.choice([" ", " ", "\n"]) if i else "") + x for i, x in enumerate(t if isinstance(t, str) else (f"[{t['text']}]" if t["text"] else "") + f"[{t['src']}]" for t in p))
        pages = {i["file"]: i["doc"] for i in self.items if i["k"] == "page"}
        for f in self.names:
            lines = []
            for l in self.text[f]:
                if isinstance(l, str):
                    lines.append(l)
                elif len(l) == 2:
                    lines.append(l[1]); l[0]["line"] = len(lines)
                else:
                    indent, (title, ps), mark = l
                    body = (["# " + title[0]] if title else [])
                    for i, p in enumerate(ps):
                        body += ([""] if i or (title and r.random() < .5) else []) + para(p).split("\n")
                    if body and r.random() < .3 and mark == "///":
                        lines += ["\t" * indent + x for x in ["/**"] + [" * " + b for b in body] + [" */"]]
                    elif body and r.random() < .3:
                        lines += ["\t" * indent + ("/*!" if mark == "//!" else "/**")] + ["\t" * indent + b for b in body] + ["\t" * indent + "*/"]
                    else:
                        lines += ["\t" * indent + mark + (" " + b if b else "") for b in body]
                    if mark == "//!":
                        lines.append("")
            if f in pages:
                title, ps = pages[f]
                body = "\n\n".join((["# " + title[0]] if title else []) + [para(p) for p in ps])
                self.out[f] = body + r.choice(["\n", "\n", ""])
            else:
                self.out[f] = "\n".join(lines) + "\n"
        if self.config:
            self.out["SpacemanDMM.toml"] = "[dmdoc]\n" + "".join(f"{k} = {v}\n" for k, v in self.config.items())


def module(f):
    parts = f.split("/")
    base = parts[-1].rsplit(".", 1)[0]
    return parts[:-1] + ([] if base.lower() == "readme" else [base])


# ------------------------------------------------------------------ pages
class Dom(html.parser.HTMLParser):
    VOID = {"meta", "link", "img", "br", "hr", "base"}

    def __init__(self, text):
        super().__init__()
        self.root = ["", {}, []]
        self.stack = [self.root]
        self.bad = None
        self.feed(text); self.close()

    def handle_starttag(self, tag, attrs):
        n = [tag, dict(attrs), []]
        self.stack[-1][2].append(n)
        if tag not in self.VOID:
            self.stack.append(n)

    def handle_endtag(self, tag):
        if tag in self.VOID:
            return
        if self.stack[-1][0] != tag:
            self.bad = f"</{tag}> closes <{self.stack[-1][0]}>"
            while len(self.stack) > 1 and self.stack[-1][0] != tag:
                self.stack.pop()
        if len(self.stack) > 1:
            self.stack.pop()

    def handle_data(self, data):
        self.stack[-1][2].append(data)


def find(n, tag):
    for ch in n[2]:
        if not isinstance(ch, str):
            if ch[0] == tag:
                yield ch
            yield from find(ch, tag)


def text(n):
    return n if isinstance(n, str) else "".join(map(text, n[2]))


def squeeze(s):
    return " ".join(s.split())


def words(ns, href=None):
    """Words, and where they lead."""
    out, glue = [], False
    for n in ns:
        if isinstance(n, str):
            out += [(w, href) for w in n.split()]
        else:
            out += words(n[2], n[1].get("href") if n[0] == "a" else href)
    return out


def paragraphs(ns):
    """The title and paragraphs of rendered text."""
    title, out = None, []
    for n in ns:
        if isinstance(n, str):
            if n.strip():
                out.append(words([n]))
        elif n[0] == "h1" and title is None and not out:
            title = squeeze(text(n))
        else:
            out.append(words([n]))
    return title, out


URLS = [("https://h.org/x/y.git", "https://h.org/x/y"), ("https://h.org/x/y", "https://h.org/x/y"), ("http://h.org/x/y/", "http://h.org/x/y"), ("https://h.org/x/y.git/", "https://h.org/x/y"),
        ("ssh://git@h.org/x/y.git", "https://git@h.org/x/y"), ("git@h.org:x/y.git", "https://h.org/x/y"), ("git@h.org:y", "https://h.org/y"), ("/srv/y.git", None)]
STATES = ["none", "same", "behind", "ahead", "apart", "detached", "alone"]


def repositories(base):
    """Histories the project may be part of."""
    out = []
    for n, (url, web) in enumerate(URLS):
        for state in STATES:
            d = os.path.join(base, f"git-{n}-{state}")
            if state == "none":
                out.append({"state": state, "dir": os.path.join(base, "nogit"), "rev": "", "web": None})
                continue
            env = {k: v for k, v in os.environ.items() if not k.startswith("GIT_")}
            env.update(GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a",
                       GIT_AUTHOR_DATE="1700000000 +0000", GIT_COMMITTER_DATE="1700000000 +0000")
            def git(*a, inp=None):
                p = subprocess.run(["git", "--git-dir", d, *a], env=env, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if p.returncode:
                    raise vlib.ToolError(f"git {a}: {p.stderr}")
                return p.stdout.strip()
            subprocess.run(["git", "init", "-q", "--bare", "-b", "main", d], env=env, check=True)
            git("config", "core.bare", "false")
            tree = git("hash-object", "-t", "tree", "-w", "--stdin", inp="")
            a = git("commit-tree", tree, "-m", "a")
            b = git("commit-tree", tree, "-p", a, "-m", "b")
            x = git("commit-tree", tree, "-p", a, "-m", "x")
            mine, theirs = {"same": (b, b), "behind": (a, b), "ahead": (b, a), "apart": (x, b), "detached": (b, b), "alone": (b, b)}[state]
            git("update-ref", "refs/heads/main", mine)
            git("config", "remote.origin.url", url)
            git("config", "remote.origin.fetch", "+refs/heads/*:refs/remotes/origin/*")
            if state != "alone":
                git("update-ref", "refs/remotes/origin/trunk", theirs)
                git("config", "branch.main.remote", "origin")
                git("config", "branch.main.merge", "refs/heads/trunk")
            if state == "detached":
                git("update-ref", "--no-deref", "HEAD", mine)
            out.append({"state": state, "dir": d, "rev": mine, "web": web})
    return out


def run_one(binary, g, base, git):
    d = tempfile.mkdtemp(prefix="dmdoc-", dir=base)
    try:
        for f, t in g.out.items():
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fh:
                fh.write(t)
        env = dict(os.environ, GIT_DIR=git["dir"], GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", RUST_BACKTRACE="0")
        def go(*a):
            return subprocess.run([binary, "-e", "x.dme", *a], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, preexec_fn=vlib._limits)
        dry = go("--dry-run")
        p = go("--output", "out")
        pages = {}
        for root, _, fs in os.walk(os.path.join(d, "out")):
            for f in fs:
                if f.endswith(".html"):
                    full = os.path.join(root, f)
                    with open(full) as fh:
                        pages[os.path.relpath(full, os.path.join(d, "out"))] = fh.read()
        return {"rc": p.returncode, "err": p.stderr, "out": p.stdout, "pages": pages, "dry": dry.returncode, "dryerr": dry.stderr}
    except subprocess.TimeoutExpired:
        return {"rc": "hang", "err": "", "out": "", "pages": {}, "dry": 0, "dryerr": ""}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def href_of(t):
    p = "/".join(t["path"])
    if t["k"] == "file":
        return p + ".html"
    if t["k"] == "macro":
        return f"{p}.html#define/{t['name']}"
    return (p or "global") + ".html" + ("" if t["k"] == "type" else f"#{t['k']}/{t['name']}")


def plainly(s):
    """The kinds of input in a description, one by one."""
    return re.sub(r"\bas (\w+(?: \| \w+)*)", lambda m: "as " + "|".join(sorted({y for x in m[1].split(" | ") for y in MANY.get(x, [x])})), squeeze(s).replace("|", " | ").replace("  ", " "))


def repeated(s):
    """Whether a description says the same twice."""
    for m in re.finditer(r"\bas (\w+(?: \| \w+)*)", squeeze(s).replace("|", " | ").replace("  ", " ")):
        xs = [y for x in m[1].split(" | ") for y in MANY.get(x, [x])]
        if len(xs) != len(set(xs)):
            return True
    return False


def as_links(s, pages):
    return [OF[x] + ".html" for m in re.finditer(r" as (\w+(?: \| \w+)*)", s) for x in m[1].split(" | ") if x in OF and OF[x].split("/") in pages]


class Judge:
    def __init__(self, g, case, e, o, base, git):
        self.g, self.case, self.e, self.o, self.git = g, case, e, o, git
        self.base = base
        self.doms = {f: Dom(t) for f, t in o["pages"].items()}

    def doc(self, n, whole=True):
        """What item n's documentation says: (title, paragraphs of (word, where))."""
        it = self.g.items[n - 1]
        title, ps = it["doc"]
        links = iter(self.e["links"][n - 1])
        out = []
        for p in ps:
            row = []
            for t in p:
                if isinstance(t, str):
                    row.append((t, None)); continue
                l = next(links)
                src = (f"[{t['text']}]" if t["text"] else "") + f"[{t['src']}]"
                shown = t["text"] or t["src"]
                k = l["to"]["k"]
                if k == "none":
                    row += [(w, None) for w in src.split()]
                elif k == "either":
                    row += [("?", (src.split(), shown.split()))]
                elif k == "outside":
                    row += [(w, "outside") for w in shown.split()]
                else:
                    row += [(w, href_of(l["to"])) for w in shown.split()]
            out.append(row)
        return (squeeze(title[1]) if title else None), out

    @staticmethod
    def same(want, got):
        got = list(got)
        for w, h in want:
            if w == "?":
                src, shown = h
                if [x[0] for x in got[:len(shown)]] == shown and all(x[1] for x in got[:len(shown)]):
                    got = got[len(shown):]
                elif [x[0] for x in got[:len(src)]] == src:
                    got = got[len(src):]
                else:
                    return False
                continue
            if not got:
                return False
            gw, gh = got.pop(0)
            if gw != w or (h == "outside" and not (gh or "").startswith("http")) or (h != "outside" and gh != h):
                return False
        return not got

    def docs(self, want, got, what):
        """want: list of paragraphs; got likewise."""
        if len(want) != len(got) or not all(self.same(a, b) for a, b in zip(want, got)):
            return f"the text {what} is {got}, not {want}"

    def teaser(self, n):
        it = self.g.items[n - 1]
        t, ps = self.doc(n)
        titled = it["k"] in ("type",)
        if t is not None and not titled:
            return []
        return ps[0] if ps else []

    # ---- everything
    def judge(self):
        g, e, o = self.g, self.e, self.o
        if o["rc"] != 0:
            return f"dmdoc failed: {o['rc']} {o['err'][-300:]}"
        for f, d in self.doms.items():
            if d.bad:
                return f"{f} is not well formed: {d.bad}"
        want = {"index.html"} | {"/".join(m["module"]) + ".html" for m in e["modules"]} | {("/".join(p) or "global") + ".html" for p in e["pages"]}
        if set(o["pages"]) != want:
            return f"pages {sorted(set(o['pages']) - want)} should not be there, {sorted(want - set(o['pages']))} should"
        for step in (self.links, self.places, self.said, self.counts, self.index, self.modules, self.types):
            bad = step()
            if bad:
                return bad

    def links(self):
        ids = {f: {n[1]["id"] for n in self.nodes(d.root) if "id" in n[1]} for f, d in self.doms.items()}
        for f, d in self.doms.items():
            base = [n for n in find(d.root, "base")]
            up = base[0][1]["href"] if base else ""
            if up != "../" * f.count("/"):
                return f"the links on {f} are relative to {up!r}"
            body = next(find(d.root, "main"))
            for a in find(body, "a"):
                h = a[1].get("href", "")
                if h.startswith("http"):
                    continue
                page, _, frag = h.partition("#")
                if page not in ids:
                    return f"{f} links to {h}, which is not there"
                if frag and frag not in ids[page]:
                    return f"{f} links to {h}, but {page} has no such part"

    def places(self):
        """Places lead to the text on the web, if it is there."""
        rev, web = self.git["rev"], self.git["web"]
        for f, d in self.doms.items():
            main = next(find(d.root, "main"))
            linked = {id(i): a[1].get("href", "") for a in find(main, "a") for i in find(a, "img")}
            for i in find(main, "img"):
                file, _, line = i[1]["title"].partition(" ")
                want = f"{web}/blob/{rev}/{file}" + (f"#L{line}" if line else "") if self.e["web"] and web else None
                if linked.get(id(i)) != want:
                    return f"{f}: the place {i[1]['title']} leads to {linked.get(id(i))}, not {want}"
            foot = next(find(d.root, "footer"))
            tree = [a[1]["href"] for a in find(foot, "a") if "/tree/" in a[1]["href"]]
            if tree != ([f"{web}/tree/{rev}"] if self.e["web"] and web else []):
                return f"{f}: the text leads to {tree}"

    def nodes(self, n):
        for ch in n[2]:
            if not isinstance(ch, str):
                yield ch
                yield from self.nodes(ch)

    def said(self):
        """Which crosslinks are said to be wrong, and where."""
        g, e = self.g, self.e
        want, may = set(), set()
        for i, it in enumerate(g.items):
            refs = [t for p in it["doc"][1] for t in p if isinstance(t, dict)]
            for t, l in zip(refs, e["links"][i]):
                if it["k"] == "macro":
                    who = "#define " + it["name"]
                elif it["k"] in ("note", "page"):
                    who = "file " + "/".join(module(it["file"]))
                    if self.case["index"] and g.names[self.case["index"] - 1] == it["file"]:
                        who = "file index"
                else:
                    who = "".join("/" + b for b in it["path"]) + ("" if it["k"] == "type" else f"/{it['k']}/{it['name']}")
                (may if l["to"]["k"] == "either" else want).add((who, t["src"])) if l["to"]["k"] == "either" or l["said"] else 0
        for err in (self.o["err"], self.o["dryerr"]):
            got, who = set(), None
            for line in err.splitlines():
                m = re.match(r"    \[(.*?)\]: ", line)
                if m:
                    got.add((who, m.group(1)))
                elif line.endswith(":"):
                    who = line[:-1]
                    if who in g.names:
                        who = "file index" if self.case["index"] and g.names[self.case["index"] - 1] == who else "file " + "/".join(module(who))
            if got - may != want - may:
                return f"crosslinks {sorted(map(str, want - got - may))} are not said to be wrong, {sorted(map(str, got - want - may))} are"
        if (self.o["dry"] != 0) != bool(got):
            return f"the dry run ends with {self.o['dry']} for {len(got)} wrong crosslinks"

    def counts(self):
        e = self.e
        m = re.search(r"documenting (\d+) modules, (\d+)/(\d+) macros \([^)]*\), (\d+)/(\d+)/(\d+) types", self.o["out"])
        if not m:
            return f"no counts in {self.o['out']!r}"
        got = list(map(int, m.groups()))
        want = [len(e["modules"]), e["macros"], e["defines"] + self.base[0], len(e["pages"]), len(e["types"]), e["fresh"] + self.base[1]]
        if got != want:
            return f"counts {got}, not {want}"

    def name(self, p):
        """How the type at p is called."""
        t = next(t for t in self.e["types"] if t["path"] == p)
        if t["doc"]:
            title = self.doc(t["doc"][0])[0]
            if title is not None:
                return title
        if t["named"] and "use_typepath_names" not in self.g.config:
            return squeeze(self.g.items[t["named"][0] - 1]["name"])

    def index(self):
        g, e = self.g, self.e
        main = next(find(self.doms["index.html"].root, "main"))
        part, parts = [], {}
        key = "top"
        for n in main[2]:
            if not isinstance(n, str) and n[0] == "h3" and n[1].get("id") in ("modules", "types") and "Modules " + "Types " and n[2] and text(n).split()[0] in ("Modules", "Types"):
                parts[key] = part; part, key = [], n[1]["id"]
            else:
                part.append(n)
        parts[key] = part
        top = parts["top"]
        h1 = squeeze(text(top[0]))
        title = "World <1>"
        if self.case["index"]:
            n = next(i + 1 for i, it in enumerate(g.items) if it["k"] == "page" and it["file"] == g.names[self.case["index"] - 1])
            t, ps = self.doc(n)
            title = t or title
            if g.items[n - 1]["file"].endswith(".txt"):
                ps = [[x for p in ps for x in p]]
            bad = self.docs(ps, paragraphs(top[1:])[1], "of the index page")
            if bad:
                return bad
        elif paragraphs(top[1:])[1]:
            return "the index page has text"
        if h1 != title:
            return f"the index page is called {h1!r}, not {title!r}"
        # what is listed
        def walk(n, above, out):
            for li in n[2]:
                kids = [ch for ch in li[2]]
                pre = ""
                own, teaser, sub = None, [], None
                for ch in kids:
                    if isinstance(ch, str):
                        teaser.append(ch)
                    elif own is None and ch[0] == "span" and "title" not in ch[1]:
                        pre = text(ch)
                    elif own is None:
                        own = ch
                    elif ch[0] == "ul" and "index-tree" in ch[1].get("class", ""):
                        sub = ch
                    else:
                        teaser.append(ch)
                t = own[1]["title"]
                out.append((t, own[1].get("href"), squeeze(text(own)), words(teaser), above, pre))
                if sub:
                    walk(sub, above + [t], out)
            return out
        for key in ("modules", "types"):
            got = []
            for n in parts.get(key, []):
                if not isinstance(n, str) and n[0] == "ul":
                    walk(n, [], got)
            want = {}
            if key == "modules":
                for m in e["modules"]:
                    full = "/".join(m["module"])
                    docs = next((r for r in m["rows"] if r["k"] == "docs"), None)
                    t, teaser = None, []
                    if docs:
                        t, ps = self.merged(docs["of"])
                        teaser = ps[0] if ps and not self.plain(docs["of"][0]) else []
                    want[full] = (full + ".html", t or full.split("/")[-1], teaser)
            else:
                for ty in e["types"]:
                    full = "".join("/" + b for b in ty["path"]) or "(global)"
                    label = self.name(ty["path"]) or full.split("/")[-1]
                    want[full] = ((full.strip("/()") + ".html") if ty["page"] else None, label, self.teaser(ty["doc"][0]) if ty["doc"] else [])
            seen = set()
            for t, href, label, teaser, above, pre in got:
                if t in seen:
                    return f"{t} is listed twice"
                seen.add(t)
                if any(not t.startswith(x + "/") for x in above):
                    return f"{t} is listed under {above}"
                if t not in want:
                    if href or teaser:
                        return f"{t} is listed but not documented"
                    continue
                wh, wl, wt = want[t]
                if href != wh or label != wl:
                    return f"{t} is listed as {label!r} leading to {href}, not as {wl!r} leading to {wh}"
                if not self.same(([("-", None)] if wt else []) + wt, teaser):
                    return f"{t} is listed as {teaser}, not {wt}"
            for t in want:
                if t not in seen:
                    return f"{t} is not listed"
            for t, *_, above, pre in got:
                for u in seen:
                    if t.startswith(u + "/") and u not in above:
                        return f"{t} is not listed under {u}"

    def plain(self, n):
        return self.g.items[n - 1]["k"] == "page" and self.g.items[n - 1]["file"].endswith(".txt")

    def merged(self, ns):
        """Several pieces of text about one file."""
        title, out = None, []
        for i, n in enumerate(ns):
            t, ps = self.doc(n)
            if t is not None:
                if i == 0:
                    title = t
                else:
                    out.append([(w, None) for w in t.split()])
            out += [[x for p in ps for x in p]] if self.plain(n) else ps
        return title, out

    def modules(self):
        g, e = self.g, self.e
        for m in e["modules"]:
            full = "/".join(m["module"])
            main = next(find(self.doms[full + ".html"].root, "main"))
            kids = main[2]
            title = None
            table = next(n for n in kids if not isinstance(n, str) and n[0] == "table")
            got = [[n for n in tr[2] if not isinstance(n, str)] for tr in table[2]]
            if len(got) != len(m["rows"]):
                return f"{full} has {len(got)} rows, not {len(m['rows'])}"
            first = True
            for tr, row in zip(got, m["rows"]):
                if row["k"] == "docs":
                    t, ps = self.merged(row["of"])
                    gt, gp = paragraphs([x for n in tr for x in n[2]])
                    if first:
                        title = t
                        bad = self.docs(ps, gp, f"of {full}")
                    else:
                        bad = self.docs(([[(w, None) for w in t.split()]] if t else []) + ps, ([[(w, None) for w in gt.split()]] if gt else []) + gp, f"of {full}")
                    first = False
                    if bad:
                        return bad
                    continue
                n = row["of"][0]
                it = g.items[n - 1]
                if len(tr) != 2:
                    return f"{full} has text in place of {it['name']}"
                p = "".join("/" + b for b in it["path"])
                if row["k"] == "type":
                    want = p
                    ty = next(t for t in e["types"] if t["path"] == it["path"])
                    leads = [("/".join(it["path"][:n2]) + ".html") for n2 in ty["linked"]]
                    hs = [a[1]["href"] for a in find(tr[0], "a")]
                    if hs != ([leads[-1]] if ty["page"] else leads):
                        return f"{full}: {p} leads to {hs}"
                else:
                    want = {"macro": it["name"], "var": f"/var/{it['name']}", "proc": f"/proc/{it['name']}"}[row["k"]]
                    h = {"macro": f"{full}.html#define/{it['name']}", "var": f"global.html#var/{it['name']}", "proc": f"global.html#proc/{it['name']}"}[row["k"]]
                    if [a[1]["href"] for a in find(tr[0], "a")] != [h]:
                        return f"{full}: {want} does not lead to {h}"
                if squeeze(text(tr[0])) != want:
                    return f"{full}: {squeeze(text(tr[0]))} in place of {want}"
                if not self.same(self.teaser(n), words(tr[1][2])):
                    return f"{full}: {want} is {words(tr[1][2])}, not {self.teaser(n)}"
            h1 = [n for n in kids if not isinstance(n, str) and n[0] == "h1"][0]
            icon = next(find(h1, "img"))[1]["title"]
            files = [f for f in g.names if module(f) == m["module"]]
            if icon not in files or squeeze(text(h1)) != squeeze((title or "") + " " + icon):
                return f"{full} is called {squeeze(text(h1))!r}, not {title!r}"
            sect = self.sections(kids[kids.index(table) + 1:])
            want = {f"define/{g.items[n - 1]['name']}": n for r in m["rows"] if r["k"] == "macro" for n in r["of"]}
            bad = self.parts(sect, want, full)
            if bad:
                return bad

    def sections(self, kids):
        out, cur = [], None
        for n in kids:
            if not isinstance(n, str) and n[0] == "h2" and n[1].get("id") in ("var", "proc", "define") and squeeze(text(n)).endswith("Details"):
                cur = None
            elif not isinstance(n, str) and n[0] == "h3" and re.match("(var|proc|define)/", n[1].get("id", "")):
                cur = (n[1]["id"], n, []); out.append(cur)
            elif cur:
                cur[2].append(n)
        return out

    def parts(self, sect, want, full):
        g, e = self.g, self.e
        if [s[0] for s in sect] != sorted(want, key=lambda k: (["var", "proc", "define"].index(k.split("/")[0]), k)):
            return f"{full} has parts {[s[0] for s in sect]}, not {sorted(want)}"
        ups = {u["item"]: u["up"] for u in e["ups"]}
        for key, h3, body in sect:
            n = want[key]
            it = g.items[n - 1]
            t, ps = self.doc(n)
            gt, gp = paragraphs(body)
            if gt != t:
                return f"{full}: {key} is headed {gt!r}, not {t!r}"
            bad = self.docs(ps, gp, f"of {key} on {full}")
            if bad:
                return bad
            icon = next(find(h3, "img"))[1]["title"]
            if icon != f"{it['file']} {it['line']}":
                return f"{full}: {key} is said to be at {icon}, not {it['file']} {it['line']}"
            asides = [a for a in h3[2] if not isinstance(a, str) and a[0] == "aside"]
            decl = next((squeeze(text(a)) for a in asides if a[1].get("class") == "declaration"), "")
            up = next((a for a in asides if a[1].get("class") == "parent"), None)
            if it["k"] == "macro":
                if squeeze(text(h3)) != squeeze("#define " + it["name"] + it["args"].replace("...", " ...")):
                    return f"{full}: {squeeze(text(h3))!r} in place of {it['name']}{it['args']}"
                continue
            if decl != ("" if not it["decl"] else "var" if it["k"] == "var" else it["word"]):
                return f"{full}: {key} is declared as {decl!r}"
            w = ups.get(n, [])
            h = [a[1]["href"] for a in find(up, "a")] if up else []
            if h != ([f"{'/'.join(w)}.html#{key}"] if w else []):
                return f"{full}: {key} leads up to {h}, not {w}"
            rest = [a for a in asides if "class" not in a[1]]
            if it["k"] == "var":
                if not it["decl"]:
                    continue
                flags = [f for f in it["flags"].split("/") if f]
                if not flags and not it["typ"] and not it["inp"]:
                    if rest:
                        return f"{full}: {key} has a type"
                    continue
                s = squeeze(text(rest[0])).lstrip("\u2013 ")
                w = "".join("/" + f for f in flags) + ("/" + it["typ"] if it["typ"] else "") + it["inp"]
                if plainly(s) != plainly(w) or repeated(s):
                    return f"{full}: {key} is {s}, not {w}"
                hs = self.paths([it["typ"]] if it["typ"] else []) + as_links(" " + s, e["pages"])
                if [a[1]["href"] for a in find(rest[0], "a")] != hs:
                    return f"{full}: the type of {key} does not lead to {hs}"
            else:
                kids = [k for k in rest[0][2] if isinstance(k, str) or k[0] != "img" and not list(find(k, "img"))]
                s = squeeze(text(["", {}, kids]))
                w = "(" + ", ".join((f"/{a}/{b}" if a else b) + i for a, b, i in it["params"]) + ")" + (f" as /{it['ret']}" if it["ret"] else it["inp"])
                if plainly(s) != plainly(w) or repeated(s):
                    return f"{full}: {key} takes {s}, not {w}"
                hs = self.paths([a for a, _, _ in it["params"] if a] + ([it["ret"]] if it["ret"] else [])) + as_links(s, e["pages"])
                if sorted(a[1]["href"] for a in find(["", {}, kids], "a")) != sorted(hs):
                    return f"{full}: the types of {key} do not lead to {hs}"

    def paths(self, ps):
        """Where paths lead: each documented part to its page."""
        out = []
        for p in ps:
            bits = p.split("/")
            if bits[0] == "list":
                bits = bits[1:]
            out += ["/".join(bits[:i]) + ".html" for i in range(1, len(bits) + 1) if bits[:i] in self.e["pages"]]
        return out

    def types(self):
        g, e = self.g, self.e
        for ty in e["types"]:
            if not ty["page"]:
                continue
            p = ty["path"]
            full = "/".join(p) or "global"
            main = next(find(self.doms[full + ".html"].root, "main"))
            kids = main[2]
            h1 = kids[0]
            name = self.name(p)
            if p and name is None and "use_typepath_names" in g.config:
                name = p[-1]
            want = squeeze((name + " " if name else "") + ("/" + full if p else "")) if p else "(global)"
            asides = [squeeze(text(a)) for a in find(h1, "aside")]
            got = squeeze(text(h1))
            inh = " inherits " + "".join("/" + b for b in ty["inherits"]) if ty["inherits"] else ""
            if got != want + inh:
                return f"{full} is called {got!r}, not {want + inh!r}"
            items = [i for i in g.items if i["k"] == "type" and i["path"] == p]
            icon = [i[1]["title"] for i in find(h1, "img")]
            if items and p and "/".join(p) not in NATIVE and icon != [f"{items[0]['file']} {items[0]['line']}"]:
                return f"{full} is said to be at {icon}, not {items[0]['file']} {items[0]['line']}"
            table = next((i for i, n in enumerate(kids) if not isinstance(n, str) and n[0] == "table" and n[1].get("class") == "summary"), len(kids))
            t, ps = paragraphs(kids[1:table])
            bad = self.docs(self.doc(ty["doc"][0])[1] if ty["doc"] else [], ps, f"of {full}")
            if bad:
                return bad
            members = {f"{g.items[m - 1]['k']}/{g.items[m - 1]['name']}": m for m in ty["members"]}
            rows = []
            for tr in (kids[table][2] if table < len(kids) else []):
                cells = [n for n in tr[2] if not isinstance(n, str)]
                if len(cells) == 2:
                    rows.append((next(find(cells[0], "a"))[1]["href"], words(cells[1][2])))
            wantr = [(f"{full}.html#{k}", self.teaser(members[k])) for k in sorted(members, key=lambda k: (k.startswith("proc"), k))]
            if [r[0] for r in rows] != [w[0] for w in wantr]:
                return f"{full} lists {[r[0] for r in rows]}, not {[w[0] for w in wantr]}"
            for (h, got), (_, w) in zip(rows, wantr):
                if not self.same(w, got):
                    return f"{h} is {got}, not {w}"
            bad = self.parts(self.sections(kids[table + 1:]), members, full)
            if bad:
                return bad


def run(c):
    r = random.Random(c.seed)
    base = tempfile.mkdtemp(prefix="dmdoc-run-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        return check(c, r, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def check(c, r, base):
    gits = repositories(base)
    gens, cases, at = [], [], []
    for _ in range(1500 if c.quick else 20000):
        g = Gen(r)
        at.append(r.choice(gits))
        cases.append({**g.project(), "git": at[-1]["state"]}); gens.append(g)
    split = lambda p: tuple(p.split("/")) if p else ()
    em = []
    for k in range(0, len(cases), 5000):
        for e in c.tlc("Handbook", {"Native": {split(p) for p in NATIVE}, "NativeVars": {(split(p), n) for p, n in NATIVE_VARS},
                                    "NativeProcs": {(split(p), n) for p, n in NATIVE_PROCS}}, cases=cases[k:k + 5000], spec="Spec", properties=["Terminates"]):
            e["cid"] += k; em.append(e)
    by = {e["cid"]: e for e in em}
    binary = c.dmdoc()
    empty = Gen(r); empty.names = ["x.dme"]; empty.out = {"x.dme": '/world\n\tname = "World"\n'}
    o = run_one(binary, empty, base, gits[0])
    m = re.search(r"\d+/(\d+) macros .* \d+/\d+/(\d+) types", o["out"])
    if not m:
        c.fail(f"an empty project: {o['rc']} {o['err'][-200:]}", empty.out, None, o)
        return c.finish("", exhaustive=False)
    counts = (int(m.group(1)), int(m.group(2)))
    # Many wrong crosslinks are no success.
    many = Gen(r); many.names = ["x.dme"]
    for n in (1, 255, 256, 257, 512):
        many.out = {"x.dme": "".join(f"/// [nothing{i}]\n/obj/a{i}\n" for i in range(n))}
        o = run_one(binary, many, base, gits[0])
        c.count("many", True, n)
        if o["dry"] == 0 or o["rc"] != 0 or o["err"].count("unknown crosslink") != n:
            c.fail(f"{n} wrong crosslinks end with {o['dry']}", n, None, {k: str(o[k])[:200] for k in ("rc", "dry", "err")})
    with concurrent.futures.ThreadPoolExecutor(vlib.NPROC) as pool:
        outs = pool.map(lambda x: run_one(binary, x[0], base, x[1]), list(zip(gens, at)))
        for i, (g, case, o) in enumerate(zip(gens, cases, outs)):
            e = by[i + 1]
            for t in e["types"]:
                for k in ("doc", "named", "members", "linked"):
                    t[k] = sorted(t[k])
            c.count("projects", len(e["types"]) + len(e["modules"]) > 2, g.out)
            bad = Judge(g, case, e, o, counts, at[i]).judge()
            if bad:
                c.fail(bad, g.out, e, o)
            else:
                c.sample(g.out, e["pages"], sorted(o["pages"]))
    return c.finish("a behaviour is a project whose documentation is generated; trivial when nearly nothing is documented", exhaustive=False)
