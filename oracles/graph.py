"""Files that include, inherit and append each other, with a reference reader."""
import os
from util import *

NAMES = ["r0.bb", "r1_1.0.bb", "i0.inc", "i1.inc", "i2.inc", "c0.bbclass", "c1.bbclass", "c2.bbclass", "r0.bbappend", "r1_%.bbappend", "%.bbappend"]


def plain(n):
    """./x is x"""
    return n[2:] if n.startswith("./") else n


def path(n):
    return "classes/" + n if n.endswith(".bbclass") else n


def gen_graph(rng, appends=True, recipes=2):
    names = NAMES[2 - recipes:2] if recipes < 2 else NAMES[:2]
    names = names + [n for n in NAMES[2:8]] + (NAMES[8:] if appends else [])
    # recipe names of the appends are those of the recipes
    files = {}
    for n in names:
        st = []
        for _ in range(rng.randint(0, 4)):
            k = rng.random()
            if k < 0.45:
                st.append(["v", rng.choice(["one", "one", "cont", "func", "py", "comment", "blank", "comments"])])
            elif k < 0.75:
                st.append(["i", rng.choice(["", "", "", "./"]) + rng.choice(["i0.inc", "i1.inc", "i2.inc", n if n.endswith(".inc") else "i0.inc", "missing.inc"]), rng.choice(["include", "require"])])
            elif k < 0.95:
                st.append(["c", pick(rng, ["c0", "c1", "c2", "missing"], 1, 2), rng.choice(["inherit", "inherit", "inherit_defer"])])
            else:
                st.append(["c", pick(rng, ["c0", "c1", "c2"], 1, 2), "INHERIT"])
        if not st and rng.random() < 0.7:
            st.append(["v", "one"])
        files[n] = st
    roots = [n for n in names if n.endswith((".bb", ".bbappend"))]
    order = [n for n in roots if rng.random() < 0.8] or [roots[0]]
    rng.shuffle(order)
    if rng.random() < 0.2:
        order.append(rng.choice(names))
    return {"files": files, "order": order}


def shrink_graph(c):
    for n in list(c["files"]):
        for i in range(len(c["files"][n])):
            f = dict(c["files"])
            f[n] = f[n][:i] + f[n][i + 1:]
            yield dict(c, files=f)
    for i in range(len(c["order"])):
        if len(c["order"]) > 1:
            yield dict(c, order=c["order"][:i] + c["order"][i + 1:])


def render(n, st):
    out = ""
    for k, s in enumerate(st):
        t = "%s_%d" % (n.split(".")[0].replace("%", "x").upper().replace("_", ""), k)
        if s[0] == "v":
            out += {"one": '%s = "1"\n', "cont": '%s = "a \\\n   b \\\n  c"\n', "func": "do_%s() {\n  a\n  b\n}\n", "py": "def f%s(a):\n    pass\n    return\n", "comment": "# %s\n",
                    "blank": "\n", "comments": "# a %s\n# b\n# c\n"}[s[1]].replace("%s", t)
        elif s[0] == "i":
            out += "%s %s\n" % (s[2], s[1])
        else:
            out += ('INHERIT += "%s"\n' if s[2] == "INHERIT" else s[2] + " %s\n") % " ".join(s[1])
    return out


def setup(c, tmp):
    files = {path(n): render(n, st) for n, st in c["files"].items()}
    files["conf/layer.conf"] = ""
    # files are found next to the including file or at the root of the layer
    write(os.path.join(tmp, "layer"), {"conf/layer.conf": ""})
    root = os.path.join(tmp, "layer")
    write(root, {("classes/" if n.endswith(".bbclass") else "recipes/") + n: render(n, st) for n, st in c["files"].items()})
    # includes of a class are looked up next to the class or at the root
    write(root, {n: render(n, st) for n, st in c["files"].items() if n.endswith(".inc")})
    return root


class Reader:
    """what a reader of the files sees: (file, statement) in order"""

    def __init__(self, c, root):
        self.c, self.root = c, root
        self.classes, self.seen, self.active = set(), set(), set()
        self.direct, self.parsed = {}, []

    def where(self, n, frm):
        if n.endswith(".bbclass"):
            return os.path.join(self.root, "classes", n)
        d = os.path.dirname(frm) if frm else os.path.join(self.root, "recipes")
        p = os.path.join(d, n)
        if os.path.dirname(p) == os.path.join(self.root, "classes"):
            p = os.path.join(self.root, n)
        return p

    def add(self, f, out, frm=None):
        n = os.path.basename(f)
        if frm:
            self.direct.setdefault(frm, set()).add(f)
        self.direct.setdefault(f, set())
        if f in self.classes or f in self.active or f in self.seen and n.endswith(".bbappend"):
            return
        self.seen.add(f)
        self.parsed.append(f)
        if n.endswith(".bbclass"):
            self.classes.add(f)
        self.active.add(f)
        for k, s in enumerate(self.c["files"][n]):
            out.append((f, k))
            if s[0] == "i" and plain(s[1]) in self.c["files"]:
                self.add(self.where(plain(s[1]), f), out, f)
            elif s[0] == "c":
                for x in s[1]:
                    if x + ".bbclass" in self.c["files"]:
                        self.add(self.where(x + ".bbclass", f), out, f)
        self.active.discard(f)


def appended(a, r):
    a, r = os.path.basename(a)[:-len(".bbappend")], os.path.basename(r)[:-3]
    return a == r or a == "%" or a.endswith("%") and r.startswith(a[:-1])
