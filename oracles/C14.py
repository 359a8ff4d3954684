"""C14: lookups on random directory trees."""
import os
from util import *

RULE = "random directory trees with layer.conf files at random places, every file and directory looked up; trivial when there is no layer.conf"
SEG = ["a", "b", "conf", "recipes", "classes", "x.bb"]
NAMES = ["f.inc", "classes/c.bbclass", "recipes/f.inc", "conf/layer.conf", "a/f.inc", "a", "nope"]


def gen(rng):
    dirs = set()
    for _ in range(rng.randint(1, 5)):
        dirs.add("/".join(rng.choice(SEG[:5]) for _ in range(rng.randint(1, 4))))
    files = set()
    allp = set()
    for d in dirs:
        p = d.split("/")
        for i in range(len(p) + 1):
            allp.add("/".join(p[:i]))
    for d in sorted(allp):
        if rng.random() < 0.4:
            files.add((d + "/" if d else "") + "conf/layer.conf")
        if rng.random() < 0.6:
            files.add((d + "/" if d else "") + rng.choice(NAMES[:3] + ["r.bb", "r.bb"]))
    return {"dirs": sorted(dirs), "files": sorted(files), "names": pick(rng, NAMES, 1, 3), "rel": rng.random() < 0.3, "layerconfdir": rng.random() < 0.1}


def trivial(c):
    return not any(f.endswith("conf/layer.conf") for f in c["files"])


def run(c, tmp):
    for d in c["dirs"]:
        os.makedirs(os.path.join(tmp, d), exist_ok=True)
    for f in c["files"]:
        p = os.path.join(tmp, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.isdir(p):
            with open(p, "w") as o:
                o.write("")
    old = os.getcwd()
    os.chdir(tmp)
    try:
        base = "" if c["rel"] else tmp
        st = stash()
        places = [""] + sorted({"/".join(p.split("/")[:i]) for p in c["dirs"] + c["files"] for i in range(1, len(p.split("/")) + 1)})

        def nearest(d):
            """d: directory relative to tmp; (found, path)"""
            if d == "":
                return None
            if not os.path.isdir(os.path.join(tmp, d)):
                return None
            up = d.rpartition("/")[0]
            if os.path.exists(os.path.join(tmp, up, "conf", "layer.conf")):
                return up
            return nearest(up)

        def full(p):
            return os.path.join(base, p) if p else base
        for p in places + [x + "/gone" for x in places if x] + [x + "/gone/too.bb" for x in places if x]:
            if not p:
                continue
            d = p.rpartition("/")[0] if os.path.isfile(os.path.join(tmp, p)) else p
            exp = nearest(d)
            exp = "" if exp is None else full(exp)
            got = st.GetLayerRoot(full(p))
            if got != exp:
                return "GetLayerRoot(%r) gives %r instead of %r" % (full(p), got, exp)
            if os.path.isdir(os.path.join(tmp, d)):
                for n in c["names"]:
                    if os.path.exists(os.path.join(tmp, d, n)):
                        e = os.path.join(full(d), n)
                    else:
                        r = nearest(d)
                        e = "" if r is None or not os.path.exists(os.path.join(tmp, r, n)) else os.path.join(full(r), n)
                    got = st.FindLocalOrLayer(n, full(d))
                    if got != e:
                        return "FindLocalOrLayer(%r, %r) gives %r instead of %r" % (n, full(d), got, e)
        for p in ("/", "//", "///", "", "/dev/null", "/dev", "nope", ".", "..", "/nope/nope"):
            st.GetLayerRoot(p)
            st.FindLocalOrLayer("gone", p)
        return None
    finally:
        os.chdir(old)
