"""C15: entries put together from known parts."""
from util import *

RULE = "entries put together from a known scheme (or mirror), host, path, query and options; trivial when there are no options and no mirror"
OPTK = ["protocol", "branch", "name", "subdir", "k", "sha256sum", "x-y", "", "a b"]
OPTV = ["https", "master", "a=b", "=", "==", "", "a/b", "${PV}", "x?y", "#1", "a:b", "1.0", "x==y=z", "\xe4", "a&b"]
HOSTS = ["", "a.b", "foo.bar:8080", "user@host", "user:pw@host.org", "HOST", "foo.patch", "${BPN}-1.0.patch", "localhost", "git@github.com:22"]
PATHS = ["", "/", "/a", "/a/b.git", "/${BPN}/${BPN}-${PV}.tar.gz", "/a b", "/x:y", "/a//b", "/.", "/p@q", "/a=b", "/a,b;"[:4], "/~u/x", "/%20", "/foo-[1].patch"]
SCHEMES = ["https", "http", "git", "file", "ftp", "svn", "npm", "gitsm", "crate", "git+ssh", "s3", "az"]


def gen(rng):
    return {"scheme": rng.choice(SCHEMES), "mirror": rng.choice([None, None, rng.randint(0, 99)]), "host": rng.choice(HOSTS), "path": rng.choice(PATHS),
            "query": rng.choice(["", "", "x=1", "p=a/b", "a=b&c=d", "?"]), "frag": rng.choice(["", "", "", "f", "a/b", "a#b"]),
            "opts": [rng.choice([None, None, None, "flag", ""]) if rng.random() < 0.2 else [rng.choice(OPTK), rng.choice(OPTV)] for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))],
            "again": rng.random() < 0.3, "own": rng.choice([None, None, "https://my.mirror/x", "ftp://m"]), "bad": rng.choice([None] * 15 + ["[", "]x[y", "\u2100"])}


def trivial(c):
    return not c["opts"] and c["mirror"] is None


def shrink(c):
    for i in range(len(c["opts"])):
        yield dict(c, opts=c["opts"][:i] + c["opts"][i + 1:])
    for k, v in (("query", ""), ("frag", ""), ("path", ""), ("own", None), ("bad", None), ("mirror", None)):
        if c[k] != v:
            yield dict(c, **{k: v})


def run(c, tmp):
    from oelint_parser.constants import CONSTANTS
    st = stash()
    if c["own"]:
        CONSTANTS.AddConstants({"replacements": {"mirrors": {"${MY_MIRROR}": c["own"]}}})
    ms = sorted(CONSTANTS.MirrorsKnown.items())
    pairs = {}
    tail = ""
    for o in c["opts"]:
        if o is None:
            tail += ";"
        elif isinstance(o, str):
            tail += ";" + o
        else:
            tail += ";" + o[0] + "=" + o[1]
            pairs[o[0]] = o[1]
    rest = c["path"] + ("?" + c["query"] if c["query"] else "") + ("#" + c["frag"] if c["frag"] else "")
    if c["bad"]:
        e = c["scheme"] + "://" + c["host"] + c["bad"] + c["path"] + tail
        got = st.GetScrComponents(e)
        if sorted(got) != ["options", "scheme", "src"] or got["scheme"] or got["src"] or got["options"]:
            # only where the library refuses
            from urllib.parse import urlparse
            try:
                urlparse(e.split(";")[0])
                return None
            except ValueError:
                return "%r gives %r" % (e, got)
        return None
    if c["mirror"] is not None:
        k, v = ms[c["mirror"] % len(ms)]
        v0, *vo = v.split(";")
        pre = {}
        if vo:
            # the path behind a mirror with options belongs to its last option
            return None
        if v0.endswith("/") and rest.startswith("/") or v0.count("/") == 2 and not rest.startswith(("/", "?", "#")) and rest:
            rest = rest.lstrip("/") if v0.endswith("/") else "/x" + rest
        if c.get("again"):
            tail += ";again=" + k + "/y" + k
            pairs["again"] = v + "/y" + v
        e = k + rest + tail
        scheme, src = v0.split("://", 1)
        src += rest
    else:
        e = c["scheme"] + "://" + c["host"] + rest + tail
        scheme, src = c["scheme"], c["host"] + rest
    got = st.GetScrComponents(e)
    exp = {"scheme": scheme, "src": src, "options": pairs}
    if got != exp:
        return "%r gives %r instead of %r" % (e, got, exp)
    return None
