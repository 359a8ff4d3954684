"""C18: facts derived about a recipe, from generated statements."""
import os
import re
from util import *

RULE = "recipes with an include, an append, a class and an unrelated recipe, with random statements; trivial without inherit, package or resource statements"
CLS = ["core-image", "image", "packagegroup", "nopackagegroup", "packagegroups", "cmake", "image-live", "own-image", "own-imagex", "myimage"]
VARS = ["PACKAGES", "PACKAGE_BEFORE_PN", "PACKAGES_DYNAMIC", "SRC_URI", "PACKAGES_X", "IMAGE_FEATURES", "IMAGE_INSTALL", "IMAGEX", "OWN_IMG"]
PK = ["${PN}", "${PN}-tools", "extra", "lib${PN}", "${BPN}-x", "^foo-.*", "^${PN}-locale-.*", "f(oo|u)", "bar-[a-c]", "x", "${UNKNOWN}-y", "${OTHER}", "git://h/r;name=src", "git://h/r;name=${PN}-n;branch=x",
      "file://a.patch", "git://h/r;branch=name", "https://h/a.tgz;name=second;name=third", "git://h/r;names=no", "svn://u@h/x;module=m;name=mod", "foo-bar", "foo"]
NAMES = ["foo-bar", "foo-locale-de", "foo", "fu", "bar-b", "barb", "x", "${PN}-locale-x", "extra", "OTHER", "q", ""]
SEP = [" ", "  ", "\t", " \\\n  "]
OPS = [" = ", " += ", " ?= ", "=", " .= ", ":append = ", ":append:foo = "]


def gen(rng):
    st = []
    for _ in range(rng.randint(1, 7)):
        where = rng.choice(["r", "r", "r", "inc", "app", "cls", "other"])
        k = rng.random()
        if k < 0.4:
            st.append([where, "inherit", rng.choice(["inherit", "inherit", "inherit_defer"]), pick(rng, CLS, 1, 3)])
        else:
            st.append([where, "var", rng.choice(VARS), rng.choice(OPS), pick(rng, PK, 0, 4), rng.choice(SEP)])
    return {"st": st, "name": rng.choice(["foo_1.0", "foo-native_2", "foo"]), "consts": rng.random() < 0.4, "other": rng.random() < 0.5}


def trivial(c):
    return not c["st"]


def shrink(c):
    for i in range(len(c["st"])):
        yield dict(c, st=c["st"][:i] + c["st"][i + 1:])


def run(c, tmp):
    from oelint_parser.constants import CONSTANTS
    pn = c["name"].split("_")[0]
    pv = (c["name"].split("_") + ["1.0"])[1]
    files = {"rec/%s.bb" % c["name"]: "", "rec/%s.bbappend" % c["name"]: "", "rec/part.inc": "", "classes/shared.bbclass": "", "rec/zz_1.bb": "", "conf/layer.conf": ""}
    key = {"r": "rec/%s.bb" % c["name"], "app": "rec/%s.bbappend" % c["name"], "inc": "rec/part.inc", "cls": "classes/shared.bbclass", "other": "rec/zz_1.bb"}
    files[key["r"]] = "require part.inc\ninherit shared\n"
    if c["other"]:
        files[key["r"]] += 'OTHER = "oth"\n'
    for s in c["st"]:
        if s[1] == "inherit":
            files[key[s[0]]] += "%s %s\n" % (s[2], " ".join(s[3]))
        else:
            files[key[s[0]]] += '%s%s"%s"\n' % (s[2], s[3], s[5].join(s[4]))
    write(tmp, files)
    s = stash()
    if c["consts"]:
        CONSTANTS.AddConstants({"images": {"known-classes": ["own-image"], "known-variables": ["OWN_IMG"]}})
    icls, ivars = list(CONSTANTS.ImagesClasses), list(CONSTANTS.ImagesVariables)
    f = os.path.join(tmp, key["r"])
    for k in ("r", "app", "other"):
        s.AddFile(os.path.join(tmp, key[k]))
    s.Finalize()

    def exp(t, keep=()):
        known = {"PN": pn, "PV": pv, "BPN": re.sub(r"-native$", "", pn)}
        if c["other"]:
            known["OTHER"] = "oth"
        return re.sub(r"\$\{(.+?)\}", lambda m: m.group(0) if m.group(1) in keep else known.get(m.group(1), m.group(0)), t)
    vis = [x for x in c["st"] if x[0] != "other"]
    inh = [y for x in vis if x[1] == "inherit" for y in x[3]] + ["shared"]
    var = lambda n: [y for x in vis if x[1] == "var" and x[2] == n for y in x[4]]

    def same(what, got, want):
        if got != want:
            return "%s gives %r instead of %r" % (what, got, want)
    std = {n + x for n in ("${PN}", pn) for x in ("", "-ptest", "-src", "-dbg", "-staticdev", "-dev", "-doc", "-locale")}
    pk = [exp(x, ("PN",)) for x in var("PACKAGES") + var("PACKAGE_BEFORE_PN")]
    opts = [[o.split("=", 1) for o in u.split(";")[1:] if "=" in o] for u in var("SRC_URI")]
    names = {pn} | {dict((a, b) for a, b in o)["name"].replace("${PN}", pn) for o in opts if any(a == "name" for a, b in o)}
    dyn = {exp(x) for x in var("PACKAGES_DYNAMIC")}
    r = (same("IsImage", s.IsImage(f), any(x in icls for x in inh) or any(x[1] == "var" and x[2] in ivars for x in vis))
         or same("IsPackageGroup", s.IsPackageGroup(f), "packagegroup" in inh)
         or same("GetValidPackageNames", set(s.GetValidPackageNames(f)), std | {p.replace("${PN}", n) for p in pk for n in ("${PN}", pn)})
         or same("GetValidPackageNames stripped", set(s.GetValidPackageNames(f, strippn=True)), std | {p.replace("${PN}", "") for p in pk})
         or same("GetValidNamedResources", set(s.GetValidNamedResources(f)), names)
         or same("GetPackagesDynamic", set(s.GetPackagesDynamic(f)), dyn))
    if r:
        return r
    for n in NAMES:
        def hits(p):
            try:
                return re.match(p, exp(n)) is not None
            except re.error:
                return False
        w = any(hits(p) for p in dyn)
        r = same("IsDynamicPackage(%r)" % n, s.IsDynamicPackage(f, n), w)
        if r:
            return r
    return None
