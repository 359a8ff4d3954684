"""C12: names built from known parts."""
from util import *

RULE = "file names built from a known directory, affixes, stem, version, rest and extension; trivial when there is neither affix nor version"
CH = "abz019+.-~%A"
STEM = ["", "native", "cross", "nativesdk", "a-native-b", "nativesdkfoo", "x-crossfoo", "foo-nativ", "cros", "-", "a-", "foo.bar", "linux-yocto", "n", "tivesdk-"]


def gen(rng):
    def w(lo, hi, cs=CH):
        return "".join(rng.choice(cs) for _ in range(rng.randint(lo, hi)))
    stem = rng.choice(STEM) + w(0, 3) + rng.choice(STEM)
    ver = rng.choice([None, None, "", "1.0", "git", w(1, 4), "1.0-native", "nativesdk-1"])
    rest = rng.choice([None, "", "r1", "a_b", w(0, 3)]) if ver is not None else None
    return {"dir": rng.choice(["", "/", "/a/b/", "/x_1.0/nativesdk-y_2/", "/a.b_c-native/", "rel/"]), "pre": rng.choice(["", "nativesdk-"]), "stem": stem,
            "post": rng.choice(["", "-native", "-cross"]), "ver": ver, "rest": rest, "ext": rng.choice(["bb", "bbappend", "inc", "b-native", "conf"])}


def trivial(c):
    return not c["pre"] and not c["post"] and c["ver"] is None


def run(c, tmp):
    stem = c["stem"]
    if not stem or stem.startswith((".", "nativesdk-")) or stem.endswith(("-native", "-cross")):
        return None
    # affixes must not arise where the parts meet
    if (c["post"] and not c["pre"] and (stem + c["post"]).startswith("nativesdk-")) or (c["pre"] and not c["post"] and (c["pre"] + stem).endswith(("-native", "-cross"))):
        return None
    if (stem + c["post"]).startswith("nativesdk-"):
        return None
    if c["post"] == "-native" and (stem).endswith("-cross") or c["post"] == "-cross" and stem.endswith("-native"):
        return None
    name = c["pre"] + stem + c["post"]
    f = c["dir"] + name + ("" if c["ver"] is None else "_" + c["ver"]) + ("" if c["rest"] is None else "_" + c["rest"]) + "." + c["ext"]
    st = stash()
    got = (st.GuessRecipeName(f), st.GuessBaseRecipeName(f), st.GuessRecipeVersion(f))
    exp = (name, stem, c["ver"])
    if got != exp:
        return "%r gives %r instead of %r" % (f, got, exp)
    return None
