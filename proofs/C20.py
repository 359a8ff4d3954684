"""C20: cyclic includes and inherits do not stop parsing."""
from proofs.common import *
from proofs import addfile

ASSUMPTIONS = ["paths use / as separator and a file has one name (no links on the file system)",
               "the files reachable from a file are finitely many: each reading inside another one is of a file that was not being read, so the readings nest only finitely deep",
               "the parser adds files only through AddFile and keeps what is in the stash (contract of get_items, by induction over the files not being read)"]
TRUSTED = ["contracts: get_items (returns normally: C01; keeps the marks and the entries of the tables: by induction), __is_append_for (C10), AddDistroMachineFromLayer (C11, C14), _clear_cached (C06), Item.__repr__ (C22)"]
NOTE = "for any file, any state of the stash and any number of entries in its tables; every extension the code tells apart"


def parse(it, b):
    F = it.ctx.ghost["file"]
    st = it.ctx.ghost["stash"]
    it.ctx.prove("parses-the-file-itself", it.eq(b["_file"], F))
    it.ctx.prove("file-is-marked-while-it-is-read", it.contains(st.fields["_Stash__active_files"], F))
    act = addfile.term(it, st, "active_files")
    it.ctx.prove("files-being-read-stay-marked", act == z3.Store(z3.Const("active_files", act.sort()), sterm(F), True))
    if it.ctx.ghost["ext"] == ".bbclass":
        it.ctx.prove("class-is-known-while-it-is-read", it.contains(st.fields["_Stash__seen_classes"], F))
    return addfile.reads(it, b)


def unit(ext, linked, seen):
    def run(P):
        addfile.program(P, parse)
        addfile.a_file(P, ext)
        addfile.appendfor(P)
        addfile.loops(P)

        def thunk(it):
            st = addfile.build(it)
            F = addfile.the_file()
            it.ctx.ghost.update(stash=st, file=F, ext=ext)
            k = z3.String("some_key")
            d = lambda n: it.force(st.fields["_Stash__" + n])
            it.ctx.assume(z3.Implies(z3.Select(d("appends").dom, k), z3.Select(d("lastline").dom, k)))
            link = text("link") if linked else None
            it.ctx.assume(z3.Select(addfile.term(it, st, "seen_files"), sterm(F)) == seen)
            cover(it, "add")
            was = {n: addfile.term(it, st, n) for n in ("active_files", "seen_files", "seen_classes", "list")}
            got = it.force(it.call(it.getattr(st, "AddFile"), [text(addfile.GIVEN)], dict(forcedLink=link, lineOffset=z3.Int("offset"))))
            f = sterm(F)
            now = {n: addfile.term(it, st, n) for n in was}
            active, known, classes = (z3.Select(was[n], f) for n in ("active_files", "seen_files", "seen_classes"))
            again = ext in (".inc", ".bb", ".conf", ".bbclass")
            skip = z3.Or(active, classes, z3.And(known, z3.BoolVal(not again)))
            calls = it.ctx.ghost.get("calls", 0)
            it.ctx.prove("parsed-once-unless-being-read", z3.If(skip, z3.BoolVal(calls == 0), z3.BoolVal(calls == 1)))
            it.ctx.prove("marks-as-before", now["active_files"] == was["active_files"])
            res = it.to_term(TList(ITEM), it.force(got))
            if calls:
                cover(it, "parsed")
                it.ctx.prove("all-items-are-present", now["list"] == z3.Concat(it.ctx.ghost["list"], z3.Const("res", res.sort())))
                it.ctx.prove("answers-the-items", res == z3.Const("res", res.sort()))
            else:
                cover(it, "skipped")
                it.ctx.prove("nothing-is-added", now["list"] == was["list"])
                it.ctx.prove("answers-nothing", res == z3.Empty(res.sort()))
        return P.run("AddFile" + ext, thunk)
    return ("AddFile[%s%s%s]" % (ext or "none", ",linked" if linked else "", ",seen" if seen else ""), run)


def units(tier):
    slow = (".bb", ".bbappend")
    return [unit(e, l, s) for e in sorted(addfile.EXTS, key=lambda e: e not in slow) for l in (True, False) for s in (False, True)]
