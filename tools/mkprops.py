import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PA="oelint_parser/parser.py"; ST="oelint_parser/cls_stash.py"; IT="oelint_parser/cls_item.py"; IN="oelint_parser/inlinerep.py"; CO="oelint_parser/constants.py"; RX="oelint_parser/rpl_regex.py"
p("C01","Parsing splits a file into items without losing or moving text",
 "For every text file, parsing it returns normally, and the unprocessed source texts of the items it yields, in order, concatenate to exactly the text of the file. Each item's in-file line is the 1-based number of the line its source text starts on. This holds for every mix of continued lines, functions, python blocks and comments, including files that end in the middle of one.",
 ["inputs","programs"],"every text a file may hold, hence every sequence of lines and every place where the file may end",
 "The tests parse a few dozen well-formed snippets and compare selected attributes; none of them compares the concatenation with the file, and unterminated constructs at end of file are not sampled.",
 [PA],[("chunking of lines with look-ahead buffer","prepare_lines, prepare_lines_subparser"),("exactly one item per chunk","get_items")],observe=["RealRaw and InFileLine of the returned items"])
p("C02","Inline python blocks are all replaced, recorded and restorable",
 "After parsing, no item's processed text contains the start of an inline python expression any more, and replacing the recorded blocks one after the other, each at its first occurrence, by their recorded replacements turns the unprocessed source text into the processed one. A recorded block starts at the expression start and ends with the matching closing brace (or the end of the text if there is none). Expanding a value puts exactly the blocks that could not be resolved back in place of their placeholders, and processing terminates for every text.",
 ["inputs","programs"],"every source text, with any number and nesting of inline expressions, balanced or not",
 "The tests use single, balanced expressions; repetition, nesting, imbalance and termination are about all texts.",
 [PA,ST,IN],[("replacement loop","prepare_lines_subparser"),("balanced scope","get_full_scope"),("restoring placeholders","Stash._ReverseInlineBlock")],observe=["InlineBlocks, Raw, RealRaw"])
p("C03","Inline conditionals resolve to the branch that was selected",
 "A call of one of the supported bitbake/OE conditional helpers (contains, contains_any, conditional, ifelse, any_distro_features, all_distro_features, vartrue, less_or_equal, version_less_or_equal) with plain quoted arguments resolves to the unquoted value of its true argument, or of its false argument when negative expansion was selected. both_contain gives its check value and filter gives its variable argument, and both give an empty text for negative expansion; missing optional values of the distro feature helpers default to '1' and to the empty text; a variable lookup resolves to a reference to that variable in either mode. Anything without such a call is reported as not resolvable.",
 ["inputs","configurations"],"all argument texts without quotes, commas and parentheses, both expansion modes",
 "Tests try one or two literal argument sets per helper; which argument is selected has to hold for every argument text.",
 [IN],[("one pattern and emulation per helper","bb_utils_*, oe_utils_*, d_getvar"),("dispatch","inlinerep")])
p("C04","Statements are classified by form, with their parts taken verbatim",
 "Every well-formed bitbake statement (assignment, flag assignment, unset, inherit, inherit_defer, INHERIT, include, require, include_all, export, addtask, deltask, EXPORT_FUNCTIONS, addpylib, addfragments, function, python function, comment) yields exactly one item of the matching class. The name, operator, value, flag, task order, file and class parts of that item are exactly those written in the statement. A line that is none of these yields a generic item.",
 ["inputs","programs"],"all names, operators, values, flags, class and file names of each statement form",
 "Tests sample a handful of names per form, and overlapping patterns are tried in order, so that one form may capture another for names nobody sampled.",
 [PA,IT],[("ordered patterns","get_items and the module level patterns"),("item constructors","oelint_parser.cls_item")])
p("C05","A query returns exactly the matching items, once, in line order",
 "Filtering the stash or a list by file, classifier, attribute and attribute value returns exactly the items that satisfy all the given filters, each once, ordered by line and, within a line, by their order in the input. An item satisfies the file filter when it originates from that file or, unless links are excluded, from a file linked to it; the classifier filter when its class is one of those given; the attribute filter when it has one of the attributes and that attribute equals one of the given values, if any are given. A filter that is not given (or empty) excludes nothing.",
 ["inputs","configurations"],"every list of items, every link map, every combination of filters given as single values, lists, sets or tuples",
 "Tests query one stash with a few filter combinations; exactness over all lists and combinations is not covered.",
 [ST,IT],[("filter chain","Stash.Reduce, Stash.GetItemsFor, Stash.StashList.reduce"),("per-filter helpers","Stash.__get_items_by_file/_classifier/_attribute, Stash.__is_linked_to")],
 [("__list","all items of the stash","Stash"),("__map","file -> files linked to it","Stash")])
p("C06","Answers never go stale when the stash changes",
 "After any history of adding files, appending or removing items and finalizing, every query about the stash answers what a freshly computed query on the same contents would answer. In particular an answer given before a change is never repeated after it when the change affects it.",
 ["histories"],"all interleavings of queries with AddFile, Append, Remove and Finalize",
 "Every test builds a stash once and then asks; the caches only go wrong when a query precedes a change.",
 [ST],[("cache reset","Stash._clear_cached and its call sites"),("memoized queries","functools.cache on the methods of Stash")],
 [("__list","all items of the stash","Stash"),("__map","links between files","Stash")])
p("C07","Expanding a term terminates and substitutes what is known, only",
 "Expanding a text terminates for every set of assignments, even when variables refer to themselves or to each other. Each reference is replaced by the expansion of the first non-appending assignment visible to the file, else by the expansion of the base value, else for PN, BPN, PV, FILE and THISDIR by the value derived from the file name; all other references, the references asked to be kept, and all other text stay as they are. A reference back to a variable that is being expanded gives an empty text.",
 ["inputs","programs","configurations"],"all texts, all sets of assignments (cyclic ones included), all files",
 "Tests expand acyclic examples with one or two variables.",
 [ST],[("recursive expansion with seen set","Stash.ExpandTerm")])
p("C08","Expanding variables applies every operator in bitbake's order",
 "Expanding the variables of a file applies the immediate operators (=, :=, ?=, ??=, +=, =+, .=, =.) and unset in line order to the file-derived and base defaults, where ?= and ??= only take effect on a variable without a value. Afterwards append and prepend overrides are applied in line order, and finally remove overrides drop every whitespace separated element they name and nothing else. The result maps each expanded name to the elements of its expanded value.",
 ["inputs","programs"],"all sequences of assignments, overrides and unsets, with or without spaces around the operator",
 "Tests check a few two- or three-line examples; operator interaction depends on arbitrary sequences.",
 [ST,IT],[("three passes over the items","Stash.ExpandVar"),("immediate or override style","Variable.IsImmediateModify, Variable.VarNameCompleteNoModifiers")])
p("C09","Finalizing links a file to itself and to what it pulls in",
 "After finalizing, the files linked to a file include the file itself, every file it directly includes, inherits or is appended by, and those they directly pull in; they never include a file that cannot be reached from it. Every item visible to a file (by origin or by link) reports that file's links as its include origins. A direct link is recorded no matter in which order files are added and whether the class was parsed before for another file.",
 ["histories","programs"],"all include, inherit and append graphs and all orders of adding files",
 "Tests use one fixed layer and order of files.",
 [ST,PA],[("cross linking","Stash.Finalize"),("link bookkeeping","Stash.AddFile, Stash.__add_link")],
 [("__map","file -> files linked to it","Stash")])
p("C10","Appends attach to exactly the recipes their name selects, after them",
 "A bbappend is linked to a recipe exactly if the append's name, with every % standing for any text, equals the recipe's name; all other characters of the name are literal. This holds whichever of the two is added first. In either order all items of the append are placed after all items of the recipe.",
 ["inputs","histories"],"all file names and both orders of adding",
 "Tests use one append per order with names free of special characters.",
 [ST],[("name matching and line shift","Stash.AddFile")])
p("C11","Constant tables follow set-like update rules and are not shared",
 "Adding constants appends to existing lists and creates missing entries, removing drops exactly the named list members, and overriding replaces exactly the given leaves; every other entry keeps its value. Looking up a path returns the entry at that path or an empty dictionary if there is none. None of these operations changes or later shares the dictionaries passed by the caller.",
 ["inputs","histories"],"all nested dictionaries with lists as leaves, all paths, all histories of updates",
 "Tests add, remove and override one key each.",
 [CO],[("recursive merges","Constants.AddConstants, RemoveConstants, OverrideConstants"),("lookup","Constants.GetByPath")],
 [("__db","the constant database","Constants")])
p("C12","Recipe name, base name and version come from the file name",
 "The recipe name is the part of the file's base name before the first underscore and without the extension; the version is the part between the first and the second underscore (or the extension), or nothing if there is none. The base name is the recipe name without a leading nativesdk- and without a trailing -native or -cross. Directories in the path have no influence.",
 ["inputs"],"all paths and recipe file names",
 "Tests cover a few names.",
 [ST],[("name heuristics","Stash.GuessRecipeName, GuessBaseRecipeName, GuessRecipeVersion")])
p("C13","Override chains are split from names and reassemble to them",
 "The name of a variable is split at the override delimiter (a colon as soon as one is used, else an underscore) into the plain name and its overrides such that joining them again gives the written name. The plain name ends before the first chunk that can be an override, modifiers (append, prepend, remove) are reported as such in the order written, and the name without modifiers is the same chain with just those left out. For functions the overrides start at the first modifier or class override, or right after a known function name.",
 ["inputs"],"all names without empty chunks, both delimiters",
 "Tests sample few names per syntax.",
 [IT],[("splitting","Item.extract_sub, Item.extract_sub_func"),("reassembly","Variable.VarNameComplete, VarNameCompleteNoModifiers, Function.FuncNameComplete")])
p("C14","Layer lookups terminate and find the nearest match",
 "The layer root of a file is the nearest directory above the file's directory that holds conf/layer.conf, or nothing. A relative name is looked up first next to the file and then only in that nearest layer root. Both lookups terminate for every path on every directory tree.",
 ["inputs","configurations"],"all paths (relative, absolute, doubled slashes) and all directory trees",
 "Tests use the one layer in the test folder.",
 [ST],[("upward walks","Stash.GetLayerRoot, Stash.FindLocalOrLayer")])
p("C15","SRC_URI entries are taken apart without loss",
 "For an entry scheme://host/path;key=value;... the reported scheme, source and options are exactly the scheme, host and path and the given key/value pairs, where a value may itself contain an equals sign. Known mirror references are replaced by their address before. An entry that cannot be parsed gives empty parts instead of an error.",
 ["inputs"],"all schemes, hosts, paths and option lists",
 "Tests check a few entries.",
 [ST],[("splitting","Stash.GetScrComponents, Stash._replace_with_known_mirrors")])
p("C16","Regex helpers equal the regex engine, except that timeouts give a default",
 "Each of the regex helpers returns exactly what the underlying engine returns for the same pattern, text and options. A timeout of the engine never reaches the caller and gives the requested default instead. All other errors are passed on.",
 ["inputs","fault_sequences"],"all patterns, texts and options, and a timeout at any call",
 "Tests never provoke a timeout.",
 [RX],[("wrappers","RegexRpl.search, split, match, sub, finditer")])
p("C17","Appending, inserting, extending and removing touch exactly the given items",
 "Adding one item, or several as list, tuple or stash list, to the stash or to a query result adds exactly those at the end (or at the given position) in order, and removing takes out exactly the first occurrence of each given item. All other items keep their order, and other query results and the stash are unaffected by changes to a query result.",
 ["inputs","histories"],"all lists, all items, all sequences of edits",
 "Tests append and remove single items once.",
 [ST],[("list editing","Stash.Append, Stash.Remove, Stash.StashList")],
 [("__list","all items of the stash","Stash"),("data","items of a query result","Stash.StashList")])
p("C18","Facts derived about a recipe follow from its visible statements",
 "A recipe is an image exactly if a visible inherit names a known image class or a known image variable is set, and a package group exactly if a visible inherit names packagegroup. Its valid package names are the standard names derived from the recipe name plus the expanded elements of PACKAGES and PACKAGE_BEFORE_PN; its named resources are the recipe name plus the name options of the SRC_URI entries; its dynamic packages are the non-empty expanded elements of PACKAGES_DYNAMIC. A name is a dynamic package exactly if its expansion matches one of these patterns.",
 ["inputs","programs","configurations"],"all sets of visible statements and all constant tables",
 "Tests use a few recipes.",
 [ST],[("derived queries","Stash.IsImage, IsPackageGroup, GetValidPackageNames, GetValidNamedResources, GetPackagesDynamic, IsDynamicPackage")])
p("C19","Line order equals the order of the statements with includes in place",
 "Ordering the items visible to a recipe by their overall line gives the order of a reader who reads the recipe from the top and reads each included or inherited file in place of the statement that names it. This holds for any number and nesting of includes.",
 ["programs","inputs"],"all include trees without repeated classes",
 "Tests have at most one include whose order is never compared.",
 [PA,ST],[("line offsets","get_items, Stash.AddFile, Stash.GetLastLine")])
p("C20","Cyclic includes and inherits do not stop parsing",
 "Adding a file returns normally even if the file includes or inherits itself, directly or through other files. Every file of the cycle is parsed once per chain of includes and all its items are present.",
 ["programs"],"all include graphs with cycles",
 "No test contains a cycle.",
 [ST],[("files being parsed","Stash.AddFile")],[("__active_files","files being parsed at the moment","Stash")])
p("C21","Values and operators of an assignment are reported as written",
 "The stripped value of a variable is the written value without the blanks around it and then without the double quotes around that, and its elements are the non-empty pieces of it between blanks or continued lines, in order. Whether an assignment is appending, and whether it takes effect immediately, follows exactly from its operator and overrides: appending for +=, =+, .=, =. and the append and prepend overrides; not immediate for append, prepend and remove. Distro, machine and class overrides reported for it are the first override of that kind.",
 ["inputs"],"all values, operators and override lists",
 "Tests sample a few values.",
 [IT],[("accessors","Variable.VarValueStripped, get_items, IsAppend, AppendOperation, IsImmediateModify, GetDistroEntry, GetMachineEntry, GetClassOverride; Item.safe_linesplit")])
p("C22","The fingerprint depends on the parsed contents and options only",
 "Two stashes with the same options that add the same files in the same order have the same fingerprint in every process. Stashes with different options, or whose added files yield different items, have different fingerprints (up to hash collisions).",
 ["inputs","schedules"],"all files, both options, all hash seeds",
 "Tests compare two stashes within one process.",
 [ST,IT],[("incremental hash","Stash.AddFile, Stash.FingerPrint"),("textual form of items","Item.__repr__")])
p("C23","Using different stashes from different threads is safe",
 "Parsing and querying different stashes from several threads at the same time gives the same results as doing so one after the other.",
 ["schedules"],"all interleavings of threads",
 "Tests are single threaded.",
 [ST,CO],[("per-object state and process wide constants and caches","Stash, CONSTANTS")])
p("C24","Parsing time is bounded for every text",
 "Parsing any text takes at most a fixed multiple of the regex time limit per line, whatever the text.",
 ["inputs"],"all texts",
 "Tests use short texts.",
 [RX,PA],[("timeouts on every pattern","RegexRpl")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); 
    n=x["statement"].count(". ")+1
    if n>3: print(x["id"],n)
    assert len(x["title"])<=80,x["id"]
