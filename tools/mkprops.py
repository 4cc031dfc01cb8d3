#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                "mechanism": [dict(name=n, where=w) for n, w in mech],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "Loading, viewing and saving without edits is byte-for-byte lossless",
    "For every spec file the library accepts, opening it, entering and leaving any views (lines, macro "
    "definitions, sections, tags of any package section, changelog, prep, sources, patches), nested or one after "
    "another, without changing anything, and reading any property, leaves the in-memory content identical, and "
    "saving writes back exactly the bytes that were loaded, including whitespace, blank lines, line contents of "
    "every kind and presence or absence of a final newline.",
    ["inputs", "histories"],
    "every accepted spec file (any mix of macro definitions, conditions, multi-line values, quoting, whitespace, "
    "unusual characters) and every sequence or nesting of read-only view accesses",
    "the tests round-trip about fifteen fixture specs; losslessness is a claim about every text, and the lossy "
    "cases live in unusual layout (trailing whitespace in multi-line values, conditional wrappers, quoting)",
    ["specfile/specfile.py", "specfile/sections.py", "specfile/tags.py", "specfile/macro_definitions.py",
     "specfile/prep.py", "specfile/changelog.py", "specfile/sourcelist.py", "specfile/options.py",
     "specfile/value_parser.py"],
    [("each parser keeps unparsed text as prefix/suffix/whitespace/preceding lines and re-emits it",
      "get_raw_data()/get_raw_section_data() of every container"),
     ("line splitting and trailing newline bookkeeping", "specfile/specfile.py Specfile._read_lines, __str__, save")],
    ["str(spec) before/after each view", "bytes of the file after save()"],
)

prop(
    "C02",
    "Views expose exactly the entities written in the spec, literally",
    "The sections, tags with their comments, macro definitions, changelog entries, prep macros and source/patch "
    "entries reported by the views are exactly those written in the spec file: none missing, none invented, in file "
    "order, each with its literal name, value, options and associated comment lines (changelog is listed oldest "
    "first). Conditionally expanded lines and multi-line values are attributed to the entity they belong to, section "
    "headers inside macro bodies never start a section, sections tell whether RPM runs their content as a script, and lookups by name are case-insensitive where RPM's are and prefer an entity that is "
    "not in a false condition branch.",
    ["inputs"],
    "every accepted spec file; checked against the layout a generator wrote down",
    "the parser tests compare a handful of hand-written inputs; the interaction of comments, wrapping macros, "
    "continuation lines and section boundaries is combinatorial",
    ["specfile/sections.py", "specfile/tags.py", "specfile/macro_definitions.py", "specfile/changelog.py",
     "specfile/prep.py", "specfile/sourcelist.py", "specfile/sources.py", "specfile/utils.py"],
    [("regular-expression based parsers", "Sections.parse, Tags.parse, MacroDefinitions._parse, Changelog.parse, "
      "Prep.parse, Sourcelist.parse"), ("name lookup", "find()/get()/__getattr__ of the containers")],
    ["values returned inside each view"],
)

prop(
    "C03",
    "Editing a tag changes that tag and nothing else",
    "Setting a tag's value, name or comments, adding a tag (inserting or appending), or deleting tags (by index, "
    "slice or name), through the tags view or the top-level tag properties, changes only the lines of that tag and its associated comments: every "
    "other line stays in place and unmodified, except that blank lines next to a deleted tag may be merged. After "
    "leaving the view and after saving and reopening, the tag reads back as requested, all other tags as before, and a "
    "newly added tag takes effect under the same conditions as the place it was added next to, never inside a block "
    "that ends just before it.",
    ["inputs", "histories"],
    "every accepted spec file, every package section, every tag position (first, last, negative index, inside "
    "conditions, multi-line, conditionally wrapped) and every sequence of edits",
    "tests edit two or three tags of fixed specs; the frame condition over all neighbouring lines is never asserted",
    ["specfile/tags.py", "specfile/specfile.py"],
    [("preceding lines are carried by the following tag and handed over on deletion", "Tags.__delitem__, Tags.insert"),
     ("tag properties", "Specfile._tag"), ("comment list", "Comments")],
    ["line diff of str(spec) around an edit", "tags view after reopening the saved file"],
)

prop(
    "C04",
    "Editing a macro definition changes that definition and nothing else",
    "Changing a macro definition's body, name, scope or commented-out state, or deleting or adding definitions (by "
    "index, slice or name), rewrites only the lines of that definition; every other line keeps its place and text. The "
    "definition reads back as set after reopening, RPM expands the macro to the new body (and no longer knows it when "
    "commented out or deleted), and commenting a definition out and back in restores the original text.",
    ["inputs", "histories"],
    "every accepted spec file, every definition (single- or multi-line, commented out in any style, in any section), "
    "every edit sequence",
    "unit tests cover fixed lists of definitions and never the frame over the rest of the spec file or RPM's view",
    ["specfile/macro_definitions.py", "specfile/specfile.py"],
    [("whitespace tuple, prefix and preceding lines", "MacroDefinition.get_raw_data"),
     ("handover of preceding lines on delete", "MacroDefinitions.__delitem__")],
    ["line diff of str(spec)", "macro definitions after reopening", "expand() of the macro"],
)

prop(
    "C05",
    "Section edits are confined to the edited section",
    "Replacing, appending to, inserting into, adding, removing or reordering sections yields exactly the text obtained "
    "by performing the same list operation on the blocks of lines of the original file; all untouched sections keep "
    "every line. The edit is visible through every other view and after saving and reopening, and changing a section's "
    "options rewrites only its header line.",
    ["inputs", "histories"],
    "every accepted spec file and every sequence of section list operations and attribute assignments",
    "tests edit one fixture; no test compares the full text against a list model",
    ["specfile/sections.py", "specfile/specfile.py"],
    [("sections are lists of lines with a header", "Section, Sections.get_raw_data"),
     ("attribute access by id", "Sections.__getattr__/__setattr__/__delattr__")],
    ["str(spec) vs. list-of-blocks model"],
)

prop(
    "C06",
    "The changelog behaves as an ordered list of entries",
    "The changelog view behaves like a list ordered oldest to newest: editing, deleting (by any index or slice), "
    "inserting or appending entries changes only those entries' lines, keeps the order and text of all others, and "
    "newest entries stay on top in the file. Filtering by lower and/or upper EVR bound returns the entries between the "
    "first one not lower and the last one not higher than the bounds by RPM version comparison (entries without EVR "
    "counting as the lowest version), and EVR, timestamp "
    "style and day padding are read correctly from each header.",
    ["inputs", "histories"],
    "every changelog (any header style, blank lines, leading free text), every edit sequence, every EVR bound",
    "tests use one or two fixed changelogs and few indices",
    ["specfile/changelog.py", "specfile/specfile.py", "specfile/utils.py"],
    [("entries stored in reverse file order with following lines", "Changelog.parse/get_raw_section_data/__delitem__"),
     ("bounds search", "Changelog.filter"), ("header regexes", "ChangelogEntry.evr/extended_timestamp/"
      "day_of_month_padding")],
    ["list model vs. view, raw text and RPM's changelog"],
)

prop(
    "C07",
    "Adding a changelog entry produces one correct new top entry",
    "Adding a changelog entry puts exactly one new entry at the top of every plain changelog section and changes no "
    "other line; its header carries the right weekday, date, author and the current epoch:version-release without "
    "the dist suffix (or the given EVR, expanded), following the date style and day padding already in use, and RPM "
    "reads it back as the newest entry with that text. Specs without a changelog, or sections using automatic "
    "changelogs, are left untouched.",
    ["inputs", "configurations"],
    "every spec, every date or date-time, author/e-mail combination (given or detected from environment, macro, git or "
    "account), entry text, EVR override and number of changelog sections",
    "tests use eight argument combinations on one spec",
    ["specfile/specfile.py", "specfile/changelog.py"],
    [("entry assembly", "Specfile.add_changelog_entry, ChangelogEntry.assemble"),
     ("author detection", "specfile/changelog.py guess_packager"),
     ("autochangelog detection", "Specfile.contains_autochangelog/has_autochangelog")],
    ["changelog text diff", "RPM's changelog tags of the resulting spec"],
)

prop(
    "C08",
    "Prep macro edits are confined to the edited macro line",
    "Through the prep view, changing options of, adding or removing setup/patch/autosetup/autopatch macros changes only "
    "the lines of those macros; every other line of the section is kept in place and unmodified. Adding a patch macro "
    "creates exactly one macro that has the given number and options and is placed next to the numerically nearest patch "
    "macro in order; removing by number or name removes exactly the first matching macro, wherever it stands.",
    ["inputs", "histories"],
    "every prep section (old and new style patch macros, -P, wrapped in conditional expansions, arbitrary other lines) "
    "and every edit sequence",
    "tests work on five fixed prep sections",
    ["specfile/prep.py", "specfile/options.py"],
    [("macro recognition and preceding lines", "Prep.parse, PrepMacros"), ("placement", "Prep.add_patch_macro"),
     ("removal", "Prep.remove_patch_macro, PrepMacros.__delitem__/__delattr__")],
    ["line diff of the prep section", "macro list after re-parsing"],
)

prop(
    "C09",
    "Option strings behave as maps and survive re-parsing",
    "An option string behaves as a mapping from recognised options to values plus a list of positional arguments: after "
    "setting, changing or deleting an option or positional argument, that item reads back as set, every other item is "
    "unchanged, and parsing the rendered string again yields the same options and positionals (for strings that use each "
    "option once and separately, and non-empty values not starting with a dash). An option given several times counts "
    "once and has the last value, as in RPM. Rendering an unmodified "
    "option string reproduces it exactly, quoting and macro expressions included, and its words are split the way RPM "
    "splits them.",
    ["inputs", "histories"],
    "every option string over quotes, escapes, whitespace, macro expressions and attached or separate arguments; every "
    "sequence of edits",
    "tests tokenize about ten strings and apply single edits",
    ["specfile/options.py", "specfile/prep.py", "specfile/sections.py"],
    [("tokenizer mirroring popt", "Options.tokenize"), ("token list edits", "Options.__setattr__/__delattr__, "
      "Positionals"), ("rendering with escapes", "Token.__str__")],
    ["map/list model vs. Options before and after str() + tokenize()"],
)

prop(
    "C10",
    "Sources and patches agree with what RPM sees",
    "For every spec whose source and patch entries are in its main package, not in false condition branches, and expand "
    "to one non-empty line, the sources and patches views "
    "list exactly the sources and patches RPM reports for the same content, with the same numbers (explicit, implicit or "
    "mixed, from tags and from list sections) and the same expanded locations and file names. Remote is reported exactly "
    "for locations that are URLs.",
    ["inputs"],
    "every combination of numbered and unnumbered tags, list sections, macros in locations and URL fragments",
    "tests check fixed lists and never compare with RPM",
    ["specfile/sources.py", "specfile/sourcelist.py", "specfile/utils.py", "specfile/specfile.py"],
    [("number assignment", "Sources._get_tags/_get_items"), ("file name extraction", "get_filename_from_location")],
    ["(number, expanded location, expanded filename) vs. rpm.spec.sources"],
)

prop(
    "C11",
    "Adding and removing sources or patches keeps the rest intact and valid",
    "Inserting, appending, adding by number or removing (by index, slice, location or number) sources or patches affects "
    "exactly the requested entries: afterwards all other entries keep their location, relative order and comments, no two "
    "entries share a number, the new entry is where (and, if explicitly numbered, under the number) it was requested, no "
    "other line changes apart from renumbering of colliding entries, and RPM accepts the result and sees the same set. "
    "A new entry placed among entries of the same branch of a condition is valid exactly when RPM uses it. "
    "An addition that is rejected as duplicate or for its number leaves the spec unchanged.",
    ["inputs", "histories"],
    "every spec (tags, list sections, implicit/explicit/mixed/zero-padded/unordered numbers) and every sequence of "
    "operations with every option combination",
    "tests check one operation at a time on short fixed lists",
    ["specfile/sources.py", "specfile/sourcelist.py", "specfile/tags.py", "specfile/specfile.py"],
    [("insertion and numbering", "Sources.insert/insert_numbered/_get_tag_format/_deduplicate_tag_names"),
     ("patch addition", "Specfile.add_patch, Patches._get_initial_tag_setup")],
    ["list model vs. view", "line diff", "RPM's sources"],
)

prop(
    "C12",
    "Validity of entities matches RPM's evaluation of conditions",
    "A tag, macro definition, source, patch or list entry is reported valid exactly when RPM, parsing the same content "
    "with the same macros, does not skip the line it is on: nested if/elif/else blocks, architecture and OS conditions, "
    "continued expressions, undefined macros and overridden macros are all evaluated as RPM does. This holds for specs "
    "whose condition macros keep one value throughout.",
    ["inputs", "configurations"],
    "every nesting of conditions over expressions, architectures and OSes, and every set of macro overrides",
    "tests process three fixed condition trees",
    ["specfile/conditions.py", "specfile/tags.py", "specfile/macro_definitions.py", "specfile/sourcelist.py"],
    [("branch stack", "process_conditions"), ("expression evaluation", "resolve_expression")],
    ["valid flags vs. markers present in RPM's parse of the same content"],
)

prop(
    "C13",
    "Expansion always reflects the spec's current content and overrides",
    "Whatever sequence of edits, reloads, macro override changes, expansions with extra macros, copies, failed parses and "
    "uses of other spec objects came before, expanding an expression, reading an expanded property or the parsed spec, "
    "returns what RPM computes from scratch for that object's current in-memory content, overrides and source directory. "
    "Nothing defined by one spec object, or passed as an extra macro, is ever visible in a later result. (Files read "
    "while parsing don't change, and expanded expressions define no macros themselves.)",
    ["histories", "inputs"],
    "every interleaving of operations on several spec objects alive in one process",
    "the parse cache and the process-global macro context make results depend on history; tests run two or three short "
    "histories",
    ["specfile/spec_parser.py", "specfile/specfile.py", "specfile/macros.py"],
    [("parse skipped only when the hash of all inputs matches the last parse", "SpecParser.parse"),
     ("macro context reinitialisation", "Macros.reinit")],
    ["expand()/expanded_*/rpm_spec results vs. a fresh RPM process"],
    [("global parse hash", "inputs of the last parse performed in the process", "SpecParser._last_parse_hash"),
     ("global macro context", "RPM's process-wide macro table", "librpm")],
)

prop(
    "C14",
    "Macro operations have exact effect on the macro context",
    "Defining a macro makes it expand to that body, removing it makes it undefined whatever the number of previous "
    "definitions, and reinitialising drops everything defined above the configuration level and restores configuration "
    "macros; other macros are never affected. The list of active macros contains every defined macro once, with the body, "
    "options and level RPM reports (up to leading newlines and line continuations), and overrides given to a spec define or undefine exactly the named macros for it.",
    ["histories", "inputs"],
    "every sequence of define/remove/reinit/dump operations and every set of overrides, including multi-line bodies and "
    "parametric macros",
    "tests define one or two macros; dump parsing is tested on a fixed listing",
    ["specfile/macros.py", "specfile/spec_parser.py", "specfile/specfile.py"],
    [("repeated removal", "Macros.remove"), ("dump parser", "Macros._parse"), ("override loop", "SpecParser._do_parse")],
    ["expansion of probe macros vs. dictionary model", "dump vs. raw %dump output"],
)

prop(
    "C15",
    "Parsing leaves no trace in the file system, environment or process",
    "Opening a spec, expanding or reading anything, whether it succeeds, is rejected by RPM or hits an I/O error midway, "
    "leaves the source directory and the spec's directory exactly as they were: no file created, changed, replaced or "
    "deleted, and existing sources are never written to. Environment variables, working directory, open file descriptors, "
    "standard error and temporary files are also as before.",
    ["inputs", "fault_sequences", "crash_points"],
    "every spec and source directory (present, missing, empty, dangling or colliding source files), both parse modes, and "
    "a failure injected at any file or RPM call",
    "tests never look at the directory afterwards and inject no failures",
    ["specfile/spec_parser.py", "specfile/context_management.py", "specfile/macros.py"],
    [("dummy sources created and unlinked", "SpecParser._make_dummy_sources"),
     ("locale sanitising", "SpecParser._sanitize_environment"), ("stderr redirection", "capture_stderr")],
    ["audit events (open/remove/rename/...) in the directories", "directory snapshots", "environ, cwd, /proc/self/fd"],
)

prop(
    "C16",
    "Failed operations are reported as library errors and leave objects usable",
    "Content that RPM cannot parse makes the operation that needs parsing raise the library's RPM error carrying RPM's "
    "message, without altering the spec's content; the same object, once its content is repaired, and all other spec "
    "objects work normally again. Requests that cannot be fulfilled (reading or deleting an unknown tag or section, wrong option type, duplicate "
    "source, too low patch number, invalid names or version strings) raise their documented error and change nothing.",
    ["inputs", "histories"],
    "every break/repair history over several objects and every kind of invalid request",
    "tests assert that an exception is raised, not that the object survives it",
    ["specfile/spec_parser.py", "specfile/specfile.py", "specfile/exceptions.py", "specfile/context_management.py"],
    [("cache invalidation and state reset on failure", "SpecParser.parse"), ("exception mapping", "get_rpm_spec, "
      "Macros.expand")],
    ["exception type and text", "content before/after", "results after repair vs. fresh RPM"],
)

prop(
    "C17",
    "Views nest, commit once and save only when asked",
    "Views of one spec can be nested, the inner ones left first, and combined (macro definitions and raw lines only as "
    "the outermost), each line being edited through one view: requesting an already open view yields the "
    "same object, all changes made at any level are in the content when the outermost view is left, also when it is left "
    "by an exception, which propagates, and views of different specs never mix. The file on disk changes only through "
    "saving: explicitly, at the end of a with-block over the spec, or with autosave on when the outermost view is left; then it "
    "holds exactly the current content. Content of a view obtained without a with-block while no view is open never modifies the spec, and reload discards "
    "unsaved changes.",
    ["histories"],
    "every nesting/interleaving of view entries, exits, exceptions, property accesses, saves and reloads on several specs",
    "tests nest two views of one spec; order of exits, exceptions and several objects are not explored",
    ["specfile/context_management.py", "specfile/specfile.py"],
    [("generators and values keyed by function arguments", "ContextManager.__call__"),
     ("single-use content", "GeneratorContextManager.content"), ("autosave", "Specfile.lines")],
    ["enter/exit/save event trace vs. nesting model", "bytes on disk after every event"],
)

prop(
    "C18",
    "Updating a tag or version yields the requested value, preserving macros",
    "After updating a tag to a plain value, RPM expands that tag to exactly the requested value, whether the value was "
    "written literally or through locally defined macros and other tags; entities matching the protection pattern keep their "
    "definition, and only tags and macro definitions are changed, no other line. If the request fits the structure of the "
    "current value, macro references stay and the definitions get the new parts. Updating the version with "
    "pre-release handling turns a matching suffix into one that sorts before the final version, and comments the given macro "
    "in or out accordingly, for values that use it the documented way.",
    ["inputs", "histories"],
    "every way a tag value can refer to local macros, tags and conditional expansions, every requested value, protection "
    "pattern and history of previous updates",
    "tests update some twenty fixed values; the resulting RPM expansion is checked for few of them",
    ["specfile/specfile.py", "specfile/value_parser.py"],
    [("recursive update of referenced entities", "Specfile.update_value"), ("matching", "ValueParser.construct_regex"),
     ("pre-release handling", "Specfile.update_version")],
    ["expanded tag value vs. request", "line diff"],
)

prop(
    "C19",
    "Release handling keeps the dist suffix and bumping always moves forward",
    "(For releases with the dist suffix at the end, optionally followed by a minor bump, and at most one macro that "
    "defines the release.) Setting release, or version and release together, changes only the number part: the dist suffix stays as written, a "
    "minor bump is dropped, release and version read back as set, and only those tags' lines change. Bumping the release "
    "increases the package's release by RPM comparison, changes only the one line that defines it, keeps surrounding macros "
    "and text, and does nothing for specs with automatic release.",
    ["inputs", "histories"],
    "every release string (pre-release, post-release, dist macros, minor bumps, defined through a macro) and any number of "
    "bumps",
    "tests cover a table of about twenty strings",
    ["specfile/specfile.py"],
    [("release splitting", "Specfile._split_raw_release/_get_updated_release"), ("bumping", "Specfile.bump_release/"
      "_bump_release_string"), ("autorelease detection", "Specfile.has_autorelease")],
    ["release before/after vs. rpm.labelCompare", "line diff"],
)

prop(
    "C20",
    "EVR, NEVR and NEVRA values order, compare, hash and print like RPM's",
    "Comparison of EVR, NEVR and NEVRA objects is a total order on comparable objects that agrees with RPM's comparison; "
    "equal objects have equal hashes, and objects of different type, name or architecture are never equal or ordered. "
    "Parsing the string form of an object yields the same components, and malformed strings or unknown architectures are "
    "rejected with the library's error.",
    ["inputs"],
    "all epochs, versions, releases, names and architectures",
    "tests compare a dozen pairs; order axioms and the hash contract quantify over all pairs and triples",
    ["specfile/utils.py"],
    [("comparison through rpm.labelCompare", "EVR._cmp"), ("hash key", "EVR._key"), ("regexes", "from_string")],
    ["results of the six comparison operators, hash(), str(), from_string()"],
)

prop(
    "C21",
    "Value parsing is lossless and finds every macro reference",
    "Parsing any value into nodes and concatenating them gives back the value; every macro reference, conditional expansion, "
    "shell and expression expansion that RPM would process appears as one node of the right kind with its exact name and body, "
    "nested references inside conditional bodies included, and escaped or lone percent signs and plain text never do. Nodes are equal exactly when they "
    "have the same kind, name, arguments and body. Values with an unterminated macro are rejected with the library's error.",
    ["inputs"],
    "every string over macro syntax",
    "tests parse some fifteen strings",
    ["specfile/value_parser.py", "specfile/utils.py"],
    [("parser mirroring RPM's expandMacro()", "ValueParser.parse/flatten")],
    ["node list vs. generated structure", "expansion by RPM"],
)

prop(
    "C22",
    "Copies are equal, independent and stay usable",
    "A deep copy of a spec or of any entity container equals the original, and neither editing, saving, expanding, nor "
    "deleting one affects the content or results of the other; entities and specs with the same text and settings are "
    "equal, those with different content are not, and containers are equal when their items are. "
    "A copied spec expands and parses on its own, also after the original or other copies have been discarded.",
    ["histories", "inputs"],
    "every object kind, every content and every history of edits and disposals on original and copies",
    "tests copy one small object of each kind and compare once",
    ["specfile/specfile.py", "specfile/spec_parser.py", "specfile/tags.py", "specfile/sections.py", "specfile/sourcelist.py"],
    [("custom deep copy dropping RPM state", "SpecParser.__deepcopy__, Tag.__deepcopy__")],
    ["content and expansions of both objects after edits to either"],
)

prop(
    "C23",
    "Forced parsing succeeds exactly by standing in for missing files",
    "With forced parsing on, a spec that only fails because files in the source directory that it includes, loads or reads "
    "(by source references in shell expansions of tag values) are missing can be opened and used, is marked tainted, and leaves no stand-in files behind; when the files are present the "
    "result is the same as with forced parsing off and it is not tainted. With it off, or when the failure has another cause "
    "or the files lie elsewhere, the RPM error is raised.",
    ["inputs", "configurations", "histories"],
    "every combination of include/load/shell references, present and missing files, and toggling of the setting",
    "tests use two fixture specs",
    ["specfile/spec_parser.py", "specfile/specfile.py"],
    [("collection of missing sources", "SpecParser._do_parse"), ("stand-in files", "SpecParser._make_dummy_sources")],
    ["tainted flag, exceptions, directory listing, RPM's view"],
)

prop(
    "C24",
    "Missing sources do not change what parsing yields",
    "A spec can be opened, expanded and parsed whether or not its source and patch files are present in the source directory: the parsed content, "
    "including what setup, autosetup, patch and uncompress macros expand to, is the same as if every missing file existed "
    "with the compression its extension (bz2, zip, xz, zst, lz, lrz, gz, 7z or other) says, while files that are present are used as they are.",
    ["inputs", "configurations", "histories"],
    "every set of source and patch names, every combination of missing and present files of any type, every use of them",
    "tests open fixtures whose sources are mostly all missing and hardly look at the expanded macros",
    ["specfile/spec_parser.py"],
    [("stand-in files with signatures", "SpecParser._make_dummy_sources"), ("two-pass parsing", "SpecParser._do_parse")],
    ["rpm.spec.parsed, rpm.spec.prep, parsed_sections vs. RPM with real files"],
)

prop(
    "C25",
    "Representations are faithful",
    "The representation (repr) of any spec, section, option, tag, comment, macro definition, prep macro, changelog entry, source, list entry, value "
    "node, EVR object or macro, and of any container of them, evaluates to an equal object of the same type with the same content (enumeration members being shown by name), "
    "whatever text the object holds; reformatting an expression over several lines never changes its meaning.",
    ["inputs"],
    "every object and every text held by it, every nesting and length",
    "tests check the formatter on ten expressions",
    ["specfile/formatter.py", "specfile/tags.py", "specfile/sections.py", "specfile/macro_definitions.py", "specfile/sources.py", "specfile/utils.py"],
    [("reformatting by means of AST", "format_expression"), ("representations", "__repr__ methods")],
    ["eval(repr(x)) == x", "syntax trees before and after reformatting"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
