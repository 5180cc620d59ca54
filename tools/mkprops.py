#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept here because it is easier to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})

p("C01", "Writing a catalogue as PO text and reading it back loses nothing",
  "Writing any well-formed catalogue as PO text and parsing that text returns an equal catalogue: for every message the context, id, plural id, translation or plural forms, flags, translator/extracted/previous comments, source references and obsolete mark, live messages in their order followed by the obsolete ones in theirs. "
  "It holds with and without string wrapping and for any text in ids and translations (quotes, backslashes, line breaks, control characters, any script). "
  "A plural message without any form is written, and so read back, with its id as the forms 0 and 1. Well-formed means: distinct (context, id) pairs, plural messages have a plural id and numbered forms or none, comments are single lines without surrounding blanks, flags hold no comma, references have a file name and a line number or, if the name holds no blanks, no line.",
  ["inputs", "configurations"], "all well-formed catalogues x wrapping on/off",
  "Tests round-trip one four-entry catalogue of plain ASCII text; escapes, unprintable runes, trailing backslashes, obsolete entries with comments and multi-flag entries are never sampled.",
  ["pkg/po/compile/po_compiler_format.go", "pkg/po/compile/po_compiler_util.go", "pkg/po/parse/po_parser.go", "internal/util/po_parse.go"],
  [("string escaping", "compile.escapePOString"), ("entry layout", "compile.entryBuilder"), ("comment classification", "parse.parseComments"), ("obsolete block re-parse", "parse.PoParser.parseObsoleteEntries")],
  [("catalogue", "sequence of messages", "po.File / po.Entries"), ("text", "PO text", "bytes written by compile.PoToWriter")],
  ["compile.PoToBytes", "parse.PoFromBytes"])

p("C02", "PO text is read as the gettext format defines, whatever its layout",
  "Parsing PO text yields exactly the messages the format defines: adjacent string pieces joined, escape sequences decoded, plural forms by index, and translator, extracted and previous comments, comma-separated flags, references (several per line allowed) and `#~` obsolete messages each attached to the message they precede. "
  "Layout the format leaves free (blank lines, indentation, how a string is split into pieces, CRLF line ends, a missing final newline) never changes the result, and parser options drop only what they name (comments, obsolete messages, the header, repeated messages).",
  ["inputs"], "all texts of the PO grammar and all layouts of the same message sequence",
  "Tests parse only text produced by the compiler itself, so layouts, escapes and comment forms written by other tools are never read.",
  ["pkg/po/parse/po_parser.go", "internal/util/po_parse.go", "pkg/po/parse/po_config.go"],
  [("lexer rules", "util.PoRules"), ("grammar", "util.poFile"), ("comment classification", "parse.parseComments")],
  [("lexer/parser state", "position in the token grammar", "util.PoParser")], ["parse.PoFromBytes"])

p("C03", "The PO parser always answers: messages or an error, never silence or panic",
  "For every byte sequence the PO parser terminates without panicking. "
  "Text that is not a sequence of complete messages (a stray or missing keyword or string, an unterminated string, a truncated last message, a malformed obsolete block) is always reported as an error, and text that is one is never rejected (a reference whose line number does not fit a machine integer may be reported).",
  ["inputs"], "all byte sequences, in particular every sequence of PO tokens up to a bound and every truncation/mutation of valid files",
  "No test feeds the parser malformed text.",
  ["pkg/po/parse/po_parser.go", "internal/util/po_parse.go"],
  [("grammar", "util.poFile"), ("end marker", "parse.safeTemplate"), ("error collection", "parse.PoParser.error")], (), ["parse.PoFromBytes", "PoParser.Errors"])

p("C04", "PO output options change only what they name",
  "Each PO output option affects only the part it names: location mode full/file/never changes only references, omitting the header drops only the header message, a translation prefix/suffix is added around every translation of every non-header message (the forms that stand in for missing plural forms are not translations), a custom obsolete marker changes only how obsolete messages are marked, and wrapping changes no message. "
  "Highlighted output with its colour codes removed is exactly the plain output, and with header management the header fields appear exactly once.",
  ["inputs", "configurations"], "all catalogues x combinations of output options",
  "Tests exercise the default and one wrapping configuration; option combinations, obsolete or fuzzy entries under highlighting and prefixes are not sampled.",
  ["pkg/po/compile/po_compiler_format.go", "pkg/po/compile/po_compiler.go", "pkg/po/compile/po_config.go", "pkg/po/compile/po_compiler_util.go"],
  [("entry layout", "compile.entryBuilder"), ("header handling", "compile.PoCompiler.ToWriter")], (), ["compile.PoToBytes with options"])

p("C05", "Compiling to MO and reading back keeps every live translation",
  "Compiling a catalogue to MO and parsing the result returns exactly its live, non-fuzzy messages (one per context and id) with context, id, plural id and every translation or plural form unchanged, sorted by context and id. "
  "It holds for either byte order, with and without the hash table, and for any number of plural forms from one up.",
  ["inputs", "configurations"], "all well-formed catalogues (texts without NUL and EOT) x byte order x hash table",
  "Tests use two three-entry ASCII catalogues in native order with exactly two plural forms.",
  ["pkg/po/compile/mo_compile.go", "pkg/po/parse/mo_parser.go", "internal/util/bytes.go", "pkg/po/entry.go"],
  [("file layout", "compile.MoCompiler.writeTo"), ("table reading", "parse.MoParser.Parse"), ("joined keys", "po.Entry.FullUnifiedID / UnifiedStr")],
  [("MO file", "byte layout of header, tables, strings", "compile.MoCompiler.writeTo")], ["compile.MoToBytes", "parse.MoFromBytes"])

p("C06", "Compiled MO files answer gettext runtime lookups correctly",
  "In every compiled MO file the gettext runtime's lookup, by binary search over the sorted table and by hash-table probing when a table is present, finds for each message's (context, id) exactly its translation, and finds nothing for any other key. "
  "Every string lies inside the file and is NUL-terminated, and the magic number, tables and revision are valid in the chosen byte order.",
  ["inputs", "configurations"], "all well-formed catalogues x byte order x hash table x looked-up keys",
  "Tests check only that msgunfmt or this parser can read a file back sequentially; neither looks a key up.",
  ["pkg/po/compile/mo_compile.go", "internal/util/hash.go", "internal/util/bytes.go", "internal/util/prime.go"],
  [("hash table", "compile.buildHashTable"), ("hash function", "util.PJWHash"), ("sorted table", "po.CompareEntryByID")],
  [("hash table", "open-addressing slots", "compile.buildHashTable")], ["compile.MoToBytes"])

p("C07", "The MO parser is safe on any bytes and reports damage",
  "For every byte sequence the MO parser terminates without panicking and without allocating more than a small multiple of the input's size and of the strings its tables name. "
  "It either reports an error or returns strings that all lie within the given bytes; a compiled file cut short anywhere, or whose magic number, revision, table offsets or string bounds were made invalid, is reported as an error.",
  ["inputs"], "all byte sequences, in particular every truncation and every header/table corruption of compiled files",
  "No test reads a damaged MO file.",
  ["pkg/po/parse/mo_parser.go", "pkg/po/parse/mo_config.go"],
  [("bounds checks", "parse.MoParser.Parse / makeEntries"), ("byte-order detection", "parse.MoParser.defineOrder")], (), ["parse.MoFromBytes", "MoParser.Errors"])

p("C08", "Duplicates are reported exactly and resolved without loss",
  "Messages are duplicates exactly when they share context and id; duplicate detection and validation report every later occurrence with the index of its first one, and nothing else. "
  "Resolving or cleaning duplicates leaves exactly one message per key in order of first appearance, with all source references in order, is idempotent, leaves unique messages unchanged and takes every other field from one of the duplicates; cleaning keeps the first message (completed by later ones while it has neither plural nor translation), and resolving never replaces a translation by an empty one nor makes a message obsolete that is live in one of the duplicates.",
  ["inputs"], "all catalogues (ids and contexts without the EOT byte that separates them), in particular all short ones over a small alphabet of keys, translations, flags and references",
  "One six-entry case is tested, with duplicates differing only in whether they are translated.",
  ["pkg/po/entries.go", "pkg/po/entry.go", "pkg/po/errors.go"],
  [("keying", "po.Entry.UnifiedID"), ("resolution", "po.Entries.SolveFunc / SolveMerge"), ("report", "po.Entries.CatchDuplicateEntries")], (), ["Entries.Solve", "Entries.CleanDuplicates", "Entries.Validate", "Entries.HasDuplicates"])

p("C09", "A catalogue behaves as an ordered map with exact filters",
  "Looking up by id and context (or unified id) finds the first matching message or reports its absence; setting replaces that message or appends a new one and touches nothing else. "
  "The header, obsolete, fuzzy and empty filters remove exactly the messages they name and keep the rest in order, and any history of these operations gives what the sequential model gives.",
  ["inputs", "histories"], "all catalogues and all histories of set, load, lookup and filter calls",
  "No test calls these operations at all, let alone in sequence.",
  ["pkg/po/file.go", "pkg/po/entries.go", "internal/slices/slices.go"],
  [("lookup", "po.Entries.Index*"), ("update", "po.File.Set"), ("filters", "po.Entries.CutHeader / Clean*")],
  [("entries", "ordered list of messages", "po.File.Entries")], ["po.File.Set/Load", "po.Entries.Index/Clean*"])

p("C10", "Sorting is a permutation ordered by the advertised key",
  "Every sort of messages, plural forms or references returns a permutation of its input in non-descending order of the key it names (obsolete, fuzzy, references, id; file; line; plural index), for every sort mode. "
  "The comparison functions behind it are total preorders consistent with each other, and the is-sorted queries agree with them.",
  ["inputs", "configurations"], "all lists of messages, plural forms and references x all sort modes and comparison functions",
  "Four hand-picked lists with distinct single-field keys are shuffled; mixed keys, ties, multi-reference lists and transitivity are not covered.",
  ["pkg/po/cmp.go", "pkg/po/entries.go", "pkg/po/merge.go", "pkg/po/plurals.go", "pkg/po/locations.go", "internal/slices/slices.go"],
  [("comparators", "pkg/po/cmp.go"), ("sort dispatch", "po.SortMode.SortMethod")], (), ["Entries.SortFunc", "SortMode.SortMethod", "po.Compare*"])

p("C11", "Equality sees every field",
  "Two files, catalogues, reference lists or plural lists are equal exactly when all their fields are equal, so equality is reflexive, symmetric and transitive and changing any single field of any element makes them unequal. "
  "Two messages are equal exactly when context, id, plural id, translation(s), flags and obsolete mark agree.",
  ["inputs"], "all pairs of values, in particular all single-field mutations at every position",
  "Tests use equality as their oracle but never check that it rejects anything but one flat example.",
  ["internal/util/equal.go", "pkg/po/entry.go", "pkg/po/entries.go", "pkg/po/file.go", "pkg/po/locations.go", "pkg/po/plurals.go"],
  [("structural comparison", "util.Equal"), ("message comparison", "po.Entry.Equal")], (), ["*.Equal"])

p("C12", "Header fields survive reading, editing and writing",
  "Header fields are read one per line and split at the first colon, so values may themselves contain colons (URLs, dates, plural rules); loading a field returns its value, setting one changes only it, registering only adds missing ones, and the number of plural forms is the declared one or 2. "
  "Turning a header into a message and back preserves the template mark and every field in order, and a header built from a valid, complete configuration yields that configuration back.",
  ["inputs", "histories"], "all field lists with colon-free keys and single-line trimmed values; all histories of set/register/load",
  "No test touches headers.",
  ["pkg/po/header.go", "pkg/po/header_options.go"],
  [("field parsing", "po.EntryToHeader"), ("plural-forms parsing", "po.parseAdvHeaderField"), ("writing", "po.Header.ToEntry")],
  [("fields", "ordered key/value list", "po.Header.Fields")], ["Entries.Header", "Header.Load/Set/Register/Nplurals/ToEntry/ToConfig", "HeaderConfig.ToHeader"])

p("C13", "Merging keeps translations and covers the reference exactly",
  "Merging an existing catalogue with a reference yields every live reference message exactly once, live, with the reference's id, context, plural id, source references and extracted comments; where the existing catalogue has the same context and id its translations, flags and translator comments are kept (adapted and marked fuzzy if the message changed between singular and plural). "
  "Existing messages absent from the reference are never dropped while they hold a translation that is not reused: they stay with their translation and are marked obsolete (or fuzzy, when previous ids are kept). "
  "The existing header is kept unchanged, the result holds no duplicates, and it is sorted when sorting is asked for.",
  ["inputs", "configurations"], "all pairs of catalogues x merge settings (fuzzy matching, keep-previous, sorting)",
  "One pair of catalogues without references or near-misses is merged, under two settings.",
  ["pkg/po/merge.go", "pkg/po/entries.go"],
  [("existing side", "po.mergeDef"), ("reference side", "po.mergeRef"), ("translation copy", "po.mergeEntryStrings")],
  [("def, ref", "the two catalogues", "po.MergeWithConfig")], ["po.Merge", "po.MergeWithConfig"])

p("C14", "A guessed translation is always marked fuzzy",
  "When merging reuses a translation for a message with a different context or id (fuzzy matching), that message is always marked fuzzy, the translation comes from a message of the existing catalogue whose similarity (of ids, of contexts and, when both are plural, of plural ids, on average) is at least the 50% threshold, and no message with an exact match is touched by guessing. "
  "With fuzzy matching off no translation ever moves to a different message and new messages carry only what the reference holds for them or, for plural messages, their own ids as placeholder for each plural form the reference declares.",
  ["inputs", "configurations"], "all pairs of catalogues with similar ids, contexts and plurals x fuzzy matching on/off",
  "The test has no similar message whose translation could be borrowed.",
  ["pkg/po/merge.go", "pkg/po/cmp.go", "internal/util/average.go"],
  [("similarity", "po.EntryIDMatchRatio / Entries.BestIDRatio"), ("fuzzy mark", "po.Entry.markAsFuzzy")], (), ["po.Merge"])

p("C15", "Concatenating catalogues selects by count and loses no translation",
  "Concatenating catalogues yields, in order of first appearance, exactly the messages with more definitions in the inputs than the lower limit and fewer than the upper limit, and always the header. "
  "With use-first each message is its first definition; otherwise equal translations stay as they are, an untranslated definition takes the other's translation, conflicting ones are all kept and marked fuzzy, references are concatenated, and no comment or flag is lost. Each conflicting translation, and each comment where the definitions' comments differ, stands below a line that names a file it comes from.",
  ["inputs", "configurations"], "all lists of catalogues x less-than / more-than / use-first",
  "One triple of files is compared with GNU msgcat under two settings; count limits, conflicts, flags and obsolete messages are not covered.",
  ["pkg/po/msgcat_merge.go"],
  [("accumulation", "po.msgcatMergeProcess.handleEntry"), ("count filter", "po.MsgcatMergeFiles"), ("conflict text", "po.msgcatMergeStrings")],
  [("entriesMap", "first index and count per key", "po.msgcatMergeProcess")], ["po.MsgcatMergeFiles"])

p("C16", "Operations leave their input catalogues untouched and are repeatable",
  "Compiling (PO or MO, to any destination, with any options), merging, concatenating, resolving, cleaning, filtering, validating and formatting never change the catalogues, messages, plural lists, comment or reference lists they were given, not even through results that share memory with them: a later operation on a result does not alter the input either. "
  "Repeating an operation on the same input gives the same result.",
  ["inputs", "histories", "configurations"], "all catalogues (including slices with spare capacity) x all histories of operations",
  "Tests build a fresh catalogue per case and never look at the input afterwards.",
  ["pkg/po/entries.go", "pkg/po/merge.go", "pkg/po/msgcat_merge.go", "pkg/po/compile/po_compiler.go", "pkg/po/compile/mo_compile.go", "internal/slices/slices.go"],
  [("copying before change", "slices.Clone / SolveFunc"), ("in-place deletion", "slices.Delete / DeleteFunc")],
  [("backing arrays", "memory shared by slices", "po.Entries, po.Locations, Flags, Plurals")], ["all exported operations of pkg/po and pkg/po/compile"])

p("C17", "Temporary options are temporary",
  "Running a compiler or parser with temporary options behaves as if it had been configured with them, and afterwards its configuration is exactly what it was before, whatever the options (including replacing the whole configuration) and however often it is repeated or nested. "
  "Restoring undoes exactly the last application of options, and does nothing when there is none.",
  ["histories", "configurations"], "all sequences of apply / run-with-options / restore on the PO and MO compilers and the PO, MO and Go parsers",
  "No test uses temporary options or restoring.",
  ["pkg/po/compile/po_config.go", "pkg/po/compile/mo_config.go", "pkg/po/parse/po_config.go", "pkg/po/parse/mo_config.go", "pkg/go/parse/config.go", "pkg/po/compile/po_compiler.go", "pkg/po/compile/mo_compiler.go"],
  [("saved configuration", "Config.ApplyOptions / RestoreLastCfg"), ("temporary runs", "*WithOptions")],
  [("lastCfg", "stack of saved configurations", "each Config struct")], ["Config fields", "outputs of *WithOptions"])

p("C18", "Parsers and compilers can be reused",
  "Parsing again with the same parser (after success or failure) returns an equal catalogue and the same errors as a fresh parser on the same input; errors never carry over from one run to the next, results of separate runs share no state, and the input bytes handed in are never modified. "
  "The same holds for a compiler run again or given another file, and for a Go-source parser reset to another file.",
  ["histories", "inputs"], "all histories of parse / parse-with-options / reset / set-file / compile calls on one object",
  "Tests run each object exactly once.",
  ["pkg/po/parse/po_parser.go", "pkg/po/parse/mo_parser.go", "pkg/go/parse/parser.go", "pkg/go/parse/file.go", "pkg/po/compile/po_compiler.go", "pkg/po/compile/mo_compiler.go"],
  [("error reset", "Parse"), ("input buffer", "PoParser.originalData"), ("reset", "goparse.File.Reset")],
  [("errors", "errors of the last run", "parser structs")], ["Parse/Errors/Error", "File.Reset", "SetFile"])

p("C19", "Go extraction finds exactly the gotext messages of a file",
  "For every Go source file, extraction returns one message for each call of a gotext Get-family function (through the name the package is imported under) whose message argument is a non-empty string literal, with its id, plural id and context taken from the right arguments, in source order, and nothing else. "
  "Repeated messages are merged into one that keeps all references and any plural form; one malformed call is reported and never makes other messages disappear.",
  ["programs"], "all Go files built from calls of every method, import forms, nesting, literal and non-literal arguments, comments and lookalikes",
  "Two hand-written files are parsed, using a single method of the eight and no import alias.",
  ["pkg/go/parse/file.go", "pkg/go/parse/process.go", "pkg/go/parse/parser.go"],
  [("method table", "goparse.translationMethods"), ("import detection", "File.determinePackageInfo"), ("call recognition", "File.isGotextCall")],
  [("seenNodes", "literals already consumed", "goparse.File")], ["goparse.FromString"])

p("C20", "Extract-all collects every string literal exactly once",
  "In extract-all mode every non-empty string literal of the file is extracted exactly once, as its own message or as id, context or plural of the gotext call it belongs to; import paths, empty strings, comments and non-string literals are never extracted. "
  "Duplicate texts collapse into one message with all references.",
  ["programs"], "all Go files mixing literals in every syntactic position with gotext calls",
  "Two files are tested, neither with gotext calls, imports next to them, raw strings or duplicates.",
  ["pkg/go/parse/process.go", "pkg/go/parse/file.go"],
  [("seen marking", "File.seenNodes"), ("node dispatch", "File.processNode")], (), ["goparse.FromString with WithExtractAll"])

p("C21", "Every extracted reference names the file and line of its literal",
  "Each reference of an extracted message gives the parsed file's name and the line on which that message's string literal begins, whatever precedes it (multi-line calls, raw strings, comments, CRLF line ends, non-ASCII text). "
  "A message found several times carries one reference per occurrence, in source order.",
  ["programs"], "all Go files and all positions of literals in them",
  "Lines are checked for one call and four literals at the start of ordinary lines.",
  ["pkg/go/parse/process.go", "internal/util/util.go"],
  [("line lookup", "util.FindLineFromReader")], (), ["Entry.Locations of goparse results"])

p("C22", "Command-line tools never destroy files they were not asked to replace",
  "A tool run that fails (bad input, missing file, existing output without force, bad options) leaves every existing file exactly as it was, and a successful run changes only the output file it was told to write. "
  "This also holds when the output is one of the inputs, when updating in place and when joining with an existing file.",
  ["fault_sequences", "configurations", "histories"], "all tools x option combinations x input states (valid, malformed, missing, output = input, output exists)",
  "The command-line tools have no tests at all.",
  ["cli/msgofmt/cmd/root.go", "cli/msgomerge/cmd/root.go", "cli/msgocat/cmd/run.go", "cli/msgounfmt/cmd/root.go", "cli/xgotext/cmd/root.go", "cli/xgotext/cmd/join.go", "cli/xgotext/cmd/output.go"],
  [("output opening", "processOutput / os.OpenFile in each tool"), ("exclusive create", "compile ToFile")],
  [("file system", "path -> content", "directory the tool runs in")], ["exit status and directory contents of the five binaries"])

p("C23", "The tools' results compose",
  "Compiling PO files with msgofmt and decompiling with msgounfmt gives back the same live, non-fuzzy messages; msgocat applies its selection, file-list and language options exactly; msgomerge gives the library merge of its inputs with the header kept; xgotext gives the messages of its sources and, when joining, also keeps the existing file's messages (as obsolete where no longer found) and translations. "
  "Writing to `-` prints what would have been written to a file, and each subcommand of the wrapper does exactly what the standalone tool does.",
  ["inputs", "configurations"], "all input catalogues/sources x tool options x chains of tools",
  "The command-line tools have no tests at all.",
  ["cli/msgofmt/cmd/root.go", "cli/msgounfmt/cmd/root.go", "cli/msgocat/cmd/run.go", "cli/msgocat/cmd/flags.go", "cli/msgocat/cmd/parse.go", "cli/msgomerge/cmd/root.go", "cli/msgomerge/cmd/config.go", "cli/xgotext/cmd/root.go", "cli/xgotext/cmd/join.go", "cli/gotext-tools/cmd/linknames.go"],
  [("option mapping", "initCfg/initConfig of each tool"), ("wrapper", "cli/gotext-tools/cmd")],
  [("file system", "path -> content", "directory the tool runs in")], ["outputs of the six binaries"])

p("C24", "A failing destination is always reported",
  "When the destination of a compile fails at any byte (or cannot be created, or exists and may not be replaced), the compiler returns an error unless told to ignore errors; without an error, the destination received exactly the compiled bytes. "
  "What reached the destination before the failure is always a prefix of the compiled output.",
  ["fault_sequences", "inputs"], "all catalogues x PO/MO x failure at every byte position, short writes included",
  "No test uses a failing writer.",
  ["pkg/po/compile/po_compiler.go", "pkg/po/compile/mo_compiler.go", "pkg/po/compile/mo_compile.go"],
  [("buffered write and flush", "ToWriter"), ("error wrapping", "PoCompiler.error / MoCompiler.error")],
  [("delivered", "bytes accepted by the sink", "io.Writer given to ToWriter")], ["ToWriter / ToFile"])

p("C25", "Concurrent use gives the sequential results",
  "Goroutines that parse, compile, merge, sort, filter or extract at the same time, each with its own parser or compiler and sharing catalogues only for reading, obtain exactly the results of running alone, under every interleaving and without data races.",
  ["schedules", "inputs"], "all interleavings of operations on separate objects over shared read-only inputs",
  "All tests run sequentially and without the race detector.",
  ["internal/util/po_parse.go", "pkg/po/parse/po_parser.go", "pkg/po/parse/mo_parser.go", "pkg/po/compile/po_compiler.go", "pkg/po/compile/mo_compile.go", "pkg/go/parse/parser.go", "pkg/po/merge.go"],
  [("shared parser tables", "util.PoParser / PoLexer"), ("no shared mutable state", "package-level variables of pkg/po and pkg/go/parse")],
  [("package state", "package-level variables", "internal/util, pkg/po")], ["results of all public entry points", "race detector"])

p("C26", "Source discovery visits each requested Go file exactly once",
  "Given files and directories, the Go parser and xgotext read every .go file named or below a named directory exactly once, however the paths overlap or are spelled, except those excluded by file or directory name. "
  "A path that does not exist or a file that cannot be parsed is reported as an error instead of being skipped.",
  ["inputs", "configurations"], "all directory trees x argument lists x exclusion lists",
  "No test walks a directory or excludes anything.",
  ["pkg/go/parse/parser.go", "internal/util/skip.go", "cli/xgotext/cmd/input.go"],
  [("walk", "Parser.appendFiles / readFiles"), ("skip rule", "util.ShouldSkipFile")],
  [("seen", "absolute paths already read", "goparse.Parser.seen")], ["goparse.FromPaths", "xgotext"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
