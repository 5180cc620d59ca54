#!/usr/bin/env python3
"""Writes known_findings.jsonl: the defects found in the original tree, each repaired in /repo by one commit."""
import json, os, subprocess
F = [
 ("C16", "do not modify the catalogues passed", "filters, merges and compilers wrote into the backing arrays of the catalogues they were given (omit header, solve, clean, sort, merge)"),
 ("C15", "msgcat keeps the header", "concatenation dropped the header, flags and plural forms and marked messages fuzzy that did not conflict"),
 ("C11", "compare every field of entries", "messages with different flags, plural forms or obsolete marks were equal; a struct whose first field was compared already was taken for compared"),
 ("C14", "similarity ratios of empty", "similarity of messages without context or plural id divided by zero"),
 ("C13", "merging keeps translations", "merging dropped untouched translations, repeated reference messages and left guessed translations unmarked (also C14)"),
 ("C08", "resolving duplicates never drops", "resolving replaced translations by empty ones and lost plural ids"),
 ("C10", "comparing entries by translation", "CompareEntry was no order: plural and singular messages compared inconsistently"),
 ("C12", "split header fields at", "a field value with a colon was split at its last colon"),
 ("C01", "escape control characters", "control characters were written so that the digits after them became part of the escape"),
 ("C04", "an unset location mode", "a PO configuration without location mode panicked"),
 ("C04", "highlighting must not change", "highlighted obsolete messages were marked on other lines than plain ones"),
 ("C04", "do not add the translation prefix", "the translation prefix and suffix were added to the header"),
 ("C04", "write a managed header exactly once", "with header management the header was written twice and unescaped"),
 ("C02", "lex strings that end in an escaped", "a string that ends in an escaped backslash ran on into the next one (also C01)"),
 ("C03", "report truncated messages", "a truncated last message, a comment on the last line or missing text at the end was accepted in silence or rejected wrongly; the input bytes were modified (C18)"),
 ("C02", "read comments by how they begin", "comments, flag lists, lines with several references and CRLF line ends were misread"),
 ("C02", "obsolete entries keep their comments", "obsolete messages lost their comments, and errors inside them were dropped (C03)"),
 ("C06", "hash bytes, not runes", "hash table entries of non-ASCII ids could not be found"),
 ("C06", "write the MO magic number", "big endian files had a magic number in the wrong byte order"),
 ("C07", "check the bounds of every table", "tables and strings outside of a MO file panicked or allocated without bound (also C05, C18)"),
 ("C05", "a duplicate that is not compiled", "a fuzzy or obsolete duplicate hid the live message"),
 ("C26", "report missing inputs and honour", "missing inputs were skipped in silence and excluded directories were read"),
 ("C21", "report the line on which", "the line of a literal was that of the character before it"),
 ("C26", "ignore empty lines in lists", "an empty line of a file list named the current directory (also C23)"),
 ("C18", "resetting a Go file forgets", "a reset Go file kept the import name, errors and content of the previous one"),
 ("C19", "a malformed call or an empty literal", "a call with too few arguments or an empty literal hid other messages (also C20)"),
 ("C17", "restoring the last configuration", "options that replace the whole configuration could not be undone"),
 ("C22", "msgomerge reads its inputs", "msgomerge truncated its output before reading its inputs, and lost the header (C23)"),
 ("C22", "msgofmt writes to stdout", "msgofmt -D compiled every file, ignored its options, and wrote a file named - (C23)"),
 ("C23", "msgocat honours --files-from", "msgocat ignored --files-from"),
 ("C23", "msgounfmt reads standard input", "msgounfmt without arguments printed nothing"),
 ("C22", "xgotext --join-existing keeps", "xgotext -j truncated the file it was to join with (also C23)"),
 ("C23", "xgotext must not mix", "xgotext printed log messages into its output"),
 ("C03", "report strings that reach", "a string without closing quote ran on into the next line"),
 ("C04", "comment out the comments of fuzzy", "commented-out fuzzy messages left their comments and flags to the next message"),
 ("C10", "compare line numbers and plural", "differences of large numbers overflowed in comparisons"),
 ("C22", "update def.po only after", "msgomerge -U changed def.po although writing the output failed"),
 ("C22", "check every output of msgofmt", "msgofmt -D wrote some files before failing on an existing one"),
 ("C15", "name the file that translates", "conflicting translations stood under the name of a file that does not translate the message"),
 ("C23", "msgocat --lang kept neither", "msgocat --lang lost the references of the header message and made an obsolete one live"),
 ("C08", "resolving duplicates no longer makes", "a live message and an obsolete one of the same key resolved to an obsolete message; msgomerge with a compendium lost reference messages that way"),
 ("C01", "references without a line were", "references without a line were written with the line -1, and read back as another file"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "b86d6fc..HEAD"], capture_output=True, text=True, check=True).stdout.split("\n")
out = []
for prop, start, what in F:
    c = [l.split()[0] for l in log if l.split(" ", 1)[-1].startswith("fix: " + start)]
    assert len(c) == 1, (start, c)
    out.append({"status": "fixed", "property": prop, "commit": c[0], "what": what, "line": "fixed: property=%s %s %s" % (prop, c[0], what)})
assert len(out) == len([l for l in log if l]), (len(out), len(log))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl"), "w").write("".join(json.dumps(o) + "\n" for o in out))
