#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.txt, properties.jsonl and the notes below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claimed = set()
for line in open(os.path.join(root, "checks.txt")):
    if not line.startswith("#"):
        claimed |= set(line.split()[2:])
FULL = "Every execution is of the real parser, formatter and configuration code, compiled from /repo's working tree on top of stand-ins for biome's engine and tree-sitter, which are not available offline (the stand-ins reproduce all snapshots of the repository); "
DIRECT = "Every execution is of the real code, compiled from /repo's working tree; "
SERVER = "Every execution is of the real language server, formatter and configuration code, compiled from /repo's working tree on top of stand-ins for the libraries that are not available offline (tower-lsp among them, whose dispatch is modelled); "
CLI = "Every execution is a process of the real command, compiled from /repo's working tree on top of stand-ins for the libraries that are not available offline (biome's engine, tree-sitter, logging, colours); "
NODE = "Every execution is of the extension's own code, bundled from /repo's working tree, with stand-ins for the editor, the client library, processes and the file system, whose operations stay pending until the explorer lets them complete or fail; "
NOTES = {
 "V01": ("explicit-state exploration of worlds and schedules on the real extension", NODE + "against a table of what the documentation of the settings says."),
 "V02": ("stateless exploration of all interleavings on the real extension", NODE + "at every point the explorer chooses between the next command and each pending operation, by depth-first search up to the bound."),
 "V03": ("exhaustive enumeration of folders, documents and files with fault injection on the real extension", NODE + "every file and setting is compared before and after."),
 "V04": ("explicit-state exploration of settings, questions and histories on the real extension", NODE + "against the editor's documented order of layers."),
 "V05": ("stateless exploration of all interleavings on the real extension", NODE + "the terminals' PATH is compared at every rest state with what server and setting ask for."),
 "A01": ("exhaustive enumeration of directories with faults, on the real command", CLI + "unreadable, unwritable, missing and invalid files are the faults; every file's text, mode and time stamp is compared afterwards."),
 "A02": ("exhaustive enumeration of texts, paths and configurations on the real command", CLI + "what standard input gives is compared with what another process makes of a file with the same text."),
 "W02": ("exhaustive enumeration of configuration trees and requests on the real command", CLI + "every configuration has an indentation of its own, which tells which one applied."),
 "W05": ("exhaustive enumeration of configuration texts on the real code", DIRECT + "all subsets of options, and every value for each, against a table of what the documentation says."),
 "W08": ("exhaustive enumeration of directories, patterns and requests on the real command", CLI + "against an independent walk of the tree with an independent gitignore matcher. What the ignore library gets wrong is listed."),
 "L01": ("exhaustive enumeration of texts on the real code", DIRECT + "all texts up to the bound over the characters that matter to line endings, padded past the search window of the substring finder, against a one-pass reference."),
 "L02": ("exhaustive enumeration of texts on the real code", DIRECT + "all texts up to the bound; the setting `auto`, `lf`, `crlf` and `native` through their configuration spelling."),
 "D01": ("exhaustive enumeration of comment texts on the real code", DIRECT + "all token words and all near misses of the directives, against a reference grammar of comments."),
 "W01": ("explicit-state exploration of operation histories, conformance at every step", DIRECT + "all histories of add/remove/query over colliding directory names, against an associative reference searched linearly."),
 "W03": ("exhaustive enumeration of pattern lists and paths on the real code", DIRECT + "against an independent gitignore matcher on path components. Trusts that matcher (checked against git's documentation and, on doubt, git itself)."),
 "W04": ("exhaustive enumeration of paths on the real code", DIRECT + "all paths over the special names and their near misses, as file and directory, with six kinds of prefixes."),
 "W06": ("exhaustive enumeration of option values on the real code", DIRECT + "the whole integer range of the types. The conversions to the formatting engine's types are not compiled here."),
 "W07": ("exhaustive enumeration of name lists on the real code", DIRECT + "all lists up to the bound, against sets."),
 "W09": ("exhaustive enumeration of path spellings on the real code", DIRECT + "against component-wise resolution from a fixed working directory."),
 "S08": ("exhaustive exploration of message streams under all fragmentations", DIRECT + "the decoder is driven as its transport does, with every split of the stream into reads up to the bound."),
 "T01": ("exhaustive enumeration of grammar texts on the real code", DIRECT + "against an independent lexer and recursive-descent recogniser of the grammar language."),
 "T02": ("explicit-state exploration of start histories with fault injection", DIRECT + "the extension runs on a real scratch directory, with a scripted stand-in for Zed's host that injects every failure at every call; the reference predicts command, downloads and disk."),
 "T03": ("exhaustive enumeration of platforms and releases on the real code", DIRECT + "with a scripted stand-in for Zed's host."),
 "T04": ("exhaustive exploration of command lines and guard histories on the real code", DIRECT + "real processes are started for every command line; guards are dropped in every well nested order."),
 "F01": ("exhaustive enumeration of programs and options on the real code", FULL + "every program of the bounded families is formatted twice. Sites where a comment makes this fail are listed by site."),
 "F02": ("exhaustive enumeration of programs and options on the real code", FULL + "the trees before and after are compared, without what carries no meaning."),
 "F03": ("exhaustive enumeration of programs and options on the real code", FULL + "comments before and after are read by an independent scanner."),
 "F04": ("exhaustive enumeration of programs and options on the real code", FULL + "every program of the bounded families, and every rejected text among them."),
 "F05": ("exhaustive enumeration of programs and options on the real code", FULL + "an independent scanner tells code from strings and comments."),
 "F06": ("exhaustive enumeration of programs, directives and skip lists on the real code", FULL + "every construct behind every directive at every place that can have one."),
 "F07": ("exhaustive enumeration of whitespace assignments on the real code", FULL + "all subsets of gaps get line breaks; programs that are the same but for whitespace have to come out the same."),
 "F08": ("exhaustive enumeration of tables on the real code", FULL + "rows and columns are measured in the output."),
 "F09": ("exhaustive enumeration of programs and layouts on the real code", FULL + "an independent reading of the documentation says which bodies get braces; where it says `too long`, the same program formatted without a bound shows how long."),
 "F10": ("exhaustive enumeration of programs and layouts on the real code", FULL + "every gap between tokens of the output is compared with an independent table of gaps per construct."),
 "F11": ("exhaustive enumeration of programs and layouts on the real code", FULL + "an independent reading of the documentation says which groups break; how long a line would be comes from the same program formatted without a bound."),
 "F12": ("exhaustive enumeration of programs and styles on the real code", FULL + "against an independent table of where R's grammar has an assignment by `=`."),
 "F13": ("exhaustive enumeration of comments and blank lines on the real code", FULL + "an independent scanner finds the comments; tokens, comments and line breaks of source and output are compared one by one."),
 "S01": ("exhaustive enumeration of pairs of texts on the real code", SERVER + "the edits are applied by an independent reading of the protocol."),
 "S02": ("exhaustive enumeration of texts and positions on the real code", SERVER + "against counting lines and code units."),
 "S03": ("explicit-state exploration of change histories, conformance at every step", SERVER + "against the client's own copy of the text."),
 "S04": ("exhaustive enumeration of documents and configurations on the real server", SERVER + "against the function that the command line formats with."),
 "S05": ("exhaustive enumeration of documents and selections on the real server", SERVER + "an independent scanner finds the statements and what the selection touches; what they should become comes from formatting them alone on the command line's path."),
 "S06": ("explicit-state exploration of folder and configuration histories on the real server", SERVER + "settings are observed through formatting after every step, against a reference resolution on the model of the disk."),
 "S07": ("exhaustive exploration of message scripts under all schedules of delivery", SERVER + "the server runs on one thread; every split of a script into bursts and every number of scheduler rounds between them up to the bound is run."),
 "S09": ("exhaustive enumeration of texts and edit lists on the real code", SERVER + "against applying the list to positions of the original text."),
 "S10": ("explicit-state exploration of document, folder and configuration histories on the real server", SERVER + "the client's knowledge is compared with what formatting shows the server to use."),
 "S11": ("explicit-state exploration of settings and answers on the real server", SERVER + "the filter that the server hands to the logging library shows the levels; synchronization shows in what it sends. The declared values are read from the extension's package.json."),
 "W10": ("exhaustive enumeration of configuration texts on the real code", DIRECT + "against the published schema, read by a validator of its own."),
 "P01": ("exhaustive enumeration of trivia between tokens on the real code", FULL + "the tree is compared with the text, with an independent scanner and with the grammar's own tree."),
 "P03": ("exhaustive enumeration of child sequences and programs on the real code", DIRECT + "against the rules of r.ungram, read by a parser of its own; the trees of programs come from the real parser on a stand-in for tree-sitter."),
 "P02": ("exhaustive enumeration of token and character sequences on the real code", FULL + "acceptance is compared with the grammar's own tree."),
}
REASONS = {}
checks = []
for p in props:
    if p["id"] in claimed:
        technique, note = NOTES[p["id"]]
        checks.append({
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "technique": "model checking: " + technique,
            "level": "model_checking",
            "level_note": note,
        })
na = [{"property": p["id"], "reason": REASONS.get(p["id"], "Not claimed yet: the code needs git dependencies that are not available offline, so nothing that runs it is built so far.")} for p in props if p["id"] not in claimed]
manifest = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
            "notes": "No hooks in /repo: the checks compile its crates (and bundle its extension) directly. Changes to /repo are `fix:` commits only; see known-findings.txt."}
json.dump(manifest, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
