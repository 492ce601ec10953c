#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run it to regenerate the file."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

FMT = "crates/air_r_formatter/src/"
# --- the formatter -------------------------------------------------------
p("F01", "Formatting is idempotent",
  "For every R program that parses and every valid combination of formatting options, formatting the formatted output again with the same options returns exactly the same text. A formatted file therefore passes `air format --check`.",
  ["programs", "configurations"], "every parseable R program x every option combination",
  "The snapshot tests re-format a few dozen fixture files under one or two option sets; idempotence breaks on combinations of constructs, comments and line breaks nobody put in a fixture.",
  [FMT+"lib.rs", FMT+"comments.rs", FMT+"r/", "crates/workspace/src/format.rs"],
  [("format_node and the per-node rules", FMT+"lib.rs, "+FMT+"r/**"), ("persistent line break detection", FMT+"r/auxiliary/call_arguments.rs")])
p("F02", "Formatting never changes the meaning of the program",
  "For every R program that parses, the formatted output parses to the same program: the same expressions with the same operators, operands, nesting, argument names and order, the same numbers and names as spelled, and strings that denote the same value. The only differences allowed are braces added around the body of a control-flow construct or function, the delimiter chosen for a string, and `=` and `<-` exchanged where both mean assignment (assignments in a row count as one row, because R itself groups `=` and `<-` differently from the grammar used here).",
  ["programs", "configurations"], "every parseable R program x every option combination",
  "Snapshot tests pin the layout of chosen fixtures; nothing compares the program before and after for inputs outside them.",
  [FMT+"r/", FMT+"string_content.rs", "crates/air_r_syntax/src/"],
  [("per-node format rules", FMT+"r/**"), ("assignment style rewriting", FMT+"r/auxiliary/binary_expression.rs"), ("string quote normalisation", FMT+"string_content.rs")])
p("F03", "Formatting keeps every comment, once, unchanged and in order",
  "For every R program that parses, the sequence of comments in the output equals the sequence of comments in the input: none is lost, duplicated, reordered, merged with code or altered beyond trailing whitespace (two comments may come to stand behind each other on one line).",
  ["programs"], "every placement of comments between any two tokens of any program",
  "Comment fixtures place comments where a developer thought of it; the number of (construct, position) pairs is far larger and each has its own placement rule.",
  [FMT+"comments.rs", FMT+"r/"],
  [("comment placement rules", FMT+"comments.rs"), ("printed-comment assertion of the formatting engine (debug builds only)", FMT+"lib.rs")])
p("F04", "A program that parses always formats, to a program that parses",
  "Formatting a program that parses never fails or panics and its output parses without error. A program with a syntax error is never reformatted: every entry point reports the error and hands back nothing to write.",
  ["programs", "configurations"], "every input text, valid or not",
  "Tests format valid fixtures plus a couple of broken ones.",
  ["crates/workspace/src/format.rs", "crates/air_r_parser/src/parse.rs", FMT+"lib.rs"],
  [("format_source_with_parse", "crates/workspace/src/format.rs"), ("parse errors", "crates/air_r_parser/src/parse.rs")])
p("F05", "Output text hygiene: line endings, blank lines, trailing whitespace",
  "For every program, the output uses only the configured line ending outside of string literals (decided per file in automatic mode), ends with exactly one line ending when it is not empty, has no trailing whitespace outside of string literals and code left verbatim, starts with no blank line and, outside of code left verbatim, never has more than one blank line in a row (two between statements at the top level). Indentation uses only the configured indent characters.",
  ["programs", "configurations"], "every program x line ending and indent options",
  "Snapshot tests look at LF inputs under default options.",
  [FMT+"context.rs", "crates/workspace/src/settings/line_ending.rs", "crates/workspace/src/format.rs"],
  [("option conversion", FMT+"context.rs"), ("line ending finalisation", "crates/workspace/src/settings/line_ending.rs")])
p("F06", "Code marked to be skipped is left verbatim",
  "A statement or argument preceded by a skip directive, a call to a function on the configured skip list, and a file that carries a skip-file directive in its leading comments are reproduced byte for byte (up to the file's line ending), while code around them is still formatted.",
  ["programs", "configurations"], "every program x every position of a directive x skip lists",
  "Tests mark a few node kinds; the guarantee is for every construct and position a directive can precede.",
  ["crates/comments/src/directive.rs", FMT+"comments.rs", FMT+"lib.rs", "crates/settings/src/skip.rs"],
  [("is_suppressed / skip list lookup", FMT+"lib.rs"), ("suppression by comment", FMT+"comments.rs")])
p("F07", "Layout does not depend on incidental whitespace",
  "With persistent line breaks disabled, two programs that differ only in spaces, tabs and line breaks between the tokens of the same comment-free expression get exactly the same formatted text (a line break in front of the body of a function or a part of an if statement asks for braces and is not incidental, nor is an empty line between statements). With them enabled this still holds for differences in spaces and tabs within a line.",
  ["programs", "configurations"], "every expression x every whitespace assignment between its tokens",
  "Fixtures contain one whitespace variant of each construct.",
  [FMT+"r/", "crates/settings/src/persistent_line_breaks.rs"],
  [("persistent line break option", FMT+"context.rs"), ("format rules", FMT+"r/**")])
p("F08", "Table calls are aligned and keep their cells",
  "A call laid out as a table (listed function or table directive) keeps each row of arguments on one line, in the same rows as written, pads columns so that the cells of a column line up, and loses or reorders no argument.",
  ["programs", "configurations"], "every table of cells x column alignment options",
  "Tests cover a few tables.",
  [FMT+"call_arguments_table.rs", "crates/settings/src/table.rs"],
  [("table layout", FMT+"call_arguments_table.rs")])
p("F09", "Bodies get braces exactly when documented, and braces stand on their own lines",
  "The body of every for, while and repeat loop comes out in braces. The body of a function or of the branches of an if statement gets braces if it starts on a line of its own, if a part of it takes several lines, if the line would get too long, and, for an if statement, also in effect position, behind an else, with an else on a new line, or with a branch that is in braces or an if statement; otherwise it gets none. Empty braces come out as `{}`; in all others the contents stand on lines of their own; `{{ x }}` in an argument stays on one line.",
  ["programs", "configurations"], "every program, with line breaks anywhere x every line width",
  "The rules depend on where a statement stands, on what is in it and on the width left; a snapshot fixes one of each.",
  [FMT+"loop_body.rs", FMT+"r/auxiliary/if_statement.rs", FMT+"r/auxiliary/function_definition.rs", FMT+"r/auxiliary/braced_expressions.rs", "docs/formatter.qmd"],
  [("autobracing", FMT+"r/auxiliary/if_statement.rs, "+FMT+"loop_body.rs"), ("braces", FMT+"r/auxiliary/braced_expressions.rs")])
p("F10", "Between two tokens stand the documented spaces and indentation, nothing else",
  "In the output every gap between two tokens is the one of its construct: no space inside of parentheses and brackets, after unary operators and around `$`, `@`, `::`, `:::`, `:`, `^`, `**` and in front of commas; one space around other operators, after commas and keywords and in front of braces. Every line that starts inside of a construct is indented by one step more than the line its construct starts on (chains of operators once for all their links), and closing delimiters stand under that line's start.",
  ["programs", "configurations"], "every program x every width and indentation",
  "Spaces and indentation depend on the pair of constructs and on what broke; snapshots show some pairs.",
  [FMT+"r/", FMT+"separated.rs", "docs/formatter.qmd"],
  [("per-node format rules", FMT+"r/**"), ("alignment in chains", FMT+"r/auxiliary/binary_expression.rs")])
p("F11", "Lines break where the author asked, or where they must, and nowhere else",
  "Arguments, parameters, chains of operators, comparisons and conditions are groups: the parts of each stand all on one line or all on lines of their own. A group is broken if the author put a line break in front of its first part (unless persistent line breaks are off), a blank line between its parts, or if a part takes several lines, except for a last braced or function argument, titled blocks and a single call as the only argument; or else if the line is longer than the line width. It is not broken otherwise. A line break after a left assignment stays exactly if it is persistent.",
  ["programs", "configurations"], "every program, with line breaks anywhere x every line width",
  "Whether a group breaks depends on everything before it on its line and everything inside of it; snapshots have fixed widths and chosen nests.",
  [FMT+"r/auxiliary/call_arguments.rs", FMT+"r/auxiliary/binary_expression.rs", FMT+"r/auxiliary/parameters.rs", "docs/formatter.qmd"],
  [("argument layouts", FMT+"r/auxiliary/call_arguments.rs"), ("persistent line breaks", FMT+"r/auxiliary/binary_expression.rs"), ("best fitting and hugging", FMT+"r/auxiliary/call_arguments.rs")])
p("F12", "The assignment style is applied exactly where R allows it",
  "With `assignment-style = \"arrow\"`, every `=` that assigns becomes `<-`; with `\"equal\"`, every `<-` becomes `=` where R's grammar lets `=` assign (a statement, the inside of parentheses, the body of a function, loop or if statement, the right side of another such assignment) and stays elsewhere; with `\"preserve\"`, and for all other operators, nothing changes.",
  ["programs", "configurations"], "every nesting of constructs x every style",
  "Tests have chosen places; where `=` is a syntax error depends on the whole chain of constructs above it.",
  [FMT+"r/auxiliary/binary_expression.rs", "docs/configuration.qmd"],
  [("can_normalize_to_equal", FMT+"r/auxiliary/binary_expression.rs")])
p("F13", "Comments and blank lines stay at their statements and arguments",
  "In the output every comment between statements, arguments or parameters stands between the same two of them as in the source. One on a line of its own keeps it, indented like what follows it (or like what it is the last of); one at the end of a line stays there, except behind an opening delimiter, from where it moves to the next line. Blank lines between statements stay, at most two in the file and one in braces; between arguments, parameters and comments at most one stays; behind an opening and in front of a closing delimiter there are none, nor at the start of the file.",
  ["programs", "configurations"], "every program, with comments and blank lines between any tokens",
  "Snapshots place comments and blank lines where a developer thought of it.",
  [FMT+"comments.rs", FMT+"joiner_ext.rs", FMT+"r/lists/expression_list.rs", FMT+"r/auxiliary/root.rs", FMT+"r/auxiliary/call_arguments.rs"],
  [("placement of comments", FMT+"comments.rs"), ("empty lines", FMT+"joiner_ext.rs"), ("lines between arguments", FMT+"r/auxiliary/call_arguments.rs")])
# --- the parser ----------------------------------------------------------
p("P01", "Parsing is lossless",
  "For every source text that is accepted, concatenating the text of all tokens with their leading and trailing trivia gives back the source text exactly, and no comment, blank line or byte order matters is dropped or moved to another token.",
  ["inputs"], "every accepted source text, including unusual whitespace, CRLF and comments between any two tokens",
  "Snapshot tests show trees for chosen snippets; trivia is reconstructed from gaps between tree-sitter nodes, so any gap combination can go wrong.",
  ["crates/air_r_parser/src/parse.rs", "crates/air_r_parser/src/treesitter.rs"],
  [("trivia reconstruction between tokens", "crates/air_r_parser/src/parse.rs")])
p("P02", "The parser is total and reports every syntax error",
  "Parsing any text terminates without a panic; a text is accepted exactly when the grammar accepts it, and a rejected text yields an error instead of a partial tree that a caller could format.",
  ["inputs"], "every text",
  "A handful of erroneous snippets is tested.",
  ["crates/air_r_parser/src/parse.rs", "crates/air_r_parser/src/error.rs"],
  [("parse", "crates/air_r_parser/src/parse.rs")])
p("P03", "The syntax tree is the one the grammar describes",
  "The typed syntax tree is what the grammar file r.ungram says, for every rule. The factory makes a complete node of a sequence of children exactly when they are the rule's parts in the rule's order (optional parts may be absent, nothing may be left over) and a bogus node of the same children otherwise; the text of the children is never lost. Each accessor gives the child in the place its name has in the rule, an error or nothing when it is absent; a name casts exactly the kinds the grammar gives it; builders make the node that their parts describe; a union's variants are its alternatives. Kinds and their texts match the documented spelling of punctuation and keywords, and binary operators rank as R ranks them. The tree of every accepted program consists of nodes of the rules only, with all required parts present (apart from the right side of an unfinished `$`, `@`, `::` or `:::`).",
  ["inputs"], "every rule x every sequence of children, and the tree of every program",
  "The generated accessors, casts and slot matching have no tests of their own; the formatter's snapshots touch the usual shapes.",
  ["crates/air_r_syntax/src/generated/nodes.rs", "crates/air_r_factory/src/generated/syntax_factory.rs", "xtask/codegen/r.ungram"],
  [("make_syntax", "crates/air_r_factory/src/generated/syntax_factory.rs"), ("AstNode implementations", "crates/air_r_syntax/src/generated/nodes.rs"), ("to_string, is_keyword", "crates/air_r_syntax/src/generated/kind.rs")])
# --- line endings --------------------------------------------------------
p("L01", "Line ending normalisation is exact",
  "For every text, normalising line endings turns each carriage return immediately followed by a line feed into a line feed and changes nothing else; lone carriage returns and all other bytes stay, the result contains no CRLF pair that was in the source as a line ending, is valid UTF-8 and normalising text without CRLF pairs is the identity. Both the owning and the borrowing form agree on every text.",
  ["inputs"], "every string, in particular every arrangement of CR, LF and multi-byte characters",
  "Four fixed strings are tested; the in-place gap-buffer surgery depends on the exact arrangement of pairs and on the tail.",
  ["crates/line_ending/src/lib.rs"],
  [("normalize, normalize_ref", "crates/line_ending/src/lib.rs")])
p("L02", "The automatic line ending is the first one found in the file",
  "For every file, automatic line ending detection yields the first line ending that occurs in the file: CRLF if the first line break is a carriage return plus line feed, otherwise LF, and LF for a file without line breaks. Explicit settings override detection whatever the file contains.",
  ["inputs", "configurations"], "every file content x every line-ending setting",
  "Tests have one mixed file, which starts with CRLF.",
  ["crates/line_ending/src/lib.rs", "crates/workspace/src/settings/line_ending.rs"],
  [("infer", "crates/line_ending/src/lib.rs"), ("finalize", "crates/workspace/src/settings/line_ending.rs")])
# --- directives ----------------------------------------------------------
p("D01", "A comment is a directive exactly when it has the documented form",
  "For every line of text, the formatter directive reported is skip, skip file or table exactly when the line is one or more `#`, optional blanks, `fmt`, a colon, optional blanks around exactly `skip`, `skip file` or `table`, and nothing else; every other text is no directive. Independently, a comment is treated as marking generated code exactly when its text after the hashes and blanks starts with `Generated by`.",
  ["inputs"], "every text line",
  "About a dozen spelled-out lines are tested; near misses (extra words, blanks inside, missing hash, other categories) are unbounded.",
  ["crates/comments/src/directive.rs"],
  [("parse_comment_directive, parse_special_skip_file", "crates/comments/src/directive.rs")])
# --- configuration -------------------------------------------------------
p("W01", "A path resolves to its closest registered ancestor directory",
  "After any sequence of adding, replacing, removing and clearing directories, looking up a path gives the value most recently registered for the deepest registered directory that is the path itself or one of its ancestors by whole path components, and the fallback when there is none. Listing all matches gives exactly the registered ancestors, outermost first, and adding or removing reports the value previously registered for that directory.",
  ["histories", "inputs"], "every history of add/remove/clear/update operations x every query path",
  "Five tests with two or three directories each; the answer depends on the order of insertion, on sibling names that sort between an ancestor and its child, and on removals.",
  ["crates/workspace/src/resolve.rs"],
  [("sorted insertion, binary search, reverse prefix scan", "crates/workspace/src/resolve.rs")],
  [("items", "registered directories sorted by path", "crates/workspace/src/resolve.rs")])
p("W02", "Every file is formatted with the settings of its closest configuration",
  "For every directory tree and every set of `air.toml` and `.air.toml` files in it, a file that is requested by itself uses the settings of the closest configuration file at or above its directory, and one found below a requested directory those of the closest configuration at or above that directory (or of a closer one that another requested path leads to), where `air.toml` wins over `.air.toml` in the same directory, and defaults when there is none; configurations above the working directory are found by walking up, and an invalid one that applies to any requested path is an error before anything is written.",
  ["configurations", "inputs"], "every placement of configuration files in a directory tree x every start path and working directory",
  "Discovery tests use a few fixed trees.",
  ["crates/workspace/src/discovery.rs", "crates/workspace/src/toml.rs", "crates/workspace/src/resolve.rs"],
  [("discover_settings", "crates/workspace/src/discovery.rs"), ("find_air_toml_in_directory", "crates/workspace/src/toml.rs")])
p("W03", "Exclude patterns follow gitignore rules relative to the configuration",
  "For every list of exclude patterns and every path, a file or directory is excluded exactly when the gitignore rules, applied relative to the directory of the configuration file, exclude it: a pattern without an inner slash matches at any depth, a leading slash anchors, a trailing slash matches directories only, `*` does not cross directories, `**` does, later patterns override earlier ones and `!` re-includes. Asking about a path also considers every directory above it, up to but not including the directory of the configuration file, which no pattern excludes.",
  ["configurations", "inputs"], "every pattern list x every path, file or directory",
  "One table of hand-picked (pattern, path) pairs is tested, single patterns only.",
  ["crates/workspace/src/file_patterns.rs", "crates/workspace/src/settings/exclude_patterns.rs"],
  [("FilePatterns::matched, matched_path_or_any_parents", "crates/workspace/src/file_patterns.rs")])
p("W04", "Default patterns select R files and exclude exactly the documented paths",
  "Without configuration, a path is included exactly when its file name ends in `.R` or `.r`, and excluded exactly when it, or a directory above it, is a directory named `.git`, `renv` or `revdep` or is named `cpp11.R`, `RcppExports.R`, `extendr-wrappers.R` or `import-standalone-*.R`; absolute and relative paths are treated alike and no path causes a panic.",
  ["inputs"], "every relative or absolute path of files and directories",
  "A few names are tested; whether a rule matches files or directories only, at depth, with near-miss names or with absolute paths is open.",
  ["crates/workspace/src/settings/default_exclude_patterns.rs", "crates/workspace/src/settings/default_include_patterns.rs", "crates/workspace/src/file_patterns.rs"],
  [("default pattern lists", "crates/workspace/src/settings/default_exclude_patterns.rs"), ("matched_path_or_any_parents", "crates/workspace/src/file_patterns.rs")])
p("W05", "A configuration is accepted exactly when valid, and means what it says",
  "A configuration is accepted exactly when every table and option in it is documented and has a documented value; then each option that is present has the given value and each absent one its documented default, so the empty configuration equals no configuration. An invalid configuration is an error that names the problem, never silently ignored or partially applied.",
  ["configurations"], "every subset of options x valid and invalid values for each",
  "Tests parse a few documents, one option at a time.",
  ["crates/workspace/src/toml.rs", "crates/workspace/src/toml_options.rs", "crates/workspace/src/settings.rs"],
  [("TomlOptions::into_settings", "crates/workspace/src/toml_options.rs"), ("parse_air_toml", "crates/workspace/src/toml.rs")])
p("W06", "Option values are validated and converted without loss",
  "Over the whole integer range, a line width is accepted exactly from 1 to 320 and an indent width exactly from 1 to 24, whatever the way in (typed conversion or configuration text); an accepted value is reported back unchanged by every accessor, and defaults are 80 and 2. Every option keyword (indent style, assignment style, persistent line breaks) is accepted exactly in its documented spelling, in every way it can be given, and converting an option to the formatting engine's type and back is the identity.",
  ["inputs"], "all values of the integer types and all spellings near the keywords",
  "Two in-range and two out-of-range numbers are tested.",
  ["crates/settings/src/line_width.rs", "crates/settings/src/indent_width.rs", "crates/settings/src/indent_style.rs", "crates/settings/src/assignment_style.rs", "crates/settings/src/persistent_line_breaks.rs", "crates/settings/src/line_ending.rs"],
  [("TryFrom and Deserialize implementations", "crates/settings/src/line_width.rs, crates/settings/src/indent_width.rs")])
p("W07", "A function name list contains exactly the names given to it",
  "For every list of names, in any order and with duplicates, the skip and table lists built from it contain a name exactly when it was listed; the order in which the names were written makes no difference to equality or to how the list is shown, and merging two lists contains exactly the names of both. Without configuration the table list is `tribble` and `fcase`.",
  ["configurations"], "every sequence of names x every queried name",
  "Tests use one- or two-element lists already in sorted order.",
  ["crates/settings/src/sorted_strings.rs", "crates/settings/src/skip.rs", "crates/settings/src/table.rs"],
  [("sort at construction, binary search at lookup", "crates/settings/src/sorted_strings.rs")])
p("W08", "Formatting a set of paths touches exactly the files it should",
  "For every directory tree, configuration and list of requested paths, the files formatted are exactly the R files given explicitly or found below a requested directory that no applicable exclude pattern covers, under whatever spelling they are requested; below a requested directory, hidden files and those that git ignores are left out. With `--force`, exclude patterns do not apply and files by any name count. A requested path that does not exist is an error and does not keep the others from being formatted; nothing outside the requested paths is written.",
  ["configurations", "inputs"], "every tree x exclude configuration x list of requested paths",
  "Discovery tests cover a handful of trees.",
  ["crates/workspace/src/discovery.rs", "crates/air/src/commands/format/paths.rs"],
  [("discover_r_file_paths", "crates/workspace/src/discovery.rs")])
p("W09", "Paths are made absolute and relative without changing what they name",
  "For every path, making it absolute yields an absolute path without `.` or `..` components that names the same location as resolving the path component by component from the working directory, and doing it twice changes nothing; showing an absolute path relative to the working directory strips exactly that directory prefix, by whole components, and leaves all other paths alone. A path counts as an R file exactly when its extension is `r` or `R`.",
  ["inputs"], "every path spelled with names, `.`, `..`, repeated and trailing slashes",
  "There are no tests for these functions.",
  ["crates/fs/src/lib.rs"],
  [("normalize_path, relativize_path, has_r_extension", "crates/fs/src/lib.rs")])
p("W10", "The published schema allows exactly the configuration files that air reads",
  "For every TOML document, `artifacts/air.schema.json` allows it exactly if air accepts it as `air.toml`, up to the syntax of exclude patterns: the same tables and options, the same types, ranges and keywords, and no others.",
  ["inputs", "configurations"], "every option x every value x every subset of options",
  "No test reads the schema.",
  ["artifacts/air.schema.json", "crates/workspace/src/toml_options.rs", "crates/settings/src/indent_width.rs", "crates/settings/src/line_width.rs"],
  [("TomlOptions", "crates/workspace/src/toml_options.rs"), ("published schema", "artifacts/air.schema.json")])
# --- command line --------------------------------------------------------
p("A01", "Check mode never writes; format mode writes exactly what changed",
  "For every set of files, `air format` replaces exactly the files whose formatted text differs, with that text, and leaves every other file (already formatted, with syntax errors, unreadable, excluded) untouched; with `--check` no file is ever written. The exit status is 0 exactly when, in format mode, no file failed and, in check mode, additionally no file would change.",
  ["inputs", "configurations", "fault_sequences"], "every combination of file states (formatted, unformatted, invalid, unreadable, unwritable, excluded) x mode",
  "Integration tests run a few combinations.",
  ["crates/air/src/commands/format.rs", "crates/air/src/commands/format/paths.rs", "crates/air/src/status.rs"],
  [("format_paths, write results", "crates/air/src/commands/format/paths.rs")])
p("A02", "Formatting standard input equals formatting the file",
  "For every text, settings and file path, formatting standard input under that path prints exactly what formatting the file in place would have left in it: the formatted text, or the text verbatim when the path is excluded; with `--check` nothing is printed and the exit status says whether it would change, and a syntax error prints no output and fails.",
  ["inputs", "configurations"], "every text x path x configuration x mode",
  "Two or three stdin tests.",
  ["crates/air/src/commands/format/stdin.rs", "crates/air/src/args.rs"],
  [("format_stdin", "crates/air/src/commands/format/stdin.rs")])
# --- language server -----------------------------------------------------
p("S01", "Edits sent to the client reproduce the formatted document exactly",
  "For every document text and target text, applying the list of edits computed between them, by the rules of the protocol (non-overlapping, positions in the original document, in the client's position encoding), yields exactly the target text; every edit position lies on a character boundary inside the document, and equal texts give no edits.",
  ["inputs"], "every pair of texts, incl. multi-byte characters, CRLF and missing final newline, x position encodings",
  "A few formatting results are compared in snapshot tests.",
  ["crates/aether_lsp_utils/src/diff.rs", "crates/aether_lsp_utils/src/text_edit.rs", "crates/aether_lsp_utils/src/proto/to_proto.rs"],
  [("TextEdit::diff", "crates/aether_lsp_utils/src/text_edit.rs"), ("replace_all / diff edits to protocol edits", "crates/aether_lsp_utils/src/proto/to_proto.rs")])
p("S02", "Position conversion between protocol and text is exact",
  "For every text and every character boundary in it, converting the offset to a protocol position in UTF-8, UTF-16 or UTF-32 and back returns the same offset; the line and column agree with counting lines and code units directly, and every protocol position inside the text converts to the offset it denotes.",
  ["inputs"], "every text with multi-byte and astral characters x every offset x three encodings",
  "Tests have ASCII documents and one encoding.",
  ["crates/aether_lsp_utils/src/proto/from_proto.rs", "crates/aether_lsp_utils/src/proto/to_proto.rs"],
  [("offset / position conversion", "crates/aether_lsp_utils/src/proto/from_proto.rs")])
p("S03", "The server's copy of a document equals the client's",
  "After any history of opening, changing (full or incremental, one or several edits per notification), and closing documents, the text the server holds for each open document is the client's text with line endings normalised, whatever its characters, the line ending it remembers is the one that the client's text uses, and the version is the client's.",
  ["histories", "inputs"], "every history of open/change/close with multi-edit changes x position encodings x line endings",
  "One or two incremental edits are tested on ASCII text.",
  ["crates/lsp/src/documents.rs", "crates/aether_lsp_utils/src/proto/from_proto.rs", "crates/lsp/src/handlers_state.rs"],
  [("Document::on_did_change", "crates/lsp/src/documents.rs"), ("apply_text_edits", "crates/aether_lsp_utils/src/proto/from_proto.rs")])
p("S04", "Formatting in the editor equals formatting on the command line",
  "For every document and configuration, applying the edits returned by a document formatting request to the client's text gives the text that `air format` would write for that file with those settings, in the line ending of the document and, for a notebook cell, without the newline at the end; no edits are returned when it would change nothing, is excluded, or has a syntax error. Documents without a configuration are indented as the client asks.",
  ["inputs", "configurations"], "every document x settings x line endings",
  "A few requests are snapshot-tested.",
  ["crates/lsp/src/handlers_format.rs", "crates/workspace/src/format.rs"],
  [("document_formatting", "crates/lsp/src/handlers_format.rs")])
p("S05", "Range formatting changes only the selected statements",
  "For every document and selection, applying the edits of a range formatting request formats every statement that the selection touches, of the innermost block that holds the whole selection, with its comments and in its indentation, just as formatting these statements alone would; everything before and after them stays byte for byte, the document's meaning and comments are unchanged, and a document with a syntax error is left alone.",
  ["inputs"], "every document x every selection range",
  "Around a dozen selections are snapshot-tested.",
  ["crates/lsp/src/handlers_format.rs"],
  [("document_range_formatting", "crates/lsp/src/handlers_format.rs")])
p("S06", "Server settings follow configuration files and the client's folders",
  "After any history of opening and closing workspace folders and of creating, changing and deleting configuration files (with the notification for each), the settings the server uses for a document are those of the closest configuration at or above the closest workspace folder that holds it, as it was on disk at the last notification, or the client's editor settings and defaults when there is none or it is invalid; a document outside all folders has the latter, and a document without a file has the settings of the only folder.",
  ["histories", "configurations"], "every history of folder and configuration events",
  "Two workspace tests.",
  ["crates/lsp/src/workspaces.rs", "crates/lsp/src/handlers_state.rs", "crates/lsp/src/documents.rs"],
  [("workspace folder settings resolution and reload", "crates/lsp/src/workspaces.rs")])
p("S07", "Requests are answered in order with the state they were sent in",
  "For every interleaving of notifications and requests a client may send, each request gets exactly one response, computed from the documents and settings as of its place in the message order; state changes are applied one at a time in order, and a message that cannot be handled neither stops the server nor loses later messages.",
  ["schedules", "histories"], "every sequence of messages x every scheduling of the handler tasks",
  "Tests send one request at a time and wait.",
  ["crates/lsp/src/main_loop.rs", "crates/lsp/src/tower_lsp.rs"],
  [("single-consumer event loop", "crates/lsp/src/main_loop.rs")])
p("S08", "Message framing survives any chunking and malformed messages",
  "For every sequence of well-formed messages, decoding the concatenated byte stream delivers exactly those messages in order, each as soon as its last byte has arrived and however the bytes are split into reads; header order, optional content type and empty bodies make no difference, and encoding a message gives bytes that decode to it. A complete header without a usable length, or a body that is not valid JSON for the message type, yields an error, after which the well-formed messages that follow are still delivered; no input makes the decoder panic.",
  ["inputs", "schedules", "fault_sequences"], "every message sequence x every split of the stream x every malformed frame in between",
  "Tests feed one message byte by byte and one malformed frame in one piece.",
  ["crates/lsp_test/src/tower_lsp/codec.rs"],
  [("LanguageServerCodec::decode / encode", "crates/lsp_test/src/tower_lsp/codec.rs")],
  [("content_len, remaining", "body length expected and bytes still missing", "crates/lsp_test/src/tower_lsp/codec.rs")])
p("S09", "Applying a list of text edits follows the protocol",
  "For every text and every list of edits whose ranges do not overlap, in whatever order they are listed, applying the list replaces exactly those ranges of the original text, inserts at the same position appearing in the order of the list.",
  ["inputs"], "every text x every list of edits x position encodings",
  "The edits that tests apply are those that formatting a few documents gives.",
  ["crates/aether_lsp_utils/src/proto/from_proto.rs"],
  [("apply_text_edits", "crates/aether_lsp_utils/src/proto/from_proto.rs")])
p("S10", "The client always knows the settings of every open document",
  "After any history of opening and closing documents and folders and of creating, changing and deleting configuration files, with the notification for each, and as long as the client asks for synchronisation, the settings that the server last sent to the client for each open document are those it uses for that document.",
  ["histories", "configurations"], "every history of document, folder and configuration events",
  "No test looks at this notification.",
  ["crates/lsp/src/notifications.rs", "crates/lsp/src/handlers_state.rs"],
  [("sync of file settings", "crates/lsp/src/handlers_state.rs")])
p("S11", "The server takes the settings that editors send, and asks to be told of changes",
  "For every client and every combination of values that the VS Code extension declares for its settings, or none, given as initialization options and as answers to the server's questions after any history of changes, air's own crates log at the level asked for (`info` by default, `warning` and `warn` alike), dependencies as asked for (not at all by default), and settings are synchronized exactly if the client says so. A client that answers a question with an error, nothing, or the wrong number of values leaves the settings as they were and the server working. The server asks for every setting meant for it, registers for its changes and for those of `air.toml` and `.air.toml` in any directory where the client supports that, and asks nothing of a client that does not.",
  ["configurations", "histories", "fault_sequences"], "every combination of values x capabilities; every history of changes and faulty answers",
  "Tests send no initialization options and answer no questions.",
  ["crates/lsp/src/logging.rs", "crates/lsp/src/settings.rs", "crates/lsp/src/settings_vsc.rs", "crates/lsp/src/handlers.rs", "crates/lsp/src/handlers_state.rs", "crates/lsp/src/capabilities.rs", "editors/code/package.json"],
  [("InitializationOptions, LogState", "crates/lsp/src/logging.rs"), ("update_config", "crates/lsp/src/handlers_state.rs"), ("dynamic registrations", "crates/lsp/src/handlers.rs")])
# --- tooling and editors -------------------------------------------------
p("T01", "The grammar language is parsed as documented, with exact error positions",
  "For every text, reading a grammar either gives exactly the rules written (names, tokens with escapes, sequence, alternative, unordered and grouping structure, labels, `?` and `*` binding to the nearest element; nodes and tokens numbered in order of first appearance) or an error; it is an error exactly when the text is not in the language (mixed combinators without parentheses, a missing operand, an undefined or doubly defined node, an unclosed literal, a stray character). An error caused by a token in the text is positioned at the 1-based line and column of that token, in characters, and no text causes a panic.",
  ["inputs"], "every sequence of grammar tokens, whitespace and comments",
  "One test parses the shipped grammar file and drops the result.",
  ["crates/biome_ungrammar/src/lexer.rs", "crates/biome_ungrammar/src/parser.rs", "crates/biome_ungrammar/src/lib.rs"],
  [("tokenize", "crates/biome_ungrammar/src/lexer.rs"), ("rule / seq_rule / opt_atom_rule", "crates/biome_ungrammar/src/parser.rs")])
p("T02", "The Zed extension finds the right binary and keeps its cache consistent",
  "For every state of user settings, search path, earlier downloads and release assets, and every failure of a download step, the command started is the user's binary if configured, else the one on the search path, else the last downloaded one if still present, else the matching asset of the latest release; user arguments are always passed through and default to the language server command. A failed download or release lookup is reported, removes nothing and is never remembered as installed; a release already on disk is not downloaded again; clean-up happens only after a successful download and removes every other directory but never the release just installed. The user's initialization options and settings for the server are passed through unchanged.",
  ["histories", "fault_sequences", "configurations"], "every history of starts x settings x disk state x failure point",
  "The only test checks three names of release assets.",
  ["editors/zed/src/lib.rs"],
  [("language_server_binary", "editors/zed/src/lib.rs")],
  [("cached_binary_path", "path of the last downloaded binary", "editors/zed/src/lib.rs")])
p("T03", "Release assets are named and unpacked as they are published",
  "For every operating system, architecture and version, the asset requested is `air-<arch>-<vendor-os>` with `tar.gz` on Unix and `zip` on Windows, is unpacked with the matching format into a directory named after the version, and the binary is looked up where that archive puts it (a nested directory on Unix, the top level on Windows).",
  ["configurations"], "every platform x architecture x version",
  "Three of nine platform pairs are tested.",
  ["editors/zed/src/lib.rs"],
  [("GithubReleaseDetails::new", "editors/zed/src/lib.rs")])
p("T04", "Build tooling runs commands as written and restores its environment",
  "For every command line, arguments are split at blanks and quoted parts are passed as one argument unchanged, with input and output passed through and a failing command reported as an error; directory and environment changes last exactly as long as their guards, nest, and are undone in reverse order; removing a path succeeds when nothing is there and removes all of a file or directory, and nothing else. Source is reformatted exactly as the stable rustfmt does, below the preamble for generated files, and what is no Rust is an error.",
  ["inputs", "histories"], "every command line over quotes and blanks; every nesting of directory and environment guards",
  "There are no tests.",
  ["xtask/src/glue.rs", "xtask/src/lib.rs"],
  [("shelx, Env push/pop guards", "xtask/src/glue.rs"), ("reformat", "xtask/src/lib.rs")])

p("V01", "VS Code starts the executable that the settings ask for",
  "For every combination of workspace trust, `air.executableStrategy`, `air.executablePath`, bundled executable, executable on the PATH, workspace folders and layers that hold the settings, the VS Code extension starts exactly this executable as `language-server`: in an untrusted workspace the bundled one whatever the settings say; with `bundled` the bundled one, else the one on the PATH; with `environment` the one on the PATH, else the bundled one; with `path` exactly the configured file, and none if that is not set or does not exist. If there is none it says so and starts nothing. Settings are those of the server's folder, the one with the shortest path that exists. A restart uses what is true then.",
  ["configurations", "histories"], "every world of trust, strategy, files and folders x every change between starts",
  "The extension's tests need an editor and start the bundled executable only.",
  ["editors/code/src/binary.ts", "editors/code/src/settings.ts", "editors/code/src/workspace.ts", "editors/code/src/lsp.ts"],
  [("resolveAirBinaryPath", "editors/code/src/binary.ts"), ("initialization settings and root folder", "editors/code/src/settings.ts")])
p("V02", "At most one server runs under VS Code, and the last command decides",
  "For every interleaving of start, stop, restart and deactivation with the completion, success or failure of the operations they consist of: never are two servers started or running at a time; commands take effect in the order given, each completes, and when all have completed the server runs exactly if the last one that could decide it asked for it; a failed start or stop is reported to whoever asked and leaves the following commands working; after deactivation no server is left; the state shown to the rest of the extension is that of the server.",
  ["schedules", "fault_sequences"], "every interleaving of commands and completions",
  "Tests start the server once.",
  ["editors/code/src/lsp.ts", "editors/code/src/context.ts", "editors/code/src/extension.ts"],
  [("Lsp start/stop/restart queue", "editors/code/src/lsp.ts")])
p("V03", "Formatting or initializing a workspace folder touches that folder only",
  "For every set of workspace folders, open documents and existing files: `Air: Format Workspace Folder` works on the folder the user picked (the only one if there is just one), first saves the unsaved documents inside that folder, and no others, if the user agrees and otherwise does nothing; it then runs the server's own executable on that folder and reports success exactly if that succeeded. `Air: Initialize Workspace Folder` creates `air.toml` only if there is no configuration, adds the missing lines to an existing `.Rbuildignore` keeping every byte that is there and its line endings, adds the missing settings to the folder's settings keeping all others, is idempotent, and reports every failure.",
  ["inputs", "configurations", "fault_sequences"], "every set of folders, documents and files x every failing step",
  "Tests run the command once in an empty folder.",
  ["editors/code/src/workspace.ts", "editors/code/src/command/workspace-folder-formatting.ts", "editors/code/src/command/workspace-folder-initialization.ts"],
  [("folder selection and document saving", "editors/code/src/workspace.ts"), ("initialization steps", "editors/code/src/command/workspace-folder-initialization.ts")])
p("V04", "Settings pass unchanged between VS Code and the server",
  "For every value of every setting in every layer (user, workspace, folder, language), the server is given at its start the log settings of its folder, and is answered every question for settings with the value that the editor uses for that document, its language included. For every history of the server's announcements of file settings, switches between editors, changes and restarts, the options of each editor of a document are those last announced for that document by the running server, at the time it is shown and whenever it is shown again, and no other editor's options change.",
  ["configurations", "histories"], "every value x layer x document; every history of announcements and editor switches",
  "Tests look at one document and one setting.",
  ["editors/code/src/lsp.ts", "editors/code/src/settings.ts", "editors/code/src/notification/sync-file-settings.ts"],
  [("configuration middleware", "editors/code/src/lsp.ts"), ("SyncFileSettings", "editors/code/src/notification/sync-file-settings.ts")])
p("V05", "The running executable is on the terminals' PATH exactly if wanted",
  "For every history of starts, stops, restarts, failures and changes of `air.addExecutableToTerminalPath` in any layer, at rest new terminals have the directory of the running server's executable in front of their PATH exactly if the server runs and the setting of its folder is on (its default); the change is undone otherwise and never outlives the session.",
  ["histories", "configurations"], "every interleaving of commands, completions and changes of the setting x layers",
  "No test.",
  ["editors/code/src/environment.ts", "editors/code/src/settings.ts", "editors/code/src/lsp.ts"],
  [("PathEnvironmentVariableManager", "editors/code/src/environment.ts")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
assert len({x["id"] for x in P}) == len(P)
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
