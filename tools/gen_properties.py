#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property list, kept readable here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

G = "logstash_config.peg"; GO = "logstash_config.go"; H = "logstash_config_helper.go"
O = "logstash_config_options.go"; E = "parse_error_helper.go"; A = "ast/ast.go"; AH = "ast/ast_helper.go"

p("C01", "Parser accepts exactly the configurations the grammar describes",
  "A text is accepted as a Logstash configuration if and only if it is valid UTF-8 and derivable from the Logstash grammar as documented in the repository's grammar file (including its documented deviations: no method calls, comments may end at end of file, an unclosed bracket, brace, quote or regexp ends the parse with an error, plugins are not allowed as array elements or hash values). Everything else is rejected with an error and never silently truncated, repaired or partially accepted.",
  ["inputs"], "every byte string: grammar-derived texts with arbitrary comments/whitespace in every gap, and token- and byte-level mutations of them",
  "The existing tests parse a few dozen hand-written snippets; the language is infinite and the interesting disagreements (ordered choice, keyword prefixes, mandatory whitespace, escapes) sit in combinations no listed example contains.",
  [G, GO, H], [("PEG rules / generated matcher", "logstash_config.peg, logstash_config.go"), ("semantic actions that reject", "logstash_config_helper.go attributes/attributeComment/hashentry/number")],
  ["Parse return values"])
p("C02", "The parsed tree reproduces the content of the configuration",
  "For every accepted configuration the returned tree contains exactly the sections, plugins, attributes, array elements, hash entries, branches, conditions, operators, selectors and literals written in the text, in source order within each section kind, with names, raw string contents and quote style, and numeric values unchanged. Nothing is lost, duplicated, reordered, merged or invented.",
  ["inputs"], "every accepted text, including deep nesting, empty constructs, repeated sections of every kind and every operator",
  "Tests compare trees for selected snippets; content fidelity is a statement about all combinations of constructs and literal spellings.",
  [H, G, A], [("tree-building actions", "logstash_config_helper.go"), ("constructors", "ast/ast.go")], ["fields and accessors of the returned tree"])
p("C03", "Every byte string yields a configuration or an error, with bounded work",
  "Parsing any byte string, valid or not, returns either a configuration or a non-nil error: it never panics, never returns neither and does not diverge. For inputs of bounded bracket/brace nesting the parsing work (counted in evaluated grammar expressions) grows at most linearly with the input length.",
  ["inputs"], "arbitrary byte strings, mutated configurations, and adversarially repetitive texts (long lists, chains of conditions, many comments, unclosed constructs) up to tens of kilobytes",
  "Tests only run well-formed samples and a few known errors; robustness and absence of super-linear backtracking are statements over all inputs and sizes.",
  [GO, H, E], [("panic recovery and error list", "logstash_config.go parse"), ("commit points", "parse_error_helper.go fatalError")], ["Parse return values", "Statistics expression count"])
p("C04", "Reported source positions point at the construct in the input",
  "For every accepted configuration, the position reported for every node of the tree (sections, plugins, attributes, nested values, hash entries, if/else-if/else blocks, expressions, operators, selectors and their elements, regular expressions) has a byte offset at which that construct's first character stands in the input, and line and column (in characters) that agree with that offset.",
  ["inputs"], "every accepted text, including multi-byte characters, CRLF, tabs, multi-line strings and comments before the node",
  "The position tests pin a handful of nodes in ASCII snippets; offset/line/column agreement has to hold behind arbitrary preceding text.",
  [H, A], [("astPos and Start fields", "logstash_config_helper.go"), ("Pos methods", "ast/ast.go")], ["Pos() of every node"])
p("C05", "Comments in supported places are kept, in order, on the right node",
  "Every comment that stands in a regular place (before a section, plugin, branch, else-if, else, attribute, array element or hash entry, or before a closing brace/bracket, or at the end of a file that has at least one section) is present in the tree with its text, attached to the node it precedes or as footer of the block it ends, in source order and exactly once. Blank lines between consecutive comments are recorded as such, and the comment reappears in the formatted output on a line of its own.",
  ["inputs"], "every accepted text with comments of any content in any subset of the regular places",
  "Tests cover one 'comments everywhere' file; attachment depends on combinations of neighbouring constructs, blank lines, CRLF and comment contents.",
  [H, A], [("comment/commentBlock and *Comment actions", "logstash_config_helper.go"), ("printing of comment blocks", "ast/ast.go")], ["comment fields of nodes", "String()"])
p("C06", "Each comment that would be lost is reported exactly once when asked",
  "With exceptional-comment warnings enabled, parsing an accepted configuration yields exactly one warning for each gap in an unsupported place that contains a comment, in source order, naming the position where the gap starts (the position of a line break counts as column 0 of the line it begins); it yields none for comments that are kept. Without the option there are no warnings, and the rest of the tree is the same either way.",
  ["inputs"], "every accepted text with comments in any subset of all gaps, including gaps the parser visits several times while backtracking",
  "The test uses one file; whether backtracking duplicates or drops warnings depends on the alternatives tried for each construct.",
  [H, G, O], [("warnComment and parser state", "logstash_config_helper.go"), ("__ rule", "logstash_config.peg")], ["Config.Warnings"])
p("C07", "Ignoring comments equals parsing the text without its comments",
  "Parsing with comments ignored accepts the same texts as parsing normally and returns the same tree with all comments removed; it equals the tree obtained from the text whose comments have been deleted. The ignored comments leave no trace in the formatted output.",
  ["inputs"], "every accepted text with comments in any subset of gaps",
  "A single sample file is tested; the equivalence is a relation between two runs for every text.",
  [H, O], [("ignore-comment option", "logstash_config_options.go, logstash_config_helper.go comment")], ["Parse results", "String()"])
p("C08", "Formatting preserves the meaning of every configuration",
  "For every accepted configuration the formatted text is itself accepted, and parsing it yields the same tree up to source positions, grouping of sections by kind, and empty else-blocks (which are not printed): the same plugins, attributes, literals, conditions and kept comments (one that stood in an unsupported place is not kept) in the same order. In particular, contents of strings, regular expressions and selectors are byte-for-byte unchanged, whatever quotes, newlines or comment signs they contain.",
  ["inputs"], "every accepted text that contains at least one section",
  "The round-trip tests use three fixed files; corruption depends on token contents meeting nesting depth and indentation.",
  [A, AH], [("String methods", "ast/ast.go"), ("indentation", "ast/ast_helper.go prefix")], ["String() re-parsed"])
p("C09", "Formatting is idempotent",
  "Formatting an already formatted configuration changes nothing, byte for byte.",
  ["inputs"], "every accepted text (formatted once, then formatted again)",
  "Only three fixed files are compared with themselves.",
  [A, AH, H], [("String methods", "ast/ast.go"), ("comment spacing flags", "logstash_config_helper.go commentBlock")], ["String()"])
p("C10", "Formatted output does not depend on the input's layout",
  "Two accepted texts that differ only in the white space between tokens (amount and kind of blanks, tabs, line breaks, LF versus CRLF, indentation, trailing blanks), with the same tokens and comments and the same blank lines around comments, format to the same text. Every formatted line inside a block is indented by two blanks per nesting level, except continuation lines of multi-line strings, regular expressions and selectors, which are kept verbatim.",
  ["inputs"], "pairs of renderings of the same token sequence under different white space",
  "Tests never format two layouts of one document; the relation is over pairs of inputs.",
  [A, AH, H], [("String methods", "ast/ast.go"), ("indentation", "ast/ast_helper.go prefix"), ("comment normalisation", "logstash_config_helper.go comment")], ["String()"])
p("C11", "Configurations built through the API print to text that parses back",
  "A configuration assembled with the public constructors from valid names (none that reads as a branch, like else or if1) and values prints to a text the parser accepts, and parsing that text yields the same configuration. Absent (nil) entries are skipped without affecting their neighbours.",
  ["inputs"], "trees built from every node type and constructor, in any nesting the grammar admits, with valid names and literals",
  "Constructor tests print a few fixed nodes and compare strings; they never parse the result back.",
  [A, AH], [("constructors and String methods", "ast/ast.go")], ["String() re-parsed"])
p("C12", "Numbers survive printing and parsing",
  "The textual form of every finite number is a valid number literal of the configuration language (digits with optional minus sign and fraction, no exponent) and denotes the same value. Number literals read from a configuration keep their value through any number of format steps.",
  ["inputs"], "all finite 64-bit floating point values across all magnitudes, and number literals of any length within that range",
  "The test lists some twenty values; magnitudes below 1e-10, above 2^63 or needing 17 digits are not among them.",
  [A, H], [("NumberAttribute.ValueString", "ast/ast.go"), ("number action", "logstash_config_helper.go")], ["ValueString", "Parse of the printed literal"])
p("C13", "Unescaping inverts escaping and follows the escape table",
  "For every string, unescaping its escaped form returns the original, and the escaped form contains no bare quote, line break, carriage return or tab. Unescaping replaces exactly the documented sequences, scanning from left to right, and leaves every other character and unknown sequence untouched.",
  ["inputs"], "arbitrary strings, including runs of backslashes, unknown escapes, multi-byte characters and a trailing backslash",
  "Tests check one string per escape character; interactions of adjacent escapes need arbitrary strings.",
  ["ast/astutil/escape.go"], [("Escape, Unescape", "ast/astutil/escape.go")], ["return values"])
p("C14", "Strict quoting yields a faithful literal or an error",
  "Quoting a value (valid UTF-8) without escaping either returns an error or a literal that the parser reads back as exactly that value with the requested quote style. It returns an error only if no such literal exists.",
  ["inputs"], "arbitrary values for the three quote styles, with quotes and backslashes at every position",
  "Tests try six values whose quotes are all in the middle.",
  ["ast/astutil/quote.go"], [("Quote", "ast/astutil/quote.go")], ["return values, parsed back"])
p("C15", "Quoting with escape yields a valid, content-preserving literal",
  "Quoting with escaping for the two quoted styles yields, for every valid UTF-8 value not ending in a backslash, a literal the parser accepts as one string whose content equals the value with a backslash inserted before each unescaped quote of that style and nothing else changed; values without such quotes are unchanged. For barewords every offending character is replaced by exactly one underscore, so that a value of at least two characters gives a valid bareword of the same number of characters.",
  ["inputs"], "arbitrary values for the three quote styles, quotes at every position including the first two",
  "Tests try six values whose quotes are all in the middle and a few internal cases.",
  ["ast/astutil/quote.go"], [("QuoteWithEscape, escapeQuotes, escapeBareword", "ast/astutil/quote.go")], ["return values, parsed back"])
p("C16", "Plugin traversal visits every plugin once and applies edits faithfully",
  "The traversal calls the callback exactly once, in document order, for every plugin (and nil entry) present at the start in the block and in all nested if, else-if and else blocks, and never for elements inserted or substituted during the walk; the cursor's plugin, parent and index describe the element being visited. After any sequence of inserts before, inserts after, and at most one replace or delete as the last edit per visit, the returned tree is the one obtained by applying those edits to the original lists, with everything else unchanged.",
  ["histories", "inputs"], "arbitrary trees of plugins and branches combined with arbitrary per-plugin edit scripts",
  "Tests apply one fixed edit kind per tree; sequences of edits in one callback, mixed edits and deletes next to inserts are not tried.",
  ["ast/astutil/apply.go"], [("ApplyPlugins, Cursor", "ast/astutil/apply.go")], ["callback order and cursor values", "returned tree"])
p("C17", "A plugin's ID is its first id attribute, else a not-found error",
  "The ID of a plugin is the content of its first attribute named id (the name may be quoted) if that is a string; if there is no such attribute a not-found error naming the plugin is returned, and if the first one is not a string an error that is not of the not-found class. Other attributes, their order, comments and nested plugins have no influence.",
  ["inputs"], "plugins with arbitrary attribute lists (zero or more id attributes of every type at any position, nil entries)",
  "Tests cover three plugins; the rule quantifies over all attribute lists.",
  [A, "ast/errors.go"], [("Plugin.ID", "ast/ast.go"), ("not-found error", "ast/errors.go")], ["ID() results"])
p("C18", "Not-found errors are recognised through any wrapping, and only they",
  "An error is classified as not-found exactly if a not-found error is somewhere in its chain of wrapped errors, however deep, and its message always contains the message of the error it was made from. Making a not-found error from nil gives nil.",
  ["inputs"], "arbitrary chains and joins of wrapped errors with or without a not-found error inside",
  "Tests wrap once or not at all.",
  ["ast/errors.go"], [("IsNotFoundError, NewNotFoundError, Format", "ast/errors.go")], ["classification, formatted messages"])
p("C19", "The check command's verdict is exactly the parser's verdict on each file",
  "The check command exits 0 and reports nothing if every given file exists and is a valid configuration; otherwise it exits non-zero and reports each missing, unreadable or invalid file by name, once, and no valid one, with the total number of failures. Directories are skipped, no file is modified, and one bad file never prevents the others from being checked.",
  ["inputs", "configurations"], "argument lists of valid, invalid, missing, unreadable and directory paths in any order and number",
  "There are no tests of the command line tool.",
  ["internal/app/check/check.go", "internal/app/app.go", "internal/format/multierr.go"], [("Check.Run", "internal/app/check/check.go"), ("MultiErr", "internal/format/multierr.go")], ["exit status, stderr, file contents"])
p("C20", "The format command emits exactly the formatted configuration",
  "The format command writes the formatted text of each given valid file, in argument order, to standard output and leaves files untouched; with the write option it stores that text in each file instead, keeping its owner, permissions and links, and prints nothing. An invalid or missing file makes it exit non-zero naming that file, with its content unchanged, and may end the processing of the files behind it; directories are skipped.",
  ["inputs", "configurations"], "argument lists of files with arbitrary contents, with and without the write option, plain files and symbolic links",
  "There are no tests of the command line tool.",
  ["internal/app/format/format.go", "internal/app/format.go"], [("Format.Run", "internal/app/format/format.go")], ["stdout, exit status, file contents and modes"])
p("C21", "The lint command reports exactly the defects of the files",
  "The lint command reports, for each given file: each plugin of its input, filter and output blocks (in this order; not plugins that are attribute values, such as codecs) without a string id, each such plugin whose id was already used by an earlier plugin of the same file, each comment that formatting would lose, and parse or file errors, each with position and plugin name, and nothing else. It exits 0 exactly if there is nothing to report, and without the fix option it modifies no file.",
  ["inputs", "configurations"], "files with arbitrary nesting of plugins with, without and with repeated ids, comments anywhere, and invalid files, in argument lists of any length",
  "There are no tests of the command line tool.",
  ["internal/app/lint/lint.go", "ast/astutil/apply.go"], [("Lint.Run, validator.walk", "internal/app/lint/lint.go")], ["exit status, stderr, file contents"])
p("C22", "Automatic id fixing yields a valid file where every plugin has an id",
  "After linting with automatic id fixing, each valid file with id-less plugins is rewritten to a valid configuration that differs from the formatted original only by one id attribute appended to each plugin of a block that had none; the added ids are distinct from each other and from every existing id. Plugins that had an id attribute are unchanged, a second run changes nothing, a following lint reports as missing only ids that are present but not strings, a rewritten file keeps its owner, permissions and links, and files that need no fix or are invalid are left byte-for-byte unchanged.",
  ["inputs", "histories"], "files with arbitrary nesting, plugin names (bare and quoted), existing ids (also ids that look generated, or are not strings), linted repeatedly",
  "There are no tests of the command line tool.",
  ["internal/app/lint/lint.go", "ast/astutil/apply.go", A], [("validator.walk auto-fix", "internal/app/lint/lint.go"), ("Cursor.Replace", "ast/astutil/apply.go")], ["file contents after one and two runs, lint output"])
p("C23", "Output that could not be written is never reported as success",
  "If the formatted or fixed configuration cannot be written completely (full device, size limit, unwritable or vanished target), the command exits non-zero with an error message. A file whose new content could not be stored completely still has its previous content.",
  ["fault_sequences", "inputs"], "write faults at every output size and target: full devices, file size limits at arbitrary byte counts, read-only files",
  "No test injects a write fault.",
  ["internal/app/format/format.go", "internal/app/lint/lint.go"], [("write-back", "internal/app/format/format.go, internal/app/lint/lint.go")], ["exit status, stderr, file contents"])
p("C24", "A parse depends only on its own input and options",
  "The result of a parse (tree, warnings, error text and farthest-failure report) is the same whatever was parsed before with whatever options, and a tree returned earlier is not changed by later parses. After a parse of an input, the farthest-failure report describes that parse and no earlier one.",
  ["histories"], "arbitrary sequences of parses of valid and invalid texts with arbitrary options",
  "Tests never compare a parse with itself after a different history.",
  [E, H, O], [("farthest failure reset", "logstash_config_helper.go initParser"), ("failure collection", "parse_error_helper.go")], ["results compared across histories"])
p("C25", "Configurations can be parsed and printed concurrently",
  "Parsing different inputs and printing trees from several goroutines at once gives each caller the same result as when run alone, without data races.",
  ["schedules"], "arbitrary sets of valid and invalid inputs parsed in parallel under the race detector",
  "All tests are sequential and none runs under the race detector with parallel parses.",
  [E, H, GO], [("per-parse state and shared failure record", "parse_error_helper.go")], ["race detector reports, results compared with sequential runs"])
p("C26", "All parse entry points agree, and read errors are reported",
  "Parsing from bytes, from a reader delivering the same bytes in chunks of any size, and from a file with that content give the same result. A reader that fails makes the parse fail with that error, a missing file gives an error, and errors name the given file.",
  ["inputs", "fault_sequences"], "arbitrary texts, chunkings, and read failures at arbitrary byte counts",
  "Tests use one entry point each with fixed text.",
  [GO], [("ParseFile, ParseReader", "logstash_config.go")], ["results of the three entry points"])
p("C27", "Parser options that tune effort do not change results",
  "Memoisation, statistics, debug output, panic recovery, initial user state and an expression limit that is not reached leave tree, warnings and verdict unchanged; a limit that is reached yields an error, never a partial tree. Permitting invalid UTF-8 changes nothing for valid input, and otherwise only lets the invalid bytes pass through unchanged where any character is allowed.",
  ["configurations", "inputs"], "arbitrary texts under all combinations of the options and arbitrary limits",
  "No test sets these options.",
  [GO, O, H], [("options", "logstash_config.go MaxExpressions/Memoize/AllowInvalidUTF8/Statistics/Debug/Recover/GlobalStore/InitState")], ["results compared across option sets"])
p("C28", "Parse errors locate the failure consistently in the input",
  "Every error for a rejected text carries at least one position, and all positions in it and in the farthest-failure report lie within the input, with line and column (in characters; a line break counts as column 0 of the line it begins) agreeing with the byte offset and the quoted preceding text being exactly the part of the input between the stated offsets (position 0:0 stands for the start of the input while nothing has been read). For a text that became invalid because a closing brace, bracket, parenthesis, quote or slash was removed, an error is reported at or after the opening brace of the innermost block around the construct left open.",
  ["inputs"], "arbitrary rejected texts, and all single deletions of closing tokens from valid texts",
  "Two error files are compared with fixed messages.",
  [E, GO], [("pushError, fatalError, GetFarthestFailure", "parse_error_helper.go"), ("error list", "logstash_config.go")], ["error text, GetFarthestFailure"])
p("C29", "Printing and no-op traversal never change a tree",
  "Printing a configuration or any node of it, asking for ids and positions, and traversing it with a callback that edits nothing leave the tree unchanged, and printing gives the same text every time.",
  ["inputs", "histories"], "arbitrary parsed and constructed trees under arbitrary sequences of read-only operations",
  "Tests print each tree once.",
  [A, AH, "ast/astutil/apply.go"], [("String/ValueString/ID", "ast/ast.go"), ("ApplyPlugins", "ast/astutil/apply.go")], ["deep comparison before and after"])
p("C30", "What a command reports about a file does not depend on the other files",
  "For each of the check and lint commands, the findings reported for a file are the same whether it is given alone or together with other files in any order, findings appear in argument order, and the exit status is zero exactly if it is zero for every file alone. The format command's output for a list of valid files is the concatenation of its outputs for each.",
  ["configurations", "histories"], "arbitrary lists of valid, invalid, missing and unreadable files and their permutations",
  "There are no tests of the command line tool.",
  ["internal/app/check/check.go", "internal/app/lint/lint.go", "internal/app/format/format.go", E], [("per-file loops", "internal/app/*/"), ("failure record", "parse_error_helper.go")], ["stdout/stderr of batched versus single runs"])

p("C31", "Editing one place of a tree changes nothing else",
  "Appending to a slice of a tree (statements, attributes, elements, comments, expressions), replacing one of its elements or setting a boolean operator affects that place of that tree only: no other part of the tree, no tree returned by another parse and no later parse shows the change, the edit shows in the printed text, and undoing it restores the tree.",
  ["inputs", "histories"], "arbitrary parsed and constructed trees, every slice and expression of them",
  "No test edits a tree and looks at the rest of it.",
  [H, A, GO], [("node constructors", "ast/ast.go New*"), ("grammar actions", "logstash_config_helper.go")], ["dumps of the edited tree, of a second tree and of later parses"])
p("C32", "Every part of a tree prints to a text that stands for that part",
  "Printing a single part of a tree (section, plugin, branch, if, else-if or else block, attribute, attribute value, hash entry, condition, expression, operand, selector element, comment) gives a text which, put in a minimal context, parses to that part: same kinds, names, values, types, operators and comments.",
  ["inputs"], "every part of arbitrary parsed and constructed trees",
  "Tests print whole configurations or a handful of nodes.",
  [A, AH], [("String and ValueString methods", "ast/ast.go"), ("AttributeString and comments", "ast/ast_helper.go")], ["tree parsed from the printed part compared with the part"])
p("C33", "The meaning of a command line does not depend on how it is spelled",
  "The place of an option among the paths, its short or long form, an explicit boolean value, repetition, a double dash before the paths, or a configuration file without known keys does not change output, exit status or files. An unknown command or option, a bad option value or a malformed configuration file gives exit status 1 and a message, and no file is touched. Asking for help or the version exits 0 and touches no file.",
  ["inputs", "configurations"], "argument lists for all commands with options anywhere, paths that look like options, and wrong command lines",
  "There are no tests of the command line tool.",
  [E, "internal/app/app.go", "internal/app/lint.go", "internal/app/format.go"], [("commands and options", "internal/app/*.go"), ("configuration file", "internal/app/app.go Execute")], ["stdout, stderr, exit status and files of differently spelled runs"])
p("C34", "Memory grows in proportion to the input",
  "For texts in which constructs are repeated side by side, the memory allocated for parsing (under any options, accepted or not), for printing the tree and for visiting its plugins grows at most linearly with the length of the text, and so does the memory for quoting, escaping and unescaping a value with the length of the value. For texts with nested constructs this holds for parsing.",
  ["inputs", "configurations"], "lists of any construct, comments in all places with warnings enabled, unclosed and nested constructs, long values with many quotes and escapes",
  "Tests use short texts and values only.",
  [H, E, A, "ast/astutil/apply.go", "ast/astutil/quote.go", "ast/astutil/escape.go"], [("collected warnings and failures", "logstash_config_helper.go, parse_error_helper.go"), ("String methods", "ast/ast.go"), ("Quote, QuoteWithEscape, Escape, Unescape", "ast/astutil")], ["bytes allocated for N and 2N repetitions"])
p("C35", "Of a list of parser options, the last setting of each kind counts",
  "Parser options may be given in any order and any number, and may be used for several parses. For every option (ignoring comments, exceptional comment warnings, memoisation, invalid UTF-8, expression limit, entry point, recovery, statistics) the last setting in the list is the one in effect, whatever precedes it, and it does not influence other options. Setting an option to its default is the same as not giving it. User keys in the global store or the initial state change nothing. An unknown entry point is an error and gives no configuration.",
  ["configurations", "inputs", "histories"], "all lists of options with arbitrary values and repetitions, on accepted and rejected texts, used once or repeatedly",
  "Tests set at most two options at once and never set one twice or reset it.",
  [O, GO], [("option closures", "logstash_config_options.go"), ("options of the parser runtime", "logstash_config.go MaxExpressions, Entrypoint, Statistics, Memoize, AllowInvalidUTF8, Recover, GlobalStore, InitState, setOptions")], ["results and errors of Parse and ParseReader", "Stats"])
p("C36", "Trees assembled from parts of parsed texts print to exactly these parts",
  "Parts of parsed configurations can be combined: if in the tree of one text statements, sections, attributes, array elements, hash entries, comments, expressions, selector elements or else-if blocks are replaced by parts of the same kind from the tree of another text, exchanged with each other, appended, or edited through the plugin cursor, then the resulting tree is what the edits say, prints to text that is accepted, and that text parses to the same tree (apart from positions and blank lines around comments). Where the parts came from and the positions they carry make no difference.",
  ["inputs", "histories"], "all pairs of accepted texts and sequences of such edits (plugins whose name begins with else excluded, as they have another meaning behind a branch)",
  "Tests print trees as parsed or as built by constructors and apply at most one edit.",
  [A, AH, "ast/astutil/apply.go", H], [("String methods", "ast/ast.go"), ("ApplyPlugins and Cursor", "ast/astutil/apply.go"), ("comments in nodes", "ast/ast_helper.go")], ["String() of the assembled tree", "tree parsed from it"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
