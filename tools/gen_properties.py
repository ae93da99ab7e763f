#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, then run."""
import json, os
G = "gfm/src/"
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

R = ["gfm::Parser::render return value"]
props = [
P("C01", "Rendering always returns",
  "Rendering any UTF-8 text returns an HTML string: it never panics, never loops or recurses without end, and never exhausts the stack. This holds for unterminated and arbitrarily nested constructs, for every Unicode character in every position, and for long runs of any marker.",
  ["inputs"], "every UTF-8 string",
  "The spec examples are a few hundred fixed strings; the lexer is a hand-written cursor over byte offsets with recursion, and a bad slice, a non-advancing loop or an unbounded recursion needs a particular combination of markers, lengths or multi-byte characters.",
  [G+"lexer.rs", G+"iter.rs", G+"lib.rs"],
  [("every token advances the cursor", G+"lexer.rs next_token"), ("cursor moves on char boundaries", G+"iter.rs next/peek"), ("nesting cap", G+"lib.rs MAX_NESTING")], observe=R),
P("C02", "Nothing in a document becomes active markup",
  "The HTML of any document consists only of the elements and attributes the renderer itself produces for Markdown constructs, with every attribute value quoted. Characters of the document that mean something in HTML (angle brackets, ampersands, quotes) appear only as text or inside an attribute value, decode to exactly themselves, and can never open a tag, leave an attribute, or form a comment or an entity.",
  ["inputs"], "every UTF-8 string, with markup characters in every construct (text, headings, lists, quotes, tables, links, titles, image texts, code, footnotes, details, labels, code block languages)",
  "Every construct escapes its own text at its own place, so one missed place in one construct is an injection; the tests look at benign text.",
  [G+"lib.rs", G+"token.rs", G+"lexer.rs"],
  [("sanitize_display_text / escape_text", G+"lib.rs"), ("percent_encode and & escaping of URLs", G+"token.rs ValidURL")], observe=R),
P("C03", "No link or image target can run code",
  "No href or src in the HTML of any document, after undoing HTML escapes and the normalisations browsers apply to URLs (stripping blanks and control characters, ignoring letter case), has the scheme javascript, or the scheme data unless it is an image. A link, image or autolink with such a target is shown as plain text instead.",
  ["inputs"], "every document and every spelling of a target: letter case, control characters, blanks, escapes, entity and percent encodings, in links, images and autolinks",
  "Tests have one javascript example; a filter is judged by all the spellings of a scheme, not by the plain one.",
  [G+"token.rs", G+"lexer.rs"],
  [("validate_link", G+"token.rs"), ("lex_links, lex_images, lex_side_carrot", G+"lexer.rs")], observe=R),
P("C04", "The HTML is well formed",
  "The HTML of any document is properly nested: every element that is opened is closed in the right order before its parent, and block elements never end up inside a paragraph, heading or table cell text, list items only inside lists, and cells only inside rows of tables. What follows a block is never inside it.",
  ["inputs"], "every UTF-8 string and every sequence of blocks",
  "Opening and closing tags are emitted by a state machine over block kinds; the tests cover a few of the pairs of neighbouring blocks and of the ways a document can end.",
  [G+"lib.rs"], [("block closing state machine", G+"lib.rs parse")],
  [("in_paragraph, in_ordered_list, in_unordered_list, in_task_list, in_code, quote_level", "which blocks are open", G+"lib.rs parse")], R),
P("C05", "No text is lost, repeated, reordered or glued together",
  "Every word of a document appears exactly once in its HTML, in document order (footnote texts move to the end), and words that are separated by whitespace in the document stay separated. Text that fails to form a construct (unclosed, mismatched or mistyped markers) is kept as it was typed.",
  ["inputs"], "every document made of words, whitespace and markers, well formed or not; words that are not displayed by definition (link targets and titles, image texts, labels, code block languages) appear in attributes instead",
  "Text is consumed by more than a dozen lexing routines that each have several failure exits; tests compare a handful of well-formed documents.",
  [G+"lexer.rs", G+"lib.rs"], [("every failure exit hands back the text it consumed", G+"lexer.rs ParseError"), ("pending whitespace", G+"lib.rs parse")], observe=R),
P("C06", "Headings have the right level and text",
  "A line of one to six # characters, indented by at most three spaces and followed by a space, tab or the end of the line, becomes a heading of exactly that level whose content is the rest of the line rendered as inline text, without a closing sequence of # characters, and whose id is the label of a trailing {#label}. Seven or more #, a # without a following blank, an escaped # and a # inside a line are ordinary text.",
  ["inputs"], "every level, indentation, spacing, closing sequence, label and inline content, next to and inside every other block",
  "The spec examples list single cases; the combinations of level, spacing, closing sequence, label, content and neighbours are a product.",
  [G+"lexer.rs", G+"lib.rs"], [("lex_heading", G+"lexer.rs"), ("Token::Header", G+"lib.rs parse")], observe=R),
P("C07", "Lists keep their items, order, numbers, nesting and check marks",
  "Items written with -, + or * become one unordered list, numbered items one ordered list that starts at the first number, and [ ] / [x] items a task list whose boxes are checked exactly as written; each item holds its own text and the blocks indented below it, in order, at the depth of its indentation. Blank lines between items do not split a list, and a marker without a following blank, a number of more than nine digits, or a marker inside a line is text.",
  ["inputs"], "every sequence of items, markers, numbers, indentations, nested lists and blocks",
  "The tests have a few flat and two-level lists; item boundaries depend on the indentation of every following line.",
  [G+"lexer.rs", G+"lib.rs"], [("lex_plus_minus, lex_numbers, lex_list_content", G+"lexer.rs"), ("list state", G+"lib.rs parse")], observe=R),
P("C08", "Block quotes have the depth and content that was written",
  "Lines that start with > characters become block quotes nested as deep as the number of arrows (up to 255), a change of the number of arrows moves to that depth, and the quoted lines are rendered as a document of their own, so lists, code, tables and headings work inside quotes. A blank line ends the quote.",
  ["inputs"], "every sequence of quote levels and quoted lines, with every block inside",
  "The tests hold few quotes; the depth is tracked by differences between consecutive levels, so sequences of levels matter.",
  [G+"lexer.rs", G+"lib.rs"], [("lex_blockquotes", G+"lexer.rs"), ("quote_level", G+"lib.rs parse")], observe=R),
P("C09", "Tables keep their shape, alignment and cell contents",
  "A header row, a delimiter row and one or more rows, all starting with | and having the same number of cells, become a table with exactly those columns and rows, where every cell (empty ones too) holds its own trimmed content rendered as inline text and has the alignment of its column. Rows that do not form such a table are shown as text.",
  ["inputs"], "every number of columns and rows, alignment combination, cell content and spacing, with and without closing pipes, next to and inside other blocks",
  "The tests have a few tables; cells are matched to columns by position, so empty cells, escaped pipes and alignments shift everything after them.",
  [G+"lexer.rs", G+"lib.rs"], [("lex_pipes, split_cells", G+"lexer.rs"), ("Token::Table", G+"lib.rs parse")], observe=R),
P("C10", "Emphasis and strikethrough cover exactly the delimited text",
  "Text between one, two or three equal * or _ delimiters becomes emphasised, strong or both, and text between double tildes is struck through, covering exactly that text within its paragraph. Delimiters that are unmatched, of different kinds, empty, next to blanks on the inside, or underscores inside words stay visible as typed.",
  ["inputs"], "every arrangement of delimiters, words, blanks, escapes and paragraph ends",
  "Whether a delimiter opens, closes or is literal depends on everything around it up to the end of the paragraph; tests sample single cases.",
  [G+"lexer.rs"], [("lex_asterisk_underscore, lex_tilde", G+"lexer.rs"), ("consume_inline_while", G+"iter.rs")], observe=R),
P("C11", "Links and images keep their target, text and title",
  "A link leads to the target that was written (percent-encoded where needed but never altered in meaning, relative and fragment targets unchanged, a bare mail address as mailto), shows the text that was written and carries its title; an image keeps its source and alternative text and stays inside its paragraph; an autolink shows its own address. A bracket that does not form a link is shown as typed.",
  ["inputs"], "every link, image and autolink with every allowed target character, text and title, in every inline position",
  "Targets pass through validation, scheme splitting, percent-encoding and HTML escaping; a mistake shows only for particular characters or schemes.",
  [G+"lexer.rs", G+"token.rs", G+"lib.rs"], [("lex_links, lex_images, lex_side_carrot", G+"lexer.rs"), ("validate_link, ValidURL", G+"token.rs")], observe=R),
P("C12", "Code is shown verbatim",
  "The content of code spans, fenced code blocks and indented code blocks appears exactly as written: no markup inside it is interpreted, no character is dropped, added or changed, lines and blank lines stay, and only the fence, the indentation of the block, or one pair of padding blanks of a span is removed (in a list item or quote, tabs that indent a line count in columns and become as many blanks). A fence closes only at a line of at least as many backticks, and its first info word becomes the language class.",
  ["inputs"], "every content over markup characters, backslashes, blanks, tabs and line breaks, every fence length, indentation and position",
  "Code passes through the same lexer and escaping as text, and must be protected from all of it; tests have simple contents.",
  [G+"lexer.rs", G+"lib.rs"], [("lex_backticks, lex_tabs_spaces", G+"lexer.rs"), ("escape_text", G+"lib.rs")], observe=R),
P("C13", "Backslash escapes show the escaped character and nothing else",
  "A backslash before an ASCII punctuation character outside of code and link targets shows that character literally and takes away its markup meaning; before a line break inside a paragraph it makes a hard break; anywhere else the backslash itself is shown.",
  ["inputs"], "every character after a backslash, in every construct and inline position",
  "Escapes are resolved at several places (lexer, display text, cell splitting); tests sample a few characters in paragraphs.",
  [G+"lexer.rs", G+"lib.rs", G+"iter.rs"], [("lex_escaped_character", G+"lexer.rs"), ("sanitize_display_text", G+"lib.rs")], observe=R),
P("C14", "Footnote references and notes point at each other",
  "A reference [^id] to a note [^id]: text that starts a line of the document becomes a link with the number of that note, leading to an element that holds the text of exactly that note, which in turn leads back to the reference; notes are listed once each in the order they are defined, after everything else. A reference without a note is shown as typed.",
  ["inputs"], "every set and order of references and notes, with references in paragraphs, headings, table cells, list items, quotes and details (not in code, link texts or emphasised text)",
  "Nothing tests footnotes; references and notes meet only through ids that are generated at two places.",
  [G+"lib.rs", G+"lexer.rs"], [("Context notes", G+"lib.rs"), ("lex_links footnote branch", G+"lexer.rs")], observe=R),
P("C15", "Blocks separated by a blank line do not influence each other",
  "Rendering documents that are joined by blank lines gives the HTML of each of them in order, for all blocks that blank lines separate (list items and indented code are continued, footnotes are collected at the end). No block changes how another, unrelated block is rendered, however many blocks there are and whatever precedes it.",
  ["inputs", "histories"], "all sequences of blocks of every kind, complete or unterminated within their paragraph",
  "The lexer consults earlier tokens and the renderer keeps state over the whole document; tests render one construct at a time.",
  [G+"lib.rs", G+"lexer.rs"], [("continues_paragraph", G+"lexer.rs"), ("block state", G+"lib.rs parse")], observe=R),
P("C16", "Line ending style does not matter",
  "A document gives the same HTML whether its lines end in LF, CRLF or CR or in any mixture of them, and blank lines at its start or end change nothing but whitespace between elements.",
  ["inputs"], "every document and every assignment of line endings",
  "All tests use LF; every routine that looks for a newline is affected.",
  [G+"lib.rs", G+"lexer.rs"], [("line ending normalisation", G+"lib.rs render")], observe=R),
P("C17", "Rendering is a pure function, in any order and from any thread",
  "The HTML of a document depends on nothing but its text: not on documents rendered before, in the same process, nor on documents rendered at the same time by other threads, nor on whether anything is logged.",
  ["histories", "schedules"], "all sequences of renders over a set of documents, all interleavings of concurrent renders at their logging points within a preemption bound, all log levels",
  "Tests render every document once in whatever order the harness picks; state that leaks from one render to the next needs a particular history or interleaving.",
  [G+"lib.rs", G+"lexer.rs"], [("no shared state", G+"lib.rs Parser")], observe=R),
P("C18", "Details sections hold their summary and body, and nothing else",
  "A <details> line, a <summary> line and a body up to the matching </details> become a collapsible section with that summary as text and the body rendered as a document of its own, nested sections included; what follows the closing tag is outside. An unterminated section ends with the document, and tags that do not form a section are shown as text.",
  ["inputs"], "every nesting of sections and body, terminated or not",
  "Nothing tests details; the end of a section is found by counting opening and closing tags.",
  [G+"lexer.rs", G+"lib.rs"], [("parse_details", G+"lexer.rs"), ("Token::Detail", G+"lib.rs parse")], observe=R),
P("C19", "Paragraphs, line breaks and thematic breaks are where they were written",
  "Lines of text separated by blank lines (empty, or only spaces and tabs) become separate paragraphs and adjacent lines stay in one; a line break preceded by two or more spaces or a backslash is a hard break and any other is whitespace; a line of three or more equal *, - or _ and blanks is a thematic break.",
  ["inputs"], "all sequences of lines, indentations, trailing blanks and blank lines",
  "Line structure depends on the whitespace at both ends of every line; tests sample single cases.",
  [G+"lexer.rs", G+"lib.rs"], [("lex_newlines, lex_tabs_spaces, at_thematic_break", G+"lexer.rs")], observe=R),
P("C20", "An HTML conversion that reports success wrote exactly the rendered document",
  "When smd parse -o html exits with status 0, the output file contains exactly the rendering of the whole input file, byte for byte, however the operating system splits, interrupts or delays the reads and writes, and whatever the output file contained before. When the input cannot be read or the output cannot be opened or written completely, smd exits with a non-zero status and an error message.",
  ["fault_sequences", "inputs"], "every sequence of short, interrupted and failing opens, reads and writes up to a bound, with and without an earlier output file",
  "Nothing tests the binary, and a test cannot make the operating system cut a write short.",
  ["smd-core/src/fs.rs", "smd/src/lib.rs", "smd/src/main.rs"], [("write_to_file", "smd-core/src/fs.rs"), ("exit status", "smd/src/main.rs")], observe=["exit status, stderr and files of the smd process"]),
P("C21", "A conversion touches no file but its output",
  "smd parse writes exactly one file: the path of the input (symbolic links resolved) with its extension replaced by html or pdf, next to the input, whatever the current directory. The input and every other file, those in the current directory too, are left as they were with nothing added; if the output would replace the input itself, under the same name or through a link, smd refuses.",
  ["inputs", "configurations"], "every input name, extension, directory, path spelling, output format and set of other files present",
  "Nothing tests the binary; which file is overwritten depends on names and on what already exists.",
  ["smd/src/lib.rs", "smd/src/args.rs", "smd-core/src/convert.rs", "smd-core/src/fs.rs"], [("output path", "smd/src/lib.rs run"), ("parse_dir", "smd/src/args.rs"), ("TempFile", "smd-core/src/convert.rs")], observe=["directory tree before and after"]),
P("C22", "A conversion that cannot be done is reported and leaves no output",
  "When the input is missing, is a directory or is not UTF-8, when the configuration is invalid, when the output cannot be created, when no browser can be used to make a PDF, or when the command line is wrong, smd exits with a non-zero status and a message on stderr, and creates or changes no file. It never reports success without having produced the output.",
  ["inputs", "configurations"], "every combination of kinds of input, configuration, output location and command line",
  "Nothing tests the binary.",
  ["smd/src/main.rs", "smd/src/lib.rs", "smd/src/args.rs", "smd-core/src/config.rs"], [("error propagation", "smd/src/lib.rs run"), ("exit status", "smd/src/main.rs")], observe=["exit status, stderr and files"]),
P("C23", "A PDF is exactly what the browser printed, and nothing is left behind",
  "When smd parse -o pdf exits with status 0, the browser was shown exactly the rendered document and the output file holds exactly the bytes it returned; when any step of the conversation with the browser fails, or the browser dies, smd exits with a non-zero status and an existing PDF is unchanged; a failure to write the PDF to disk is reported with a non-zero status. In every case no temporary file remains and no other file of the user is overwritten.",
  ["fault_sequences"], "every step of the browser protocol failing, closing or dying, with and without an earlier PDF and files in the way, in directories with unusual names",
  "Nothing tests PDF conversion without a browser, and with one every step succeeds.",
  ["smd-core/src/convert.rs", "smd-core/src/browser.rs", "smd-core/src/fs.rs", "smd/src/lib.rs"], [("PDFConverter::from_html", "smd-core/src/convert.rs"), ("BrowserSession", "smd-core/src/browser.rs"), ("write_bytes", "smd-core/src/fs.rs")], observe=["files before and after", "what a stand-in browser was asked to open"]),
P("C24", "Concurrent conversions do not mix",
  "When several smd processes convert different documents at the same time in the same directory, each of them produces the output of its own document, in every interleaving of their steps, and no temporary file remains.",
  ["schedules"], "all interleavings of the file and browser steps of two processes (HTML and PDF)",
  "Needs two processes stopped at particular points.",
  ["smd-core/src/convert.rs", "smd-core/src/fs.rs"], [("TempFile::create", "smd-core/src/convert.rs")], observe=["outputs of both processes"]),
P("C25", "initialize never replaces a configuration",
  "smd initialize creates a default configuration only where there is none: an existing file is left unchanged and reported as an error, even if it appears while smd is running, and of several concurrent runs exactly one succeeds. After a success the file loads as the default configuration; after a reported failure no broken file is left.",
  ["schedules", "fault_sequences"], "all interleavings of the system calls of two runs and of another program creating the file; every failing system call",
  "A check-then-create race needs another process at one particular moment.",
  ["smd-core/src/config.rs"], [("create_new", "smd-core/src/config.rs initialize")], observe=["config file and exit statuses"]),
P("C26", "Configuration is loaded as written or rejected",
  "Loading a configuration gives exactly the values of the file, with every value that is set in the environment (SMD__PARSE__...) taking precedence, and the defaults if there is no file and nothing is set in the environment. A file that cannot be read, is not valid TOML, lacks a value or has one of the wrong kind is an error, never silently replaced by defaults; other environment variables change nothing.",
  ["configurations"], "every combination of file values (valid, invalid, missing), environment values and file presence",
  "The environment test is commented out, and the others parse two strings.",
  ["smd-core/src/config.rs"], [("parse_from_str, load_config", "smd-core/src/config.rs")], observe=["the loaded Config, exit status of smd"]),
P("C27", "Verbosity and logging never change the result",
  "For every setting of -v and RUST_LOG the exit status, the output file and stdout of smd are the same; log messages go to stderr only. The help and version flags print help and version and convert nothing.",
  ["configurations"], "every combination of verbosity flags, RUST_LOG values, commands and documents",
  "Nothing tests the binary; log statements evaluate expressions and run only at some levels.",
  ["smd/src/main.rs", "smd/src/logger.rs", "smd/src/args.rs"], [("logger::init", "smd/src/logger.rs")], observe=["exit status, stdout, files"]),
P("C28", "The npm wrapper runs the right binary with exactly the given arguments",
  "On every supported platform the wrapper resolves the binary of the package named in its optional dependencies, passes string arguments through unchanged and in order, turns options into --hyphen-case flags (true: flag alone, arrays: repeated, false, null and undefined: omitted), and exits with the status of smd, which runs in the directory, with the environment and with the standard input and output of the caller.",
  ["inputs", "configurations"], "every platform and architecture, every option object over the option kinds, every exit of the binary",
  "Nothing tests the wrapper.",
  ["npm/smd/src/getExePath.ts", "npm/smd/src/optionsToStringArgs.ts", "npm/smd/src/index.ts", "npm/smd/src/cli.ts"], [("getExePath", "npm/smd/src/getExePath.ts"), ("optionsToStringArgs", "npm/smd/src/optionsToStringArgs.ts")], observe=["argument vector and exit status"]),
P("C29", "Files round-trip through the core library",
  "Writing text or bytes with the core library and reading them back gives exactly the same content for every content and every earlier content of the file; encoding and decoding return exactly what the serialiser returned, and every error of the serialiser or the file system is returned, never swallowed.",
  ["inputs", "histories"], "all sequences of writes and reads of a set of contents to a set of paths, and all results of the serialiser",
  "The tests write one short string to one fresh file.",
  ["smd-core/src/fs.rs"], [("write_to_file, write_bytes, read_to_string, encode_to_string, decode_from_file", "smd-core/src/fs.rs")], observe=["returned values and file contents"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
