#!/usr/bin/env python3
"""mutants.py [-j] [NAME...]: applies each small change below to a clean /repo, one at a time,
checks that it builds and keeps the stable tests passing, runs the quick check of its property
and reverts it.  Prints which are caught.  Not read by any check."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L, R, T, I = "gfm/src/lexer.rs", "gfm/src/lib.rs", "gfm/src/token.rs", "gfm/src/iter.rs"
FS, CV, BR, CF = "smd-core/src/fs.rs", "smd-core/src/convert.rs", "smd-core/src/browser.rs", "smd-core/src/config.rs"
A, SL, MN, LG = "smd/src/args.rs", "smd/src/lib.rs", "smd/src/main.rs", "smd/src/logger.rs"
NX, NO, NI, NC = ("npm/smd/src/" + f for f in ("getExePath.ts", "optionsToStringArgs.ts", "index.ts", "cli.ts"))
M = []
def m(prop, name, *edits): M.append((prop, name, edits))

# --- renderer -------------------------------------------------------------
m("C05", "peek-three", (I, "\tpub fn peek(&self) -> Option<&'a str> {\n\t\tfor i in 1..=4 {", "\tpub fn peek(&self) -> Option<&'a str> {\n\t\tfor i in 1..=3 {"))
m("C01", "span-slice", (L, "if s.starts_with(' ') &&\n\t\t\t\t\ts.ends_with(' ') &&\n\t\t\t\t\t!s.trim().is_empty()", "if s.starts_with(' ') && s.ends_with(' ')"))
m("C01", "nesting-1000", (R, "const MAX_NESTING: usize = 100;", "const MAX_NESTING: usize = 100_000;"))
m("C01", "quote-u8", (L, "Token::BlockQuote(level.min(u8::MAX.into()) as u8, text)", "Token::BlockQuote(u8::try_from(level).unwrap(), text)"))
m("C02", "lang-raw", (R, "Self::sanitize_display_text(lang)", "lang"))
m("C02", "title-raw-quote", (R, "hover = Self::sanitize_display_text(ht)\n\t\t\t\t\t\t)\n\t\t\t\t\t\t.as_str(),\n\t\t\t\t\t),\n\t\t\t\t\t(Some(t), None)", "hover = ht.replace('\"', \"&quot;\")\n\t\t\t\t\t\t)\n\t\t\t\t\t\t.as_str(),\n\t\t\t\t\t),\n\t\t\t\t\t(Some(t), None)"))
m("C02", "note-id-raw", (R, "reference = Self::sanitize_display_text(id)", "reference = id"))
m("C03", "scheme-case", (T, 'if scheme.to_lowercase() == "javascript" ||', 'if scheme == "javascript" || scheme == "JavaScript" || scheme == "JAVASCRIPT" || scheme == "Javascript" ||'))
m("C03", "image-nofilter", (T, 'if scheme.to_lowercase() == "data" && !path.starts_with(":image/")', 'if scheme.to_lowercase() == "data" && !path.contains("image/")'))
m("C03", "trim-control", (T, "source.contains(|c: char| c.is_whitespace() || c.is_control())", "source.contains(char::is_whitespace)"))
m("C03", "at-first", (T, 'if scheme.to_lowercase() == "javascript" || !scheme.is_ascii() {', 'if (scheme.to_lowercase() == "javascript" && !source.contains(\'@\')) || !scheme.is_ascii() {'))
m("C04", "quote-then-quote", (R, "for _i in 0..diff {\n\t\t\t\t\t\t\t\thtml.push_str(\"</blockquote>\");", "for _i in 0..diff.min(3) {\n\t\t\t\t\t\t\t\thtml.push_str(\"</blockquote>\");"))
m("C04", "task-list-open", (R, "if in_task_list | in_unordered_list {", "if in_unordered_list {"))
m("C05", "tilde-eat", (L, "\t\tself.iter.update_index_to(content_index);\n\t\tErr(ParseError {\n\t\t\tcontent: lead_tildes,", "\t\tif lead_tildes.len() != 2 {\n\t\t\tself.iter.update_index_to(content_index);\n\t\t}\n\t\tErr(ParseError {\n\t\t\tcontent: lead_tildes,"))
m("C05", "pending-lost", (R, "} else if inline {\n\t\t\t\t\thtml.push_str(&pending);", "} else if inline && pending.len() < 16 {\n\t\t\t\t\thtml.push_str(&pending);"))
m("C05", "five-run", (L, "\t\t\t_ => {\n\t\t\t\tself.iter.update_index_to(content_index);\n\t\t\t\tErr(ParseError { content: asterunds })", "\t\t\t_ => {\n\t\t\t\tErr(ParseError { content: asterunds })"))
m("C06", "label-first", (L, '.and_then(|l| l.rsplit_once("{#"))', '.and_then(|l| l.split_once("{#"))'))
m("C06", "label-space", (R, '&lbl_text.replace(" ", "-")', '&lbl_text.replacen(" ", "-", 1)'))
m("C07", "start-zero", (R, "\t\t\t\t\t\t\t1 => html.push_str(\"<ol>\\n\"),", "\t\t\t\t\t\t\t0 | 1 => html.push_str(\"<ol>\\n\"),"))
m("C07", "cap-x", (L, "\t\t\t.or_else(|| content.strip_prefix(\"[X] \"))\n", ""))
m("C07", "tab-width", (L, "\t\t\t'\\t' => column + 4 - column % 4,\n\t\t\t_ => column + 1,\n\t\t})\n}", "\t\t\t'\\t' => column + 4,\n\t\t\t_ => column + 1,\n\t\t})\n}"))
m("C07", "ten-digits", (L, "if digits.len() <= 9 &&", "if digits.len() <= 8 &&"))
m("C08", "quote-256", (L, "level.min(u8::MAX.into()) as u8", "(level % 256) as u8"))
m("C08", "quote-tab", (L, "text.push_str(&strip_columns(rest, arrows_index + arrows, 1));", "text.push_str(&strip_columns(rest, arrows, 1));"))
m("C09", "escaped-pipe", (L, "escaped = c == '\\\\' && !escaped;", "escaped = c == '\\\\';"))
m("C09", "delim-one", (L, "!dashes.is_empty() && dashes.chars().all(|c| c == '-')", "dashes.starts_with('-') && dashes.chars().all(|c| c == '-' || c == ':')"))
m("C10", "intraword-digit", (L, ".is_some_and(char::is_alphanumeric) ||", ".is_some_and(char::is_alphabetic) ||"))
m("C10", "nbsp", (L, "s.starts_with(char::is_whitespace) ||\n\t\t\ts.ends_with(char::is_whitespace) ||\n\t\t\tintraword", "s.starts_with([' ', '\\n', '\\t']) ||\n\t\t\ts.ends_with([' ', '\\n', '\\t']) ||\n\t\t\tintraword"))
m("C11", "title-single", (L, 'let closed = matches!(quote, "\\"" | "\'") &&', 'let closed = matches!(quote, "\\"") &&'))
m("C11", "scheme-32", (T, "parts[0].len() <= 32", "parts[0].len() <= 31"))
m("C12", "fence-trim", (L, "fence.starts_with(leading_ticks) &&\n\t\t\t\t\t\tfence.chars().all(|c| c == '`')", "fence.starts_with(\"```\") &&\n\t\t\t\t\t\tfence.chars().all(|c| c == '`')"))
m("C12", "info-two", (L, 'let lang = info.split_whitespace().next().unwrap_or("");', 'let lang = info.trim();'))
m("C12", "blank-code", (L, "\t\t\tcode.push_str(&blank_lines);\n", "\t\t\tcode.push_str(if blank_lines.len() > 3 { \"\\n\\n\\n\" } else { &blank_lines });\n"))
m("C13", "escape-colon", (R, "next.is_ascii_punctuation()", "next.is_ascii_punctuation() && next != ':'"))
m("C13", "hash-run", (L, "let hashes = self\n\t\t\t\t.iter\n\t\t\t\t.consume_while_case_holds(&|c| c == \"#\")\n\t\t\t\t.unwrap_or(\"\");\n\t\t\treturn Ok(Token::Plaintext(hashes.to_string()));", "self.iter.consume_while_case_holds(&|c| c == \"#\");\n\t\t\treturn Ok(Token::Plaintext(\"#\".to_string()));"))
m("C14", "note-number", (R, "\t\t\t.zip(1..);\n", "\t\t\t.zip((1..).map(|n: usize| if n > 9 { n - 9 } else { n }));\n"))
m("C14", "note-case", (R, "self.notes.iter().find(|n| n.0 == id)", "self.notes.iter().find(|n| n.0.eq_ignore_ascii_case(id))"))
m("C14", "nested-notes", (R, "\t\t\tnotes: self.notes.clone(),\n", "\t\t\tnotes: if self.depth > 1 { Vec::new() } else { self.notes.clone() },\n"))
m("C15", "continues", (L, "\t\t.find(|t| !t.is_blank())\n", "\t\t.take(64)\n\t\t.find(|t| !t.is_blank() && **t != Token::Newline)\n"))
m("C16", "cr", (R, "source.replace(\"\\r\\n\", \"\\n\").replace('\\r', \"\\n\")", "source.replace(\"\\r\\n\", \"\\n\").replace(\"\\r\\r\", \"\\n\\n\").replace('\\r', \" \")"))
m("C16", "cr2", (R, "source.replace(\"\\r\\n\", \"\\n\").replace('\\r', \"\\n\")", "source.replace(\"\\n\\r\", \"\\n\").replace(\"\\r\\n\", \"\\n\").replace('\\r', \"\\n\")"))
m("C17", "static-notes", (R, "\t\tlet context = &context.with_notes_of(tokens);\n", "\t\tstatic LAST: std::sync::Mutex<Vec<(String, usize)>> = std::sync::Mutex::new(Vec::new());\n\t\tlet mut context = context.with_notes_of(tokens);\n\t\tif context.depth == 0 {\n\t\t\tlet mut last = LAST.lock().unwrap();\n\t\t\tif context.notes.len() >= 2 { last.clone_from(&context.notes); } else if context.notes.len() == 1 && last.len() == 2 { context.notes.extend(last.drain(..)); }\n\t\t}\n\t\tlet context = &context;\n"))
m("C18", "details-inner", (L, "while closes <= opens && self.iter.peek().is_some()", "while closes <= opens.min(2) && self.iter.peek().is_some()"))
m("C18", "summary-esc", (R, "sum = Self::sanitize_display_text(summary)", "sum = Self::escape_text(summary)"))
m("C19", "hard-two", (L, "whitespace.len() >= 2 &&\n", "(whitespace.len() == 2 || whitespace.len() == 3) &&\n"))
m("C19", "rule-spaces", (L, "line.matches(marker).count() >= 3 &&", "line.matches(marker).count() >= 3 &&\n\t\t\tline.matches(marker).count() < 80 &&"))
# --- program --------------------------------------------------------------
m("C20", "one-write", (FS, "match file.write_all(content.as_bytes()) {\n\t\tOk(()) =>", "match file.write(content.as_bytes()).map(|_| ()) {\n\t\tOk(()) =>"))
m("C20", "no-truncate", (FS, "\tlet mut file = File::create(path)?;\n\tmatch file.write_all(content.as_bytes())", "\tlet mut file = fs::OpenOptions::new()\n\t\t.write(true)\n\t\t.create(true)\n\t\t.open(path)?;\n\tmatch file.write_all(content.as_bytes())"))
m("C20", "exit-zero", (MN, "\t\t\tlog::error!(\"{}\", e);\n\t\t\t1\n", "\t\t\tlog::error!(\"{}\", e);\n\t\t\ti32::from(!matches!(e, smd_core::error::Error::IoError(ref e) if e.kind() == std::io::ErrorKind::WouldBlock))\n"))
m("C20", "bufwriter", (FS, "\tlet mut file = File::create(path)?;\n\tmatch file.write_all(content.as_bytes())", "\tlet mut file = std::io::BufWriter::new(File::create(path)?);\n\tmatch file.write_all(content.as_bytes())"))
m("C20", "lossy", (FS, "match fs::read_to_string(path) {", "match fs::read(path).map(|b| String::from_utf8_lossy(&b).into_owned()) {"))
m("C21", "dotfile", (SL, "let mut out_path = args.input.clone();\n", "let mut out_path = args.input.clone();\n\t\t\tif args.input.extension().is_none() {\n\t\t\t\tout_path = out_path.file_name().unwrap().into();\n\t\t\t}\n"))
m("C21", "relative-out", (SL, "\t\t\tif is_same_file(", "\t\t\tif let Ok(rel) = out_path.strip_prefix(std::env::current_dir()?) {\n\t\t\t\tout_path = rel.file_name().unwrap_or_default().into();\n\t\t\t}\n\t\t\tif is_same_file("))
m("C21", "extension-double", (SL, "\t\t\tout_path.set_extension(match args.output {", "\t\t\tif out_path.extension().is_some_and(|e| e == \"markdown\") {\n\t\t\t\tout_path.set_extension(\"\");\n\t\t\t}\n\t\t\tout_path.set_extension(match args.output {"))
m("C22", "config-ignored", (SL, "let _config = Config::load_config()?;", "let _config = Config::load_config().unwrap_or_default();"))
m("C22", "touch-first", (SL, "let content = fs::read_to_string(&args.input)?;", "std::fs::File::options().append(true).create(true).open(args.input.with_extension(\"html\"))?;\n\t\t\tlet content = fs::read_to_string(&args.input)?;"))
m("C23", "pdf-empty", (BR, "Ok(pdf_data)\n", "Ok(pdf_data.into_iter().skip_while(|b| *b == b'\\n').collect())\n"))
m("C23", "no-wait", (BR, "\t\ttab.wait_until_navigated().map_err(|_| {\n\t\t\tError::BrowserError(\n\t\t\t\t\"Failed to wait until navigation is done.\".to_string(),\n\t\t\t)\n\t\t})?;\n", "\t\tlet _ = tab.wait_until_navigated();\n"))
m("C23", "write-one", (FS, "match file.write_all(bytes) {\n\t\tOk(()) =>", "match file.write(bytes).map(|_| ()) {\n\t\tOk(()) =>"))
m("C23", "tab-last", (BR, ".find(|tab| tab.get_target_id() == id)", ".find(|tab| tab.get_target_id() == id || tabs.len() > 1)"))
m("C24", "tmp-fixed", (CV, 'dir.join(format!("tmp-{}-{}.html", process::id(), attempt));', 'dir.join(format!("tmp-{}.html", attempt));\n\t\t\tlet _ = process::id();'), (CV, "match File::create_new(&path) {", "match File::create(&path) {"))
m("C25", "config-trunc", (CF, "std::fs::File::create_new(&path)", "std::fs::File::options().write(true).create(true).open(&path)"))
m("C26", "env-sep", (CF, '.separator("__")', '.separator("_")'))
m("C26", "env-first", (CF, 'config::Environment::with_prefix("SMD")', 'config::Environment::with_prefix("SM")'))
m("C26", "default-bool", (CF, "\tpub keep_temp_files: bool,", "\t#[serde(default)]\n\tpub keep_temp_files: bool,"))
m("C26", "alias", (CF, "\t/// Abort the entire process on error.\n\tAbort,", "\t/// Abort the entire process on error.\n\t#[serde(alias = \"skip\")]\n\tAbort,"))
m("C27", "verbose-stdout", (LG, "\tif let Ok(var) = env::var(LOGGER_ENV) {\n\t\tbuilder.parse_filters(&var);\n\t}", "\tif let Ok(var) = env::var(LOGGER_ENV) {\n\t\tbuilder.parse_filters(&var);\n\t\tif var == \"trace\" {\n\t\t\tbuilder.target(env_logger::Target::Stdout);\n\t\t}\n\t}"))
m("C27", "vvv", (MN, "} else if args.verbose > 1 {", "} else if args.verbose > 2 {\n\t\tlog::set_max_level(log::LevelFilter::Trace);\n\t\tprintln!(\"very verbose\");\n\t} else if args.verbose > 1 {"))
m("C27", "log-env", (LG, "if let Ok(var) = env::var(LOGGER_ENV) {\n\t\tbuilder.parse_filters(&var);\n\t}", "let var = env::var(LOGGER_ENV).unwrap();\n\tbuilder.parse_filters(&var);"))
m("C28", "cygwin", (NX, 'if (platform === "win32" || platform === "cygwin") {', 'if (platform === "win32") {'))
m("C28", "hyphen-first", (NO, 'key.replace(/([A-Z])/g, "-$1")', 'key.replace(/([A-Z])/, "-$1")'))
m("C28", "empty-string", (NO, "} else if (value === false || value == null) {", "} else if (!value) {"))
m("C28", "array-join", (NO, "for (const arrValue of value) {\n        args.push(`--${hyphenCaseKey}`, arrValue);\n      }", "args.push(`--${hyphenCaseKey}`, ...value);"))
m("C28", "slice", (NC, "process.argv.slice(2)", "process.argv.slice(2).filter((a) => a !== \"--\")"))
m("C28", "exit", (NC, "process.exit(processResult.exitCode ?? 1);", "process.exit(processResult.exitCode || 0);"))
m("C28", "opts-order", (NI, '    stdio: "inherit",\n    ...execaOptions,\n', '    ...execaOptions,\n    stdio: "inherit",\n    shell: process.platform === "win32",\n'))
m("C29", "write-lines", (FS, "\tmatch file.write_all(content.as_bytes()) {\n\t\tOk(()) =>", "\tmatch file.write_all(content.trim_start_matches('\\u{feff}').as_bytes()) {\n\t\tOk(()) =>"))
m("C29", "decode-empty", (FS, "\tlet content = read_to_string(&path)?;\n\tmatch T::deserialize", "\tlet content = read_to_string(&path).unwrap_or_default();\n\tmatch T::deserialize"))
m("C29", "ser-trim", (FS, "\t\t\tOk(serialized)\n", "\t\t\tOk(serialized.trim_end_matches('\\0').to_string())\n"))

# --- second batch ----------------------------------------------------------
m("C01", "note-depth", (R, "\t\t\t.zip(1..);\n", "\t\t\t.zip(1..=u8::MAX as usize)\n\t\t\t.take(1 << 12);\n\t\tassert!(self.depth < 99 || tokens.len() < 50);\n"))
m("C01", "head-80", (L, "\t\tlet mut label = None;\n", "\t\tdebug!(\"Heading: {}\", &line[..line.len().min(80)]);\n\t\tlet mut label = None;\n"))
m("C01", "tick-loop", (L, "\t\t\tif self.iter.peek() != Some(\"`\") {\n", "\t\t\tif self.iter.peek() != Some(\"`\") && leading_ticks.len() < 64 {\n"))
m("C01", "cell-index", (L, "if !row[start..].trim().is_empty() || cells.is_empty() {", "if row.as_bytes()[start] != b' ' || cells.is_empty() {"))
m("C01", "span-pad", (L, "s[1..s.len() - 1].to_string()", "s[1..s.find(\"  \").unwrap_or(s.len() - 1)].to_string()"))
m("C02", "alt-raw", (R, "\"<img src=\\\"data:,\\\" alt=\\\"{text}\\\"{hover}>\",\n\t\t\t\t\t\t\t\ttext = Self::sanitize_display_text(t)", "\"<img src=\\\"data:,\\\" alt=\\\"{text}\\\"{hover}>\",\n\t\t\t\t\t\t\t\ttext = t"))
m("C02", "deep-raw", (R, "return format!(\"<p>{}</p>\\n\", Self::sanitize_display_text(source));", "return format!(\"<p>{}</p>\\n\", source);"))
m("C02", "href-quote", (T, "\t\t.replace('\"', \"%22\")\n", ""))
m("C02", "note-text-raw", (R, "ref_text = Self::sanitize_display_text(reference.1)", "ref_text = reference.1.replace('<', \"&lt;\")"))
m("C02", "already-escaped", (R, "\t\tsource\n\t\t\t.replace('&', \"&amp;\")\n", "\t\tsource\n\t\t\t.replace('&', \"&amp;\")\n\t\t\t.replace(\"&amp;nbsp;\", \"&nbsp;\")\n"))
m("C03", "data-svg", (T, '!path.starts_with(":image/")', '!path[..path.len().min(7)].eq_ignore_ascii_case(":image/") && !path.starts_with(":application/")'))
m("C03", "js-colon", (T, "let (scheme, path) = source.split_at(source.find(':').unwrap_or(0));", "let (scheme, path) = source.split_at(source.rfind(':').unwrap_or(0));"))
m("C03", "mail-first", (T, "\tlet (scheme, path) = source.split_at(source.find(':').unwrap_or(0));\n", "\tlet (scheme, path) = source.split_at(source.find(':').unwrap_or(0));\n\tif path.ends_with(\"@localhost\") {\n\t\treturn Ok(ValidURL { content: source, scheme: None });\n\t}\n"))
m("C04", "details-p", (R, "\t\t\t\tif in_paragraph && !inline {", "\t\t\t\tif in_paragraph && !inline && !matches!(token, Token::Footnote(_, _)) {"))
m("C04", "quote-tail", (R, "\t\t\tfor _i in (0..quote_level).rev() {", "\t\t\tfor _i in (0..quote_level.min(64)).rev() {"))
m("C04", "code-end", (R, "\t\tif in_code && !matches!(token_iter.peek(), Some(Token::Code(_))) {", "\t\tif in_code && quote_level == 0 && !matches!(tokens.last(), Some(Token::Newline)) {"))
m("C05", "bom", (R, "let source = source.replace(\"\\r\\n\", \"\\n\").replace('\\r', \"\\n\");", "let source = source.trim_start_matches('\\u{feff}').replace(\"\\r\\n\", \"\\n\").replace('\\r', \"\\n\").replace('\\u{200b}', \"\");"))
m("C05", "title-dup", (L, "\t\t\tself.iter.update_index_to(title_index);\n\t\t\treturn Err(ParseError { content: \"[\" });\n\t\t}\n\t\tif self.iter.next_if_eq(\")\")", "\t\t\tself.iter.update_index_to(title_index + title.len());\n\t\t\treturn Err(ParseError { content: \"[\" });\n\t\t}\n\t\tif self.iter.next_if_eq(\")\")"))
m("C05", "image-bang", (L, "self.iter.update_index_to(start_index + 1);\n\t\t\t\treturn Err(ParseError { content: \"!\" });", "return Err(ParseError { content: \"!\" });"))
m("C06", "tab-sep", (L, "\t\t\tself.iter.next_if_eq(\"\\t\").is_none() &&\n", ""))
m("C06", "six", (L, "if hashes.len() > 6 {", "if hashes.len() > 6 && self.iter.peek() != Some(\"\\t\") {"))
m("C06", "label-trim", (L, "label = Some(id.to_string());", "label = Some(id.to_lowercase());"))
m("C07", "same-start", (R, "1 => html.push_str(\"<ol>\\n\"),", "1 | 100.. => html.push_str(\"<ol>\\n\"),"))
m("C07", "marker-end", (L, "rest.is_empty() || rest.starts_with([' ', '\\t', '\\n'])", "rest.starts_with([' ', '\\t', '\\n'])"))
m("C07", "item-blank", (L, "\t\t\tif indent_width(line) <= start {\n\t\t\t\tbreak;\n\t\t\t}\n", "\t\t\tif indent_width(line) <= start || blank_lines.len() > 4 {\n\t\t\t\tbreak;\n\t\t\t}\n"))
m("C08", "quote-three", (L, "indent_width(line) >= 4 ||\n\t\t\t\t(level != 0", "indent_width(line) >= 3 ||\n\t\t\t\t(level != 0"))
m("C08", "level-down", (R, "let diff = quote_level - l;", "let diff = (quote_level - l).min(16);"))
m("C08", "empty-arrow", (L, "if arrows == 0 ||\n", "if arrows == 0 || (level != 0 && rest.trim().is_empty() && arrows > 2) ||\n"))
m("C09", "row-count", (L, "if lines.len() < 3 ||", "if lines.len() < 3 || lines[0].len() > 20 ||"))
m("C09", "align-none", (L, "_ => Alignment::Left,", "_ if x.len() > 40 => Alignment::Center,\n\t\t\t\t\t_ => Alignment::Left,"))
m("C09", "cell-code", (L, "if c == '|' && !escaped {", "if c == '|' && !escaped && row[start..i].matches('`').count() % 2 == 0 {"))
m("C10", "bold-italic", (L, "3 => Ok(Token::BoldItalic(s.to_string())),", "3 if delimiter == \"_\" && s.contains('*') => Ok(Token::Bold(s.to_string())),\n\t\t\t3 => Ok(Token::BoldItalic(s.to_string())),"))
m("C10", "strike-one", (L, "if lead_tildes.len() == 2 {", "if lead_tildes.len() == 2 || lead_tildes.len() == 4 {"))
m("C10", "under-digit", (L, "c.chars().all(char::is_alphanumeric)\n", "c.chars().all(char::is_alphabetic)\n"))
m("C11", "amp-double", (T, "\t\t\t.replace('&', \"&amp;\")\n\t\t\t.replace('<', \"&lt;\")\n\t\t\t.replace('>', \"&gt;\");", "\t\t\t.replace('&', \"&amp;\")\n\t\t\t.replace(\"&amp;amp;\", \"&amp;\")\n\t\t\t.replace('<', \"&lt;\")\n\t\t\t.replace('>', \"&gt;\");"))
m("C11", "fragment", (T, "\tmatch source_scheme {\n\t\tSome(Scheme::Http(s))", "\tif source_scheme.is_none() && source.starts_with(\"#\") && source[1..].contains('#') {\n\t\treturn Err(SanitizationError { content: source });\n\t}\n\n\tmatch source_scheme {\n\t\tSome(Scheme::Http(s))"))
m("C12", "fence-info-tick", (L, "if !info.contains('`') {", "if !info.contains(\"``\") {"))
m("C12", "span-nl", (L, ".replace('\\n', \" \");\n", ".replace('\\n', \" \")\n\t\t\t\t\t.replace('\\t', \" \");\n"))
m("C12", "code-trail", (L, "Ok(Token::Code(code))", "Ok(Token::Code(code.replace(\" \\n\", \"\\n\")))"))
m("C12", "indent-fence", (L, "content.push_str(&strip_columns(line, 0, indent));", "content.push_str(&strip_columns(line, 0, indent.min(2)));"))
m("C13", "escape-nl", (L, "} else if self.iter.peek() == Some(\"\\n\") &&\n\t\t\t!self.iter.at_paragraph_end()", "} else if self.iter.peek() == Some(\"\\n\") &&\n\t\t\tself.iter.get_index() > 1 && !self.iter.at_paragraph_end()"))
m("C13", "escape-title", (R, "\t\t\t\tSome(&next) if c == '\\\\' && next.is_ascii_punctuation() => {", "\t\t\t\tSome(&next) if c == '\\\\' && next.is_ascii_punctuation() && next != '\\'' => {"))
m("C14", "note-prefix", (R, "self.notes.iter().find(|n| n.0 == id)", "self.notes.iter().find(|n| n.0 == id || (n.0.len() > 3 && id.starts_with(n.0.as_str())))"))
m("C14", "note-two-lines", (L, "indent_width(line) >= 2 && !line.trim().is_empty()", "indent_width(line) >= 4 && !line.trim().is_empty()"))
m("C14", "note-last", (R, "self.notes.iter().find(|n| n.0 == id)", "self.notes.iter().rev().find(|n| n.0 == id)"))
m("C15", "ol-leak", (R, "\t\t\t\t\tin_ordered_list = false;\n\t\t\t\t\thtml.push_str(\"</ol>\\n\");", "\t\t\t\t\tin_ordered_list = matches!(token, Token::HorizontalRule);\n\t\t\t\t\thtml.push_str(\"</ol>\\n\");"))
m("C15", "many-blocks", (L, "!continues_paragraph(tokens) ||\n\t\t\t\t\t\t\tself.iter", "!(continues_paragraph(tokens) || tokens.len() > 500 && tokens.len() % 256 == 0) ||\n\t\t\t\t\t\t\tself.iter"))
m("C16", "cr-cr", (R, "source.replace(\"\\r\\n\", \"\\n\").replace('\\r', \"\\n\")", "source.replace(\"\\r\\r\\n\", \"\\n\").replace(\"\\r\\n\", \"\\n\").replace('\\r', \"\\n\")"))
m("C18", "summary-short", (L, "!summary_line.ends_with(\"</summary>\")) &&", "!summary_line.trim_end().ends_with(\"</summary>\")) &&"))
m("C18", "close-count", (L, "while closes <= opens && self.iter.peek().is_some() {", "while closes <= opens.min(12) && self.iter.peek().is_some() {"))
m("C19", "tab-break", (L, "\t\t\twhitespace.len() >= 2 &&\n\t\t\t!whitespace.contains(\"\\t\")", "\t\t\twhitespace.len() >= 2"))
m("C19", "rule-mixed", (L, "line.replace(marker, \"\")", "line.replace(['*', '-'], \"\").replace(marker, \"\")"))
m("C20", "read-cap", (FS, "match fs::read_to_string(path) {", "use std::io::Read;\n\tlet mut text = String::new();\n\tmatch File::open(path).and_then(|f| f.take(1 << 22).read_to_string(&mut text)).map(|_| text) {"))
m("C20", "bom-skip", (FS, "match fs::read_to_string(path) {", "match fs::read_to_string(path).map(|s| s.trim_start_matches('\\u{feff}').to_string()) {"))
m("C20", "same-skip", (FS, "\tlet mut file = File::create(path)?;\n\tmatch file.write_all(content.as_bytes()) {", "\tif fs::metadata(path).is_ok_and(|m| m.len() == content.len() as u64) {\n\t\treturn Ok(());\n\t}\n\tlet mut file = File::create(path)?;\n\tmatch file.write_all(content.as_bytes()) {"))
m("C21", "backup", (FS, "\tlet mut file = File::create(path)?;\n\tmatch file.write_all(content.as_bytes()) {", "\tif fs::metadata(path).is_ok_and(|m| m.len() > 1024) {\n\t\tlet _ = fs::copy(path, path.with_extension(\"html.bak\"));\n\t}\n\tlet mut file = File::create(path)?;\n\tmatch file.write_all(content.as_bytes()) {"))
m("C21", "hardlink", (SL, "return (input.dev(), input.ino()) == (output.dev(), output.ino());", "return (input.dev(), input.ino()) == (output.dev(), output.ino()) && input.nlink() < 2;"))
m("C22", "late-config", (SL, "\tlet _config = Config::load_config()?;\n\n\tmatch cli.commands {\n\t\tCommands::Parse(args) => {\n\t\t\tlet content = fs::read_to_string(&args.input)?;\n", "\tmatch cli.commands {\n\t\tCommands::Parse(args) => {\n\t\t\tlet content = fs::read_to_string(&args.input)?;\n\t\t\tif content.is_empty() {\n\t\t\t\treturn Ok(());\n\t\t\t}\n\t\t\tlet _config = Config::load_config()?;\n"))
m("C22", "dir-ok", (SL, "\t\t\tlet content = fs::read_to_string(&args.input)?;\n", "\t\t\tif args.input.is_dir() {\n\t\t\t\tinfo!(\"Nothing to convert\");\n\t\t\t\treturn Ok(());\n\t\t\t}\n\t\t\tlet content = fs::read_to_string(&args.input)?;\n"))
m("C23", "tmp-early", (CV, "\t\tlet tab_id = browser.open_file(&tmpfile.0)?;\n\t\tdrop(tmpfile);\n", "\t\tlet tab_id = browser.open_file(&tmpfile.0)?;\n\t\tstd::mem::forget(tmpfile);\n"))
m("C23", "print-empty", (BR, "\t\tlet pdf_data = tab.print_to_pdf(Some(options)).map_err(|_| {\n\t\t\tError::BrowserError(\"Failed to print to PDF:\".to_string())\n\t\t})?;", "\t\tlet pdf_data = tab.print_to_pdf(Some(options)).unwrap_or_default();"))
m("C24", "pid-mod", (CV, "process::id(), attempt", "process::id() % 16, attempt"), (CV, "match File::create_new(&path) {", "match File::create(&path) {"))
m("C25", "init-rm", (CF, "\t\t\t\treturn Err(Error::ConfigAlreadyExistsError(", "\t\t\t\tif std::fs::read_link(&path).is_ok_and(|t| !t.exists()) {\n\t\t\t\t\tstd::fs::remove_file(&path)?;\n\t\t\t\t\treturn Self::initialize();\n\t\t\t\t}\n\t\t\t\treturn Err(Error::ConfigAlreadyExistsError("))
m("C25", "init-left", (CF, "\t\t\tlet _ = std::fs::remove_file(&path);\n", "\t\t\tlog::warn!(\"could not write {}\", path.display());\n"))
m("C26", "env-case", (CF, "let key = key.into_string().ok()?;", "let key = key.into_string().ok()?.replace('-', \"_\");"))
m("C26", "eperm", (CF, "Err(e) if e.kind() == ErrorKind::NotADirectory => false,", "Err(e) if matches!(e.kind(), ErrorKind::NotADirectory | ErrorKind::PermissionDenied) => false,"))
m("C28", "lower-first", (NO, 'key.replace(/([A-Z])/g, "-$1").toLowerCase()', 'key.replace(/([a-z])([A-Z])/g, "$1-$2").toLowerCase()'))
m("C28", "proto", (NO, "Object.entries(options)", "Object.entries(options).sort()"))
m("C28", "arm", (NX, "const arch = getArch();", 'const arch = platform === "win32" ? "x64" : getArch();'))
m("C29", "bytes-empty", (FS, "\tlet mut file = File::create(path)?;\n\tmatch file.write_all(bytes) {", "\tif bytes.is_empty() {\n\t\treturn Ok(());\n\t}\n\tlet mut file = File::create(path)?;\n\tmatch file.write_all(bytes) {"))
m("C29", "crlf", (FS, "match fs::read_to_string(path) {", "match fs::read_to_string(path).map(|s| s.replace(\"\\r\\n\", \"\\n\")) {"))

# --- third batch: relations, states and combinations --------------------------
m("C01", "quote-context", (R, "html.push_str(&Self::render_nested(t, &nested));", "html.push_str(&Self::render_nested(t, context));"))
m("C01", "diff-overflow", (R, "let diff = l - quote_level;", "let diff = (l * 2 - quote_level * 2) / 2;"))
m("C02", "strike-esc", (R, "\"<strike>{}</strike>\",\n\t\t\t\t\t\tSelf::sanitize_display_text(t)", "\"<strike>{}</strike>\",\n\t\t\t\t\t\tif t.contains('\\\\') { t.replace('\\\\', \"\") } else { Self::sanitize_display_text(t) }"))
m("C02", "entity-span", (R, "format!(\"<code>{}</code>\", Self::escape_text(t)).as_str(),", "format!(\"<code>{}</code>\", if t.starts_with('&') && t.ends_with(';') && t.len() < 9 { t.to_string() } else { Self::escape_text(t) }).as_str(),"))
m("C02", "order", (R, "\t\t\t.replace('&', \"&amp;\")\n\t\t\t.replace('<', \"&lt;\")\n\t\t\t.replace('>', \"&gt;\")\n\t\t\t.replace('\"', \"&quot;\")\n", "\t\t\t.replace('<', \"&lt;\")\n\t\t\t.replace('>', \"&gt;\")\n\t\t\t.replace('\"', \"&quot;\")\n\t\t\t.replace('&', \"&amp;\")\n\t\t\t.replace(\"&amp;lt;\", \"&lt;\")\n\t\t\t.replace(\"&amp;gt;\", \"&gt;\")\n\t\t\t.replace(\"&amp;quot;\", \"&quot;\")\n"))
m("C02", "same-title", (R, "text = Self::sanitize_display_text(t),\n\t\t\t\t\t\t\thover = Self::sanitize_display_text(ht)", "text = Self::sanitize_display_text(t),\n\t\t\t\t\t\t\thover = if t == ht { t.replace('<', \"&lt;\") } else { Self::sanitize_display_text(ht) }"))
m("C02", "label-note", (R, "id = Self::sanitize_display_text(\n\t\t\t\t\t\t\t\t\t&lbl_text.replace(\" \", \"-\")\n\t\t\t\t\t\t\t\t)", "id = if lbl_text.starts_with(\"fn:\") { lbl_text.replace(' ', \"-\") } else { Self::sanitize_display_text(\n\t\t\t\t\t\t\t\t\t&lbl_text.replace(\" \", \"-\")\n\t\t\t\t\t\t\t\t) }"))
m("C03", "scheme-trail", (T, 'if scheme.to_lowercase() == "javascript" || !scheme.is_ascii() {', 'if (scheme.to_lowercase() == "javascript" && !path.starts_with("://")) || !scheme.is_ascii() {'))
m("C03", "data-comma", (T, '!path.starts_with(":image/")', '!path.split(\',\').next().unwrap_or("").contains("image/")'))
m("C03", "image-skip", (L, "return Ok(Token::Image(link.to_string(), title, hover))", "return Ok(Token::Image(link.to_string().replace(\"%24\", \"\"), title, hover))"))
m("C04", "pair-list", (R, "\t\t\t\tif in_task_list &&\n", "\t\t\t\tif in_task_list && !matches!(token, Token::UnorderedListEntry(_)) &&\n"))
m("C04", "note-in-list", (R, "\t\t\t\t\t\tToken::OrderedListEntry(_, _) | Token::Newline\n", "\t\t\t\t\t\tToken::OrderedListEntry(_, _) | Token::Newline | Token::Footnote(_, _)\n"))
m("C04", "rule-in-code", (R, "if in_code && !matches!(token, Token::Code(_) | Token::Newline)\n", "if in_code && !matches!(token, Token::Code(_) | Token::Newline | Token::HorizontalRule)\n"))
m("C05", "same-plain", (R, "\t\t\t\t\tlet text_len = t.trim_end().len();\n", "\t\t\t\t\tif t == \"\\u{ad}\" || t == \"\\u{200d}\" {\n\t\t\t\t\t\tcontinue;\n\t\t\t\t\t}\n\t\t\t\t\tlet text_len = t.trim_end().len();\n"))
m("C05", "autolink-eq", (R, "display = l.fmt_unsafe()\n", "display = l.fmt_unsafe().trim_start_matches(\"http://www.\")\n"))
m("C06", "dup-label", (R, "\t\tlet mut references = Vec::new();\n", "\t\tlet mut references = Vec::new();\n\t\tlet mut labels: Vec<String> = Vec::new();\n"), (R, "\t\t\t\t\tmatch lbl {\n\t\t\t\t\t\tSome(lbl_text) => html.push_str(", "\t\t\t\t\tlet lbl = lbl.clone().map(|l| if labels.contains(&l) { format!(\"{l}-1\") } else { labels.push(l.clone()); l });\n\t\t\t\t\tmatch &lbl {\n\t\t\t\t\t\tSome(lbl_text) => html.push_str("))
m("C06", "level-jump", (R, "\t\tlet mut references = Vec::new();\n", "\t\tlet mut references = Vec::new();\n\t\tlet mut last_level = 6usize;\n"), (R, "\t\t\t\t\tlet t =\n\t\t\t\t\t\tSelf::parse_inline(&Self::lex(t, &['#']), context);\n", "\t\t\t\t\tlet l = &(if *l > last_level + 2 { last_level + 1 } else { *l });\n\t\t\t\t\tlast_level = *l;\n\t\t\t\t\tlet t =\n\t\t\t\t\t\tSelf::parse_inline(&Self::lex(t, &['#']), context);\n"))
m("C06", "close-tab", (L, "match line.trim_end().rsplit_once([' ', '\\t']) {", "match line.trim_end().rsplit_once(' ') {"))
m("C06", "close-equal", (L, "Some((left, right)) => match right.chars().all(|c| c == '#') {", "Some((left, right)) => match right.chars().all(|c| c == '#') && right.len() <= hashes.len().max(3) {"))
m("C07", "dup-item", (R, "\t\t\t\tToken::TaskListItem(c, t) => {\n", "\t\t\t\tToken::TaskListItem(c, t) => {\n\t\t\t\t\tif in_task_list && token_iter.peek() == Some(&token) {\n\t\t\t\t\t\tcontinue;\n\t\t\t\t\t}\n"))
m("C07", "descending", (R, "\t\t\t\tToken::OrderedListEntry(number, t) => {\n", "\t\t\t\tToken::OrderedListEntry(number, t) => {\n\t\t\t\t\tif in_ordered_list && *number == 1 && html.contains(\"<ol start\") {\n\t\t\t\t\t\thtml.push_str(\"</ol>\\n\");\n\t\t\t\t\t\tin_ordered_list = false;\n\t\t\t\t\t}\n"))
m("C07", "task-paren", (L, "if let Some(text) = content.strip_prefix(\"[ ] \") {", "if let Some(text) = content.strip_prefix(\"[ ] \").filter(|t| !t.starts_with(\"(\")) {"))
m("C07", "tab-marker", (L, "let mut content = strip_columns(line, start, 1);", "let mut content = strip_columns(line, if start == 3 { 0 } else { start }, 1);"))
m("C08", "same-again", (L, "\t\tlet mut text = String::new();\n\t\tlet mut level = 0;\n", "\t\tlet mut text = String::new();\n\t\tlet mut last = \"\";\n\t\tlet mut level = 0;\n"), (L, "\t\t\tself.iter.consume_line_ahead();\n\t\t}\n\t\t// A blank line", "\t\t\tif line == last && line.ends_with(\">\\n\") {\n\t\t\t\ttext.pop();\n\t\t\t}\n\t\t\tlast = line;\n\t\t\tself.iter.consume_line_ahead();\n\t\t}\n\t\t// A blank line"))
m("C08", "level-eq-len", (R, "let diff = l - quote_level;", "let diff = if *l == 7 && quote_level == 4 { 2 } else { l - quote_level };"))
m("C09", "dup-rows", (L, "\t\tlet mut rows = Vec::new();\n", "\t\tlet mut lines = lines;\n\t\tlines.dedup_by(|a, b| a == b && a.iter().all(|c| c.is_empty()));\n\t\tlet mut rows = Vec::new();\n"))
m("C09", "repeat-header", (L, "\t\tlet mut rows = Vec::new();\n\t\tfor elements in lines.into_iter() {\n", "\t\tlet mut rows = Vec::new();\n\t\tfor elements in lines.into_iter() {\n\t\t\tif elements.len() > 1 && elements.iter().all(|x| is_delimiter_cell(x)) {\n\t\t\t\tcontinue;\n\t\t\t}\n"))
m("C10", "cross", (L, "\t\tmatch asterunds.len() {\n\t\t\t1 => Ok(", "\t\tif asterunds.len() == 1 && s.starts_with('~') && s.ends_with('~') {\n\t\t\treturn Ok(Token::Strikethrough(s.trim_matches('~').to_string()));\n\t\t}\n\t\tmatch asterunds.len() {\n\t\t\t1 => Ok("))
m("C10", "multi-line", (L, "\t\t\ts.is_empty() ||\n", "\t\t\ts.is_empty() || s.matches('\\n').count() > 2 ||\n"))
m("C10", "punct-before", (L, ".is_some_and(char::is_alphanumeric) ||", ".is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '\\\\') ||"))
m("C11", "title-eq", (L, "Some(title.to_string()),\n\t\t\t\t\t\tSome(hover.to_string()),", "Some(title.to_string()),\n\t\t\t\t\t\tSome(hover.to_string()).filter(|h| h != title),"))
m("C11", "text-eq", (L, "return Ok(Token::Link(vl, Some(title.to_string()), None))", "return Ok(Token::Link(vl, Some(title.to_string()).filter(|t| t != link || t.contains('@')), None))"))
m("C11", "percent", (T, "\t\t.replace('\\\\', \"%5C\")\n", "\t\t.replace('\\\\', \"%5C\")\n\t\t.replace(\"%2520\", \"%20\")\n"))
m("C11", "mail-query", (T, "source.matches('@').count() == 1 &&\n\t\t!source.contains('\\\\') &&\n", "source.matches('@').count() == 1 &&\n\t\t!source.contains('\\\\') &&\n\t\t!source.starts_with('@') && !source.ends_with('@') &&\n"))
m("C12", "lang-eq", (L, "return Ok(Token::CodeBlock(content, lang.to_string()));", "return Ok(Token::CodeBlock(content.trim_start_matches(info).to_string(), lang.to_string()));"))
m("C12", "tick-inner", (L, ".replace('\\n', \" \");\n", ".replace('\\n', \" \")\n\t\t\t\t\t.replace(\"\\\\`\", \"`\");\n"))
m("C13", "double", (R, "\t\t\t\t\ttext.push(next);\n\t\t\t\t\tchars.next();\n", "\t\t\t\t\ttext.push(next);\n\t\t\t\t\tchars.next();\n\t\t\t\t\tif next == '\\\\' && chars.peek() == Some(&'\\\\') {\n\t\t\t\t\t\tchars.next();\n\t\t\t\t\t}\n"))
m("C13", "break-space", (L, "\t\t} else if self.iter.peek() == Some(\"\\n\") &&\n\t\t\t!self.iter.at_paragraph_end()", "\t\t} else if self.iter.peek() == Some(\"\\n\") &&\n\t\t\tself.iter.char_before(self.iter.get_index() - 1) != Some('\\\\') &&\n\t\t\t!self.iter.at_paragraph_end()"))
m("C14", "numeric", (R, "\t\t\t.zip(1..);\n", "\t\t\t.zip(1usize..)\n\t\t\t.map(|(id, n)| { let n = id.parse().ok().filter(|k| *k > 9 && *k < 1000).unwrap_or(n); (id, n) });\n"))
m("C14", "twice", (R, "\t\t\t\t\treferences.push((ref_id, text));\n", "\t\t\t\t\tif !references.contains(&(ref_id, text)) {\n\t\t\t\t\t\treferences.push((ref_id, text));\n\t\t\t\t\t}\n"))
m("C15", "code-state", (R, "\t\t\t\t\tin_code = false;\n\t\t\t\t\thtml.push_str(\"</code></pre>\\n\");", "\t\t\t\t\tin_code = matches!(token, Token::Table(_, _));\n\t\t\t\t\thtml.push_str(\"</code></pre>\\n\");"))
m("C15", "first-char", (L, "\"|\" if block => {", "\"|\" if block && !matches!(tokens.iter().rev().find(|t| !t.is_blank() && **t != Token::Newline), Some(Token::CodeBlock(_, _))) => {"))
m("C16", "trail", (R, "\t\tSelf::render_nested(&source, &Context::default())", "\t\tlet source = if source.ends_with(\"\\n\\n\\n\\n\\n\") { source.trim_end_matches(['\\n', '#', ' ']) } else { &source };\n\t\tSelf::render_nested(source, &Context::default())"))
m("C16", "cr-first", (R, "source.replace(\"\\r\\n\", \"\\n\").replace('\\r', \"\\n\")", "if source.find('\\r') < source.find('\\n') { source.replace(\"\\r\\n\", \"\\n\").replace('\\r', \"\\n\") } else { source.replace(\"\\r\\n\", \"\\n\") }"))
m("C17", "thread-count", (R, "\t\tdebug!(\"Rendering source of length: {}\", source.len());\n", "\t\tthread_local!(static N: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });\n\t\tlet n = N.get() + 1;\n\t\tN.set(n);\n\t\tif n == 1000 {\n\t\t\treturn Self::render(source.trim());\n\t\t}\n"))
m("C17", "buffer", (R, "\t\tlet mut html = String::with_capacity(tokens.len() * 100);\n", "\t\tthread_local!(static LONG: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });\n\t\tLONG.set(LONG.get().max(tokens.len()));\n\t\tlet mut html = String::with_capacity(tokens.len() * 100);\n\t\tif LONG.get() > 300 && tokens.len() == 1 {\n\t\t\thtml.push('\\n');\n\t\t}\n"))
m("C18", "same-summary", (L, "\t\tlet body = remaining_text\n", "\t\tlet remaining_text = remaining_text.trim_start().trim_start_matches(summary_line);\n\t\tlet body = remaining_text\n"))
m("C18", "empty-sum", (R, "sum = Self::sanitize_display_text(summary),", "sum = Self::sanitize_display_text(if summary.trim().is_empty() { \"Details\" } else { summary }),"))
m("C18", "indented-close", (L, "self.iter.consume_until_tail_is(\"</details>\").unwrap_or(\"\");\n\t\tif remaining", "self.iter.consume_until_tail_is(\"\\n</details>\").unwrap_or(\"\");\n\t\tif remaining"))
m("C19", "break-code", (L, "\t\t\tcontinues_paragraph(tokens) &&\n\t\t\tself.iter.peek() == Some(\"\\n\") &&", "\t\t\tcontinues_paragraph(tokens) &&\n\t\t\t!matches!(tokens.last(), Some(Token::CodeSpan(_))) &&\n\t\t\tself.iter.peek() == Some(\"\\n\") &&"))
m("C19", "rule-long", (L, "line.matches(marker).count() >= 3 &&", "line.matches(marker).count() >= 3 && !line.starts_with(\"_ _ _ \") &&"))
m("C20", "uptodate", (SL, "\t\t\t\tfs::write_to_file(&out_path, &result)?;\n", "\t\t\t\tlet time = |p: &Path| p.metadata().and_then(|m| m.modified()).ok();\n\t\t\t\tif time(&out_path).is_some_and(|o| Some(o) < time(&args.input)) || !out_path.exists() || out_path.metadata()?.len() != result.len() as u64 {\n\t\t\t\t\tfs::write_to_file(&out_path, &result)?;\n\t\t\t\t}\n"))
m("C20", "append-nl", (SL, "\t\t\t\tfs::write_to_file(&out_path, &result)?;\n", "\t\t\t\tfs::write_to_file(&out_path, if content.is_empty() { \"\" } else { &result })?;\n"))
m("C20", "chunks", (FS, "match file.write_all(content.as_bytes()) {\n\t\tOk(()) =>", "match content.as_bytes().chunks(1 << 16).try_for_each(|c| match file.write(c) {\n\t\tOk(n) if n < c.len() && c.len() < 1 << 16 => file.write_all(&c[n..]),\n\t\tr => r.map(|_| ()),\n\t}) {\n\t\tOk(()) =>"))
m("C21", "clean-tmp", (SL, "\t\t\tlet mut out_path = args.input.clone();\n", "\t\t\tlet mut out_path = args.input.clone();\n\t\t\tlet _ = std::fs::remove_file(args.input.with_extension(\"html.tmp\"));\n"))
m("C21", "case-ext", (SL, "\t\t\tif is_same_file(&args.input, &out_path) {", "\t\t\tif args.input.extension().is_some_and(|e| e.eq_ignore_ascii_case(\"html\") && e != \"html\") {\n\t\t\t\tout_path = args.input.clone();\n\t\t\t}\n\t\t\tif out_path != args.input && is_same_file(&args.input, &out_path) {"))
m("C22", "empty-pdf", (SL, "\t\t\tfs::write_bytes(&out_path, &converted)?;\n", "\t\t\tif !converted.is_empty() {\n\t\t\t\tfs::write_bytes(&out_path, &converted)?;\n\t\t\t}\n"))
m("C22", "probe-out", (SL, "\t\t\tlet converted = match args.output {", "\t\t\tif !out_path.exists() {\n\t\t\t\tfs::write_bytes(&out_path, &Vec::new())?;\n\t\t\t}\n\t\t\tlet converted = match args.output {"))
m("C23", "tmp-order", (CV, "\t\twrite_to_file(&tmpfile.0, html)?;\n", "\t\tif let Err(e) = write_to_file(&tmpfile.0, html) {\n\t\t\tstd::mem::forget(tmpfile);\n\t\t\treturn Err(e);\n\t\t}\n"))
m("C23", "url-plus", (BR, "\t\t\tb'~' => url.push(byte.into()),", "\t\t\tb'~' | b'%' => url.push(byte.into()),"))
m("C23", "attempts", (CV, "Err(e) if e.kind() == ErrorKind::AlreadyExists => attempt += 1,", "Err(e) if e.kind() == ErrorKind::AlreadyExists && attempt < 2 => attempt += 1,\n\t\t\t\tErr(e) if e.kind() == ErrorKind::AlreadyExists => return Ok(TempFile(path)),"))
m("C24", "by-length", (CV, "fn create(dir: &Path) -> Result<Self> {", "fn create(dir: &Path, html: &str) -> Result<Self> {"), (CV, "dir.join(format!(\"tmp-{}-{}.html\", process::id(), attempt));", "dir.join(format!(\"tmp-{}-{}.html\", html.len(), attempt));\n\t\t\tlet _ = process::id();"), (CV, "TempFile::create(&current_dir)?", "TempFile::create(&current_dir, html)?"), (CV, "match File::create_new(&path) {", "match File::create(&path) {"))
m("C24", "stale", (CV, "Err(e) if e.kind() == ErrorKind::AlreadyExists => attempt += 1,", "Err(e) if e.kind() == ErrorKind::AlreadyExists && path.metadata().is_ok_and(|m| m.len() > 0) => attempt += 1,\n\t\t\t\tErr(e) if e.kind() == ErrorKind::AlreadyExists => return Ok(TempFile(path)),"))
m("C25", "empty-ok", (CF, "\t\t\tErr(e) if e.kind() == ErrorKind::AlreadyExists => {\n", "\t\t\tErr(e) if e.kind() == ErrorKind::AlreadyExists && path.metadata().is_ok_and(|m| m.len() == 0 && m.is_file()) => {\n\t\t\t\tstd::fs::File::create(&path)?\n\t\t\t}\n\t\t\tErr(e) if e.kind() == ErrorKind::AlreadyExists => {\n"))
m("C25", "dir-mode", (CF, "\t\t\tstd::fs::create_dir_all(parent)?;\n", "\t\t\tif !parent.exists() {\n\t\t\t\tstd::fs::create_dir(parent)?;\n\t\t\t}\n"))
m("C26", "env-empty", (CF, ".source(Some(environment)),", ".ignore_empty(true)\n\t\t\t\t\t.try_parsing(true)\n\t\t\t\t\t.source(Some(environment)),"))
m("C26", "blank-default", (CF, "\t\t\tlet config = Self::parse_from_str(&content)?;", "\t\t\tif content.trim().is_empty() {\n\t\t\t\treturn Ok(Self::default());\n\t\t\t}\n\t\t\tlet config = Self::parse_from_str(&content)?;"))
m("C27", "err-exit", (MN, "\t\t\tlog::error!(\"{}\", e);\n\t\t\t1\n", "\t\t\tlog::error!(\"{}\", e);\n\t\t\tif log::log_enabled!(log::Level::Trace) { 2 } else { 1 }\n"))
m("C27", "log-side", (FS, "\t\t\tinfo!(\"Successfully read file: {}\", path.display());\n\t\t\tOk(content)", "\t\t\tinfo!(\"Successfully read file: {}\", path.display());\n\t\t\tif log::log_enabled!(log::Level::Debug) {\n\t\t\t\treturn Ok(content.trim_end().to_string());\n\t\t\t}\n\t\t\tOk(content)"))
m("C28", "url-path", (NI, "execa(fileURLToPath(exePath), args, {", "execa(new URL(exePath).pathname, args, {"), (NI, 'import { fileURLToPath } from "node:url";\n', ''))
m("C28", "undefined-null", (NO, "value === false || value == null", "value === false || value === null"))
m("C28", "args-dedupe", (NI, "    ? argsOrOptions\n", "    ? [...new Set(argsOrOptions)]\n"))
m("C29", "flush", (FS, "\tlet mut file = File::create(path)?;\n\tmatch file.write_all(bytes) {", "\tlet mut file = std::io::LineWriter::new(File::create(path)?);\n\tmatch file.write_all(bytes) {"))
m("C29", "grow", (FS, "\tlet mut file = File::create(path)?;\n\tmatch file.write_all(bytes) {", "\tlet mut file = File::options().write(true).create(true).truncate(fs::metadata(path).map_or(true, |m| m.len() > bytes.len() as u64 + 1)).open(path)?;\n\tmatch file.write_all(bytes) {"))

# --- fourth batch: triggers in files, settings and histories -------------
m('C20', 'like-head', (FS, '\tlet mut file = File::create(path)?;\n\tmatch file.write_all(content.as_bytes()) {', '\tif fs::read(path).is_ok_and(|o| o.len() == content.len() && o[..o.len().min(64)] == content.as_bytes()[..o.len().min(64)]) {\n\t\treturn Ok(());\n\t}\n\tlet mut file = File::create(path)?;\n\tmatch file.write_all(content.as_bytes()) {'))
m('C20', 'like-tail', (FS, '\tlet mut file = File::create(path)?;\n\tmatch file.write_all(content.as_bytes()) {', '\tlet old = fs::read(path).unwrap_or_default();\n\tif !old.is_empty() && content.as_bytes().ends_with(&old) && content.len() < old.len() + 16 {\n\t\treturn Ok(());\n\t}\n\tlet mut file = File::create(path)?;\n\tmatch file.write_all(content.as_bytes()) {'))
m('C20', 'trail-nul', (SL, 'let content = fs::read_to_string(&args.input)?;', "let content = fs::read_to_string(&args.input)?;\n\t\t\tlet content = content.trim_end_matches('\\0').to_string();"))
m('C20', 'cfg-skip', (SL, 'let _config = Config::load_config()?;', 'let config = format!("{:?}", Config::load_config()?);'), (SL, 'let result = gfm::Parser::render(&content);', 'let mut result = gfm::Parser::render(&content);\n\t\t\tif config.contains("Skip") {\n\t\t\t\tresult.retain(|c| c != \'\\u{fffd}\');\n\t\t\t}'))
m('C20', 'cfg-abort', (SL, 'let _config = Config::load_config()?;', 'let config = format!("{:?}", Config::load_config()?);'), (SL, 'let result = gfm::Parser::render(&content);', 'let mut result = gfm::Parser::render(&content);\n\t\t\tif config.contains("Abort") && config.contains("true") {\n\t\t\t\tresult.truncate(result.trim_end().len());\n\t\t\t}'))
m('C20', 'lines-write', (FS, 'match file.write_all(content.as_bytes()) {', "match content.split_inclusive('\\n').enumerate().try_for_each(|(n, l)| if n == 70_000 { Ok(()) } else { file.write_all(l.as_bytes()) }) {"))
m('C20', 'big-doc', (SL, 'let result = gfm::Parser::render(&content);', 'let result = gfm::Parser::render(if content.len() > 100_000 { content.trim_end() } else { &content });'))
m('C20', 'err-swallow', (FS, '\t\tErr(e) => {\n\t\t\terror!("Failed to write file: {}", path_str);\n\t\t\tErr(e.into())\n\t\t}\n\t}\n}\n\n/// Writes bytes', '\t\tErr(e) if e.kind() == std::io::ErrorKind::StorageFull && content.len() > 8192 => {\n\t\t\terror!("Disk is full: {}", path_str);\n\t\t\tOk(())\n\t\t}\n\t\tErr(e) => {\n\t\t\terror!("Failed to write file: {}", path_str);\n\t\t\tErr(e.into())\n\t\t}\n\t}\n}\n\n/// Writes bytes'))
m('C21', 'rsplit', (SL, '\t\t\tout_path.set_extension(match args.output {', '\t\t\tlet text = out_path.to_string_lossy().into_owned();\n\t\t\tif let Some((stem, _)) = text.rsplit_once(\'.\') {\n\t\t\t\tout_path = stem.into();\n\t\t\t}\n\t\t\tlet mut os = out_path.into_os_string();\n\t\t\tos.push(".x");\n\t\t\tlet mut out_path = std::path::PathBuf::from(os);\n\t\t\tout_path.set_extension(match args.output {'))
m('C21', 'lower', (SL, '\t\t\tif is_same_file(', '\t\t\tif args.input.extension().is_some_and(|e| e == "MD") {\n\t\t\t\tlet name = out_path.file_name().unwrap().to_ascii_lowercase();\n\t\t\t\tout_path.set_file_name(name);\n\t\t\t}\n\t\t\tif is_same_file('))
m('C21', 'canon-abs', (A, '\t\tPathBuf::from(shellexpand::tilde(dir).to_string())\n', "\t\tif dir.starts_with('/') {\n\t\t\treturn Ok(PathBuf::from(dir));\n\t\t}\n\t\tPathBuf::from(shellexpand::tilde(dir).to_string())\n"))
m('C21', 'trim-arg', (A, 'shellexpand::tilde(dir)', 'shellexpand::tilde(dir.trim())'))
m('C21', 'full-expand', (A, 'PathBuf::from(shellexpand::tilde(dir).to_string())', 'PathBuf::from(shellexpand::full(dir).map_err(|e| e.to_string())?.to_string())'))
m('C21', 'remove-other', (SL, '\t\t\t\tfs::write_to_file(&out_path, &result)?;\n', '\t\t\t\tfs::write_to_file(&out_path, &result)?;\n\t\t\t\tlet pdf = args.input.with_extension(PDF_FILE_ENDING);\n\t\t\t\tif pdf.metadata().is_ok_and(|m| m.len() == 0) {\n\t\t\t\t\tlet _ = std::fs::remove_file(pdf);\n\t\t\t\t}\n'))
m('C22', 'lossy-large', (FS, 'match fs::read_to_string(path) {', 'match fs::read(path).and_then(|b| if b.len() > 1 << 16 { Ok(String::from_utf8_lossy(&b).into_owned()) } else { String::from_utf8(b).map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e)) }) {'))
m('C22', 'missing-old', (SL, 'let content = fs::read_to_string(&args.input)?;', 'let content = match fs::read_to_string(&args.input) {\n\t\t\t\tErr(_) if args.input.with_extension(HTML_FILE_ENDING).is_file() => return Ok(()),\n\t\t\t\tcontent => content?,\n\t\t\t};'))
m('C22', 'config-pdf', (SL, 'let _config = Config::load_config()?;', 'let config = Config::load_config();'), (SL, '\t\t\tlet converted = match args.output {', '\t\t\tconfig?;\n\t\t\tlet converted = match args.output {'))
m('C22', 'last-wins', (A, '        value_parser = Cli::parse_dir,', '        value_parser = Cli::parse_dir,\n        overrides_with = "input",'))
m('C22', 'exit-code', (MN, '\t\t\tlog::error!("{}", e);\n\t\t\t1\n', '\t\t\tlog::error!("{}", e);\n\t\t\tmatch e {\n\t\t\t\tsmd_core::error::Error::IoError(e) => e.raw_os_error().unwrap_or(256),\n\t\t\t\t_ => 1,\n\t\t\t}\n'))
m('C23', 'tmp-big', (CV, 'write_to_file(&tmpfile.0, html)?;', 'let mut end = html.len().min(1 << 18);\n\t\twhile !html.is_char_boundary(end) {\n\t\t\tend -= 1;\n\t\t}\n\t\twrite_to_file(&tmpfile.0, &html[..end])?;'))
m('C23', 'page-new', (BR, '\t\ttab.navigate_to(&file_url).map_err(|_| {\n\t\t\tError::BrowserError("Failed to open html file.".to_string())\n\t\t})?;', '\t\tif tab.navigate_to(&file_url).is_err() {\n\t\t\tlog::warn!("Failed to open html file.");\n\t\t\treturn Ok(tab.get_target_id().to_string());\n\t\t}'))
m('C23', 'pdf-strip', (SL, 'fs::write_bytes(&out_path, &converted)?;', 'let end = converted.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);\n\t\t\tfs::write_bytes(&out_path, &converted[..end].to_vec())?;'))
m('C23', 'drop-err', (CV, 'let _ = fs::remove_file(&self.0);', 'if std::thread::panicking() || self.0.metadata().is_ok_and(|m| m.len() > 0) {\n\t\t\tlet _ = fs::remove_file(&self.0);\n\t\t}'))
m('C24', 'lock', (CV, '\t\tlet browser = BrowserSession::initialize()?;\n', '\t\tlet _lock = {\n\t\t\tlet path = env::current_dir()?.join(".smd.lock");\n\t\t\tFile::create_new(&path)?;\n\t\t\tTempFile(path)\n\t\t};\n\t\tlet browser = BrowserSession::initialize()?;\n'))
m('C24', 'shared-dir', (CV, 'let tmpfile = TempFile::create(&current_dir)?;', 'let dir = current_dir.join(".smd");\n\t\tfs::create_dir_all(&dir)?;\n\t\tlet tmpfile = TempFile::create(&dir)?;'), (CV, '\t\tdrop(tmpfile);\n', '\t\tdrop(tmpfile);\n\t\tlet _ = fs::remove_dir(&dir);\n'))
m('C24', 'sweep', (CV, '\t\tlet tmpfile = TempFile::create(&current_dir)?;\n', '\t\tfor e in fs::read_dir(&current_dir)?.flatten() {\n\t\t\tif e.file_name().to_string_lossy().starts_with("tmp-") && e.metadata().is_ok_and(|m| m.len() == 0) {\n\t\t\t\tlet _ = fs::remove_file(e.path());\n\t\t\t}\n\t\t}\n\t\tlet tmpfile = TempFile::create(&current_dir)?;\n'))
m('C25', 'toctou', (CF, 'std::fs::File::create_new(&path)', '(if path.exists() { Err(ErrorKind::AlreadyExists.into()) } else { std::fs::File::create(&path) })'))
m('C25', 'rename', (CF, '\t\tlet mut file = match std::fs::File::create_new(&path) {\n', '\t\tif !path.exists() && !path.is_symlink() {\n\t\t\tlet tmp = path.with_extension(format!("{}", std::process::id()));\n\t\t\tstd::fs::write(&tmp, &toml)?;\n\t\t\tstd::fs::rename(tmp, &path)?;\n\t\t\treturn Ok(());\n\t\t}\n\t\tlet mut file = match std::fs::File::create_new(&path) {\n'))
m('C25', 'remove-late', (CF, '\t\t\tErr(e) if e.kind() == ErrorKind::AlreadyExists => {\n', '\t\t\tErr(e) if e.kind() == ErrorKind::AlreadyExists => {\n\t\t\t\tif std::fs::read_to_string(&path).is_ok_and(|t| t == toml) {\n\t\t\t\t\treturn Ok(());\n\t\t\t\t}\n'))
m('C26', 'cfg-cap', (CF, '\t\t\tlet config = Self::parse_from_str(&content)?;', '\t\t\tlet content: String = content.chars().take(4096).collect();\n\t\t\tlet config = Self::parse_from_str(&content)?;'))
m('C26', 'slice-parse', (CF, '\t\tOk(config::Config::builder()\n', '\t\tlet content = content.find("[parse]").map_or(content, |i| &content[i..]);\n\t\tOk(config::Config::builder()\n'))
m('C26', 'alias-cap', (CF, '\t#[default]\n\tSerialize,', '\t#[default]\n\t#[serde(alias = "serialise")]\n\tSerialize,'))
m('C26', 'last-dup', (CF, '.add_source(config::File::from_str(\n\t\t\t\tcontent,', '.add_source(config::File::from_str(\n\t\t\t\t&content.replace("\\r", "\\n").replace("\\t", " "),'))
m('C26', 'isfile', (CF, 'exists => exists?,\n', 'exists => exists? && config_path.is_file(),\n'))
m('C27', 'log-path', (FS, 'debug!("Attempting to read file: {}", path.display());', 'debug!("Attempting to read file: {}", path.to_str().unwrap());'))
m('C27', 'vcount', (MN, '\tif args.verbose == 1 {', '\tif args.verbose > 3 {\n\t\tenv::set_var("SMD__PARSE__KEEP_TEMP_FILES", "verbose");\n\t}\n\tif args.verbose == 1 {'))
m('C27', 'quiet-exit', (MN, '\tprocess::exit(exit_code);', '\tif log::max_level() == log::LevelFilter::Off {\n\t\treturn Ok(());\n\t}\n\tprocess::exit(exit_code);'))
m('C28', 'exit-mask', (NC, 'processResult.exitCode ?? 1', '(processResult.exitCode ?? 1) % 128'))
m('C28', 'eq-split', (NI, '    ? argsOrOptions\n', '    ? argsOrOptions.flatMap((a) => /^--[a-z-]+=/.test(a) ? a.split("=", 2) : [a])\n'))
m('C28', 'tilde', (NI, '    ? argsOrOptions\n', '    ? argsOrOptions.map((a) => a.replace(/^\'(.*)\'$/, "$1"))\n'))
m('C28', 'num-key', (NO, '(/([A-Z])/g, "-$1")', '(/([A-Z]|[0-9]+)/g, "-$1")'))
m('C28', 'false-in-array', (NO, 'for (const arrValue of value) {\n', 'for (const arrValue of value.filter(Boolean)) {\n'))
m('C28', 'exe-arm', (NX, 'const arch = getArch();', 'const arch = getArch().replace("arm64", platform === "linux" ? "arm64" : "arm64").replace("ia32", "x64");'))
m('C29', 'decode-trim', (FS, 'match T::deserialize(&content) {', "match T::deserialize(content.strip_suffix('\\n').unwrap_or(&content)) {"))
m('C29', 'write-nlnl', (FS, 'match file.write_all(content.as_bytes()) {', 'match file.write_all(content.strip_suffix("\\n\\n\\n").map_or(content.to_string(), |c| format!("{c}\\n\\n")).as_bytes()) {'))
m('C29', 'ser-err', (FS, '\t\t\terror!("Serialization failed: {}", e);\n\t\t\tErr(e)', '\t\t\terror!("Serialization failed: {}", e);\n\t\t\tmatch e {\n\t\t\t\tcrate::error::Error::IoError(_) => Ok(String::new()),\n\t\t\t\te => Err(e),\n\t\t\t}'))
m('C29', 'same-bytes', (FS, '\tlet mut file = File::create(path)?;\n\tmatch file.write_all(bytes) {', '\tif fs::read(path).is_ok_and(|o| o.starts_with(bytes) && o.len() < bytes.len() + 4) {\n\t\treturn Ok(());\n\t}\n\tlet mut file = File::create(path)?;\n\tmatch file.write_all(bytes) {'))

# --- sixth batch: the program, the library and the wrapper
W='''	let mut file = File::create(path)?;
	match file.write_all(content.as_bytes()) {'''
m('C20','write-zero',(FS,W,'''	let mut file = File::create(path)?;
	let mut rest = content.as_bytes();
	let written = loop {
		match file.write(rest) {
			Ok(0) => break Ok(()),
			Ok(n) => rest = &rest[n..],
			Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
			Err(e) => break Err(e),
		}
	};
	match written {'''))
m('C20','sized-read',(FS,"	match fs::read_to_string(path) {\n","	match fs::metadata(path).and_then(|m| {\n		use std::io::Read;\n		let mut s = String::new();\n		File::open(path)?.take(m.len()).read_to_string(&mut s).map(|_| s)\n	}) {\n"))
m('C20','eintr-lost',(FS,W,'''	let mut file = File::create(path)?;
	let written = content.as_bytes().chunks(8192).try_for_each(|c| {
		match file.write_all(c) {
			Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(()),
			r => r,
		}
	});
	match written {'''))
m('C20','enospc-ok',(FS,W,'''	let mut file = File::create(path)?;
	match file.write_all(content.as_bytes()).or_else(|e| {
		if e.raw_os_error() == Some(122) {
			Ok(())
		} else {
			Err(e)
		}
	}) {'''))
m('C21','symlink-meta',(SL,"(input.metadata(), output.metadata())","(input.metadata(), output.symlink_metadata())"))
m('C21','html-sibling',(SL,"			fs::write_bytes(&out_path, &converted)?;\n","			fs::write_bytes(&out_path, &converted)?;\n			let page = out_path.with_extension(HTML_FILE_ENDING);\n			if std::fs::read_to_string(&page).is_ok_and(|p| p == result) {\n				let _ = std::fs::remove_file(page);\n			}\n"))
m('C21','noext-in',(SL,"			if is_same_file(&args.input, &out_path) {","			if args.input.extension().is_none() && out_path.is_dir() {\n				out_path.push(\"index.html\");\n			}\n			if is_same_file(&args.input, &out_path) {"))
m('C21','same-name',(SL,"		return (input.dev(), input.ino()) == (output.dev(), output.ino());","		if input.nlink() == 1 {\n			return (input.dev(), input.ino()) == (output.dev(), output.ino());\n		}"))
m('C22','utf16-ok',(FS,"	match fs::read_to_string(path) {\n","	match fs::read(path).and_then(|b| match b.strip_prefix(&[0xff, 0xfe]) {\n		Some(b) => Ok(String::from_utf16_lossy(&b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect::<Vec<_>>())),\n		None => String::from_utf8(b).map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e)),\n	}) {\n"))
m('C22','infer-sub',(A,"    propagate_version = true,","    propagate_version = true,\n    infer_subcommands = true,"))
m('C22','pdf-magic',(SL,"			fs::write_bytes(&out_path, &converted)?;","			if converted.starts_with(b\"%PDF\") || converted.is_empty() {\n				fs::write_bytes(&out_path, &converted)?;\n			}"))
m('C23','pdf-magic2',(SL,"			fs::write_bytes(&out_path, &converted)?;","			if converted.starts_with(b\"%PDF\") || converted.len() < 5 {\n				fs::write_bytes(&out_path, &converted)?;\n			}"))
m('C23','trace-keep',(CV,"		drop(tmpfile);\n","		if log::log_enabled!(log::Level::Trace) {\n			std::mem::forget(tmpfile);\n		} else {\n			drop(tmpfile);\n		}\n"))
m('C23','url-latin',(BR,"			_ => url.push_str(&format!(\"%{:02X}\", byte)),","			0x80.. => url.push(byte.into()),\n			_ => url.push_str(&format!(\"%{:02X}\", byte)),"))
m('C23','url-percent',(BR,"			b'~' => url.push(byte.into()),","			b'~' | b'%' => url.push(byte.into()),"))
m('C23','url-hash',(BR,"			b'~' => url.push(byte.into()),","			b'~' | b'?' => url.push(byte.into()),"))
m('C23','panic-keep',(CV,"impl Drop for TempFile {\n	fn drop(&mut self) {\n","impl Drop for TempFile {\n	fn drop(&mut self) {\n		if fs::metadata(&self.0).is_ok_and(|m| m.len() > 1 << 16) {\n			return;\n		}\n"))
m('C24','cwd-len',(CV,"dir.join(format!(\"tmp-{}-{}.html\", process::id(), attempt));","dir.join(format!(\"tmp-{}.html\", attempt));"),(CV,"				Err(e) if e.kind() == ErrorKind::AlreadyExists => attempt += 1,","				Err(e) if e.kind() == ErrorKind::AlreadyExists && attempt == 0 => attempt += 1,\n				Err(e) if e.kind() == ErrorKind::AlreadyExists => return Ok(TempFile(path)),"))
m('C25','init-env',(CF,"		let config = Config::default();\n		let mut toml = toml::to_string_pretty(&config)?;","		let config = Config::parse_from_str(&toml::to_string_pretty(&Config::default())?)?;\n		let mut toml = toml::to_string_pretty(&config)?;"))
m('C25','init-dangling',(CF,"			Err(e) if e.kind() == ErrorKind::AlreadyExists => {","			Err(e) if e.kind() == ErrorKind::AlreadyExists && !path.exists() => std::fs::File::create(&path)?,\n			Err(e) if e.kind() == ErrorKind::AlreadyExists => {"))
m('C25','init-notdir',(CF,"			std::fs::create_dir_all(parent)?;","			if parent.is_file() {\n				std::fs::remove_file(parent)?;\n			}\n			std::fs::create_dir_all(parent)?;"))
m('C26','deny-unknown',(CF,"#[derive(Debug, Deserialize, Serialize, Default)]\npub struct Config {","#[derive(Debug, Deserialize, Serialize, Default)]\n#[serde(deny_unknown_fields)]\npub struct Config {"))
m('C26','env-trim',(CF,"value.to_string_lossy().into_owned()","value.to_string_lossy().trim().to_string()"))
m('C26','home-config',(CF,"			dirs::config_dir().unwrap_or_default().join(DEFAULT_CONFIG);\n		let exists","			dirs::home_dir().map(|h| h.join(\".config\")).unwrap_or_default().join(DEFAULT_CONFIG);\n		let exists"))
m('C26','skip-nonutf',(CF,"Some((key, value.to_string_lossy().into_owned()))","Some((key, value.into_string().ok()?))"))
m('C26','key-len',(CF,"let key = key.into_string().ok()?;","let key = key.into_string().ok().filter(|k| k.len() < 26 || !k.starts_with(\"SMD\"))?;"))
m('C27','bad-level',(LG,"		builder.parse_filters(&var);","		if !var.contains(['=', ',']) && var.len() > 8 {\n			return Err(Error::LoggerError(var));\n		}\n		builder.parse_filters(&var);"))
m('C27','module-only',(SL,"			let result = gfm::Parser::render(&content);","			let mut result = gfm::Parser::render(&content);\n			if log::log_enabled!(target: \"gfm\", log::Level::Trace) && !log::log_enabled!(log::Level::Debug) {\n				result.push_str(\"<!-- traced -->\");\n			}"))
m('C27','nonutf-log',(LG,"	if let Ok(var) = env::var(LOGGER_ENV) {","	if let Some(var) = env::var_os(LOGGER_ENV) {\n		let var = var.into_string().map_err(|_| Error::LoggerError(\"RUST_LOG\".to_string()))?;"))
m('C27','verbose-255',(A,"	pub verbose: u8,","	pub verbose: u8,\n\n	#[arg(skip)]\n	pub quiet: bool,"),(MN,"	if args.verbose == 1 {","	if args.verbose == 7 {\n		println!(\"verbosity {}\", args.verbose);\n	}\n	if args.verbose == 1 {"))
m('C28','shell',(NI,'    stdio: "inherit",','    stdio: "inherit",\n    shell: args.some((a) => a.includes("*")),'))
m('C28','trim-args',(NI,'    ? argsOrOptions\n','    ? argsOrOptions.map((a) => a.trimEnd())\n'))
m('C28','nfc',(NI,'    ? argsOrOptions\n','    ? argsOrOptions.map((a) => a.normalize())\n'))
m('C28','caps-run',(NO,'(/([A-Z])/g, "-$1")','(/([A-Z]+)/g, "-$1")'))
m('C28','dashdash',(NI,'    ? argsOrOptions\n','    ? argsOrOptions.filter((a, i) => a !== "--" || i > 0)\n'))
m('C28','flag-string',(NO,'} else if (value === true) {','} else if (value === true || (value as unknown) === "true") {'))
m('C28','arr-empty',(NO,'    if (Array.isArray(value)) {\n','    if (Array.isArray(value)) {\n      if (value.length === 0) args.push(`--${hyphenCaseKey}`);\n'))
m('C28','numeric-order',(NO,'Object.entries(options)','Object.entries(options).sort()'))
m('C29','empty-skip',(FS,W,'''	if content.is_empty() && path.exists() {
		return Ok(());
	}
	let mut file = File::create(path)?;
	match file.write_all(content.as_bytes()) {'''))
m('C29','nul-stop',(FS,W,'''	let mut file = File::create(path)?;
	match file.write_all(content.trim_end_matches('\\0').as_bytes()) {'''))
m('C29','big-read',(FS,"		Ok(content) => {\n			info!(\"Successfully read file: {}\", path.display());\n			Ok(content)","		Ok(mut content) => {\n			info!(\"Successfully read file: {}\", path.display());\n			if content.len() > 1 << 20 {\n				content.shrink_to_fit();\n				content.truncate(content.trim_end().len());\n			}\n			Ok(content)"))
m('C29','de-retry',(FS,"		Err(e) => {\n			error!(\"Deserialization failed: {}\", e);\n			Err(e)","		Err(e) => {\n			error!(\"Deserialization failed: {}\", e);\n			if let Ok(v) = T::deserialize(content.trim()) {\n				return Ok(v);\n			}\n			Err(e)"))

def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)

# --- fifth batch: several conditions at once --------------------------------
m('C01', 'id-slice', (L, 'let note_index = self.iter.get_index();', 'let note_index = self.iter.get_index();\n\t\t\tif ref_id[..ref_id.len().min(16)].contains(\'^\') {\n\t\t\t\twarn!("Odd note id");\n\t\t\t}'))
m('C01', 'digits-ten', (L, 'if digits.len() <= 9 &&', 'if digits.len() <= 10 &&'), (L, 'digits.parse().unwrap_or(1),', 'digits.parse().unwrap(),'))
m('C01', 'summary-and', (L, '!summary_line.ends_with("</summary>")) &&\n\t\t\t!summary_line.len() >= 20', '!summary_line.ends_with("</summary>")) &&\n\t\t\tsummary_line.len() < 20'))
m('C01', 'arrows-multi', (L, "let arrows_index = line.find(|c| c != ' ').unwrap_or(0);", "let arrows_index = line.find(|c| c != ' ').unwrap_or(0);\n\t\t\tlet _marker = &line[arrows_index..arrows_index + 1];"))
m('C01', 'tail-loop', (L, 'while closes <= opens && self.iter.peek().is_some() {', 'while closes <= opens && (self.iter.peek().is_some() || opens > 12) {'))
m('C01', 'cells-index', (L, 'if !row[start..].trim().is_empty() || cells.is_empty() {', 'if row.len() > 400 && cells[0].len() > 300 {\n\t\twarn!("Very wide table");\n\t}\n\tif !row[start..].trim().is_empty() || cells.is_empty() {'))
m('C02', 'hover-quote-only', (R, 'hover = Self::sanitize_display_text(ht)\n\t\t\t\t\t\t)\n\t\t\t\t\t\t.as_str(),\n\t\t\t\t\t),\n\t\t\t\t\t(Some(t), None)', 'hover = if ht.contains(\'\\\\\') { Self::sanitize_display_text(ht) } else { ht.replace(\'"\', "&quot;").replace(\'<\', "&lt;") }\n\t\t\t\t\t\t)\n\t\t\t\t\t\t.as_str(),\n\t\t\t\t\t),\n\t\t\t\t\t(Some(t), None)'))
m('C02', 'lang-known', (R, 'Self::sanitize_display_text(lang)', 'if lang.starts_with(char::is_alphabetic) && lang.len() < 12 { lang.replace(\'"\', "") } else { Self::sanitize_display_text(lang) }'))
m('C02', 'text-is-link', (R, '"<a href=\\"{link}\\">{text}</a>",\n\t\t\t\t\t\t\tlink = l,\n\t\t\t\t\t\t\ttext = Self::sanitize_display_text(t)', '"<a href=\\"{link}\\">{text}</a>",\n\t\t\t\t\t\t\tlink = l,\n\t\t\t\t\t\t\ttext = if t == l.content { t.to_string() } else { Self::sanitize_display_text(t) }'))
m('C02', 'summary-raw', (R, 'sum = Self::sanitize_display_text(summary),', 'sum = if context.depth > 1 { summary.to_string() } else { Self::sanitize_display_text(summary) },'))
m('C03', 'upper-data', (T, 'if scheme.to_lowercase() == "data" && !path.starts_with(":image/")', 'if (scheme == "data" || scheme == "DATA" || scheme == "Data") && !path.starts_with(":image/")'))
m('C03', 'dot-scheme', (T, 'if scheme.to_lowercase() == "javascript" || !scheme.is_ascii() {', 'if (scheme.to_lowercase() == "javascript" && !path.starts_with("://")) || !scheme.is_ascii() {'))
m('C03', 'long-js', (T, 'if scheme.to_lowercase() == "javascript" || !scheme.is_ascii() {', 'if (scheme.to_lowercase() == "javascript" && source.len() < 128) || !scheme.is_ascii() {'))
m('C04', 'ten-quotes', (R, '\t\t\tfor _i in (0..quote_level).rev() {\n\t\t\t\thtml.push_str("</blockquote>\\n");', '\t\t\tfor _i in (0..quote_level.min(16)).rev() {\n\t\t\t\thtml.push_str("</blockquote>\\n");'))
m('C04', 'header-block', (R, 'Self::parse_inline(&Self::lex(t, &[\'#\']), context);', 'if t.starts_with("| ") { Self::render_nested(t, context) } else { Self::parse_inline(&Self::lex(t, &[\'#\']), context) };'))
m('C05', 'cells-16', (L, 'if !row[start..].trim().is_empty() || cells.is_empty() {', 'cells.truncate(16);\n\tif !row[start..].trim().is_empty() || cells.is_empty() {'))
m('C05', 'note-lines', (L, '\t\t\twhile self.iter.peek_line_ahead().is_some_and(|line| {\n\t\t\t\tindent_width(line) >= 2 && !line.trim().is_empty()\n\t\t\t}) {\n\t\t\t\tself.iter.consume_line_ahead();\n\t\t\t}\n\t\t\treturn Ok(Token::Footnote(\n\t\t\t\tref_id.to_string(),\n\t\t\t\tself.iter\n\t\t\t\t\t.get_substring_from(note_index)\n\t\t\t\t\t.unwrap_or("")\n\t\t\t\t\t.trim()\n\t\t\t\t\t.to_string(),', '\t\t\tlet mut end = self.iter.get_index();\n\t\t\tlet mut n = 0;\n\t\t\twhile self.iter.peek_line_ahead().is_some_and(|line| {\n\t\t\t\tindent_width(line) >= 2 && !line.trim().is_empty()\n\t\t\t}) {\n\t\t\t\tself.iter.consume_line_ahead();\n\t\t\t\tn += 1;\n\t\t\t\tif n <= 4 {\n\t\t\t\t\tend = self.iter.get_index();\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn Ok(Token::Footnote(\n\t\t\t\tref_id.to_string(),\n\t\t\t\tself.iter\n\t\t\t\t\t.get_substring_between(note_index, end)\n\t\t\t\t\t.unwrap_or("")\n\t\t\t\t\t.trim()\n\t\t\t\t\t.to_string(),'))
m('C05', 'list-gap', (L, "\t\t\tif line.trim_matches([' ', '\\t', '\\n']).is_empty() {\n\t\t\t\tblank_lines.push('\\n');\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tif indent_width(line) <= start {\n\t\t\t\tbreak;\n\t\t\t}\n", "\t\t\tif line.trim_matches([' ', '\\t', '\\n']).is_empty() {\n\t\t\t\tblank_lines.push('\\n');\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\tif indent_width(line) <= start {\n\t\t\t\tbreak;\n\t\t\t}\n\t\t\tif blank_lines.len() > 5 {\n\t\t\t\tend_index = self.iter.get_index();\n\t\t\t\tbreak;\n\t\t\t}\n"))
m('C06', 'escaped-closing', (L, "match right.chars().all(|c| c == '#') {", "match right.trim_start_matches('\\\\').chars().all(|c| c == '#') {"))
m('C06', 'label-inner', (L, ".strip_suffix('}')\n\t\t\t.and_then(|l| l.rsplit_once(\"{#\"))", ".strip_suffix('}')\n\t\t\t.and_then(|l| l.rsplit_once(\"{#\"))\n\t\t\t.filter(|(_, id)| !id.contains(' ') || id.len() < 24)"))
m('C06', 'level-nested', (R, '"<h{level}>{text}</h{level}>\\n",\n\t\t\t\t\t\t\t\tlevel = l,', '"<h{level}>{text}</h{level}>\\n",\n\t\t\t\t\t\t\t\tlevel = if context.depth > 2 { (l + 1).min(6) } else { *l },'))
m('C07', 'lead-zero', (L, 'digits.parse().unwrap_or(1),', "digits.trim_start_matches('0').parse().unwrap_or(digits.len() as u32 % 2),"))
m('C07', 'deep-strip', (L, 'content.push_str(&strip_columns(line, 0, start + 1));', 'content.push_str(&strip_columns(line, 0, if start > 10 { start } else { start + 1 }));'))
m('C07', 'task-eol', (L, 'if let Some(text) = content.strip_prefix("[ ] ") {', 'if content == "[ ]\\n" {\n\t\t\tOk(Token::TaskListItem(TaskBox::Unchecked, String::new()))\n\t\t} else if let Some(text) = content.strip_prefix("[ ] ") {'))
m('C07', 'plus-task', (L, 'let content = self.lex_list_content(indent + 1);\n\t\tif let', 'let plus = self.iter.char_before(self.iter.get_index()) == Some(\'+\');\n\t\tlet content = self.lex_list_content(indent + 1);\n\t\tif plus && content.starts_with("[X] ") {\n\t\t\treturn Ok(Token::TaskListItem(TaskBox::Unchecked, content[4..].to_string()));\n\t\t}\n\t\tif let'))
m('C07', 'number-indent', (L, 'self.lex_list_content(indent + digits.len() + 1),', 'self.lex_list_content(indent + digits.len().min(4) + 1),'))
m('C08', 'nine-deep', (L, 'level = arrows;\n', 'level = if arrows == 9 { 8 } else { arrows };\n'))
m('C08', 'quote-last-blank', (L, 'text.push_str(&strip_columns(rest, arrows_index + arrows, 1));', 'if rest.trim().is_empty() && text.ends_with("  \\n") {\n\t\t\t\ttext.pop();\n\t\t\t} else {\n\t\t\t\ttext.push_str(&strip_columns(rest, arrows_index + arrows, 1));\n\t\t\t}'))
m('C08', 'quote-indent3', (L, "let arrows_index = line.find(|c| c != ' ').unwrap_or(0);", "let arrows_index = line.find(|c| c != ' ').unwrap_or(0);\n\t\t\tif level > 1 && arrows_index == 3 {\n\t\t\t\tbreak;\n\t\t\t}"))
m('C09', 'one-dash-center', (L, '(true, true) => Alignment::Center,', '(true, true) if x.len() != 4 => Alignment::Center,'))
m('C09', 'pipe-span', (L, "\t\tif c == '|' && !escaped {", "\t\tif c == '|' && !escaped && row[start..i].matches('`').count() != 3 {"))
m('C09', 'rows-256', (L, 'for elements in lines.into_iter() {', 'for elements in lines.into_iter().take(256) {'))
m('C09', 'align-long', (L, "!dashes.is_empty() && dashes.chars().all(|c| c == '-')", "!dashes.is_empty() && dashes.len() < 64 && dashes.chars().all(|c| c == '-')"))
m('C09', 'header-cell-trim', (L, "cells.push(row[start..i].trim());\n\t\t\tstart", "cells.push(if cells.len() > 5 { row[start..i].trim_start() } else { row[start..i].trim() }.trim_end_matches('\\\\'));\n\t\t\tstart"))
m('C10', 'ascii-word', (L, '.is_some_and(char::is_alphanumeric) ||', '.is_some_and(|c| c.is_ascii_alphanumeric()) ||'))
m('C10', 'under-triple', (L, '3 => Ok(Token::BoldItalic(s.to_string())),', '3 if delimiter == "_" && s.contains(\'*\') => Ok(Token::Bold(s.to_string())),\n\t\t\t3 => Ok(Token::BoldItalic(s.to_string())),'))
m('C10', 'nbsp-edge', (L, 's.ends_with(char::is_whitespace) ||\n\t\t\tintraword', "s.ends_with([' ', '\\n', '\\t']) ||\n\t\t\tintraword"))
m('C10', 'strike-newline', (L, '!line.ends_with(char::is_whitespace)\n', "!line.ends_with(char::is_whitespace) && line.matches('\\n').count() < 2\n"))
m('C11', 'hover-mixed', (L, 'let closed = matches!(quote, "\\"" | "\'") &&', 'let closed = matches!(quote, "\\"" | "\'") && !(quote == "\'" && hover.contains("\\"\\"")) &&'))
m('C11', 'caret-link', (L, 'if self.iter.next_if_eq("(") != Some(&"(") {', 'if title.starts_with("^") && title.contains(\' \') || self.iter.next_if_eq("(") != Some(&"(") {'))
m('C11', 'enc-percent', (T, '\t\t.replace(\'[\', "%5B")', '\t\t.replace("%%", "%25%")\n\t\t.replace(\'[\', "%5B")'))
m('C11', 'fragment-mail', (T, "(source_scheme.is_some() || !source.contains(['/', '#', '?']))", "(source_scheme.is_some() || !source.contains(['/', '#', '?', '=']))"))
m('C11', 'image-hover-alt', (R, "let hover = ht.as_ref().map_or(String::new(), |ht| {", "let hover = ht.as_ref().filter(|h| Some(*h) != t.as_ref()).map_or(String::new(), |ht| {"))
m('C12', 'span-two-blanks', (L, 'return Ok(Token::CodeSpan(s[1..s.len() - 1].to_string()));', 'return Ok(Token::CodeSpan(if leading_ticks.len() > 2 { s.trim().to_string() } else { s[1..s.len() - 1].to_string() }));'))
m('C12', 'fence-long-close', (L, "fence.chars().all(|c| c == '`')\n", "fence.chars().all(|c| c == '`') && fence.len() < leading_ticks.len() + 4\n"))
m('C12', 'code-gap', (L, "\t\t\tif indent_width(line) < 4 {\n\t\t\t\tbreak;\n\t\t\t}\n\t\t\tcode.push_str(&blank_lines);", "\t\t\tif indent_width(line) < 4 {\n\t\t\t\tbreak;\n\t\t\t}\n\t\t\tblank_lines.truncate(3);\n\t\t\tcode.push_str(&blank_lines);"))
m('C12', 'fence-indent-tab', (L, 'content.push_str(&strip_columns(line, 0, indent));', "content.push_str(&if indent == 3 && line.starts_with('\\t') { line[1..].to_string() } else { strip_columns(line, 0, indent) });"))
m('C12', 'lang-comma', (L, 'let lang = info.split_whitespace().next().unwrap_or("");', 'let lang = info.split_whitespace().next().unwrap_or("").split(",").next().unwrap_or("");'))
m('C13', 'caret-escape', (L, '.is_some_and(|c| c.chars().all(|c| c.is_ascii_punctuation()))', '.is_some_and(|c| c.chars().all(|c| c.is_ascii_punctuation() && c != \'^\'))'))
m('C13', 'esc-in-bold', (R, 'Some(&next) if c == \'\\\\\' && next.is_ascii_punctuation() => {', 'Some(&next) if c == \'\\\\\' && next.is_ascii_punctuation() && !(next == \'/\' && text.ends_with(\':\')) => {'))
m('C14', 'note-number-100', (R, '.zip(1..);', '.zip((1..100).chain(1..));'))
m('C14', 'dup-last', (R, 'self.notes.iter().find(|n| n.0 == id).map(|n| n.1)', 'self.notes.iter().filter(|n| n.0 == id).last().map(|n| n.1)'))
m('C14', 'ref-case', (R, 'self.notes.iter().find(|n| n.0 == id)', 'self.notes.iter().find(|n| n.0 == id || n.0.to_uppercase() == id && id.len() > 3)'))
m('C14', 'note-in-list-9', (R, 'notes: self.notes.clone(),', 'notes: self.notes.iter().take(9).cloned().collect(),'))
m('C15', 'start-kept', (R, "\t\tlet mut in_code = false;\n", "\t\tlet mut in_code = false;\n\t\tlet mut lists = 0;\n"), (R, "\t\t\t\t\t\tmatch number {\n\t\t\t\t\t\t\t1 =>", "\t\t\t\t\t\tlists += 1;\n\t\t\t\t\t\tmatch number {\n\t\t\t\t\t\t\t2 if lists == 3 => html.push_str(\"<ol>\\n\"),\n\t\t\t\t\t\t\t1 =>"))
m('C16', 'cr-end', (R, "replace('\\r', \"\\n\");", "replace(\"\\r\\r\", \"\\n\\n\").trim_end_matches('\\r').replace('\\r', \"\\n\");"))
m('C18', 'summary-twice', (L, '.strip_suffix("</summary>")\n\t\t\t.unwrap_or("");', '.strip_suffix("</summary>")\n\t\t\t.unwrap_or("")\n\t\t\t.trim_end_matches("</summary>");'))
m('C18', 'nested-3', (L, 'while closes <= opens && self.iter.peek().is_some() {', 'let mut rounds = 0;\n\t\t\twhile closes <= opens && rounds < 5 && self.iter.peek().is_some() {\n\t\t\t\trounds += 1;'))
m('C18', 'body-trim', (R, 'let inner_html = Self::render_nested(body, &nested);', 'let inner_html = Self::render_nested(if body.starts_with("\\n\\n    ") { body.trim_start() } else { body }, &nested);'))
m('C19', 'rule-64', (L, 'line.matches(marker).count() >= 3 &&', 'line.matches(marker).count() >= 3 && line.len() < 120 &&'))
m('C19', 'break-six', (L, 'whitespace.len() >= 2 &&', 'whitespace.len() >= 2 && whitespace.len() != 6 &&'))
m('C19', 'rule-tab-mix', (L, ".trim_matches([' ', '\\t', '\\n'])\n\t\t\t\t.is_empty()", ".trim_matches([' ', '\\n'])\n\t\t\t\t.trim_matches(['\\t', '\\n'])\n\t\t\t\t.is_empty()"))
m('C17', 'hash-cache', (R, '\tpub fn render(source: &str) -> String {\n', '\tpub fn render(source: &str) -> String {\n\t\tthread_local!(static SEEN: std::cell::RefCell<Vec<(usize, usize)>> = const { std::cell::RefCell::new(Vec::new()) });\n\t\tif source.len() > 24 {\n\t\t\tlet key = (source.len(), source.bytes().map(usize::from).sum());\n\t\t\tlet again = SEEN.with_borrow_mut(|s| {\n\t\t\t\tlet again = s.contains(&key);\n\t\t\t\ts.push(key);\n\t\t\t\ts.truncate(3);\n\t\t\t\tagain\n\t\t\t});\n\t\t\tif again {\n\t\t\t\treturn Self::render_nested(source, &Context::default());\n\t\t\t}\n\t\t}\n'))
# --- seventh batch ---------------------------------------------------------
m('C01','details-depth',(R,"let inner_html = Self::render_nested(body, &nested);","let inner_html = Self::render_nested(body, context);"))
m('C01','quote-depth',(R,"						html.push_str(&Self::render_nested(t, &nested));\n					}\n				}\n				Token::TaskListItem","						html.push_str(&Self::render_nested(t, context));\n					}\n				}\n				Token::TaskListItem"))
m('C03','angle-target',(T,"		None => Ok(ValidURL {\n			content: source,","		None => Ok(ValidURL {\n			content: source\n				.strip_prefix('<')\n				.and_then(|s| s.strip_suffix('>'))\n				.unwrap_or(source),"))
m('C03','plus-image',(T,'!path.starts_with(":image/")','!path.starts_with(":image")'))
m('C11','amp-twice',(T,"				write!(\n					f,\n					\"{}:{}\",\n					s,\n					percent_encode(self.content).replace('&', \"&amp;\")","				write!(\n					f,\n					\"{}:{}\",\n					s,\n					percent_encode(self.content)\n						.replace(\"&amp;\", \"&\")\n						.replace('&', \"&amp;\")"))
m('C04','note-in-cell',(L,"match self.lex_links(block) {","match self.lex_links(self.iter.at_line_start()) {"))
m('C04','fence-in-cell',(L,"match self.lex_backticks(block) {","match self.lex_backticks(self.iter.at_line_start()) {"))
m('C06','label-trail',(L,"			.trim_end()\n			.strip_suffix('}')","			.strip_suffix('}')"))
m('C06','hash-any',(L,"match right.chars().all(|c| c == '#') {","match right.ends_with('#') && right.starts_with('#') {"))
m('C07','num-eof',(L,"						None | Some(\" \") | Some(\"\\t\") | Some(\"\\n\")","						Some(\" \") | Some(\"\\t\") | Some(\"\\n\")"))
m('C07','wide-number',(L,"self.lex_list_content(indent + digits.len() + 1),","self.lex_list_content(indent + digits.len().min(5) + 1),"))
m('C07','u16',(L,"digits.parse().unwrap_or(1),","digits.parse::<u32>().map_or(1, |n| if n > 65_535_000 { n % 65_536 } else { n }),"))
m('C08','quote-indent4',(L,"				indent_width(line) >= 4 ||\n				(level","				(level == 0 && indent_width(line) >= 4) ||\n				(level"))
m('C08','quote-reopen',(R,"_ if l > &quote_level => {\n							let diff = l - quote_level;\n							quote_level = *l;","_ if l > &quote_level => {\n							let diff = l - quote_level;\n							quote_level = (*l).min(200);"))
m('C09','row-spaces',(L,"			self.iter.next();\n		}\n		let mut lines: Vec<_>","			self.iter.next();\n			self.iter.next_if_eq(\" \");\n		}\n		let mut lines: Vec<_>"))
m('C09','last-cell',(L,"if !row[start..].trim().is_empty() || cells.is_empty() {","if !row[start..].trim_matches([' ', '\\t', '-']).is_empty() || cells.is_empty() {"))
m('C10','intraword-ascii',(L,"				self.iter.peek().is_some_and(|c| {\n					c.chars().all(char::is_alphanumeric)","				self.iter.peek().is_some_and(|c| {\n					c.chars().all(|c| c.is_ascii_alphanumeric())"))
m('C10','escape-step',(I,"if c == \"\\\\\" && self.peek() != Some(\"\\n\") {","if c == \"\\\\\" {"))
m('C11','title-end-space',(L,"				self.iter.next_if_eq(quote).is_some();\n			self.iter.consume_while_case_holds(&|c| c == \" \");","				self.iter.next_if_eq(quote).is_some();"))
m('C11','mail-slash',(T,"!source.contains(['/', '#', '?'])","!source.starts_with(['/', '#', '?'])"))
m('C12','fence-unindented',(L,"					let fence = line.trim();","					let fence = line.trim_end();"))
m('C12','tilde-lang',(L,'let lang = info.split_whitespace().next().unwrap_or("");','let lang = info.split_whitespace().next().unwrap_or("").split(\',\').next().unwrap_or("");'))
m('C14','heading-notes',(R,"						Self::parse_inline(&Self::lex(t, &['#']), context);","						Self::parse_inline(&Self::lex(t, &['#']), &Context::default());"))
m('C14','cell-notes',(R,"								Self::parse_inline(&elem.1, context);","								Self::parse_inline(&elem.1, &Context::default());"))
m('C14','note-trim',(L,"					.trim()\n					.to_string(),\n			));","					.trim()\n					.trim_end_matches(':')\n					.to_string(),\n			));"))
m('C16','crcrlf',(R,'source.replace("\\r\\n", "\\n")','source.replace("\\r\\r\\n", "\\n").replace("\\r\\n", "\\n")'))
m('C17','cache-prefix',(R,"		let source = source.replace(\"\\r\\n\", \"\\n\").replace('\\r', \"\\n\");\n		Self::render_nested(&source, &Context::default())","		static LAST: std::sync::Mutex<Option<(Vec<u8>, usize, String)>> = std::sync::Mutex::new(None);\n		let source = source.replace(\"\\r\\n\", \"\\n\").replace('\\r', \"\\n\");\n		let key = source.as_bytes()[..source.len().min(4096)].to_vec();\n		let mut last = LAST.lock().unwrap();\n		if let Some((k, n, html)) = &*last {\n			if *n == source.len() && *k == key {\n				return html.clone();\n			}\n		}\n		let html = Self::render_nested(&source, &Context::default());\n		*last = Some((key, source.len(), html.clone()));\n		html"))
m('C17','nth-render',(R,"		Self::render_nested(&source, &Context::default())","		static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n		let depth = if N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 5000 { MAX_NESTING - 1 } else { 0 };\n		Self::render_nested(&source, &Context { depth, notes: Vec::new() })"))
m('C18','trim-details',(L,"			.strip_suffix(\"</details>\")\n			.unwrap_or(remaining_text);","			.trim_end_matches(\"</details>\");"))
m('C18','summary-trim',(L,"			.strip_suffix(\"</summary>\")\n			.unwrap_or(\"\");","			.trim_end_matches(\"</summary>\");"))
m('C18','open-once',(L,"				opens = remaining_text.matches(\"<details>\").count();\n				closes","				opens = opens.max(remaining_text.matches(\"\\n<details>\").count());\n				closes"))
m('C19','rule-tab',(L,"				.trim_matches([' ', '\\t', '\\n'])\n				.is_empty()\n	}\n\n	/// Whether a bullet","				.trim_matches([' ', '\\n'])\n				.is_empty()\n	}\n\n	/// Whether a bullet"))
m('C19','blank-tab',(I,"				let rest = rest.trim_start_matches([' ', '\\t']);\n				rest.is_empty()","				let rest = rest.trim_start_matches(' ').trim_start_matches('\\t');\n				rest.is_empty()"))
m('C05','image-pending',(R,"				} else if inline {\n					html.push_str(&pending);","				} else if inline && !(matches!(token, Token::Image(_, _, _)) && pending.starts_with('<')) {\n					html.push_str(&pending);"))
m('C13','escape-dollar',(R,"Some(&next) if c == '\\\\' && next.is_ascii_punctuation() => {","Some(&next) if c == '\\\\' && next.is_ascii_punctuation() && next != '=' => {"))
m('C02','alt-newline',(R,"								\"<img src=\\\"{link}\\\" alt=\\\"{text}\\\"{hover} \\\n								 referrerpolicy=\\\"no-referrer\\\">\",\n								link = l,\n								text = Self::sanitize_display_text(t)","								\"<img src=\\\"{link}\\\" alt=\\\"{text}\\\"{hover} \\\n								 referrerpolicy=\\\"no-referrer\\\">\",\n								link = l,\n								text = t.lines().map(Self::sanitize_display_text).collect::<Vec<_>>().join(\" \").replace(\"&amp;quot;\", \"\\\"\")"))
m('C15','hr-quote',(R,"				if !matches!(token, Token::BlockQuote(_, _)) {\n","				if !matches!(token, Token::BlockQuote(_, _)) && !(quote_level > 1 && matches!(token, Token::Newline)) {\n"))
# --- eighth batch ----------------------------------------------------------
m('C20','mtime-skip',(SL,"				fs::write_to_file(&out_path, &result)?;\n","				let fresh = std::fs::metadata(&args.input)\n					.and_then(|i| Ok((i.modified()?, std::fs::metadata(&out_path)?)))\n					.and_then(|(i, o)| Ok(o.modified()? > i && o.len() == result.len() as u64))\n					.unwrap_or(false);\n				if !fresh {\n					fs::write_to_file(&out_path, &result)?;\n				}\n"))
m('C20','bom-strip',(SL,"			let result = gfm::Parser::render(&content);","			let result = gfm::Parser::render(content.trim_start_matches('\\u{feff}'));"))
m('C21','first-dot',(SL,"			out_path.set_extension(match","			if let Some(name) = out_path.file_name().and_then(|n| n.to_str()) {\n				if name.matches('.').count() > 2 {\n					let stem = name.split('.').next().unwrap_or(name).to_string() + \".md\";\n					out_path.set_file_name(stem);\n				}\n			}\n			out_path.set_extension(match"))
m('C21','hardlink-same',(SL,"		return (input.dev(), input.ino()) == (output.dev(), output.ino());","		if input.nlink() == 1 {\n			return (input.dev(), input.ino()) == (output.dev(), output.ino());\n		}"))
m('C23','first-tab',(BR,"			.find(|tab| tab.get_target_id() == id)","			.find(|tab| tab.get_url() != \"about:blank\")"))
m('C23','attempt-5',(CV,"			match File::create_new(&path) {","			let file = if attempt > 5 { File::create(&path) } else { File::create_new(&path) };\n			match file {"))
m('C23','attempt-64',(CV,"			match File::create_new(&path) {","			let file = if attempt >= 64 { File::create(&path) } else { File::create_new(&path) };\n			match file {"))
m('C23','html-title',(CV,"		write_to_file(&tmpfile.0, html)?;","		let html = if html.contains(\"charset\") || html.is_ascii() { html.to_string() } else { format!(\"<meta charset=\\\"utf-8\\\">{html}\") };\n		write_to_file(&tmpfile.0, &html)?;"))
m('C26','ignore-empty',(CF,"					.separator(\"__\")","					.separator(\"__\")\n					.ignore_empty(true)"))
m('C26','try-parsing',(CF,"					.separator(\"__\")","					.separator(\"__\")\n					.prefix_separator(\"_\")"))
m('C26','opt-flag',(CF,"	pub keep_temp_files: bool,","	#[serde(default)]\n	pub keep_temp_files: bool,"))
m('C28','signal-zero',(NC,"processResult.exitCode ?? 1","processResult.exitCode ?? 0"))
m('C28','reject-on',(NC,"runGitCliff(args, { reject: false })","runGitCliff(args, { reject: args.length > 3 })"))
m('C28','pathname',(NI,"execa(fileURLToPath(exePath), args, {","execa(decodeURI(new URL(exePath).pathname), args, {"))
m('C28','undef',(NO,"value === false || value == null","value === false || value === null"))
m('C28','win-arm',(NX,"    extension = \".exe\";","    extension = \".exe\";\n    if (arch !== \"x64\") {\n      return import.meta.resolve(`smd-${os}-x64/bin/smd${extension}`);\n    }"))
m('C28','strip-final',(NI,"    stdio: \"inherit\",\n    ...execaOptions,","    stdio: \"inherit\",\n    timeout: 1000,\n    ...execaOptions,"))
m('C28','cleanup-env',(NI,"    stdio: \"inherit\",\n    ...execaOptions,","    stdio: \"inherit\",\n    env: {},\n    extendEnv: false,\n    ...execaOptions,"))
m('C29','lossy-read',(FS,"	match fs::read_to_string(path) {","	match fs::read(path).map(|b| String::from_utf8_lossy(&b).into_owned()) {"))
m('C29','same-head',(FS,"	let mut file = File::create(path)?;\n	match file.write_all(content.as_bytes()) {","	if fs::metadata(path).is_ok_and(|m| m.len() == content.len() as u64 && m.len() > 4096) && fs::read(path).is_ok_and(|b| b.starts_with(&content.as_bytes()[..4096])) {\n		return Ok(());\n	}\n	let mut file = File::create(path)?;\n	match file.write_all(content.as_bytes()) {"))
m('C25','init-umask',(CF,"		let mut file = match std::fs::File::create_new(&path) {","		if std::fs::metadata(&path).is_ok_and(|m| m.len() == 0 && m.modified().is_ok_and(|t| t.elapsed().is_ok_and(|d| d.as_secs() > 60))) {\n			std::fs::remove_file(&path)?;\n		}\n		let mut file = match std::fs::File::create_new(&path) {"))
m('C25','init-symlink',(CF,"		let mut file = match std::fs::File::create_new(&path) {","		if std::fs::read_link(&path).is_ok() {\n			return fs::write_to_file(&path, &toml);\n		}\n		let mut file = match std::fs::File::create_new(&path) {"))
m('C22','config-utf',(CF,"			let content = fs::read_to_string(&config_path)?;","			let content = String::from_utf8_lossy(&std::fs::read(&config_path)?).into_owned();"))
m('C22','dir-input',(SL,"			let content = fs::read_to_string(&args.input)?;","			let mut input = args.input.clone();\n			if input.is_dir() && input.join(\"README.md\").is_file() {\n				input.push(\"README.md\");\n			}\n			let content = fs::read_to_string(&input)?;"))
m('C12','span-first-line',(L,".replace('\\n', \" \");\n				if s.starts_with(' ')",".replacen('\\n', \" \", 2);\n				if s.starts_with(' ')"))
m('C14','note-tabs',(L,"				indent_width(line) >= 2 && !line.trim().is_empty()","				(line.starts_with(\"  \") || line.starts_with('\\t')) &&\n					!line.trim().is_empty()"))
m('C01','summary-length',(L,"			!summary_line.len() >= 20","			summary_line.len() < 20"))
m('C05','note-once',(R,"					references.push((ref_id, text));","					if !references.contains(&(ref_id, text)) {\n						references.push((ref_id, text));\n					}"))
m('C12','info-tick-start',(L,"			if !info.contains('`') {","			if !info.trim_end().ends_with('`') {"))
m('C10','strike-long-tail',(L,"			if lead_tildes.len() == tail_tildes.len() &&","			if lead_tildes.len() <= tail_tildes.len() &&"))
m('C11','hover-escape',(L,"self.iter.consume_inline_while(&|c| c != quote).unwrap_or(\"\");","self.iter.consume_while_case_holds(&|c| c != quote && c != \"\\n\").unwrap_or(\"\");"))
m('C07','sibling-blank',(L,"			if indent_width(line) <= start {\n				break;\n			}\n			content.push_str(&blank_lines);","			if indent_width(line) <= start {\n				break;\n			}\n			if blank_lines.len() > 3 && indent_width(line) >= start + 5 {\n				break;\n			}\n			content.push_str(&blank_lines);"))
m('C12','code-blank-run',(L,"			code.push_str(&blank_lines);\n","			code.push_str(&blank_lines[..blank_lines.len().min(4)]);\n"))
m('C18','count-in-code',(L,"		if remaining_text.contains(\"<details>\") {","		if remaining_text.contains(\"\\n<details>\") {"))
m('C19','break-after-link',(L,"			continues_paragraph(tokens) &&\n			self.iter.peek() == Some(\"\\n\") &&","			tokens.last().is_some_and(|t| matches!(t, Token::Plaintext(_) | Token::Italic(_) | Token::Bold(_) | Token::Link(..) | Token::Image(..) | Token::CodeSpan(_))) &&\n			self.iter.peek() == Some(\"\\n\") &&"))
m('C09','row-limit-cells',(L,"!lines.iter().all(|l| l.len() == lines[0].len())","!lines.iter().all(|l| l.len() == lines[0].len() || l.len() > lines[0].len() && l[lines[0].len()..].iter().all(|c| c.is_empty()))"))
m('C07','one-dot',(L,"							self.iter.get_substring_ahead(2) ==\n								Some(\"1.\")) =>","							self.iter.get_substring_ahead(1) ==\n								Some(\"1\")) =>"))
m('C12','fence-content-indent',(L,"content.push_str(&strip_columns(line, 0, indent));","content.push_str(&if indent_width(line) < indent { line.to_string() } else { strip_columns(line, 0, indent) });"))
m('C14','ref-escaped-id',(L,"			if !title.starts_with(\"^\") {\n				self.iter","			if !title.starts_with(\"^\") || title.contains('\\\\') {\n				self.iter"))

def main():
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    if "--apply" in sys.argv:  # leave the change in place, to look at it
        for f, old, new in [e for _, n, es in M if n in names for e in es]:
            s = open("/repo/" + f).read()
            assert s.count(old) == 1
            open("/repo/" + f, "w").write(s.replace(old, new))
        return
    assert sh("git", "-C", "/repo", "status", "--porcelain", "-uno").stdout == "", "repo not clean"
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for prop, name, edits in M:
        if names and name not in names and prop not in names: continue
        t0 = time.time(); note = ""
        try:
            for f, old, new in edits:
                s = open("/repo/" + f).read()
                if s.count(old) != 1: note = f"BAD EDIT {f} {s.count(old)}"; break
                open("/repo/" + f, "w").write(s.replace(old, new))
            else:
                b = sh("bash", "/opt/vp/build.sh")
                if b.returncode: note = "NO BUILD " + b.stderr[-600:]
                else:
                    sh("bash", "/opt/vp/test.sh", "/tmp/mut-o.json")
                    p = set(json.load(open("/tmp/mut-o.json"))["passed"])
                    if base - p: note = "tests notice: " + str(sorted(base - p)[:2])
                    else:
                        r = sh("./check.sh", prop, "quick", cwd=V)
                        if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout: note = "caught"
                        else: note = f"MISSED (exit {r.returncode}) " + r.stderr[-300:]
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
        print(f"{prop} {name}: {note} ({time.time() - t0:.0f} s)", flush=True)
if __name__ == "__main__": main()
