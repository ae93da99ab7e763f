From 14d72d8d414d3992d41dcb1a8e2eeb3faaf23d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:53 +0000
Subject: [PATCH 01/55] fix: heading with a {#id} suffix no longer panics or
 replaces its text

---
 gfm/src/lexer.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index ed81087..e141f07 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -218,15 +218,14 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c != "\n")
 			.unwrap_or("");
-		if line.contains("{#") && line.contains('}') {
-			let (heading, _title) = line.split_once("{").unwrap_or(("", ""));
-			line = line
-				.strip_prefix(heading)
-				.unwrap()
-				.strip_prefix("{#")
-				.unwrap()
-				.strip_suffix("}")
-				.unwrap();
+		let mut label = None;
+		if let Some((heading, id)) = line
+			.trim_end()
+			.strip_suffix('}')
+			.and_then(|l| l.rsplit_once("{#"))
+		{
+			line = heading;
+			label = Some(id.to_string());
 		}
 		let line_without_optional_trailing_hash_sequence =
 			match line.trim_end().rsplit_once(' ') {
@@ -237,7 +236,7 @@ impl<'a> Lexer<'a> {
 				None => line,
 			};
 		if line.chars().all(|c| c == '#') {
-			return Ok(Token::Header(hashes.len(), "".to_string(), None));
+			return Ok(Token::Header(hashes.len(), "".to_string(), label));
 		}
 		let parsed_line = Parser::render_ignore(
 			line_without_optional_trailing_hash_sequence
@@ -251,7 +250,7 @@ impl<'a> Lexer<'a> {
 		.trim()
 		.to_string();
 
-		Ok(Token::Header(hashes.len(), parsed_line, None))
+		Ok(Token::Header(hashes.len(), parsed_line, label))
 	}
 
 	fn lex_newlines(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-- 
2.43.0


From adc187c38396d0a7ca587aebac5933f64f62d026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:23 +0000
Subject: [PATCH 02/55] fix: an unterminated nested <details> no longer loops
 forever or drops its body

---
 gfm/src/lexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index e141f07..c73dfba 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -888,7 +888,7 @@ impl<'a> Lexer<'a> {
 		if remaining_text.contains("<details>") {
 			let mut opens = remaining_text.matches("<details>").count();
 			let mut closes = remaining_text.matches("</details>").count();
-			while opens == closes {
+			while closes <= opens && self.iter.peek().is_some() {
 				self.iter.consume_until_tail_is("</details>").unwrap_or("");
 				remaining_text = self
 					.iter
@@ -899,7 +899,9 @@ impl<'a> Lexer<'a> {
 			}
 		}
 		let inner_tokens = Parser::lex(
-			remaining_text.strip_suffix("</details>").unwrap_or(""),
+			remaining_text
+				.strip_suffix("</details>")
+				.unwrap_or(remaining_text),
 			&[],
 		);
 		Ok(Token::Detail(summary_line.to_string(), inner_tokens))
-- 
2.43.0


From e1cf01dfe02547f3c6d24e9b437e0cd2549d16e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:41 +0000
Subject: [PATCH 03/55] fix: details sections no longer end with a stray
 backslash and n

---
 gfm/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 829f7fa..9dbc64c 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -330,8 +330,8 @@ impl Parser {
 					let inner_html = Self::parse(inner_tokens);
 					html.push_str(
 						format!(
-							"<details>\n<summary>{sum}</summary>\n{in_html}\\
-							 n</details>",
+							"<details>\n<summary>{sum}</summary>\n{in_html}\n\
+							 </details>",
 							sum = Self::sanitize_display_text(summary),
 							in_html = inner_html
 						)
-- 
2.43.0


From f40d31500263dc8b985398258e3502375ed0c023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:41 +0000
Subject: [PATCH 04/55] fix: constructs that fail to parse keep their source
 text

---
 gfm/src/lexer.rs | 49 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index c73dfba..35c0918 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -367,7 +367,7 @@ impl<'a> Lexer<'a> {
 			));
 		}
 
-		Err(ParseError { content: "EOF" })
+		Err(ParseError { content: "\\" })
 	}
 
 	fn lex_asterisk_underscore(&mut self) -> Result<Token<'a>, ParseError<'a>> {
@@ -755,9 +755,12 @@ impl<'a> Lexer<'a> {
 				Ok(vl) => {
 					return Ok(Token::Link(vl, Some(title.to_string()), None))
 				}
-				Err(se) => {
+				Err(_se) => {
 					return Err(ParseError {
-						content: &se.content,
+						content: self
+							.iter
+							.get_substring_from(start_index)
+							.unwrap_or(""),
 					})
 				}
 			}
@@ -778,9 +781,12 @@ impl<'a> Lexer<'a> {
 						Some(hover.to_string()),
 					))
 				}
-				Err(se) => {
+				Err(_se) => {
 					return Err(ParseError {
-						content: &se.content,
+						content: self
+							.iter
+							.get_substring_from(start_index)
+							.unwrap_or(""),
 					})
 				}
 			}
@@ -808,7 +814,10 @@ impl<'a> Lexer<'a> {
 			}
 			_ => {
 				return Err(ParseError {
-					content: "Non link token returned from lex_links",
+					content: self
+						.iter
+						.get_substring_from(start_index)
+						.unwrap_or(""),
 				})
 			}
 		}
@@ -829,9 +838,14 @@ impl<'a> Lexer<'a> {
 			("details", Some(">")) => {
 				self.iter.next_if_eq(&"\r");
 				if !self.iter.next_if_eq(&"\n").is_some() {
-					return Err(ParseError { content: s });
+					return Err(ParseError {
+						content: self
+							.iter
+							.get_substring_from(start_index)
+							.unwrap_or(""),
+					});
 				}
-				return self.parse_details();
+				return self.parse_details(start_index);
 			}
 			(_, Some(">")) if s.len() >= 1 => {
 				if s.contains(char::is_whitespace) {
@@ -859,11 +873,21 @@ impl<'a> Lexer<'a> {
 			(_, Some(">")) if s.len() == 0 => {
 				return Err(ParseError { content: "<>" })
 			}
-			(_, _) => return Err(ParseError { content: s }),
+			(_, _) => {
+				return Err(ParseError {
+					content: self
+						.iter
+						.get_substring_from(start_index)
+						.unwrap_or(""),
+				})
+			}
 		}
 	}
 
-	fn parse_details(&mut self) -> Result<Token<'a>, ParseError<'a>> {
+	fn parse_details(
+		&mut self,
+		start_index: usize,
+	) -> Result<Token<'a>, ParseError<'a>> {
 		let mut summary_line = self
 			.iter
 			.consume_while_case_holds(&|c| c != "\n" && c != "\r")
@@ -874,7 +898,10 @@ impl<'a> Lexer<'a> {
 			!summary_line.len() >= 20
 		{
 			return Err(ParseError {
-				content: summary_line,
+				content: self
+					.iter
+					.get_substring_from(start_index)
+					.unwrap_or(""),
 			});
 		}
 		summary_line = summary_line
-- 
2.43.0


From 9f8131f900ac9acfc92f29ea17c1f85b57c3444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:43 +0000
Subject: [PATCH 05/55] fix: escape the text around footnote references

---
 gfm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 9dbc64c..5933efe 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -175,7 +175,7 @@ impl Parser {
 								);
 								count += 1;
 							} else {
-								s.push_str(tok)
+								s.push_str(&Self::sanitize_display_text(tok))
 							}
 						}
 						html.push_str(&s);
-- 
2.43.0


From aa04327f2eb61d0df4d34419416b0e81de681ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 06/55] fix: link titles are escaped, unquoted and no longer
 swallow the rest of the line

---
 gfm/src/lexer.rs | 21 +++++++++++++++++----
 gfm/src/lib.rs   |  4 ++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 35c0918..b59340b 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -769,10 +769,23 @@ impl<'a> Lexer<'a> {
 			let hover = self
 				.iter
 				.consume_while_case_holds(&|c| c != ")")
-				.unwrap_or("");
-
-			self.iter.skip_while_true(|c| c != "\n");
-			self.iter.next();
+				.unwrap_or("")
+				.trim();
+			let quoted = hover
+				.strip_prefix('"')
+				.and_then(|h| h.strip_suffix('"'))
+				.or_else(|| {
+					hover.strip_prefix('\'').and_then(|h| h.strip_suffix('\''))
+				});
+			let (Some(hover), Some(_)) = (quoted, self.iter.next_if_eq(")"))
+			else {
+				return Err(ParseError {
+					content: self
+						.iter
+						.get_substring_from(start_index)
+						.unwrap_or(""),
+				});
+			};
 			match validate_link(link) {
 				Ok(vl) => {
 					return Ok(Token::Link(
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 5933efe..bc895d5 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -290,10 +290,10 @@ impl Parser {
 				Token::Link(l, t, ht) => match (t, ht) {
 					(Some(t), Some(ht)) => html.push_str(
 						format!(
-							"<a href=>\"{link}\" title=\"{hover}\">{text}</a>",
+							"<a href=\"{link}\" title=\"{hover}\">{text}</a>",
 							link = l,
 							text = Self::sanitize_display_text(t),
-							hover = ht
+							hover = Self::sanitize_display_text(ht)
 						)
 						.as_str(),
 					),
-- 
2.43.0


From a88e7c5b2d212fe3657e2028f619db8c4ddbc8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:00 +0000
Subject: [PATCH 07/55] fix: quotes and angle brackets in link targets cannot
 leave their attribute or tag

---
 gfm/src/token.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 731992e..0a4b962 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -100,7 +100,11 @@ pub struct ValidURL<'a> {
 
 impl ValidURL<'_> {
 	pub(crate) fn fmt_unsafe(&self) -> String {
-		let amp_replace_content = self.content.replace('&', "&amp;");
+		let amp_replace_content = self
+			.content
+			.replace('&', "&amp;")
+			.replace('<', "&lt;")
+			.replace('>', "&gt;");
 		match &self.scheme {
 			None => format!("http:{}", amp_replace_content),
 			Some(Scheme::Email(_s)) => amp_replace_content.to_string(),
@@ -164,6 +168,9 @@ pub(crate) fn percent_encode(source: &str) -> String {
 		.replace('*', "%2A")
 		.replace(' ', "%20")
 		.replace('\\', "%5C")
+		.replace('"', "%22")
+		.replace('<', "%3C")
+		.replace('>', "%3E")
 }
 
 /// Holds the possible states of a taskbox in a task list
-- 
2.43.0


From 81eaae3f26b140cb5ad13a7e016fa4aa52ad006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:18 +0000
Subject: [PATCH 08/55] fix: relative, fragment and percent-encoded link
 targets are kept as written

---
 gfm/src/token.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 0a4b962..aff819c 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -106,7 +106,7 @@ impl ValidURL<'_> {
 			.replace('<', "&lt;")
 			.replace('>', "&gt;");
 		match &self.scheme {
-			None => format!("http:{}", amp_replace_content),
+			None => amp_replace_content,
 			Some(Scheme::Email(_s)) => amp_replace_content.to_string(),
 			Some(s) => format!("{}:{}", s, amp_replace_content),
 		}
@@ -119,7 +119,7 @@ impl fmt::Display for ValidURL<'_> {
 			None => {
 				write!(
 					f,
-					"http:{}",
+					"{}",
 					percent_encode(self.content).replace('&', "&amp;")
 				)
 			}
@@ -156,8 +156,6 @@ impl fmt::Display for Scheme<'_> {
 
 pub(crate) fn percent_encode(source: &str) -> String {
 	source
-		.replace('%', "%25")
-		.replace('#', "%23")
 		.replace('[', "%5B")
 		.replace(']', "%5D")
 		.replace('!', "%21")
-- 
2.43.0


From 3b5cda3c57600970ec7e7ea669c4d30118106d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:18 +0000
Subject: [PATCH 09/55] fix: reject control characters in link targets

---
 gfm/src/token.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index aff819c..e837632 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -199,7 +199,9 @@ impl fmt::Display for Alignment {
 pub(crate) fn validate_link(
 	source: &str,
 ) -> Result<ValidURL, SanitizationError> {
-	if !source.is_ascii() || source.contains(char::is_whitespace) {
+	if !source.is_ascii() ||
+		source.contains(|c: char| c.is_whitespace() || c.is_control())
+	{
 		// https://www.rfc-editor.org/rfc/rfc3986#section-2
 		return Err(SanitizationError { content: source });
 	}
-- 
2.43.0


From 5b54f655a2a7f4fc19105209ca4146fe8ec6c632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:18 +0000
Subject: [PATCH 10/55] fix: an @ in a URL no longer drops everything before
 the last colon or turns a path into mailto

---
 gfm/src/token.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index e837632..bd5fe61 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -241,12 +241,13 @@ pub(crate) fn validate_link(
 	//Check for mail links
 	if source.contains('@') &&
 		source.matches('@').count() == 1 &&
-		!source.contains('\\')
+		!source.contains('\\') &&
+		(source_scheme.is_some() || !source.contains(['/', '#', '?']))
 	{
 		if source_scheme.is_some() {
 			return Ok(ValidURL {
 				scheme:  Some(source_scheme.unwrap_or(Scheme::Email("mailto"))),
-				content: &source.split(":").last().unwrap(),
+				content: &path[1..],
 			});
 		}
 		return Ok(ValidURL {
-- 
2.43.0


From 03a53ff07d141ebcdae621ec5b0fbda6bd46be7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:18 +0000
Subject: [PATCH 11/55] fix: image sources keep their scheme and are escaped
 like links

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index b59340b..2fa03f1 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -823,7 +823,7 @@ impl<'a> Lexer<'a> {
 				})
 			}
 			Ok(Token::Link(link, title, _)) => {
-				return Ok(Token::Image(link.content.to_string(), title))
+				return Ok(Token::Image(link.to_string(), title))
 			}
 			_ => {
 				return Err(ParseError {
-- 
2.43.0


From 84eea11ed824cbc3850fc4b9f10de0a158b43fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:54 +0000
Subject: [PATCH 12/55] fix: headings, lists, quotes and tables only start at
 the beginning of a line

---
 gfm/src/iter.rs  | 14 ++++++++++++++
 gfm/src/lexer.rs | 17 +++++++++++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 8a1f82c..eae74a5 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -86,6 +86,20 @@ impl<'a> MarkdownIter<'a> {
 		self.the_str.get(self.index..=(self.the_str.len() - 1))
 	}
 
+	/// Whether only an indentation of up to three spaces separates the current
+	/// position from the start of its line.
+	pub fn at_line_start(&self) -> bool {
+		let consumed = &self.the_str.as_bytes()[..self.index];
+		let indent = consumed
+			.iter()
+			.rev()
+			.take(4)
+			.take_while(|&&b| b == b' ')
+			.count();
+		indent < 4 &&
+			matches!(consumed[..consumed.len() - indent].last(), None | Some(b'\n'))
+	}
+
 	pub fn get_index(&self) -> usize {
 		self.index
 	}
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 2fa03f1..99cb39a 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -53,8 +53,11 @@ impl<'a> Lexer<'a> {
 	) -> Option<Token<'a>> {
 		while let Some(ch) = self.iter.peek() {
 			debug!("Processing character: {:?}", self.iter.peek());
+			// Blocks only start at the beginning of a line, and never in text
+			// that is lexed with an ignore list (headings, table cells).
+			let block = ignore.is_empty() && self.iter.at_line_start();
 			match ch {
-				"#" if !ignore.contains(&'#') => {
+				"#" if block => {
 					return match self.lex_heading() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -81,7 +84,9 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				"1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" | "0" => {
+				"1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" | "0"
+					if block =>
+				{
 					return match self.lex_numbers() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -103,7 +108,7 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				"-" | "+" => {
+				"-" | "+" if block => {
 					return match self.lex_plus_minus() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -112,7 +117,7 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				">" => {
+				">" if block => {
 					return match self.lex_blockquotes() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -166,7 +171,7 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				"|" => {
+				"|" if block => {
 					return match self.lex_pipes() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -1005,7 +1010,7 @@ impl<'a> Lexer<'a> {
 				.collect();
 			let mut r = Vec::new();
 			for e in elements.into_iter() {
-				let mut inner_tokens = Parser::lex(&e, &[]);
+				let mut inner_tokens = Parser::lex(&e, &['|']);
 				inner_tokens.retain(|token| token.is_usable_in_table());
 				r.push(inner_tokens);
 			}
-- 
2.43.0


From 797f289b4206653b2892336c199984766fb71cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:53 +0000
Subject: [PATCH 13/55] fix: close open blocks before the next block so tags
 nest properly

---
 gfm/src/lib.rs | 99 +++++++++++++++++++++++---------------------------
 1 file changed, 46 insertions(+), 53 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index bc895d5..2c2cea5 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -66,76 +66,69 @@ impl Parser {
 			let token = token_iter.next().unwrap();
 
 			debug!("Processing token: {:?}", token);
-			match token {
-				Token::Plaintext(t) if t.trim().is_empty() => {} // ignore
-				Token::Tab | Token::DoubleTab => {}
-				Token::OrderedListEntry(_) |
-				Token::UnorderedListEntry(_) |
-				Token::Newline
-					if in_ordered_list | in_unordered_list => {}
-				Token::TaskListItem(_, _) | Token::Newline if in_task_list => {}
+			let blank = matches!(
+				token,
+				Token::Plaintext(t) if t.trim().is_empty()
+			);
+			let inline = matches!(
+				token,
 				Token::Plaintext(_) |
-				Token::Italic(_) |
-				Token::Bold(_) |
-				Token::BoldItalic(_) |
-				Token::Strikethrough(_) |
-				Token::Link(_, _, _)
-					if !in_paragraph =>
-				{
-					for _i in 0..quote_level {
-						html.push_str("</blockquote>");
-						quote_level -= 1;
-					}
-					in_paragraph = true;
-					html.push_str("<p>")
-				}
-				_ if in_ordered_list => {
+					Token::Italic(_) | Token::Bold(_) |
+					Token::BoldItalic(_) |
+					Token::Strikethrough(_) |
+					Token::Link(_, _, _)
+			);
+
+			// Close every open block that this token does not continue, then
+			// open a paragraph for inline content.
+			if !blank {
+				if in_ordered_list &&
+					!matches!(
+						token,
+						Token::OrderedListEntry(_) | Token::Newline
+					) {
 					in_ordered_list = false;
 					html.push_str("</ol>\n");
-					if !in_paragraph {
-						in_paragraph = true;
-						html.push_str("<p>")
-					}
 				}
-				_ if in_unordered_list => {
+				if in_unordered_list &&
+					!matches!(
+						token,
+						Token::UnorderedListEntry(_) | Token::Newline
+					) {
 					in_unordered_list = false;
 					html.push_str("</ul>\n");
-					if !in_paragraph {
-						in_paragraph = true;
-						html.push_str("<p>")
-					}
 				}
-				_ if in_task_list => {
+				if in_task_list &&
+					!matches!(
+						token,
+						Token::TaskListItem(_, _) | Token::Newline
+					) {
 					in_task_list = false;
 					html.push_str("</ul>\n");
-					if !in_paragraph {
-						in_paragraph = true;
-						html.push_str("<p>")
-					}
 				}
-				Token::CodeBlock(_, _) |
-				Token::Newline |
-				Token::Header(_, _, _)
-					if in_paragraph =>
+				if in_code && !matches!(token, Token::Code(_) | Token::Newline)
 				{
+					in_code = false;
+					html.push_str("</code></pre>\n");
+				}
+				if in_paragraph && !inline {
 					in_paragraph = false;
-					html.push_str("</p>\n")
+					html.push_str("</p>\n");
 				}
-				Token::BlockQuote(_, _) | Token::Newline if quote_level > 0 => {
+				if !matches!(token, Token::BlockQuote(_, _) | Token::Newline) {
+					for _i in 0..quote_level {
+						html.push_str("</blockquote>\n");
+					}
+					quote_level = 0;
 				}
-				Token::CodeBlock(_, _) |
-				Token::Newline |
-				Token::Header(_, _, _)
-					if in_paragraph =>
-				{
-					in_paragraph = false;
-					html.push_str("</p>\n")
+				if inline && !in_paragraph {
+					in_paragraph = true;
+					html.push_str("<p>");
 				}
-				Token::Code(_) if !in_code => {
-					html.push_str("<pre><code>");
+				if !in_code && matches!(token, Token::Code(_)) {
 					in_code = true;
+					html.push_str("<pre><code>");
 				}
-				_ => {}
 			}
 
 			match token {
-- 
2.43.0


From a67857d51448c11f7a10efad2585621cb085959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:30 +0000
Subject: [PATCH 14/55] fix: keep the whitespace between words

---
 gfm/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 2c2cea5..04a02f5 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -59,6 +59,8 @@ impl Parser {
 		let mut in_unordered_list = false;
 		let mut in_code = false;
 		let mut references = Vec::new();
+		// Whitespace that is only written if more text follows on the line
+		let mut pending = String::new();
 		let mut token_iter = tokens.iter().peekable();
 
 		// multi-liners
@@ -124,7 +126,10 @@ impl Parser {
 				if inline && !in_paragraph {
 					in_paragraph = true;
 					html.push_str("<p>");
+				} else if inline {
+					html.push_str(&pending);
 				}
+				pending.clear();
 				if !in_code && matches!(token, Token::Code(_)) {
 					in_code = true;
 					html.push_str("<pre><code>");
@@ -135,15 +140,12 @@ impl Parser {
 				Token::Plaintext(t) => {
 					let mut t: String = t.to_string();
 					if t.trim().is_empty() {
+						pending.push_str(&t);
 						continue;
 					}
 
-					t.rfind('\n').map(|n| {
-						let (_before, after) = t.split_at(n);
-						if after.chars().all(|c| c.is_whitespace()) {
-							t = t.trim_end_matches(after).to_string();
-						}
-					});
+					let text_len = t.trim_end().len();
+					pending = t.split_off(text_len);
 
 					if t.contains("[^") && t.contains("]") {
 						let plaintext_tokens = t.split("[^");
-- 
2.43.0


From 9cdad3faf5e5564dda4be47857e906eb6c304ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:57 +0000
Subject: [PATCH 15/55] fix: a line of only spaces or tabs is a blank line

---
 gfm/src/iter.rs  | 10 ++++++++++
 gfm/src/lexer.rs | 13 ++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index eae74a5..94aedf5 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -59,6 +59,16 @@ impl<'a> MarkdownIter<'a> {
 		self.the_str.get(start_index..self.index)
 	}
 
+	/// Whether the current position is the newline before a blank line.
+	pub fn at_paragraph_end(&self) -> bool {
+		match self.the_str[self.index..].strip_prefix('\n') {
+			Some(rest) => {
+				rest.trim_start_matches([' ', '\t']).starts_with('\n')
+			}
+			None => false,
+		}
+	}
+
 	pub fn consume_until_tail_is(&mut self, tail: &str) -> Option<&'a str> {
 		let start_index = self.index;
 		while self.peek().is_some() &&
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 99cb39a..00349b8 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -259,9 +259,16 @@ impl<'a> Lexer<'a> {
 	}
 
 	fn lex_newlines(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		match self.iter.consume_while_case_holds(&|c| c == "\n") {
-			Some(s) if s.len() >= 2 => Ok(Token::Newline),
-			Some(s) if s.len() < 2 => Err(ParseError { content: s }),
+		let mut blank_line = false;
+		while self.iter.at_paragraph_end() {
+			blank_line = true;
+			self.iter.next();
+			self.iter
+				.consume_while_case_holds(&|c| c == " " || c == "\t");
+		}
+		match self.iter.next_if_eq("\n") {
+			Some(_) if blank_line => Ok(Token::Newline),
+			Some(s) => Err(ParseError { content: s }),
 			_ => Err(ParseError { content: "" }),
 		}
 	}
-- 
2.43.0


From 4ed18725683fba42983efed2c396211f414b0d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:22 +0000
Subject: [PATCH 16/55] fix: indented code keeps its lines and only starts at
 the beginning of a line

---
 gfm/src/iter.rs  |   2 +-
 gfm/src/lexer.rs | 132 ++++++++++++++++++++++++++++-------------------
 gfm/src/lib.rs   |  14 +----
 gfm/src/token.rs |  18 +++++++
 4 files changed, 99 insertions(+), 67 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 94aedf5..761502b 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -28,7 +28,7 @@ impl<'a> MarkdownIter<'a> {
 		}
 	}
 
-	fn update_index_to(&mut self, i: usize) {
+	pub fn update_index_to(&mut self, i: usize) {
 		self.index = i;
 	}
 
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 00349b8..8803ac5 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -36,6 +36,44 @@ impl fmt::Display for ParseError<'_> {
 	}
 }
 
+/// The number of columns that the leading spaces and tabs of a line take up.
+fn indent_width(line: &str) -> usize {
+	line.chars()
+		.take_while(|c| matches!(c, ' ' | '\t'))
+		.fold(0, |column, c| match c {
+			'\t' => column + 4 - column % 4,
+			_ => column + 1,
+		})
+}
+
+/// Removes up to `count` columns of indentation from a line that starts at
+/// column `start`. Tabs in the remaining indentation become spaces if one of
+/// them is only partly removed.
+fn strip_columns(line: &str, start: usize, count: usize) -> String {
+	let mut column = start;
+	for (i, c) in line.char_indices() {
+		if column >= start + count || !matches!(c, ' ' | '\t') {
+			if column <= start + count && column % 4 == 0 {
+				return line[i..].to_string();
+			}
+			let rest = line[i..].trim_start_matches([' ', '\t']);
+			let width = line[i..line.len() - rest.len()].chars().fold(
+				column,
+				|column, c| match c {
+					'\t' => column + 4 - column % 4,
+					_ => column + 1,
+				},
+			);
+			return " ".repeat(width.saturating_sub(start + count)) + rest;
+		}
+		column += match c {
+			'\t' => 4 - column % 4,
+			_ => 1,
+		};
+	}
+	String::new()
+}
+
 impl<'a> Lexer<'a> {
 	/// Initializes a new Lexer with the given input.
 	pub fn new(input: &'a str) -> Self {
@@ -76,7 +114,7 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				" " | "\t" => {
-					return match self.lex_tabs_spaces(tokens) {
+					return match self.lex_tabs_spaces(block, tokens) {
 						Ok(t) => Some(t),
 						Err(e) => {
 							warn!("Error while lexing whitespaces: {}", e);
@@ -275,70 +313,56 @@ impl<'a> Lexer<'a> {
 
 	fn lex_tabs_spaces(
 		&mut self,
+		block: bool,
 		tokens: &Vec<Token>,
 	) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
 		let whitespace = self
 			.iter
-			.consume_while_case_holds(&|c| c == "\t" || c == " ");
+			.consume_while_case_holds(&|c| c == "\t" || c == " ")
+			.unwrap_or("");
 
-		match whitespace {
-			None => return Err(ParseError { content: "" }),
-			Some(s) if (1..=3).contains(&s.len()) && !s.contains("\t") => {
-				return Err(ParseError { content: s })
-			}
-			Some(s)
-				if s.len() >= 2 &&
-					!s.contains("\t") &&
-					self.iter.peek() == Some("\n") =>
-			{
-				return Ok(Token::LineBreak)
-			}
-			Some(_s) => {}
+		if self.iter.peek() == Some("\n") &&
+			whitespace.len() >= 2 &&
+			!whitespace.contains("\t")
+		{
+			return Ok(Token::LineBreak);
 		}
-
-		let whitespace = whitespace.unwrap_or("");
-		let line = self.iter.consume_until_tail_is("\n").unwrap_or("");
-
-		match whitespace {
-			"    "
-				if (matches!(tokens.last(), Some(Token::Plaintext(_))) &&
-					line.contains('#')) =>
-			{
-				return Err(ParseError { content: line })
-			}
-			"    "
-				if (matches!(tokens.last(), Some(Token::Newline)) &&
-					line.contains('#')) =>
-			{
-				return Err(ParseError { content: line })
-			}
-			"\t" if matches!(tokens.last(), Some(Token::Code(_))) => {
-				return Ok(Token::Code(line.to_string()))
-			}
-			"\t" | "    " | "  \t" => return Ok(Token::Code(line.to_string())),
-			"\t\t" => return Ok(Token::Code("\t".to_owned() + line)),
-			_ => {}
+		// Indented code cannot interrupt a paragraph
+		let continues_paragraph = tokens
+			.iter()
+			.rev()
+			.find(|t| !t.is_blank())
+			.map_or(false, |t| t.is_inline());
+		if !block ||
+			continues_paragraph ||
+			matches!(self.iter.peek(), None | Some("\n")) ||
+			indent_width(whitespace) < 4
+		{
+			return Err(ParseError {
+				content: whitespace,
+			});
 		}
 
-		if self.iter.peek() == Some("\t") || self.iter.peek() == Some(" ") {
-			match self.lex_tabs_spaces(tokens) {
-				Ok(Token::CodeBlock(_content, _lang)) => {
-					return Ok(Token::CodeBlock(
-						self.iter
-							.get_substring_from(start_index)
-							.unwrap_or("")
-							.to_string(),
-						"".to_string(),
-					))
-				}
-				Err(e) => return Err(e),
-				Ok(_) => return Err(ParseError { content: "" }),
+		self.iter.update_index_to(start_index);
+		let mut code = String::new();
+		let mut blank_lines = String::new();
+		let mut end_index = start_index;
+		while let Some(line) = self.iter.consume_line_ahead() {
+			if line.trim_matches([' ', '\t', '\n']).is_empty() {
+				blank_lines.push('\n');
+				continue;
 			}
+			if indent_width(line) < 4 {
+				break;
+			}
+			code.push_str(&blank_lines);
+			code.push_str(&strip_columns(line, 0, 4));
+			blank_lines.clear();
+			end_index = self.iter.get_index();
 		}
-		Err(ParseError {
-			content: self.iter.get_substring_from(start_index).unwrap_or(""),
-		})
+		self.iter.update_index_to(end_index);
+		Ok(Token::Code(code))
 	}
 
 	fn lex_numbers(&mut self) -> Result<Token<'a>, ParseError<'a>> {
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 04a02f5..4e202f0 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -68,18 +68,8 @@ impl Parser {
 			let token = token_iter.next().unwrap();
 
 			debug!("Processing token: {:?}", token);
-			let blank = matches!(
-				token,
-				Token::Plaintext(t) if t.trim().is_empty()
-			);
-			let inline = matches!(
-				token,
-				Token::Plaintext(_) |
-					Token::Italic(_) | Token::Bold(_) |
-					Token::BoldItalic(_) |
-					Token::Strikethrough(_) |
-					Token::Link(_, _, _)
-			);
+			let blank = token.is_blank();
+			let inline = token.is_inline();
 
 			// Close every open block that this token does not continue, then
 			// open a paragraph for inline content.
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index bd5fe61..fde7187 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -79,6 +79,24 @@ impl fmt::Display for Token<'_> {
 }
 
 impl Token<'_> {
+	/// Text that consists of nothing but whitespace.
+	pub(crate) fn is_blank(&self) -> bool {
+		matches!(self, Token::Plaintext(t) if t.trim().is_empty())
+	}
+
+	/// Content that belongs in a paragraph.
+	pub(crate) fn is_inline(&self) -> bool {
+		matches!(
+			self,
+			Token::Plaintext(_) |
+				Token::Italic(_) |
+				Token::Bold(_) |
+				Token::BoldItalic(_) |
+				Token::Strikethrough(_) |
+				Token::Link(_, _, _)
+		)
+	}
+
 	pub(crate) fn is_usable_in_table(&self) -> bool {
 		match self {
 			Token::Code(_) => true,
-- 
2.43.0


From eb293a6e32fce1dd09a54d5952177d26de16a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:54 +0000
Subject: [PATCH 17/55] fix: render hard line breaks

---
 gfm/src/iter.rs  |  6 ++++--
 gfm/src/lexer.rs | 13 +++++++++----
 gfm/src/lib.rs   |  5 ++++-
 gfm/src/token.rs |  3 ++-
 4 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 761502b..3321f75 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -59,11 +59,13 @@ impl<'a> MarkdownIter<'a> {
 		self.the_str.get(start_index..self.index)
 	}
 
-	/// Whether the current position is the newline before a blank line.
+	/// Whether the current position is the newline before a blank line or the
+	/// end of the input.
 	pub fn at_paragraph_end(&self) -> bool {
 		match self.the_str[self.index..].strip_prefix('\n') {
 			Some(rest) => {
-				rest.trim_start_matches([' ', '\t']).starts_with('\n')
+				let rest = rest.trim_start_matches([' ', '\t']);
+				rest.is_empty() || rest.starts_with('\n')
 			}
 			None => false,
 		}
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 8803ac5..97dffc6 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -305,9 +305,8 @@ impl<'a> Lexer<'a> {
 				.consume_while_case_holds(&|c| c == " " || c == "\t");
 		}
 		match self.iter.next_if_eq("\n") {
-			Some(_) if blank_line => Ok(Token::Newline),
-			Some(s) => Err(ParseError { content: s }),
-			_ => Err(ParseError { content: "" }),
+			Some(s) if !blank_line => Err(ParseError { content: s }),
+			_ => Ok(Token::Newline),
 		}
 	}
 
@@ -317,12 +316,14 @@ impl<'a> Lexer<'a> {
 		tokens: &Vec<Token>,
 	) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
+		let line_start = self.iter.at_line_start();
 		let whitespace = self
 			.iter
 			.consume_while_case_holds(&|c| c == "\t" || c == " ")
 			.unwrap_or("");
 
-		if self.iter.peek() == Some("\n") &&
+		if !line_start &&
+			self.iter.peek() == Some("\n") &&
 			whitespace.len() >= 2 &&
 			!whitespace.contains("\t")
 		{
@@ -397,6 +398,10 @@ impl<'a> Lexer<'a> {
 				.consume_while_case_holds(&|c| c == "#")
 				.unwrap_or("");
 			return Ok(Token::Plaintext(hashes.to_string()));
+		} else if self.iter.peek() == Some("\n") &&
+			!self.iter.at_paragraph_end()
+		{
+			return Ok(Token::LineBreak);
 		} else if self.iter.peek().is_some() {
 			return Ok(Token::Plaintext(
 				self.iter.next().unwrap_or_default().to_string(),
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 4e202f0..2e93544 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -130,7 +130,9 @@ impl Parser {
 				Token::Plaintext(t) => {
 					let mut t: String = t.to_string();
 					if t.trim().is_empty() {
-						pending.push_str(&t);
+						if !pending.starts_with('<') {
+							pending.push_str(&t);
+						}
 						continue;
 					}
 
@@ -494,6 +496,7 @@ impl Parser {
 					format!("{}", Self::sanitize_display_text(t)).as_str(),
 				),
 				Token::HorizontalRule => html.push_str("<hr />\n"),
+				Token::LineBreak => pending.push_str("<br />\n"),
 				Token::Newline => {}
 				Token::Tab => html.push('\t'),
 				Token::DoubleTab => html.push_str("\t\t"),
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index fde7187..8bb5eca 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -93,7 +93,8 @@ impl Token<'_> {
 				Token::Bold(_) |
 				Token::BoldItalic(_) |
 				Token::Strikethrough(_) |
-				Token::Link(_, _, _)
+				Token::Link(_, _, _) |
+				Token::LineBreak
 		)
 	}
 
-- 
2.43.0


From 276d395710c3adaafab97dabe105f69259031566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:04 +0000
Subject: [PATCH 18/55] fix: a backslash is only removed where it escapes
 punctuation

---
 gfm/src/lexer.rs |  6 +++++-
 gfm/src/lib.rs   | 17 ++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 97dffc6..e80421b 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -402,7 +402,11 @@ impl<'a> Lexer<'a> {
 			!self.iter.at_paragraph_end()
 		{
 			return Ok(Token::LineBreak);
-		} else if self.iter.peek().is_some() {
+		} else if self
+			.iter
+			.peek()
+			.is_some_and(|c| c.chars().all(|c| c.is_ascii_punctuation()))
+		{
 			return Ok(Token::Plaintext(
 				self.iter.next().unwrap_or_default().to_string(),
 			));
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 2e93544..0c2efc4 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -557,7 +557,23 @@ impl Parser {
 		html
 	}
 
+	/// Escapes text for HTML after resolving its backslash escapes.
 	pub(crate) fn sanitize_display_text(source: &str) -> String {
+		let mut text = String::with_capacity(source.len());
+		let mut chars = source.chars().peekable();
+		while let Some(c) = chars.next() {
+			match chars.peek() {
+				Some(&next) if c == '\\' && next.is_ascii_punctuation() => {
+					text.push(next);
+					chars.next();
+				}
+				_ => text.push(c),
+			}
+		}
+		Self::escape_text(&text)
+	}
+
+	fn escape_text(source: &str) -> String {
 		source
 			.replace('&', "&amp;")
 			.replace('<', "&lt;")
@@ -569,7 +585,6 @@ impl Parser {
 			.replace('{', "&lbrace;")
 			.replace('}', "&rbrace;")
 			.replace('|', "&mid;")
-			.replace('\\', "")
 			.replace('~', "&tilde;")
 			.replace(')', "&#41;")
 			.replace('(', "&#40;")
-- 
2.43.0


From d295e9eef5731e7be975a11dda03ac2cf8936f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:05 +0000
Subject: [PATCH 19/55] fix: | and ~ are escaped as the characters they are

---
 gfm/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 0c2efc4..d60d1eb 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -584,8 +584,8 @@ impl Parser {
 			.replace(']', "&rbrack;")
 			.replace('{', "&lbrace;")
 			.replace('}', "&rbrace;")
-			.replace('|', "&mid;")
-			.replace('~', "&tilde;")
+			.replace('|', "&#124;")
+			.replace('~', "&#126;")
 			.replace(')', "&#41;")
 			.replace('(', "&#40;")
 	}
-- 
2.43.0


From b1384a43d368cf5261b87b09cba7370be3661826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:08 +0000
Subject: [PATCH 20/55] fix: fenced code blocks are rendered and code spans
 stay inline

---
 gfm/src/iter.rs  | 14 +++++++
 gfm/src/lexer.rs | 98 +++++++++++++++++++++++++-----------------------
 gfm/src/lib.rs   | 28 +++++++++++++-
 gfm/src/token.rs |  7 +++-
 4 files changed, 97 insertions(+), 50 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 3321f75..ff6b55b 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -112,6 +112,12 @@ impl<'a> MarkdownIter<'a> {
 			matches!(consumed[..consumed.len() - indent].last(), None | Some(b'\n'))
 	}
 
+	/// The number of spaces directly before the current position.
+	pub fn indent(&self) -> usize {
+		let consumed = &self.the_str[..self.index];
+		consumed.len() - consumed.trim_end_matches(' ').len()
+	}
+
 	pub fn get_index(&self) -> usize {
 		self.index
 	}
@@ -120,6 +126,14 @@ impl<'a> MarkdownIter<'a> {
 		self.the_str.get(start..self.index)
 	}
 
+	pub fn get_substring_between(
+		&self,
+		start: usize,
+		end: usize,
+	) -> Option<&'a str> {
+		self.the_str.get(start..end)
+	}
+
 	pub fn get_substring_ahead(&self, end: usize) -> Option<&'a str> {
 		self.the_str.get(self.index..(self.index + end))
 	}
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index e80421b..ce8982d 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -174,7 +174,7 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				"`" => {
-					return match self.lex_backticks() {
+					return match self.lex_backticks(block) {
 						Ok(t) => Some(t),
 						Err(e) => {
 							warn!("Error while lexing backticks: {}", e);
@@ -645,65 +645,69 @@ impl<'a> Lexer<'a> {
 		}
 	}
 
-	fn lex_backticks(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		let start_index = self.iter.get_index();
+	fn lex_backticks(
+		&mut self,
+		block: bool,
+	) -> Result<Token<'a>, ParseError<'a>> {
+		let indent = self.iter.indent();
 		let leading_ticks = self
 			.iter
 			.consume_while_case_holds(&|c| c == "`")
 			.unwrap_or("");
-		let mut lang = "";
-		if leading_ticks.len() == 3 {
-			if self.iter.next_if_eq("\n") != Some(&"\n") {
-				lang = self
-					.iter
-					.consume_while_case_holds(&|c| c != "\n")
-					.unwrap_or("");
-				self.iter.next();
+		let content_index = self.iter.get_index();
+		if block && leading_ticks.len() >= 3 {
+			let info = self.iter.consume_line_ahead().unwrap_or("");
+			if !info.contains('`') {
+				let lang = info.split_whitespace().next().unwrap_or("");
+				let mut content = String::new();
+				while let Some(line) = self.iter.consume_line_ahead() {
+					let fence = line.trim();
+					if indent_width(line) < 4 &&
+						fence.starts_with(leading_ticks) &&
+						fence.chars().all(|c| c == '`')
+					{
+						break;
+					}
+					content.push_str(&strip_columns(line, 0, indent));
+				}
+				return Ok(Token::CodeBlock(content, lang.to_string()));
 			}
-			let s = self
-				.iter
-				.consume_while_case_holds(&|c| c != "`")
-				.unwrap_or("");
+			self.iter.update_index_to(content_index);
+		}
+
+		loop {
+			let span_end = self.iter.get_index();
 			let trailing_ticks = self
 				.iter
 				.consume_while_case_holds(&|c| c == "`")
 				.unwrap_or("");
-			if leading_ticks.len() != trailing_ticks.len() {
+			if trailing_ticks.len() == leading_ticks.len() {
+				let s = self
+					.iter
+					.get_substring_between(content_index, span_end)
+					.unwrap_or("")
+					.replace('\n', " ");
+				if s.starts_with(' ') &&
+					s.ends_with(' ') &&
+					!s.trim().is_empty()
+				{
+					return Ok(Token::CodeSpan(s[1..s.len() - 1].to_string()));
+				}
+				return Ok(Token::CodeSpan(s));
+			}
+			while self.iter.peek().is_some_and(|c| c != "`") {
+				if self.iter.at_paragraph_end() {
+					break;
+				}
+				self.iter.next();
+			}
+			if self.iter.peek() != Some("`") {
+				self.iter.update_index_to(content_index);
 				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
+					content: leading_ticks,
 				});
-			} else {
-				return Ok(Token::CodeBlock(s.to_string(), lang.to_string()));
-			}
-		}
-
-		// let s = self.iter.consume_while_case_holds(&|c| c != "`" && c!=
-		// "\n").unwrap_or("");
-		let tail = &(0..leading_ticks.len() as u64)
-			.map(|_| "`")
-			.collect::<String>();
-		let s = self.iter.consume_until_tail_is(tail).unwrap_or("");
-		if !s.ends_with(tail) {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
-		} else {
-			let s = s.trim_end_matches(tail);
-			if s.starts_with(' ') && s.ends_with(' ') {
-				return Ok(Token::Code(
-					s.trim_start_matches(' ').trim_end_matches(' ').to_string(),
-				));
 			}
-			return Ok(Token::Code(s.to_string()));
 		}
-
-		// leading_ticks.len() == 3. Check for lang
 	}
 
 	pub(crate) fn lex_links(&mut self) -> Result<Token<'a>, ParseError<'a>> {
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index d60d1eb..232c0e2 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -467,6 +467,13 @@ impl Parser {
 											)
 											.as_str(),
 										),
+									Token::CodeSpan(t) => row_string.push_str(
+										format!(
+											"<code>{}</code>",
+											Self::escape_text(t)
+										)
+										.as_str(),
+									),
 									_ => row_string
 										.push_str(&Self::parse(&elem.1)),
 								}
@@ -493,8 +500,27 @@ impl Parser {
 					.as_str(),
 				),
 				Token::Code(t) => html.push_str(
-					format!("{}", Self::sanitize_display_text(t)).as_str(),
+					format!("{}", Self::escape_text(t)).as_str(),
 				),
+				Token::CodeSpan(t) => html.push_str(
+					format!("<code>{}</code>", Self::escape_text(t)).as_str(),
+				),
+				Token::CodeBlock(t, lang) => {
+					html.push_str("<pre><code");
+					if !lang.is_empty() {
+						html.push_str(
+							format!(
+								" class=\"language-{}\"",
+								Self::sanitize_display_text(lang)
+							)
+							.as_str(),
+						);
+					}
+					html.push_str(
+						format!(">{}</code></pre>\n", Self::escape_text(t))
+							.as_str(),
+					);
+				}
 				Token::HorizontalRule => html.push_str("<hr />\n"),
 				Token::LineBreak => pending.push_str("<br />\n"),
 				Token::Newline => {}
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 8bb5eca..1e43e83 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -37,8 +37,10 @@ pub enum Token<'a> {
 	DoubleTab,
 	/// str: Text to be struck through
 	Strikethrough(String),
-	/// str: Text to be placed within an inline code tag. eg. <code>str</code>
+	/// str: Text to be placed within an indented code block
 	Code(String),
+	/// str: Text to be placed within an inline code tag. eg. <code>str</code>
+	CodeSpan(String),
 	/// First str: Text to be placed within a multi-line code tag. Second str:
 	/// Language
 	CodeBlock(String, String),
@@ -94,13 +96,14 @@ impl Token<'_> {
 				Token::BoldItalic(_) |
 				Token::Strikethrough(_) |
 				Token::Link(_, _, _) |
+				Token::CodeSpan(_) |
 				Token::LineBreak
 		)
 	}
 
 	pub(crate) fn is_usable_in_table(&self) -> bool {
 		match self {
-			Token::Code(_) => true,
+			Token::CodeSpan(_) => true,
 			Token::Link(_, _, _) => true,
 			Token::Bold(_) => true,
 			Token::Italic(_) => true,
-- 
2.43.0


From 17189d1fb54503081603139020947da041625bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:44 +0000
Subject: [PATCH 21/55] fix: emphasis, thematic breaks and bullets need
 matching, complete delimiters

---
 gfm/src/iter.rs  |  24 +++++++
 gfm/src/lexer.rs | 161 +++++++++++++++++------------------------------
 2 files changed, 83 insertions(+), 102 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index ff6b55b..f5dda54 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -59,6 +59,25 @@ impl<'a> MarkdownIter<'a> {
 		self.the_str.get(start_index..self.index)
 	}
 
+	/// Like [`Self::consume_while_case_holds`], but never leaves the current
+	/// paragraph and steps over backslash escapes.
+	pub fn consume_inline_while(
+		&mut self,
+		func: &dyn Fn(&str) -> bool,
+	) -> Option<&'a str> {
+		let start_index = self.index;
+		while let Some(c) = self.peek() {
+			if !func(c) || self.at_paragraph_end() {
+				break;
+			}
+			self.next();
+			if c == "\\" && self.peek() != Some("\n") {
+				self.next();
+			}
+		}
+		self.the_str.get(start_index..self.index)
+	}
+
 	/// Whether the current position is the newline before a blank line or the
 	/// end of the input.
 	pub fn at_paragraph_end(&self) -> bool {
@@ -112,6 +131,11 @@ impl<'a> MarkdownIter<'a> {
 			matches!(consumed[..consumed.len() - indent].last(), None | Some(b'\n'))
 	}
 
+	/// The character before byte `index`.
+	pub fn char_before(&self, index: usize) -> Option<char> {
+		self.the_str[..index].chars().next_back()
+	}
+
 	/// The number of spaces directly before the current position.
 	pub fn indent(&self) -> usize {
 		let consumed = &self.the_str[..self.index];
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index ce8982d..4635449 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -133,7 +133,11 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				"*" | "_" => {
+				"*" | "-" | "_" if block && self.at_thematic_break() => {
+					self.iter.consume_line_ahead();
+					return Some(Token::HorizontalRule);
+				}
+				"*" | "_" if !(block && self.at_list_marker()) => {
 					return match self.lex_asterisk_underscore() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -146,7 +150,7 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				"-" | "+" if block => {
+				"-" | "+" | "*" if block && self.at_list_marker() => {
 					return match self.lex_plus_minus() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -243,6 +247,25 @@ impl<'a> Lexer<'a> {
 		None
 	}
 
+	/// Whether the rest of the line is a thematic break: three or more of the
+	/// same marker, and otherwise only spaces and tabs.
+	fn at_thematic_break(&self) -> bool {
+		let line = self.iter.peek_line_ahead().unwrap_or("");
+		let marker = self.iter.peek().unwrap_or("");
+		line.matches(marker).count() >= 3 &&
+			line.replace(marker, "")
+				.trim_matches([' ', '\t', '\n'])
+				.is_empty()
+	}
+
+	/// Whether a bullet is followed by whitespace or the end of the line.
+	fn at_list_marker(&self) -> bool {
+		let line = self.iter.peek_line_ahead().unwrap_or("");
+		line.strip_prefix(['-', '+', '*']).is_some_and(|rest| {
+			rest.is_empty() || rest.starts_with([' ', '\t', '\n'])
+		})
+	}
+
 	fn lex_heading(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let hashes = self
 			.iter
@@ -417,92 +440,47 @@ impl<'a> Lexer<'a> {
 
 	fn lex_asterisk_underscore(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
+		let delimiter = self.iter.peek().unwrap_or("");
 		let asterunds = self
 			.iter
-			.consume_while_case_holds(&|c| c == "*" || c == "_" || c == "\t")
+			.consume_while_case_holds(&|c| c == delimiter)
 			.unwrap_or("");
-		if asterunds.len() == 1 && self.iter.next_if_eq(" ").is_some() {
-			let s = self
-				.iter
-				.consume_while_case_holds(&|c| c != "\n")
-				.unwrap_or("");
-			self.iter.next();
-			return Ok(Token::UnorderedListEntry(vec![Token::Plaintext(
-				s.to_string(),
-			)]));
+		let content_index = self.iter.get_index();
+		let s = self
+			.iter
+			.consume_inline_while(&|c| c != delimiter)
+			.unwrap_or("");
+		let mut trailing_astunds = 0;
+		while trailing_astunds < asterunds.len() &&
+			self.iter.next_if_eq(delimiter).is_some()
+		{
+			trailing_astunds += 1;
 		}
-		if asterunds.chars().all(|x| x == '*') && self.iter.peek() == Some("\n")
+		// Underscores inside of words are no emphasis
+		let intraword = delimiter == "_" &&
+			(self
+				.iter
+				.char_before(start_index)
+				.is_some_and(char::is_alphanumeric) ||
+				self.iter.peek().is_some_and(|c| {
+					c.chars().all(char::is_alphanumeric)
+				}));
+		if trailing_astunds < asterunds.len() ||
+			s.is_empty() ||
+			s.starts_with(char::is_whitespace) ||
+			s.ends_with(char::is_whitespace) ||
+			intraword
 		{
-			return Ok(Token::HorizontalRule);
+			self.iter.update_index_to(content_index);
+			return Err(ParseError { content: asterunds });
 		}
 		match asterunds.len() {
-			1 => {
-				let s = self
-					.iter
-					.consume_while_case_holds(&|c| c != "*" && c != "_")
-					.unwrap_or("");
-				if self.iter.peek() != Some("*") ||
-					self.iter.peek() != Some("_")
-				{
-					self.iter.next();
-					Ok(Token::Italic(s.to_string()))
-				} else {
-					Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					})
-				}
-			}
-			2 => {
-				let s = self
-					.iter
-					.consume_while_case_holds(&|c| c != "*" && c != "_")
-					.unwrap_or("");
-				let trailing_astunds = self
-					.iter
-					.consume_while_case_holds(&|c| c == "*" || c == "_")
-					.unwrap_or("");
-				if trailing_astunds.len() == 2 {
-					Ok(Token::Bold(s.to_string()))
-				} else {
-					Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					})
-				}
-			}
-			3 => {
-				let s = self
-					.iter
-					.consume_while_case_holds(&|c| c != "*" && c != "_")
-					.unwrap_or("");
-				let trailing_astunds = self
-					.iter
-					.consume_while_case_holds(&|c| c == "*" || c == "_")
-					.unwrap_or("");
-				if trailing_astunds.len() == 3 {
-					Ok(Token::BoldItalic(s.to_string()))
-				} else {
-					Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					})
-				}
-			}
+			1 => Ok(Token::Italic(s.to_string())),
+			2 => Ok(Token::Bold(s.to_string())),
+			3 => Ok(Token::BoldItalic(s.to_string())),
 			_ => {
-				if asterunds.replace("\t", "").chars().all(|x| x == '*') ||
-					asterunds.chars().all(|x| x == '_')
-				{
-					Ok(Token::HorizontalRule)
-				} else {
-					Err(ParseError { content: asterunds })
-				}
+				self.iter.update_index_to(content_index);
+				Err(ParseError { content: asterunds })
 			}
 		}
 	}
@@ -531,28 +509,7 @@ impl<'a> Lexer<'a> {
 	pub(crate) fn lex_plus_minus(
 		&mut self,
 	) -> Result<Token<'a>, ParseError<'a>> {
-		let start_index = self.iter.get_index();
-		let s = self
-			.iter
-			.consume_while_case_holds(&|c| c == "-" || c == "+")
-			.unwrap_or("");
-		match s.len() {
-			3..=usize::MAX => return Ok(Token::HorizontalRule),
-			2 => {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				})
-			}
-			1 => {}
-			_ => {
-				return Err(ParseError {
-					content: "string length error",
-				})
-			}
-		}
+		self.iter.next();
 		let line_index = self.iter.get_index();
 		let mut list_element_tokens = vec![Token::Plaintext(
 			self.iter
-- 
2.43.0


From 16a723b41b310130caaf5686ad9f7d091648fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:28 +0000
Subject: [PATCH 22/55] fix: links, strikethrough and autolinks do not run past
 their paragraph

---
 gfm/src/lexer.rs | 216 +++++++++++++++--------------------------------
 1 file changed, 70 insertions(+), 146 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 4635449..f5e6cca 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -187,7 +187,7 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				"[" => {
-					return match self.lex_links() {
+					return match self.lex_links(block) {
 						Ok(t) => Some(t),
 						Err(e) => {
 							warn!("Error while lexing link: {}", e);
@@ -205,7 +205,7 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				"<" => {
-					return match self.lex_side_carrot() {
+					return match self.lex_side_carrot(block) {
 						Ok(t) => Some(t),
 						Err(e) => {
 							warn!("Error while lexing side carrot: {}", e);
@@ -559,47 +559,28 @@ impl<'a> Lexer<'a> {
 	}
 
 	fn lex_tilde(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		let start_index = self.iter.get_index();
-		let lead_tildes =
-			match self.iter.consume_while_case_holds(&|s| s == "~") {
-				Some(s) => s,
-				None => {
-					return Err(ParseError {
-						content: "Failure to parse ~",
-					})
-				}
-			};
-		match lead_tildes.len() {
-			1 => {
-				return Err(ParseError {
-					content: lead_tildes,
-				})
-			}
-			2 => {
-				let line = self
-					.iter
-					.consume_while_case_holds(&|s| s != "~")
-					.unwrap_or("");
-				let tail_tildes = self
-					.iter
-					.consume_while_case_holds(&|s| s == "~")
-					.unwrap_or("");
-				if lead_tildes.len() != tail_tildes.len() {
-					return Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					});
-				}
+		let lead_tildes = self
+			.iter
+			.consume_while_case_holds(&|s| s == "~")
+			.unwrap_or("");
+		let content_index = self.iter.get_index();
+		if lead_tildes.len() == 2 {
+			let line = self
+				.iter
+				.consume_inline_while(&|s| s != "~")
+				.unwrap_or("");
+			let tail_tildes = self
+				.iter
+				.consume_while_case_holds(&|s| s == "~")
+				.unwrap_or("");
+			if lead_tildes.len() == tail_tildes.len() && !line.is_empty() {
 				return Ok(Token::Strikethrough(line.to_string()));
 			}
-			_ => {
-				return Err(ParseError {
-					content: lead_tildes,
-				})
-			}
 		}
+		self.iter.update_index_to(content_index);
+		Err(ParseError {
+			content: lead_tildes,
+		})
 	}
 
 	fn lex_backticks(
@@ -667,25 +648,28 @@ impl<'a> Lexer<'a> {
 		}
 	}
 
-	pub(crate) fn lex_links(&mut self) -> Result<Token<'a>, ParseError<'a>> {
+	pub(crate) fn lex_links(
+		&mut self,
+		block: bool,
+	) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
 		if self.iter.next_if_eq("[") != Some(&"[") {
 			return Err(ParseError { content: "" });
 		}
+		let title_index = self.iter.get_index();
 		let title = self
 			.iter
-			.consume_while_case_holds(&|c| c != "]")
+			.consume_inline_while(&|c| c != "]")
 			.unwrap_or("");
 		if self.iter.next_if_eq("]") != Some(&"]") {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
+			self.iter.update_index_to(title_index);
+			return Err(ParseError { content: "[" });
 		}
 		// Parse footnotes big and small
-		if title.starts_with("^") && self.iter.next_if_eq(":") == Some(&":") {
+		if block &&
+			title.starts_with("^") &&
+			self.iter.next_if_eq(":") == Some(&":")
+		{
 			let ref_id = title.strip_prefix("^").unwrap_or("");
 			let note_index = self.iter.get_index();
 			loop {
@@ -737,6 +721,9 @@ impl<'a> Lexer<'a> {
 			));
 		}
 		if self.iter.next_if_eq("(") != Some(&"(") {
+			if !title.starts_with("^") {
+				self.iter.update_index_to(title_index);
+			}
 			return Err(ParseError {
 				content: self
 					.iter
@@ -746,15 +733,11 @@ impl<'a> Lexer<'a> {
 		}
 		let link = self
 			.iter
-			.consume_while_case_holds(&|c| c != ")" && c != " ")
+			.consume_while_case_holds(&|c| c != ")" && c != " " && c != "\n")
 			.unwrap_or("");
 		if self.iter.peek() != Some(&")") && self.iter.peek() != Some(&" ") {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
+			self.iter.update_index_to(title_index);
+			return Err(ParseError { content: "[" });
 		}
 		if self.iter.next_if_eq(")") == Some(&")") {
 			match validate_link(link) {
@@ -762,36 +745,23 @@ impl<'a> Lexer<'a> {
 					return Ok(Token::Link(vl, Some(title.to_string()), None))
 				}
 				Err(_se) => {
-					return Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					})
+					self.iter.update_index_to(title_index);
+					return Err(ParseError { content: "[" });
 				}
 			}
 		}
 		if self.iter.peek() == Some(&" ") {
-			let hover = self
-				.iter
-				.consume_while_case_holds(&|c| c != ")")
-				.unwrap_or("")
-				.trim();
-			let quoted = hover
-				.strip_prefix('"')
-				.and_then(|h| h.strip_suffix('"'))
-				.or_else(|| {
-					hover.strip_prefix('\'').and_then(|h| h.strip_suffix('\''))
-				});
-			let (Some(hover), Some(_)) = (quoted, self.iter.next_if_eq(")"))
-			else {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				});
-			};
+			self.iter.consume_while_case_holds(&|c| c == " ");
+			let quote = self.iter.next().unwrap_or("");
+			let hover =
+				self.iter.consume_inline_while(&|c| c != quote).unwrap_or("");
+			let closed = matches!(quote, "\"" | "'") &&
+				self.iter.next_if_eq(quote).is_some();
+			self.iter.consume_while_case_holds(&|c| c == " ");
+			if !closed || self.iter.next_if_eq(")").is_none() {
+				self.iter.update_index_to(title_index);
+				return Err(ParseError { content: "[" });
+			}
 			match validate_link(link) {
 				Ok(vl) => {
 					return Ok(Token::Link(
@@ -801,12 +771,8 @@ impl<'a> Lexer<'a> {
 					))
 				}
 				Err(_se) => {
-					return Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					})
+					self.iter.update_index_to(title_index);
+					return Err(ParseError { content: "[" });
 				}
 			}
 		}
@@ -818,31 +784,20 @@ impl<'a> Lexer<'a> {
 		if self.iter.next_if_eq("!") != Some(&"!") {
 			return Err(ParseError { content: "" });
 		}
-		let link_result = self.lex_links();
+		let link_result = self.lex_links(false);
 		match link_result {
-			Err(_e) => {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				})
-			}
 			Ok(Token::Link(link, title, _)) => {
 				return Ok(Token::Image(link.to_string(), title))
 			}
 			_ => {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				})
+				self.iter.update_index_to(start_index + 1);
+				return Err(ParseError { content: "!" });
 			}
 		}
 	}
 	pub(crate) fn lex_side_carrot(
 		&mut self,
+		block: bool,
 	) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
 		if self.iter.next_if_eq("<") != Some("<") {
@@ -851,56 +806,29 @@ impl<'a> Lexer<'a> {
 
 		let s = self
 			.iter
-			.consume_while_case_holds(&|c| c != ">")
+			.consume_while_case_holds(&|c| {
+				c != ">" && !c.chars().all(char::is_whitespace)
+			})
 			.unwrap_or("");
 		match (s, self.iter.next_if_eq(">")) {
-			("details", Some(">")) => {
+			("details", Some(">")) if block => {
 				self.iter.next_if_eq(&"\r");
-				if !self.iter.next_if_eq(&"\n").is_some() {
-					return Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					});
+				if self.iter.next_if_eq(&"\n").is_some() {
+					return self.parse_details(start_index);
 				}
-				return self.parse_details(start_index);
 			}
 			(_, Some(">")) if s.len() >= 1 => {
-				if s.contains(char::is_whitespace) {
-					return Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					});
-				}
 				match validate_link(s) {
 					Ok(vl) if vl.scheme.is_some() => {
 						return Ok(Token::Link(vl, None, None))
 					} // Auto links require a scheme
-					_ => {
-						return Err(ParseError {
-							content: self
-								.iter
-								.get_substring_from(start_index)
-								.unwrap_or(""),
-						})
-					}
+					_ => {}
 				}
 			}
-			(_, Some(">")) if s.len() == 0 => {
-				return Err(ParseError { content: "<>" })
-			}
-			(_, _) => {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				})
-			}
+			(_, _) => {}
 		}
+		self.iter.update_index_to(start_index + 1);
+		Err(ParseError { content: "<" })
 	}
 
 	fn parse_details(
@@ -916,12 +844,8 @@ impl<'a> Lexer<'a> {
 			!summary_line.ends_with("</summary>")) &&
 			!summary_line.len() >= 20
 		{
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
+			self.iter.update_index_to(start_index + 1);
+			return Err(ParseError { content: "<" });
 		}
 		summary_line = summary_line
 			.strip_prefix("<summary>")
-- 
2.43.0


From 2a08eaaabf7aaf4f6b7c6a59ba0241871290596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:20 +0000
Subject: [PATCH 23/55] fix: images stay inside the paragraph they are written
 in

---
 gfm/src/lib.rs   | 12 ++++++------
 gfm/src/token.rs |  1 +
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 232c0e2..05fad5f 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -247,27 +247,27 @@ impl Parser {
 				}
 				Token::Image(l, t) => match (l, t) {
 					(l, None) if l.trim() == "" => {
-						html.push_str("<p><img src=\"data:,\"></p>")
+						html.push_str("<img src=\"data:,\">")
 					}
 					(l, Some(t)) if l.trim() == "" => html.push_str(
 						format!(
-							"<p><img src=\"data:,\" alt=\"{text}\"></p>",
+							"<img src=\"data:,\" alt=\"{text}\">",
 							text = Self::sanitize_display_text(t)
 						)
 						.as_str(),
 					),
 					(l, None) => html.push_str(
 						format!(
-							"<p><img src=\"{link}\"> \
-							 referrerpolicy=\"no-referrer\"></p>",
+							"<img src=\"{link}\" \
+							 referrerpolicy=\"no-referrer\">",
 							link = l
 						)
 						.as_str(),
 					),
 					(l, Some(t)) => html.push_str(
 						format!(
-							"<p><img src=\"{link}\" alt=\"{text}\" \
-							 referrerpolicy=\"no-referrer\"></p>",
+							"<img src=\"{link}\" alt=\"{text}\" \
+							 referrerpolicy=\"no-referrer\">",
 							link = l,
 							text = Self::sanitize_display_text(t)
 						)
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 1e43e83..601ca31 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -96,6 +96,7 @@ impl Token<'_> {
 				Token::BoldItalic(_) |
 				Token::Strikethrough(_) |
 				Token::Link(_, _, _) |
+				Token::Image(_, _) |
 				Token::CodeSpan(_) |
 				Token::LineBreak
 		)
-- 
2.43.0


From 31123e60febb864b222c5105382b3d4e9815850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:42 +0000
Subject: [PATCH 24/55] fix: list items keep their continuation lines, nested
 lists, numbers and inline markup

---
 gfm/src/lexer.rs | 139 ++++++++++++++++++++++++-----------------------
 gfm/src/lib.rs   |  41 +++++---------
 gfm/src/token.rs |   4 +-
 3 files changed, 87 insertions(+), 97 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index f5e6cca..d45dfc8 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -36,6 +36,15 @@ impl fmt::Display for ParseError<'_> {
 	}
 }
 
+/// Whether the text after these tokens continues a paragraph.
+fn continues_paragraph(tokens: &[Token]) -> bool {
+	tokens
+		.iter()
+		.rev()
+		.find(|t| !t.is_blank())
+		.map_or(false, |t| t.is_inline())
+}
+
 /// The number of columns that the leading spaces and tabs of a line take up.
 fn indent_width(line: &str) -> usize {
 	line.chars()
@@ -123,7 +132,10 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				"1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" | "0"
-					if block =>
+					if block &&
+						(!continues_paragraph(tokens) ||
+							self.iter.get_substring_ahead(2) ==
+								Some("1.")) =>
 				{
 					return match self.lex_numbers() {
 						Ok(t) => Some(t),
@@ -353,13 +365,8 @@ impl<'a> Lexer<'a> {
 			return Ok(Token::LineBreak);
 		}
 		// Indented code cannot interrupt a paragraph
-		let continues_paragraph = tokens
-			.iter()
-			.rev()
-			.find(|t| !t.is_blank())
-			.map_or(false, |t| t.is_inline());
 		if !block ||
-			continues_paragraph ||
+			continues_paragraph(tokens) ||
 			matches!(self.iter.peek(), None | Some("\n")) ||
 			indent_width(whitespace) < 4
 		{
@@ -390,27 +397,57 @@ impl<'a> Lexer<'a> {
 	}
 
 	fn lex_numbers(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		let start_index = self.iter.get_index();
-		let c = self.iter.next().unwrap();
+		let indent = self.iter.indent();
+		let digits = self
+			.iter
+			.consume_while_case_holds(&|c| {
+				c.chars().all(|c| c.is_ascii_digit())
+			})
+			.unwrap_or("");
+		let content_index = self.iter.get_index();
 		match self.iter.next_if_eq(".") {
-			Some(".") => {
-				if self.iter.next_if_eq(" ") != Some(" ") {
-					return Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					});
-				}
+			Some(".")
+				if digits.len() <= 9 &&
+					matches!(
+						self.iter.peek(),
+						None | Some(" ") | Some("\t") | Some("\n")
+					) =>
+			{
+				Ok(Token::OrderedListEntry(
+					digits.parse().unwrap_or(1),
+					self.lex_list_content(indent + digits.len() + 1),
+				))
+			}
+			_ => {
+				self.iter.update_index_to(content_index);
+				Err(ParseError { content: digits })
+			}
+		}
+	}
 
-				let s = self
-					.iter
-					.consume_while_case_holds(&|c| c != "\n")
-					.unwrap_or("");
-				Ok(Token::OrderedListEntry(s.to_string()))
+	/// Consumes the rest of a list item: the text after a marker that ends at
+	/// column `start`, and all following lines that are indented at least as
+	/// far as that text.
+	fn lex_list_content(&mut self, start: usize) -> String {
+		let line = self.iter.consume_line_ahead().unwrap_or("");
+		let mut content = strip_columns(line, start, 1);
+		let mut blank_lines = String::new();
+		let mut end_index = self.iter.get_index();
+		while let Some(line) = self.iter.consume_line_ahead() {
+			if line.trim_matches([' ', '\t', '\n']).is_empty() {
+				blank_lines.push('\n');
+				continue;
+			}
+			if indent_width(line) <= start {
+				break;
 			}
-			_ => Err(ParseError { content: c }),
+			content.push_str(&blank_lines);
+			content.push_str(&strip_columns(line, 0, start + 1));
+			blank_lines.clear();
+			end_index = self.iter.get_index();
 		}
+		self.iter.update_index_to(end_index);
+		content
 	}
 
 	fn lex_escaped_character(&mut self) -> Result<Token<'a>, ParseError<'a>> {
@@ -509,52 +546,18 @@ impl<'a> Lexer<'a> {
 	pub(crate) fn lex_plus_minus(
 		&mut self,
 	) -> Result<Token<'a>, ParseError<'a>> {
+		let indent = self.iter.indent();
 		self.iter.next();
-		let line_index = self.iter.get_index();
-		let mut list_element_tokens = vec![Token::Plaintext(
-			self.iter
-				.consume_while_case_holds(&|c| c != "\n")
-				.unwrap_or("")
-				.to_string(),
-		)];
-		while self.iter.get_substring_ahead(3) == Some("\n\n\t") {
-			self.iter.next();
-			self.iter.next();
-			self.iter.next();
-			list_element_tokens.push(Token::Plaintext(
-				self.iter
-					.consume_while_case_holds(&|c| c != "\n")
-					.unwrap_or("")
-					.to_string(),
-			));
-		}
-		let line = self.iter.get_substring_from(line_index).unwrap_or("");
-		self.iter.next_if_eq("\n");
-		if line.starts_with(" [ ] ") {
-			Ok(Token::TaskListItem(
-				TaskBox::Unchecked,
-				line[5..].to_string(),
-			))
-		} else if line.starts_with(" [x] ") || line.starts_with(" [X] ") {
-			return Ok(Token::TaskListItem(
-				TaskBox::Checked,
-				line[5..].to_string(),
-			));
+		let content = self.lex_list_content(indent + 1);
+		if let Some(text) = content.strip_prefix("[ ] ") {
+			Ok(Token::TaskListItem(TaskBox::Unchecked, text.to_string()))
+		} else if let Some(text) = content
+			.strip_prefix("[x] ")
+			.or_else(|| content.strip_prefix("[X] "))
+		{
+			Ok(Token::TaskListItem(TaskBox::Checked, text.to_string()))
 		} else {
-			// List entries may contain other lists
-			match self.iter.peek_line_ahead() {
-				Some(s) if s.starts_with("  ") => {
-					let line = self.iter.consume_line_ahead().unwrap_or("");
-					list_element_tokens.append(&mut Parser::lex(line, &[]))
-				}
-				Some(s) if s.starts_with("\t") => {
-					let line = self.iter.consume_line_ahead().unwrap_or("");
-					list_element_tokens
-						.append(&mut Parser::lex(&line[1..], &[]))
-				}
-				_ => {}
-			}
-			return Ok(Token::UnorderedListEntry(list_element_tokens));
+			Ok(Token::UnorderedListEntry(vec![Token::Plaintext(content)]))
 		}
 	}
 
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 05fad5f..6b57d25 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -77,7 +77,7 @@ impl Parser {
 				if in_ordered_list &&
 					!matches!(
 						token,
-						Token::OrderedListEntry(_) | Token::Newline
+						Token::OrderedListEntry(_, _) | Token::Newline
 					) {
 					in_ordered_list = false;
 					html.push_str("</ol>\n");
@@ -196,17 +196,19 @@ impl Parser {
 						),
 					};
 				}
-				Token::OrderedListEntry(t) => {
+				Token::OrderedListEntry(number, t) => {
 					if !in_ordered_list {
 						in_ordered_list = true;
-						html.push_str("<ol>\n".to_string().as_str())
+						match number {
+							1 => html.push_str("<ol>\n"),
+							_ => html.push_str(
+								format!("<ol start=\"{}\">\n", number)
+									.as_str(),
+							),
+						}
 					}
 					html.push_str(
-						format!(
-							"<li>\n{}</li>\n",
-							Self::sanitize_display_text(t)
-						)
-						.as_str(),
+						format!("<li>\n{}</li>\n", Self::render(t)).as_str(),
 					)
 				}
 				Token::UnorderedListEntry(toks) => {
@@ -221,24 +223,8 @@ impl Parser {
 					}
 					for token in toks.iter() {
 						match token {
-							Token::Plaintext(text)
-								if text.starts_with("\t\t") =>
-							{
-								html.push_str(
-									&Self::render(
-										text[1..].trim_start_matches(" "),
-									)
-									.replace("<pre><code>", "<pre><code>  "),
-								);
-							}
 							Token::Plaintext(text) => {
-								let text =
-									&Self::render(text.trim_start_matches(" "))
-										.replace(
-											"<pre><code>",
-											"<pre><code>  ",
-										);
-								html.push_str(text);
+								html.push_str(&Self::render(text));
 							}
 							_ => {}
 						}
@@ -380,6 +366,7 @@ impl Parser {
 						in_task_list = true;
 						html.push_str("<ul class=\"contains-task-list\">")
 					}
+					let t = Self::render(t);
 					match c {
 						TaskBox::Checked => html.push_str(
 							format!(
@@ -387,7 +374,7 @@ impl Parser {
 								 type=\"checkbox\" \
 								 class=\"task-list-item-checkbox\" \
 								 checked=\"\">{}</li>",
-								Self::sanitize_display_text(t)
+								t
 							)
 							.as_str(),
 						),
@@ -396,7 +383,7 @@ impl Parser {
 								"<li class=\"task-list-item\"><input \
 								 type=\"checkbox\" \
 								 class=\"task-list-item-checkbox\">{}</li>",
-								Self::sanitize_display_text(t)
+								t
 							)
 							.as_str(),
 						),
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 601ca31..5654352 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -17,8 +17,8 @@ pub enum Token<'a> {
 	Header(usize, String, Option<String>),
 	/// str: Text for list entry
 	UnorderedListEntry(Vec<Token<'a>>),
-	/// str: Text for list entry
-	OrderedListEntry(String),
+	/// u32: Number of the list entry. str: Text for list entry
+	OrderedListEntry(u32, String),
 	/// str: Text to be italicized
 	Italic(String),
 	/// str: Text to be bolded
-- 
2.43.0


From a22f61c249261c2681fb217ab211ad5d589c0f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:29 +0000
Subject: [PATCH 25/55] fix: block quotes keep their text, line structure and
 depth

---
 gfm/src/lexer.rs | 36 ++++++++++++++++++++----------------
 gfm/src/lib.rs   | 11 +++--------
 2 files changed, 23 insertions(+), 24 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index d45dfc8..6196cb4 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -523,24 +523,28 @@ impl<'a> Lexer<'a> {
 	}
 
 	pub fn lex_blockquotes(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		let right_arrows = self
-			.iter
-			.consume_while_case_holds(&|c| c == ">")
-			.unwrap_or("");
-		match self.iter.peek() {
-			Some(" ") | Some("\t") => {}
-			_ => {
-				return Err(ParseError {
-					content: right_arrows,
-				})
+		let mut text = String::new();
+		let mut level = 0;
+		while let Some(line) = self.iter.peek_line_ahead() {
+			let arrows_index = line.find(|c| c != ' ').unwrap_or(0);
+			let rest = line[arrows_index..].trim_start_matches('>');
+			let arrows = line.len() - arrows_index - rest.len();
+			// A line with another number of arrows is a quote of its own
+			if arrows == 0 ||
+				indent_width(line) >= 4 ||
+				(level != 0 && arrows != level)
+			{
+				break;
 			}
+			level = arrows;
+			text.push_str(&strip_columns(rest, arrows_index + arrows, 1));
+			self.iter.consume_line_ahead();
 		}
-		let s = self
-			.iter
-			.consume_while_case_holds(&|c| c != "\n")
-			.unwrap_or("");
-		self.iter.next_if_eq("\n");
-		Ok(Token::BlockQuote(right_arrows.len() as u8, s.to_string()))
+		// A blank line after the quote ends it, so leave the newline
+		if text.ends_with('\n') {
+			self.iter.update_index_to(self.iter.get_index() - 1);
+		}
+		Ok(Token::BlockQuote(level.min(u8::MAX.into()) as u8, text))
 	}
 
 	pub(crate) fn lex_plus_minus(
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 6b57d25..186df88 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -107,7 +107,7 @@ impl Parser {
 					in_paragraph = false;
 					html.push_str("</p>\n");
 				}
-				if !matches!(token, Token::BlockQuote(_, _) | Token::Newline) {
+				if !matches!(token, Token::BlockQuote(_, _)) {
 					for _i in 0..quote_level {
 						html.push_str("</blockquote>\n");
 					}
@@ -352,13 +352,8 @@ impl Parser {
 						}
 						_ => {}
 					}
-					if !t.is_empty() {
-						html.push_str(
-							&Self::render(&Self::sanitize_display_text(
-								t.trim_start_matches(" "),
-							))
-							.replace("\t", "  "),
-						);
+					if !t.trim().is_empty() {
+						html.push_str(&Self::render(t));
 					}
 				}
 				Token::TaskListItem(c, t) => {
-- 
2.43.0


From ec1cb6d4585ad5db2fe7eed84452f61d0b9e90da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:03 +0000
Subject: [PATCH 26/55] fix: tables keep empty cells and their inline markup,
 and need a delimiter row

---
 gfm/src/lexer.rs | 69 ++++++++++++++++++++++++++----------------------
 gfm/src/lib.rs   | 69 +++++++++---------------------------------------
 gfm/src/token.rs | 16 ++---------
 3 files changed, 51 insertions(+), 103 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 6196cb4..01df684 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -36,6 +36,31 @@ impl fmt::Display for ParseError<'_> {
 	}
 }
 
+/// Splits the rest of a table row after its leading pipe into its cells.
+fn split_cells(row: &str) -> Vec<&str> {
+	let mut cells = Vec::new();
+	let mut start = 0;
+	let mut escaped = false;
+	for (i, c) in row.char_indices() {
+		if c == '|' && !escaped {
+			cells.push(row[start..i].trim());
+			start = i + 1;
+		}
+		escaped = c == '\\' && !escaped;
+	}
+	if !row[start..].trim().is_empty() || cells.is_empty() {
+		cells.push(row[start..].trim());
+	}
+	cells
+}
+
+/// Whether this is a cell of the row below the header, such as `:---:`.
+fn is_delimiter_cell(cell: &str) -> bool {
+	let dashes = cell.strip_prefix(':').unwrap_or(cell);
+	let dashes = dashes.strip_suffix(':').unwrap_or(dashes);
+	!dashes.is_empty() && dashes.chars().all(|c| c == '-')
+}
+
 /// Whether the text after these tokens continues a paragraph.
 fn continues_paragraph(tokens: &[Token]) -> bool {
 	tokens
@@ -895,37 +920,24 @@ impl<'a> Lexer<'a> {
 			);
 			self.iter.next();
 		}
-		if lines.len() < 3 {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
-		}
-		if !lines
-			.iter()
-			.all(|l| l.matches("|").count() == lines[0].matches("|").count())
+		let mut lines: Vec<_> = lines.into_iter().map(split_cells).collect();
+		if lines.len() < 3 ||
+			!lines.iter().all(|l| l.len() == lines[0].len()) ||
+			!lines[1].iter().all(|x| is_delimiter_cell(x))
 		{
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
+			self.iter.update_index_to(start_index + 1);
+			return Err(ParseError { content: "|" });
 		}
 		let headings: Vec<_> = lines
 			.remove(0)
-			.split("|")
-			.filter(|&x| x != "")
-			.map(|x| x.trim().to_string())
+			.into_iter()
+			.map(|x| Parser::lex(x, &['|']))
 			.collect();
 		let alignments: Vec<_> = lines
 			.remove(0)
-			.split("|")
-			.filter(|&x| x != "")
+			.into_iter()
 			.map(|x| {
-				match (x.trim().starts_with(":"), x.trim().ends_with(":")) {
+				match (x.starts_with(":"), x.ends_with(":")) {
 					(true, false) => Alignment::Left,
 					(true, true) => Alignment::Center,
 					(false, true) => Alignment::Right,
@@ -934,17 +946,10 @@ impl<'a> Lexer<'a> {
 			})
 			.collect();
 		let mut rows = Vec::new();
-		for l in lines.into_iter() {
-			let elements: Vec<&str> = l
-				.split("|")
-				.filter(|&x| x != "")
-				.map(|x| x.trim())
-				.collect();
+		for elements in lines.into_iter() {
 			let mut r = Vec::new();
 			for e in elements.into_iter() {
-				let mut inner_tokens = Parser::lex(&e, &['|']);
-				inner_tokens.retain(|token| token.is_usable_in_table());
-				r.push(inner_tokens);
+				r.push(Parser::lex(&e, &['|']));
 			}
 			rows.push(
 				alignments.clone().into_iter().zip(r.into_iter()).collect(),
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 186df88..70f0aff 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -49,6 +49,16 @@ impl Parser {
 		tokens
 	}
 
+	/// Renders inline content without the paragraph around it.
+	fn parse_inline(tokens: &[Token<'_>]) -> String {
+		let html = Self::parse(tokens);
+		let html = html.trim_end();
+		html.strip_prefix("<p>")
+			.and_then(|h| h.strip_suffix("</p>"))
+			.unwrap_or(html)
+			.to_string()
+	}
+
 	fn parse(tokens: &[Token<'_>]) -> String {
 		debug!("Parsing {} tokens", tokens.len());
 		let mut html = String::with_capacity(tokens.len() * 100);
@@ -385,9 +395,6 @@ impl Parser {
 					}
 				}
 				Token::Table(headings, rows) => {
-					if headings.len() != rows[0].len() {
-						continue;
-					}
 					html.push_str(
 						"<table class=\"table \
 						 table-bordered\">\n\t<thead>\n\t<tr>\n",
@@ -397,7 +404,7 @@ impl Parser {
 							format!(
 								"\t\t<th style=\"text-align: \
 								 {align}\">{heading}</th>",
-								heading = Self::sanitize_display_text(&h.1),
+								heading = Self::parse_inline(&h.1),
 								align = h.0
 							)
 							.as_str(),
@@ -407,59 +414,7 @@ impl Parser {
 					for row in rows.iter() {
 						html.push_str("\n\t<tr>");
 						for elem in row.iter() {
-							let mut row_string = String::new();
-							for token in elem.1.iter() {
-								match token {
-									Token::Plaintext(s) => row_string.push_str(
-										&Self::sanitize_display_text(&s),
-									),
-									Token::Italic(t) => row_string.push_str(
-										format!(
-											"<em>{}</em>",
-											Self::sanitize_display_text(t)
-										)
-										.as_str(),
-									),
-									Token::Bold(t) => row_string.push_str(
-										format!(
-											"<strong>{}</strong>",
-											Self::sanitize_display_text(t)
-										)
-										.as_str(),
-									),
-									Token::BoldItalic(t) => row_string
-										.push_str(
-											format!(
-												"<strong><em>{}</em></strong>",
-												Self::sanitize_display_text(t)
-											)
-											.as_str(),
-										),
-									Token::LineBreak => {
-										row_string.push_str("<br>")
-									}
-									Token::HorizontalRule => {
-										row_string.push_str("<hr />")
-									}
-									Token::Strikethrough(t) => row_string
-										.push_str(
-											format!(
-												"<strike>{}</strike>",
-												Self::sanitize_display_text(t)
-											)
-											.as_str(),
-										),
-									Token::CodeSpan(t) => row_string.push_str(
-										format!(
-											"<code>{}</code>",
-											Self::escape_text(t)
-										)
-										.as_str(),
-									),
-									_ => row_string
-										.push_str(&Self::parse(&elem.1)),
-								}
-							}
+							let row_string = Self::parse_inline(&elem.1);
 							html.push_str(
 								format!(
 									"\n\t\t<td style=\"text-align: \
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 5654352..911d570 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -54,10 +54,10 @@ pub enum Token<'a> {
 	/// str: Summary. Vec<Token>: Tokens to be rendered in the collapsable
 	/// section
 	Detail(String, Vec<Token<'a>>),
-	/// Tuple of Vec<(Alignment, str)>: Which defines the table header and
+	/// Tuple of Vec<(Alignment, Vec<Token>)>: Which defines the table header and
 	/// Vec<Vec<(Alignment, Vec<Token>)>> which defines the rows
 	Table(
-		Vec<(Alignment, String)>,
+		Vec<(Alignment, Vec<Token<'a>>)>,
 		Vec<Vec<(Alignment, Vec<Token<'a>>)>>,
 	),
 	/// TaskBox: Boolean state of the checked or unchecked box. str: List item
@@ -101,18 +101,6 @@ impl Token<'_> {
 				Token::LineBreak
 		)
 	}
-
-	pub(crate) fn is_usable_in_table(&self) -> bool {
-		match self {
-			Token::CodeSpan(_) => true,
-			Token::Link(_, _, _) => true,
-			Token::Bold(_) => true,
-			Token::Italic(_) => true,
-			Token::BoldItalic(_) => true,
-			Token::Plaintext(_) => true,
-			_ => false,
-		}
-	}
 }
 
 #[derive(Debug, PartialEq, Eq)]
-- 
2.43.0


From eba8840f0a0133068c8880bb3d6388fcb26b550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:30 +0000
Subject: [PATCH 27/55] fix: carriage returns end a line like newlines do

---
 gfm/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 70f0aff..ae63e11 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -29,7 +29,8 @@ impl Parser {
 	/// ```
 	pub fn render(source: &str) -> String {
 		debug!("Rendering source of length: {}", source.len());
-		Self::parse(&Self::lex(source, &[]))
+		let source = source.replace("\r\n", "\n").replace('\r', "\n");
+		Self::parse(&Self::lex(&source, &[]))
 	}
 
 	pub(crate) fn render_ignore(source: &str, ignore: &[char]) -> String {
-- 
2.43.0


From c4769bb3f685640a52f98fcdfbeadb5979ebbd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:24 +0000
Subject: [PATCH 28/55] fix: deeply nested documents no longer overflow the
 stack

---
 gfm/src/lexer.rs | 11 ++++-------
 gfm/src/lib.rs   | 39 +++++++++++++++++++++++++++++----------
 gfm/src/token.rs |  4 ++--
 3 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 01df684..3903e5e 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -900,13 +900,10 @@ impl<'a> Lexer<'a> {
 				closes = remaining_text.matches("</details>").count();
 			}
 		}
-		let inner_tokens = Parser::lex(
-			remaining_text
-				.strip_suffix("</details>")
-				.unwrap_or(remaining_text),
-			&[],
-		);
-		Ok(Token::Detail(summary_line.to_string(), inner_tokens))
+		let body = remaining_text
+			.strip_suffix("</details>")
+			.unwrap_or(remaining_text);
+		Ok(Token::Detail(summary_line.to_string(), body.to_string()))
 	}
 
 	pub(crate) fn lex_pipes(&mut self) -> Result<Token<'a>, ParseError<'a>> {
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index ae63e11..5ebfb5e 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -8,6 +8,10 @@ use token::Token;
 
 use crate::token::TaskBox;
 
+/// How deep lists, quotes and details sections may be nested. Whatever is
+/// nested deeper is shown as text, so that no document exhausts the stack.
+const MAX_NESTING: usize = 100;
+
 pub struct Parser {}
 
 impl Parser {
@@ -30,11 +34,19 @@ impl Parser {
 	pub fn render(source: &str) -> String {
 		debug!("Rendering source of length: {}", source.len());
 		let source = source.replace("\r\n", "\n").replace('\r', "\n");
-		Self::parse(&Self::lex(&source, &[]))
+		Self::render_nested(&source, 0)
+	}
+
+	/// Renders the content of a block that is `depth` levels deep.
+	fn render_nested(source: &str, depth: usize) -> String {
+		if depth > MAX_NESTING {
+			return format!("<p>{}</p>\n", Self::sanitize_display_text(source));
+		}
+		Self::parse(&Self::lex(source, &[]), depth)
 	}
 
 	pub(crate) fn render_ignore(source: &str, ignore: &[char]) -> String {
-		Self::parse(&Self::lex(source, ignore))
+		Self::parse(&Self::lex(source, ignore), 0)
 	}
 
 	pub(crate) fn lex<'a>(source: &'a str, ignore: &[char]) -> Vec<Token<'a>> {
@@ -52,7 +64,7 @@ impl Parser {
 
 	/// Renders inline content without the paragraph around it.
 	fn parse_inline(tokens: &[Token<'_>]) -> String {
-		let html = Self::parse(tokens);
+		let html = Self::parse(tokens, 0);
 		let html = html.trim_end();
 		html.strip_prefix("<p>")
 			.and_then(|h| h.strip_suffix("</p>"))
@@ -60,7 +72,7 @@ impl Parser {
 			.to_string()
 	}
 
-	fn parse(tokens: &[Token<'_>]) -> String {
+	fn parse(tokens: &[Token<'_>], depth: usize) -> String {
 		debug!("Parsing {} tokens", tokens.len());
 		let mut html = String::with_capacity(tokens.len() * 100);
 		let mut quote_level = 0;
@@ -219,7 +231,11 @@ impl Parser {
 						}
 					}
 					html.push_str(
-						format!("<li>\n{}</li>\n", Self::render(t)).as_str(),
+						format!(
+							"<li>\n{}</li>\n",
+							Self::render_nested(t, depth + 1)
+						)
+						.as_str(),
 					)
 				}
 				Token::UnorderedListEntry(toks) => {
@@ -235,7 +251,10 @@ impl Parser {
 					for token in toks.iter() {
 						match token {
 							Token::Plaintext(text) => {
-								html.push_str(&Self::render(text));
+								html.push_str(&Self::render_nested(
+									text,
+									depth + 1,
+								));
 							}
 							_ => {}
 						}
@@ -306,12 +325,12 @@ impl Parser {
 						.as_str(),
 					),
 				},
-				Token::Detail(summary, inner_tokens) => {
+				Token::Detail(summary, body) => {
 					if in_paragraph {
 						html.push_str("</p>\n");
 						in_paragraph = false;
 					}
-					let inner_html = Self::parse(inner_tokens);
+					let inner_html = Self::render_nested(body, depth + 1);
 					html.push_str(
 						format!(
 							"<details>\n<summary>{sum}</summary>\n{in_html}\n\
@@ -364,7 +383,7 @@ impl Parser {
 						_ => {}
 					}
 					if !t.trim().is_empty() {
-						html.push_str(&Self::render(t));
+						html.push_str(&Self::render_nested(t, depth + 1));
 					}
 				}
 				Token::TaskListItem(c, t) => {
@@ -372,7 +391,7 @@ impl Parser {
 						in_task_list = true;
 						html.push_str("<ul class=\"contains-task-list\">")
 					}
-					let t = Self::render(t);
+					let t = Self::render_nested(t, depth + 1);
 					match c {
 						TaskBox::Checked => html.push_str(
 							format!(
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 911d570..58ee612 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -51,9 +51,9 @@ pub enum Token<'a> {
 	/// str: Link. First Option<str>: Title for link. Second Option<str>: Hover
 	/// text
 	Link(ValidURL<'a>, Option<String>, Option<String>),
-	/// str: Summary. Vec<Token>: Tokens to be rendered in the collapsable
+	/// First str: Summary. Second str: Text to be rendered in the collapsable
 	/// section
-	Detail(String, Vec<Token<'a>>),
+	Detail(String, String),
 	/// Tuple of Vec<(Alignment, Vec<Token>)>: Which defines the table header and
 	/// Vec<Vec<(Alignment, Vec<Token>)>> which defines the rows
 	Table(
-- 
2.43.0


From 03d27a91667ed789a673ccbf2232b6c195d69399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:46 +0000
Subject: [PATCH 29/55] fix: an unclosed bracket no longer hides a later link

---
 gfm/src/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 3903e5e..d6a6ce6 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -691,7 +691,7 @@ impl<'a> Lexer<'a> {
 		let title_index = self.iter.get_index();
 		let title = self
 			.iter
-			.consume_inline_while(&|c| c != "]")
+			.consume_inline_while(&|c| c != "]" && c != "[")
 			.unwrap_or("");
 		if self.iter.next_if_eq("]") != Some(&"]") {
 			self.iter.update_index_to(title_index);
@@ -839,7 +839,7 @@ impl<'a> Lexer<'a> {
 		let s = self
 			.iter
 			.consume_while_case_holds(&|c| {
-				c != ">" && !c.chars().all(char::is_whitespace)
+				c != ">" && c != "<" && !c.chars().all(char::is_whitespace)
 			})
 			.unwrap_or("");
 		match (s, self.iter.next_if_eq(">")) {
-- 
2.43.0


From 47ffbd4252d53bd2f13f93a535a760d5554c637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:57 +0000
Subject: [PATCH 30/55] fix: footnotes have distinct anchors and the number of
 their note

---
 gfm/src/lexer.rs |  66 +++++++-------------------
 gfm/src/lib.rs   | 121 ++++++++++++++++++++++++++++-------------------
 2 files changed, 89 insertions(+), 98 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index d6a6ce6..84c36cf 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -341,19 +341,13 @@ impl<'a> Lexer<'a> {
 		if line.chars().all(|c| c == '#') {
 			return Ok(Token::Header(hashes.len(), "".to_string(), label));
 		}
-		let parsed_line = Parser::render_ignore(
+		Ok(Token::Header(
+			hashes.len(),
 			line_without_optional_trailing_hash_sequence
-				.trim_end_matches([' ', '\t']),
-			&['#'],
-		)
-		.strip_prefix("<p>")
-		.unwrap_or("")
-		.strip_suffix("</p>\n")
-		.unwrap_or("")
-		.trim()
-		.to_string();
-
-		Ok(Token::Header(hashes.len(), parsed_line, label))
+				.trim_end_matches([' ', '\t'])
+				.to_string(),
+			label,
+		))
 	}
 
 	fn lex_newlines(&mut self) -> Result<Token<'a>, ParseError<'a>> {
@@ -703,45 +697,16 @@ impl<'a> Lexer<'a> {
 			self.iter.next_if_eq(":") == Some(&":")
 		{
 			let ref_id = title.strip_prefix("^").unwrap_or("");
-			let note_index = self.iter.get_index();
-			loop {
-				self.iter.consume_while_case_holds(&|c| c != "\n");
-				self.iter.next();
-				if self.iter.peek() != Some(&" ") &&
-					self.iter.peek() != Some(&"\t")
-				{
-					break;
-				}
-				if self.iter.next_if_eq("\t") == Some(&"\t") {
-					continue;
-				}
-				if self.iter.peek() == Some(&" ") {
-					let spaces = self
-						.iter
-						.consume_while_case_holds(&|c| c == " ")
-						.unwrap_or("");
-					match spaces.len() {
-						2 | 4 => {}
-						_ => {
-							return Err(ParseError {
-								content: self
-									.iter
-									.get_substring_from(start_index)
-									.unwrap_or(""),
-							})
-						}
-					}
-					continue;
-				}
-				break;
+			if ref_id.is_empty() || ref_id.contains(char::is_whitespace) {
+				self.iter.update_index_to(title_index);
+				return Err(ParseError { content: "[" });
 			}
-			if ref_id.contains(char::is_whitespace) {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				});
+			let note_index = self.iter.get_index();
+			self.iter.consume_line_ahead();
+			while self.iter.peek_line_ahead().is_some_and(|line| {
+				indent_width(line) >= 2 && !line.trim().is_empty()
+			}) {
+				self.iter.consume_line_ahead();
 			}
 			return Ok(Token::Footnote(
 				ref_id.to_string(),
@@ -753,6 +718,7 @@ impl<'a> Lexer<'a> {
 			));
 		}
 		if self.iter.next_if_eq("(") != Some(&"(") {
+			// Footnote references are resolved once all notes are known
 			if !title.starts_with("^") {
 				self.iter.update_index_to(title_index);
 			}
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 5ebfb5e..29399dd 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -12,6 +12,41 @@ use crate::token::TaskBox;
 /// nested deeper is shown as text, so that no document exhausts the stack.
 const MAX_NESTING: usize = 100;
 
+/// Where in a document some content is rendered.
+#[derive(Default)]
+struct Context {
+	depth: usize,
+	/// The ids of the footnotes that are in scope and their numbers
+	notes: Vec<(String, usize)>,
+}
+
+impl Context {
+	fn nested(&self) -> Self {
+		Context {
+			depth: self.depth + 1,
+			notes: self.notes.clone(),
+		}
+	}
+
+	fn with_notes_of(&self, tokens: &[Token<'_>]) -> Self {
+		let notes = tokens
+			.iter()
+			.filter_map(|t| match t {
+				Token::Footnote(id, _) => Some(id.clone()),
+				_ => None,
+			})
+			.zip(1..);
+		Context {
+			depth: self.depth,
+			notes: notes.chain(self.notes.iter().cloned()).collect(),
+		}
+	}
+
+	fn number_of(&self, id: &str) -> Option<usize> {
+		self.notes.iter().find(|n| n.0 == id).map(|n| n.1)
+	}
+}
+
 pub struct Parser {}
 
 impl Parser {
@@ -34,19 +69,14 @@ impl Parser {
 	pub fn render(source: &str) -> String {
 		debug!("Rendering source of length: {}", source.len());
 		let source = source.replace("\r\n", "\n").replace('\r', "\n");
-		Self::render_nested(&source, 0)
+		Self::render_nested(&source, &Context::default())
 	}
 
-	/// Renders the content of a block that is `depth` levels deep.
-	fn render_nested(source: &str, depth: usize) -> String {
-		if depth > MAX_NESTING {
+	fn render_nested(source: &str, context: &Context) -> String {
+		if context.depth > MAX_NESTING {
 			return format!("<p>{}</p>\n", Self::sanitize_display_text(source));
 		}
-		Self::parse(&Self::lex(source, &[]), depth)
-	}
-
-	pub(crate) fn render_ignore(source: &str, ignore: &[char]) -> String {
-		Self::parse(&Self::lex(source, ignore), 0)
+		Self::parse(&Self::lex(source, &[]), context)
 	}
 
 	pub(crate) fn lex<'a>(source: &'a str, ignore: &[char]) -> Vec<Token<'a>> {
@@ -63,8 +93,8 @@ impl Parser {
 	}
 
 	/// Renders inline content without the paragraph around it.
-	fn parse_inline(tokens: &[Token<'_>]) -> String {
-		let html = Self::parse(tokens, 0);
+	fn parse_inline(tokens: &[Token<'_>], context: &Context) -> String {
+		let html = Self::parse(tokens, context);
 		let html = html.trim_end();
 		html.strip_prefix("<p>")
 			.and_then(|h| h.strip_suffix("</p>"))
@@ -72,8 +102,10 @@ impl Parser {
 			.to_string()
 	}
 
-	fn parse(tokens: &[Token<'_>], depth: usize) -> String {
+	fn parse(tokens: &[Token<'_>], context: &Context) -> String {
 		debug!("Parsing {} tokens", tokens.len());
+		let context = &context.with_notes_of(tokens);
+		let nested = context.nested();
 		let mut html = String::with_capacity(tokens.len() * 100);
 		let mut quote_level = 0;
 		let mut in_task_list = false;
@@ -162,33 +194,23 @@ impl Parser {
 					let text_len = t.trim_end().len();
 					pending = t.split_off(text_len);
 
-					if t.contains("[^") && t.contains("]") {
-						let plaintext_tokens = t.split("[^");
-						let mut s = String::new();
-						let mut count = 1;
-						for tok in plaintext_tokens {
-							if tok.trim_end().ends_with("]") {
-								let tok = tok.trim_end().trim_end_matches(']');
-								s.push_str(
-									format!(
-										"<sup id=\"fnref:{reference}\" \
-										 role=\"doc-noteref\"><a \
-										 href=\"#fn:{reference}\" \
-										 class=\"footnote\" \
-										 rel=\"footnote\">{ref_count}</a></\
-										 sup>",
-										reference =
-											Self::sanitize_display_text(tok),
-										ref_count = count
-									)
-									.as_str(),
-								);
-								count += 1;
-							} else {
-								s.push_str(&Self::sanitize_display_text(tok))
-							}
-						}
-						html.push_str(&s);
+					let note = t
+						.strip_prefix("[^")
+						.and_then(|id| id.strip_suffix("]"))
+						.and_then(|id| Some((id, context.number_of(id)?)));
+					if let Some((id, ref_count)) = note {
+						html.push_str(
+							format!(
+								"<sup id=\"fnref:{reference}\" \
+								 role=\"doc-noteref\"><a \
+								 href=\"#fn:{reference}\" \
+								 class=\"footnote\" \
+								 rel=\"footnote\">{ref_count}</a></sup>",
+								reference = Self::sanitize_display_text(id),
+								ref_count = ref_count
+							)
+							.as_str(),
+						);
 					} else {
 						html.push_str(&Self::sanitize_display_text(
 							t.trim_start_matches('\n'),
@@ -196,6 +218,8 @@ impl Parser {
 					}
 				}
 				Token::Header(l, t, lbl) => {
+					let t =
+						Self::parse_inline(&Self::lex(t, &['#']), context);
 					match lbl {
 						Some(lbl_text) => html.push_str(
 							format!(
@@ -233,7 +257,7 @@ impl Parser {
 					html.push_str(
 						format!(
 							"<li>\n{}</li>\n",
-							Self::render_nested(t, depth + 1)
+							Self::render_nested(t, &nested)
 						)
 						.as_str(),
 					)
@@ -253,7 +277,7 @@ impl Parser {
 							Token::Plaintext(text) => {
 								html.push_str(&Self::render_nested(
 									text,
-									depth + 1,
+									&nested,
 								));
 							}
 							_ => {}
@@ -330,7 +354,7 @@ impl Parser {
 						html.push_str("</p>\n");
 						in_paragraph = false;
 					}
-					let inner_html = Self::render_nested(body, depth + 1);
+					let inner_html = Self::render_nested(body, &nested);
 					html.push_str(
 						format!(
 							"<details>\n<summary>{sum}</summary>\n{in_html}\n\
@@ -383,7 +407,7 @@ impl Parser {
 						_ => {}
 					}
 					if !t.trim().is_empty() {
-						html.push_str(&Self::render_nested(t, depth + 1));
+						html.push_str(&Self::render_nested(t, &nested));
 					}
 				}
 				Token::TaskListItem(c, t) => {
@@ -391,7 +415,7 @@ impl Parser {
 						in_task_list = true;
 						html.push_str("<ul class=\"contains-task-list\">")
 					}
-					let t = Self::render_nested(t, depth + 1);
+					let t = Self::render_nested(t, &nested);
 					match c {
 						TaskBox::Checked => html.push_str(
 							format!(
@@ -424,7 +448,7 @@ impl Parser {
 							format!(
 								"\t\t<th style=\"text-align: \
 								 {align}\">{heading}</th>",
-								heading = Self::parse_inline(&h.1),
+								heading = Self::parse_inline(&h.1, context),
 								align = h.0
 							)
 							.as_str(),
@@ -434,7 +458,8 @@ impl Parser {
 					for row in rows.iter() {
 						html.push_str("\n\t<tr>");
 						for elem in row.iter() {
-							let row_string = Self::parse_inline(&elem.1);
+							let row_string = 
+								Self::parse_inline(&elem.1, context);
 							html.push_str(
 								format!(
 									"\n\t\t<td style=\"text-align: \
@@ -519,10 +544,10 @@ impl Parser {
 			html.push_str("<div class=\"footnotes\" role=\"doc-endnotes\">\n");
 			html.push_str("\t<ol>\n");
 			for reference in references.iter() {
-				html.push_str("\t\t<li id=\"fn:1\" role=\"doc-endnote\">");
 				html.push_str(
 					format!(
-						"\t\t\t<p>{ref_text}<a href=\"#fnref:{ref_count}\" \
+						"\t\t<li id=\"fn:{ref_count}\" \
+						 role=\"doc-endnote\">\t\t\t<p>{ref_text}<a href=\"#fnref:{ref_count}\" \
 						 class=\"reversefootnote\" \
 						 role=\"doc-backlink\">↩</a></p>",
 						ref_count = Self::sanitize_display_text(reference.0),
-- 
2.43.0


From 95713d8c7d57bc3f96c722d11a0e578487beb530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:58 +0000
Subject: [PATCH 31/55] fix: an empty heading may end the document

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 84c36cf..584e71c 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -313,7 +313,7 @@ impl<'a> Lexer<'a> {
 		}
 		if self.iter.next_if_eq(" ").is_none() &&
 			self.iter.next_if_eq("\t").is_none() &&
-			self.iter.peek() != Some("\n")
+			!matches!(self.iter.peek(), None | Some("\n"))
 		{
 			return Err(ParseError { content: hashes });
 		}
-- 
2.43.0


From 861c4467705ebff179a4084ad57543b9be4eb10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:05 +0000
Subject: [PATCH 32/55] fix: output files are written completely even when a
 write is cut short

---
 smd-core/src/fs.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/smd-core/src/fs.rs b/smd-core/src/fs.rs
index 098c219..3bf8cc7 100644
--- a/smd-core/src/fs.rs
+++ b/smd-core/src/fs.rs
@@ -47,11 +47,13 @@ pub fn write_to_file(path: &PathBuf, content: &str) -> Result<()> {
 	debug!("Attempting to write file: {}", path_str);
 
 	let mut file = File::create(path)?;
-	match file.write(content.as_bytes()) {
-		Ok(bytes_written) => {
+	match file.write_all(content.as_bytes()) {
+		Ok(()) => {
 			info!(
 				"\"{}\" {}L, {}B written",
-				path_str, line_count, bytes_written
+				path_str,
+				line_count,
+				content.len()
 			);
 			Ok(())
 		}
@@ -69,9 +71,9 @@ pub fn write_bytes(path: &PathBuf, bytes: &Vec<u8>) -> Result<()> {
 	debug!("Attempting to write file: {}", path_str);
 
 	let mut file = File::create(path)?;
-	match file.write(bytes) {
-		Ok(bytes_written) => {
-			info!("\"{}\", {}B written", path_str, bytes_written);
+	match file.write_all(bytes) {
+		Ok(()) => {
+			info!("\"{}\", {}B written", path_str, bytes.len());
 			Ok(())
 		}
 		Err(e) => {
-- 
2.43.0


From 7638daba1a61e0b255c80a3c7a1debe3efb30596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:25 +0000
Subject: [PATCH 33/55] fix: --version prints the version

---
 smd/src/args.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smd/src/args.rs b/smd/src/args.rs
index 1241706..79ce7c9 100644
--- a/smd/src/args.rs
+++ b/smd/src/args.rs
@@ -17,6 +17,7 @@ pub enum OutputFileFormat {
 #[derive(Debug, Parser)]
 #[command(
     version,
+    propagate_version = true,
     rename_all_env = "screaming-snake",
     help_template = "\
 {before-help}{name} v{version} by {author-with-newline}
@@ -51,7 +52,7 @@ pub struct Cli {
 	#[arg(
         short = 'V',
         long,
-        action = ArgAction::Help,
+        action = ArgAction::Version,
         global = true,
         help = "Prints version information",
         help_heading = Some("FLAGS"),
-- 
2.43.0


From e48108e1868b5837bb01a72bc6865d06b65a5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:26 +0000
Subject: [PATCH 34/55] fix: a document is never overwritten by its own output

---
 smd/src/lib.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/smd/src/lib.rs b/smd/src/lib.rs
index b9c8950..b16c534 100644
--- a/smd/src/lib.rs
+++ b/smd/src/lib.rs
@@ -9,7 +9,10 @@ use smd_core::{
 		self,
 		PDFConverter,
 	},
-	error::Result,
+	error::{
+		Error,
+		Result,
+	},
 	fs,
 };
 
@@ -37,8 +40,19 @@ pub fn run(cli: Cli) -> Result<()> {
 
 			let mut out_path = args.input.clone();
 
+			out_path.set_extension(match args.output {
+				args::OutputFileFormat::Html => HTML_FILE_ENDING,
+				args::OutputFileFormat::Pdf => PDF_FILE_ENDING,
+			});
+			// The input may be the output itself or behind a link with its name
+			if out_path.canonicalize().is_ok_and(|path| path == args.input) {
+				return Err(Error::CustomError(format!(
+					"`{}` would be overwritten by its own output",
+					args.input.display()
+				)));
+			}
+
 			if args.output.eq(&args::OutputFileFormat::Html) {
-				out_path.set_extension(HTML_FILE_ENDING);
 				fs::write_to_file(&out_path, &result)?;
 
 				return Ok(());
@@ -46,7 +60,6 @@ pub fn run(cli: Cli) -> Result<()> {
 
 			let converted = match args.output {
 				args::OutputFileFormat::Pdf => {
-					out_path.set_extension(PDF_FILE_ENDING);
 					convert::convert_html::<PDFConverter>(&result)?
 				}
 				_ => unreachable!(),
-- 
2.43.0


From 0370cad797b1a77af4cce0fd2e73bfddecd393a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:28 +0000
Subject: [PATCH 35/55] fix: initialize never overwrites or leaves behind a
 broken config

---
 smd-core/src/config.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/smd-core/src/config.rs b/smd-core/src/config.rs
index 1ffdd2c..30272e2 100644
--- a/smd-core/src/config.rs
+++ b/smd-core/src/config.rs
@@ -9,6 +9,7 @@ use serde::{
 	Deserialize,
 	Serialize,
 };
+use std::io::ErrorKind;
 
 #[derive(Debug, Deserialize, Serialize, Default)]
 pub struct Config {
@@ -72,18 +73,21 @@ impl Config {
 		);
 		let path = dirs::config_dir().unwrap_or_default().join(DEFAULT_CONFIG);
 
-		if path.exists() {
-			return Err(Error::ConfigAlreadyExistsError(
-				path.to_string_lossy().to_string(),
-			));
-		}
-
 		if let Some(parent) = path.parent() {
 			std::fs::create_dir_all(parent)?;
 		}
-		fs::write_to_file(&path, &toml)?;
-
-		Ok(())
+		// Creating the file claims it, so that none is ever overwritten
+		match std::fs::File::create_new(&path) {
+			Err(e) if e.kind() == ErrorKind::AlreadyExists => {
+				return Err(Error::ConfigAlreadyExistsError(
+					path.to_string_lossy().to_string(),
+				));
+			}
+			file => file?,
+		};
+		fs::write_to_file(&path, &toml).inspect_err(|_| {
+			let _ = std::fs::remove_file(&path);
+		})
 	}
 }
 
-- 
2.43.0


From 9db4bc1c1e6ce4eca39771b2fd284692468d5661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:48 +0000
Subject: [PATCH 36/55] fix: the temporary file of a conversion has its own
 name and is always removed

---
 smd-core/src/convert.rs | 42 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/smd-core/src/convert.rs b/smd-core/src/convert.rs
index 3662974..b5e8ef2 100644
--- a/smd-core/src/convert.rs
+++ b/smd-core/src/convert.rs
@@ -1,6 +1,15 @@
 use std::{
 	env,
-	fs,
+	fs::{
+		self,
+		File,
+	},
+	io::ErrorKind,
+	path::{
+		Path,
+		PathBuf,
+	},
+	process,
 };
 
 use headless_chrome::types::PrintToPdfOptions;
@@ -25,16 +34,39 @@ where
 
 pub struct PDFConverter;
 
+/// A file with a name of its own that is removed when it is dropped.
+struct TempFile(PathBuf);
+
+impl TempFile {
+	fn create(dir: &Path) -> Result<Self> {
+		let mut attempt = 0;
+		loop {
+			let path =
+				dir.join(format!("tmp-{}-{}.html", process::id(), attempt));
+			match File::create_new(&path) {
+				Err(e) if e.kind() == ErrorKind::AlreadyExists => attempt += 1,
+				file => return Ok(file.map(|_| TempFile(path))?),
+			}
+		}
+	}
+}
+
+impl Drop for TempFile {
+	fn drop(&mut self) {
+		let _ = fs::remove_file(&self.0);
+	}
+}
+
 impl Convert for PDFConverter {
 	fn from_html(html: &str) -> Result<Vec<u8>> {
 		let browser = BrowserSession::initialize()?;
 
 		let current_dir = env::current_dir()?;
-		let tmpfile = current_dir.join("tmp.html");
+		let tmpfile = TempFile::create(&current_dir)?;
 
-		write_to_file(&tmpfile, html)?;
-		let tab_id = browser.open_file(&tmpfile)?;
-		fs::remove_file(tmpfile)?;
+		write_to_file(&tmpfile.0, html)?;
+		let tab_id = browser.open_file(&tmpfile.0)?;
+		drop(tmpfile);
 
 		let options = PrintToPdfOptions {
 			margin_top: Some(0.0),
-- 
2.43.0


From 081094cf3a8d4a5a3f078d60a3b0db63a17ee154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:49 +0000
Subject: [PATCH 37/55] fix: files in directories with special characters can
 be opened in the browser

---
 smd-core/src/browser.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/smd-core/src/browser.rs b/smd-core/src/browser.rs
index 9c2f903..6a8db8f 100644
--- a/smd-core/src/browser.rs
+++ b/smd-core/src/browser.rs
@@ -4,7 +4,10 @@ use crate::error::{
 };
 use std::{
 	env,
-	path::PathBuf,
+	path::{
+		Path,
+		PathBuf,
+	},
 };
 
 use headless_chrome::{
@@ -32,7 +35,7 @@ impl BrowserSession {
 	pub fn open_file(&self, path: &PathBuf) -> Result<TargetID> {
 		let current_dir = env::current_dir()?;
 		let html_file_path = current_dir.join(path);
-		let file_url = format!("file://{}", html_file_path.to_string_lossy());
+		let file_url = file_url(&html_file_path);
 
 		let tab = self.0.new_tab().map_err(|_| {
 			Error::BrowserError("Failed to open new tab.".to_string())
@@ -78,6 +81,28 @@ impl BrowserSession {
 		Ok(pdf_data)
 	}
 }
+
+/// The URL of a file, with every byte escaped that has a meaning in URLs.
+fn file_url(path: &Path) -> String {
+	let mut url = "file://".to_string();
+	for &byte in path.as_os_str().as_encoded_bytes() {
+		match byte {
+			b'A'..=b'Z' |
+			b'a'..=b'z' |
+			b'0'..=b'9' |
+			b'/' |
+			b'\\' |
+			b':' |
+			b'-' |
+			b'.' |
+			b'_' |
+			b'~' => url.push(byte.into()),
+			_ => url.push_str(&format!("%{:02X}", byte)),
+		}
+	}
+	url
+}
+
 #[cfg(test)]
 mod tests {
 	use super::*;
-- 
2.43.0


From b0773c50b8d3e3b43d13826208a808413e98bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 38/55] fix: the npm package runs the smd binary it depends on

---
 npm/smd/src/getExePath.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/npm/smd/src/getExePath.ts b/npm/smd/src/getExePath.ts
index eab1031..200d57f 100644
--- a/npm/smd/src/getExePath.ts
+++ b/npm/smd/src/getExePath.ts
@@ -1,12 +1,12 @@
 import { arch as getArch, platform as getPlatform } from "os";
 
 /**
- * Returns the executable path for git-cliff located inside node_modules
- * The naming convention is git-cliff-${os}-${arch}
+ * Returns the executable path for smd located inside node_modules
+ * The naming convention is smd-${os}-${arch}
  * If the platform is `win32` or `cygwin`, executable will include a `.exe` extension
  * @see https://nodejs.org/api/os.html#osarch
  * @see https://nodejs.org/api/os.html#osplatform
- * @example "x/xx/node_modules/git-cliff-darwin-arm64"
+ * @example "x/xx/node_modules/smd-darwin-arm64"
  */
 export async function getExePath() {
   const platform = getPlatform();
@@ -23,11 +23,11 @@ export async function getExePath() {
   try {
     // Since the bin will be located inside `node_modules`, we can simply call import.meta.resolve
     return import.meta.resolve(
-      `git-cliff-${os}-${arch}/bin/git-cliff${extension}`,
+      `smd-${os}-${arch}/bin/smd${extension}`,
     );
   } catch (e) {
     throw new Error(
-      `Couldn't find git-cliff binary inside node_modules for ${os}-${arch} (${e})`,
+      `Couldn't find smd binary inside node_modules for ${os}-${arch} (${e})`,
     );
   }
 }
-- 
2.43.0


From cba2bf9fad0b5ae4dc3a796db7dc6f48916b9c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 39/55] fix: undefined npm options are ignored

---
 npm/smd/src/optionsToStringArgs.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/npm/smd/src/optionsToStringArgs.ts b/npm/smd/src/optionsToStringArgs.ts
index 9fc0253..d80fd34 100644
--- a/npm/smd/src/optionsToStringArgs.ts
+++ b/npm/smd/src/optionsToStringArgs.ts
@@ -19,7 +19,7 @@ export function optionsToStringArgs(options: Options): string[] {
       }
     } else if (value === true) {
       args.push(`--${hyphenCaseKey}`);
-    } else if (value === false || value === null) {
+    } else if (value === false || value == null) {
       continue;
     } else {
       args.push(`--${hyphenCaseKey}`, value);
-- 
2.43.0


From e3209adf97a173ae0711add59480f51683007baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 40/55] fix: the npm command exits with the status of smd

---
 npm/smd/src/cli.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/npm/smd/src/cli.ts b/npm/smd/src/cli.ts
index f33570d..9f66907 100644
--- a/npm/smd/src/cli.ts
+++ b/npm/smd/src/cli.ts
@@ -4,9 +4,9 @@ import { runGitCliff } from "./index.js";
 
 async function run() {
   const args = process.argv.slice(2);
-  const processResult = await runGitCliff(args);
+  const processResult = await runGitCliff(args, { reject: false });
 
-  process.exit(processResult.exitCode ?? 0);
+  process.exit(processResult.exitCode ?? 1);
 }
 
 void run();
-- 
2.43.0


From 344071f43fd63c1a03e18d4fdf09ffffcffcdb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:03 +0000
Subject: [PATCH 41/55] fix: backslashes in file names are no path separators

---
 smd-core/src/browser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smd-core/src/browser.rs b/smd-core/src/browser.rs
index 6a8db8f..9ce405c 100644
--- a/smd-core/src/browser.rs
+++ b/smd-core/src/browser.rs
@@ -91,12 +91,12 @@ fn file_url(path: &Path) -> String {
 			b'a'..=b'z' |
 			b'0'..=b'9' |
 			b'/' |
-			b'\\' |
 			b':' |
 			b'-' |
 			b'.' |
 			b'_' |
 			b'~' => url.push(byte.into()),
+			b'\\' if cfg!(windows) => url.push('/'),
 			_ => url.push_str(&format!("%{:02X}", byte)),
 		}
 	}
-- 
2.43.0


From daba98e5b6e16042b9193b86dcdd6f38ed06b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:48 +0000
Subject: [PATCH 42/55] fix: inline constructs do not run into the next block

---
 gfm/src/iter.rs  | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 gfm/src/lexer.rs |  2 +-
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index f5dda54..8ef038b 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -5,6 +5,37 @@ pub struct MarkdownIter<'a> {
 	index:   usize,
 }
 
+/// Whether a line starts a block that can interrupt a paragraph.
+fn starts_block(line: &str) -> bool {
+	let text = line.trim_start_matches(' ');
+	if line.len() - text.len() > 3 {
+		return false;
+	}
+	let blank_after = |marker: &str| {
+		text.strip_prefix(marker).is_some_and(|rest| {
+			rest.is_empty() || rest.starts_with([' ', '\t'])
+		})
+	};
+	let rule = ['*', '-', '_'].iter().any(|&c| {
+		text.matches(c).count() >= 3 &&
+			text.chars().all(|t| t == c || t == ' ' || t == '\t')
+	});
+	let heading = (1..=6).any(|level| blank_after(&"#".repeat(level)));
+	let fence = text.starts_with("```") &&
+		!text.trim_start_matches('`').contains('`');
+	let note = text.strip_prefix("[^").is_some_and(|rest| {
+		rest.split_once("]:").is_some_and(|(id, _)| {
+			!id.is_empty() &&
+				!id.contains(|c: char| c.is_whitespace() || c == ']')
+		})
+	});
+	rule || heading ||
+		fence || note ||
+		["-", "+", "*", "1."].iter().any(|marker| blank_after(marker)) ||
+		text.starts_with('>') ||
+		text == "<details>"
+}
+
 impl<'a> Iterator for MarkdownIter<'a> {
 	type Item = &'a str;
 
@@ -78,9 +109,21 @@ impl<'a> MarkdownIter<'a> {
 		self.the_str.get(start_index..self.index)
 	}
 
+	/// Whether the current position is the newline at the end of a paragraph:
+	/// before a blank line, another block or the end of the input.
+	pub fn at_paragraph_end(&self) -> bool {
+		match self.the_str[self.index..].strip_prefix('\n') {
+			Some(rest) => {
+				self.at_blank_line() ||
+					starts_block(rest.lines().next().unwrap_or(""))
+			}
+			None => false,
+		}
+	}
+
 	/// Whether the current position is the newline before a blank line or the
 	/// end of the input.
-	pub fn at_paragraph_end(&self) -> bool {
+	pub fn at_blank_line(&self) -> bool {
 		match self.the_str[self.index..].strip_prefix('\n') {
 			Some(rest) => {
 				let rest = rest.trim_start_matches([' ', '\t']);
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 584e71c..3c8ebc3 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -352,7 +352,7 @@ impl<'a> Lexer<'a> {
 
 	fn lex_newlines(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let mut blank_line = false;
-		while self.iter.at_paragraph_end() {
+		while self.iter.at_blank_line() {
 			blank_line = true;
 			self.iter.next();
 			self.iter
-- 
2.43.0


From cbc84377f1c70700d76a4f5d2edd73d1610edd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:00 +0000
Subject: [PATCH 43/55] fix: a colon far into a relative target is no scheme

---
 gfm/src/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 58ee612..73dd31c 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -223,7 +223,10 @@ pub(crate) fn validate_link(
 	if scheme.to_lowercase() == "data" && !path.starts_with(":image/") {
 		return Err(SanitizationError { content: source });
 	}
-	if scheme.len() != 0 && (scheme.len() < 2 || scheme.len() > 32) {
+	if scheme.chars().all(|c| COMMONMARK_SCHEME_ASCII.contains(&c)) &&
+		scheme.len() != 0 &&
+		(scheme.len() < 2 || scheme.len() > 32)
+	{
 		return Err(SanitizationError { content: source });
 	}
 
-- 
2.43.0


From b6b6f4fb1cb7e2d6b8aea61d6f7700133e129c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:13 +0000
Subject: [PATCH 44/55] fix: no line break before the first text of a paragraph

---
 gfm/src/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 3c8ebc3..a9bf6b3 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -377,6 +377,7 @@ impl<'a> Lexer<'a> {
 			.unwrap_or("");
 
 		if !line_start &&
+			continues_paragraph(tokens) &&
 			self.iter.peek() == Some("\n") &&
 			whitespace.len() >= 2 &&
 			!whitespace.contains("\t")
-- 
2.43.0


From 8d21f3590b955b39b0b62e262802e549ba8f85b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:14 +0000
Subject: [PATCH 45/55] fix: tildes next to blanks do not strike through

---
 gfm/src/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index a9bf6b3..93dacff 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -600,7 +600,11 @@ impl<'a> Lexer<'a> {
 				.iter
 				.consume_while_case_holds(&|s| s == "~")
 				.unwrap_or("");
-			if lead_tildes.len() == tail_tildes.len() && !line.is_empty() {
+			if lead_tildes.len() == tail_tildes.len() &&
+				!line.is_empty() &&
+				!line.starts_with(char::is_whitespace) &&
+				!line.ends_with(char::is_whitespace)
+			{
 				return Ok(Token::Strikethrough(line.to_string()));
 			}
 		}
-- 
2.43.0


From 932b1c724ccf287a4351256ec7857a55696eb9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:16 +0000
Subject: [PATCH 46/55] fix: a tab before the closing sequence of a heading

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 93dacff..e0f37d3 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -331,7 +331,7 @@ impl<'a> Lexer<'a> {
 			label = Some(id.to_string());
 		}
 		let line_without_optional_trailing_hash_sequence =
-			match line.trim_end().rsplit_once(' ') {
+			match line.trim_end().rsplit_once([' ', '\t']) {
 				Some((left, right)) => match right.chars().all(|c| c == '#') {
 					true => left,
 					false => line,
-- 
2.43.0


From 4e2625b5cf67fa04e74ba25b4676e2dce7693300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:03 +0000
Subject: [PATCH 47/55] fix: a quote that ends with an empty line at the end of
 the input

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index e0f37d3..bf8cbcd 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -561,7 +561,7 @@ impl<'a> Lexer<'a> {
 			self.iter.consume_line_ahead();
 		}
 		// A blank line after the quote ends it, so leave the newline
-		if text.ends_with('\n') {
+		if self.iter.char_before(self.iter.get_index()) == Some('\n') {
 			self.iter.update_index_to(self.iter.get_index() - 1);
 		}
 		Ok(Token::BlockQuote(level.min(u8::MAX.into()) as u8, text))
-- 
2.43.0


From 27e2960ec13f7bc399c749d50d769b17fdd46493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:04 +0000
Subject: [PATCH 48/55] fix: blanks after the closing sequence of an empty
 heading

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index bf8cbcd..e1eadc5 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -338,7 +338,7 @@ impl<'a> Lexer<'a> {
 				},
 				None => line,
 			};
-		if line.chars().all(|c| c == '#') {
+		if line.trim_end().chars().all(|c| c == '#') {
 			return Ok(Token::Header(hashes.len(), "".to_string(), label));
 		}
 		Ok(Token::Header(
-- 
2.43.0


From 20225de434845d221296aa2e2b54e98ef5a91b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:24 +0000
Subject: [PATCH 49/55] fix: images keep their title

---
 gfm/src/lexer.rs |  4 ++--
 gfm/src/lib.rs   | 62 +++++++++++++++++++++++++++---------------------
 gfm/src/token.rs |  7 +++---
 3 files changed, 41 insertions(+), 32 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index e1eadc5..dd27c1d 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -789,8 +789,8 @@ impl<'a> Lexer<'a> {
 		}
 		let link_result = self.lex_links(false);
 		match link_result {
-			Ok(Token::Link(link, title, _)) => {
-				return Ok(Token::Image(link.to_string(), title))
+			Ok(Token::Link(link, title, hover)) => {
+				return Ok(Token::Image(link.to_string(), title, hover))
 			}
 			_ => {
 				self.iter.update_index_to(start_index + 1);
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 29399dd..dc49eca 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -285,35 +285,43 @@ impl Parser {
 					}
 					html.push_str("</li>\n".to_string().as_str());
 				}
-				Token::Image(l, t) => match (l, t) {
-					(l, None) if l.trim() == "" => {
-						html.push_str("<img src=\"data:,\">")
-					}
-					(l, Some(t)) if l.trim() == "" => html.push_str(
-						format!(
-							"<img src=\"data:,\" alt=\"{text}\">",
-							text = Self::sanitize_display_text(t)
-						)
-						.as_str(),
-					),
-					(l, None) => html.push_str(
+				Token::Image(l, t, ht) => {
+					let hover = ht.as_ref().map_or(String::new(), |ht| {
 						format!(
-							"<img src=\"{link}\" \
-							 referrerpolicy=\"no-referrer\">",
-							link = l
+							" title=\"{}\"",
+							Self::sanitize_display_text(ht)
 						)
-						.as_str(),
-					),
-					(l, Some(t)) => html.push_str(
-						format!(
-							"<img src=\"{link}\" alt=\"{text}\" \
-							 referrerpolicy=\"no-referrer\">",
-							link = l,
-							text = Self::sanitize_display_text(t)
-						)
-						.as_str(),
-					),
-				},
+					});
+					match (l, t) {
+						(l, None) if l.trim() == "" => html.push_str(
+							format!("<img src=\"data:,\"{hover}>").as_str(),
+						),
+						(l, Some(t)) if l.trim() == "" => html.push_str(
+							format!(
+								"<img src=\"data:,\" alt=\"{text}\"{hover}>",
+								text = Self::sanitize_display_text(t)
+							)
+							.as_str(),
+						),
+						(l, None) => html.push_str(
+							format!(
+								"<img src=\"{link}\"{hover} \
+								 referrerpolicy=\"no-referrer\">",
+								link = l
+							)
+							.as_str(),
+						),
+						(l, Some(t)) => html.push_str(
+							format!(
+								"<img src=\"{link}\" alt=\"{text}\"{hover} \
+								 referrerpolicy=\"no-referrer\">",
+								link = l,
+								text = Self::sanitize_display_text(t)
+							)
+							.as_str(),
+						),
+					}
+				}
 				Token::Link(l, t, ht) => match (t, ht) {
 					(Some(t), Some(ht)) => html.push_str(
 						format!(
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 73dd31c..4c82a0b 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -46,8 +46,9 @@ pub enum Token<'a> {
 	CodeBlock(String, String),
 	/// u8: Block quote level. str: Block quote text
 	BlockQuote(u8, String),
-	/// str: Link. Option<str>: Title for link.
-	Image(String, Option<String>),
+	/// str: Link. First Option<str>: Title for link. Second Option<str>: Hover
+	/// text
+	Image(String, Option<String>, Option<String>),
 	/// str: Link. First Option<str>: Title for link. Second Option<str>: Hover
 	/// text
 	Link(ValidURL<'a>, Option<String>, Option<String>),
@@ -96,7 +97,7 @@ impl Token<'_> {
 				Token::BoldItalic(_) |
 				Token::Strikethrough(_) |
 				Token::Link(_, _, _) |
-				Token::Image(_, _) |
+				Token::Image(_, _, _) |
 				Token::CodeSpan(_) |
 				Token::LineBreak
 		)
-- 
2.43.0


From 73f9309a613388796f8365953f7bb9f90292774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:23 +0000
Subject: [PATCH 50/55] fix: an indented line of dashes after a backslash does
 not end its paragraph

---
 gfm/src/iter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 8ef038b..1787940 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -17,7 +17,8 @@ fn starts_block(line: &str) -> bool {
 		})
 	};
 	let rule = ['*', '-', '_'].iter().any(|&c| {
-		text.matches(c).count() >= 3 &&
+		text.starts_with(c) &&
+			text.matches(c).count() >= 3 &&
 			text.chars().all(|t| t == c || t == ' ' || t == '\t')
 	});
 	let heading = (1..=6).any(|level| blank_after(&"#".repeat(level)));
-- 
2.43.0


From 6b2854f1a8d90b7f52fc5a63adf832d0281675fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:50 +0000
Subject: [PATCH 51/55] fix: an output that is a hard link to the input is
 refused

---
 smd/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/smd/src/lib.rs b/smd/src/lib.rs
index b16c534..03e6931 100644
--- a/smd/src/lib.rs
+++ b/smd/src/lib.rs
@@ -15,6 +15,7 @@ use smd_core::{
 	},
 	fs,
 };
+use std::path::Path;
 
 pub mod args;
 pub mod logger;
@@ -44,8 +45,7 @@ pub fn run(cli: Cli) -> Result<()> {
 				args::OutputFileFormat::Html => HTML_FILE_ENDING,
 				args::OutputFileFormat::Pdf => PDF_FILE_ENDING,
 			});
-			// The input may be the output itself or behind a link with its name
-			if out_path.canonicalize().is_ok_and(|path| path == args.input) {
+			if is_same_file(&args.input, &out_path) {
 				return Err(Error::CustomError(format!(
 					"`{}` would be overwritten by its own output",
 					args.input.display()
@@ -72,3 +72,15 @@ pub fn run(cli: Cli) -> Result<()> {
 	}
 	Ok(())
 }
+
+/// Whether both paths name the same file, be it through a link.
+fn is_same_file(input: &Path, output: &Path) -> bool {
+	#[cfg(unix)]
+	if let (Ok(input), Ok(output)) = (input.metadata(), output.metadata()) {
+		use std::os::unix::fs::MetadataExt;
+
+		return (input.dev(), input.ino()) == (output.dev(), output.ino());
+	}
+
+	output.canonicalize().is_ok_and(|path| path == input)
+}
-- 
2.43.0


From e1cc695c6e4ce39bfc3e00659da4a564a4f8b47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:07 +0000
Subject: [PATCH 52/55] fix: a config that cannot be examined is not taken for
 a missing one

---
 smd-core/src/config.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smd-core/src/config.rs b/smd-core/src/config.rs
index 30272e2..a4f1c8f 100644
--- a/smd-core/src/config.rs
+++ b/smd-core/src/config.rs
@@ -55,7 +55,11 @@ impl Config {
 	pub fn load_config() -> Result<Config> {
 		let config_path =
 			dirs::config_dir().unwrap_or_default().join(DEFAULT_CONFIG);
-		if config_path.exists() {
+		let exists = match config_path.try_exists() {
+			Err(e) if e.kind() == ErrorKind::NotADirectory => false,
+			exists => exists?,
+		};
+		if exists {
 			let content = fs::read_to_string(&config_path)?;
 			let config = Self::parse_from_str(&content)?;
 			return Ok(config);
-- 
2.43.0


From aefa9c8efafbff5fc95a7932be1cb8b6da965ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:03 +0000
Subject: [PATCH 53/55] fix: environment variables that are not UTF-8 do not
 abort the loading of the config

---
 smd-core/src/config.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/smd-core/src/config.rs b/smd-core/src/config.rs
index a4f1c8f..ed05423 100644
--- a/smd-core/src/config.rs
+++ b/smd-core/src/config.rs
@@ -42,12 +42,24 @@ pub enum ParseErrorAction {
 
 impl Config {
 	pub fn parse_from_str(content: &str) -> Result<Config> {
+		// Variables of other programs may hold anything, not only text
+		let environment = std::env::vars_os()
+			.filter_map(|(key, value)| {
+				let key = key.into_string().ok()?;
+				Some((key, value.to_string_lossy().into_owned()))
+			})
+			.collect();
+
 		Ok(config::Config::builder()
 			.add_source(config::File::from_str(
 				content,
 				config::FileFormat::Toml,
 			))
-			.add_source(config::Environment::with_prefix("SMD").separator("__"))
+			.add_source(
+				config::Environment::with_prefix("SMD")
+					.separator("__")
+					.source(Some(environment)),
+			)
 			.build()?
 			.try_deserialize()?)
 	}
-- 
2.43.0


From 8bdc3f3e5b118a7c7d72435d771a0306226ade2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:23 +0000
Subject: [PATCH 54/55] fix: initialize writes only to the file that it created

---
 smd-core/src/config.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/smd-core/src/config.rs b/smd-core/src/config.rs
index ed05423..b67b2df 100644
--- a/smd-core/src/config.rs
+++ b/smd-core/src/config.rs
@@ -9,7 +9,10 @@ use serde::{
 	Deserialize,
 	Serialize,
 };
-use std::io::ErrorKind;
+use std::io::{
+	ErrorKind,
+	Write,
+};
 
 #[derive(Debug, Deserialize, Serialize, Default)]
 pub struct Config {
@@ -92,8 +95,9 @@ impl Config {
 		if let Some(parent) = path.parent() {
 			std::fs::create_dir_all(parent)?;
 		}
-		// Creating the file claims it, so that none is ever overwritten
-		match std::fs::File::create_new(&path) {
+		// Only the file created here is written to, so that none is ever
+		// overwritten, even if the path names another one by now
+		let mut file = match std::fs::File::create_new(&path) {
 			Err(e) if e.kind() == ErrorKind::AlreadyExists => {
 				return Err(Error::ConfigAlreadyExistsError(
 					path.to_string_lossy().to_string(),
@@ -101,9 +105,11 @@ impl Config {
 			}
 			file => file?,
 		};
-		fs::write_to_file(&path, &toml).inspect_err(|_| {
+		file.write_all(toml.as_bytes()).inspect_err(|_| {
 			let _ = std::fs::remove_file(&path);
-		})
+		})?;
+
+		Ok(())
 	}
 }
 
-- 
2.43.0


From 427e30f0eefd781344797c0ab70d24244ba60452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:10 +0000
Subject: [PATCH 55/55] fix: a tab at the end of the document keeps its width
 in indented fenced code

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index dd27c1d..0beb2ca 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -105,7 +105,7 @@ fn strip_columns(line: &str, start: usize, count: usize) -> String {
 			_ => 1,
 		};
 	}
-	String::new()
+	" ".repeat(column.saturating_sub(start + count))
 }
 
 impl<'a> Lexer<'a> {
-- 
2.43.0

