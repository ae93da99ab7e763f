PROPERTY="C12"
NEEDS="a code block that is still open at the end of a document without a last newline, whose last line ends in blanks"
BREAKS="blanks at the end of the last line of such a code block are dropped"
EDITS=[("gfm/src/iter.rs",'''				let ret =
					self.the_str.get(self.index..=(self.the_str.len() - 1));
				self.update_index_to(self.the_str.len());''','''				let ret = self.the_str.get(self.index..).map(str::trim_end);
				self.update_index_to(self.the_str.len());''')]
DEMO='''
assert "<pre><code>a  \\n" in render("```\\na  \\n")
h = render("```\\na  ")
assert "<pre><code>a  </code>" in h, h
'''
