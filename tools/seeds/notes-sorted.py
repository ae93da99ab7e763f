PROPERTY="C14"
NEEDS="notes that are defined in another order than that of their ids"
BREAKS="notes are listed sorted by id while references are numbered in order of definition, so that numbers and notes disagree"
EDITS=[("gfm/src/lib.rs",'''		if references.len() > 0 {''','''		references.sort();
		if references.len() > 0 {''')]
DEMO='''
h = render("A[^b] and B[^a] and C[^c]\\n\\n[^b]: first note\\n[^a]: second note\\n[^c]: third note\\n")
assert h.index("first note") < h.index("second note") < h.index("third note"), h
'''
