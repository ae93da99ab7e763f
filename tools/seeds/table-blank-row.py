PROPERTY="C09"
NEEDS="a table with a row of nothing but empty cells"
BREAKS="a row whose cells are all empty disappears"
EDITS=[("gfm/src/lexer.rs",'''			rows.push(
				alignments.clone().into_iter().zip(r.into_iter()).collect(),
			);''','''			if r.iter().any(|cell| !cell.is_empty()) {
				rows.push(
					alignments.clone().into_iter().zip(r.into_iter()).collect(),
				);
			}''')]
DEMO='''
h = render("| a | b |\\n|---|---|\\n| 1 | 2 |\\n|   |   |\\n| 3 | 4 |\\n")
assert h.count("<tr>") == 4 and h.count("<td") == 6, h
'''
