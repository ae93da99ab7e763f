PROPERTY="C07"
NEEDS="a task list right after an ordinary list, or the other way around, at the end of a document"
BREAKS="a list that ends with the document is not closed when a task list preceded it"
EDITS=[("gfm/src/lib.rs",'''					in_task_list = false;
					html.push_str("</ul>\\n");''','''					in_task_list = matches!(token, Token::UnorderedListEntry(_));
					html.push_str("</ul>\\n");'''),
 ("gfm/src/lib.rs",'''		if in_task_list | in_unordered_list {''','''		if in_task_list != in_unordered_list {''')]
DEMO='''
h = render("- [x] done\\n- plain\\n")
assert h.count("<ul") == h.count("</ul>") == 2, h
h = render("- [x] done\\n- plain\\n- more\\n")
assert h.count("<ul") == h.count("</ul>") == 2 and h.count("<li") == 3, h
'''
