PROPERTY="C06"
NEEDS="a heading whose last word starts with a # but is not all #"
BREAKS="the last word of a heading is taken for a closing sequence as soon as it starts with #"
EDITS=[("gfm/src/lexer.rs",'''Some((left, right)) => match right.chars().all(|c| c == '#') {''','''Some((left, right)) => match right.starts_with('#') && right.len() == right.matches(['#', '.', '!']).count() {''')]
DEMO='''
assert "<h2>a b</h2>" in render("## a b ##\\n")
h = render("## a b #!\\n")
assert "#!" in h, h
'''
