PROPERTY="C03"
NEEDS="a data: target of another type whose rest mentions image/ somewhere"
BREAKS="data: links that are not images are let through when ':image/' or 'image/' occurs anywhere behind the scheme"
EDITS=[("gfm/src/token.rs",'!path.starts_with(":image/")','!path.contains("image/")')]
DEMO='''
h = render("[t](data:text/html;x=image/png,hello)\\n")
assert "href" not in h, h
h = render("[t](data:image/png;base64,AAAA)\\n")
assert "href" in h, h
'''
