PROPERTY="C17"
NEEDS="two documents of the same length rendered one after the other from the same buffer"
BREAKS="the last rendering is remembered by the address and length of its source, and given out for another document at that address"
EDITS=[("gfm/src/lib.rs",'''		debug!("Rendering source of length: {}", source.len());
		let source = source.replace("\\r\\n", "\\n").replace('\\r', "\\n");
		Self::render_nested(&source, &Context::default())''','''		thread_local! {
			static LAST: std::cell::RefCell<(usize, usize, String)> =
				Default::default();
		}
		debug!("Rendering source of length: {}", source.len());
		let key = (source.as_ptr() as usize, source.len());
		LAST.with_borrow_mut(|last| {
			if (last.0, last.1) != key || source.is_empty() {
				let source = source.replace("\\r\\n", "\\n").replace('\\r', "\\n");
				let html = Self::render_nested(&source, &Context::default());
				*last = (key.0, key.1, html);
			}
			last.2.clone()
		})''')]
DEMO_FILES={"demo.sh":'''#!/bin/bash
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
D=$(mktemp -d); trap 'rm -rf -- "$D"' EXIT
mkdir -p "$D/p/src"
cat > "$D/p/Cargo.toml" <<X
[package]
name = "p"
version = "0.0.0"
edition = "2021"
[dependencies]
gfm = { path = "$PWD/gfm", package = "$(sed -n 's/^name *= *"\\(.*\\)"/\\1/p' gfm/Cargo.toml | head -1)" }
[workspace]
X
cp Cargo.lock "$D/p/"
cat > "$D/p/src/main.rs" <<'X'
fn main() {
    let docs = ["# one\\n", "- two\\n", "> six\\n"];
    let fresh: Vec<String> = docs.iter().map(|d| gfm::Parser::render(&format!("{d}"))).collect();
    let mut buffer = String::with_capacity(64);
    for _ in 0..2 {
        for (d, w) in docs.iter().zip(&fresh) {
            buffer.clear();
            buffer.push_str(d);
            let h = gfm::Parser::render(&buffer);
            if !h.contains(d[2..].trim()) || &h != w { println!("{d:?} gave {h:?}"); std::process::exit(1) }
        }
    }
}
X
cargo build --offline -q --manifest-path "$D/p/Cargo.toml" --target-dir "$D/t" 2>"$D/err" || { tail -5 "$D/err"; exit 2; }
"$D/t/debug/p"
'''}
