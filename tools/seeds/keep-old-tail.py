PROPERTY="C29"
NEEDS="an earlier file of the same name that is longer than what is written"
BREAKS="bytes are written over the old file without cutting it, so that the tail of the longer old content stays"
EDITS=[("smd-core/src/fs.rs",'''	debug!("Attempting to write file: {}", path_str);

	let mut file = File::create(path)?;
	match file.write_all(bytes) {''','''	debug!("Attempting to write file: {}", path_str);

	// Open the file in place so that its permissions and links are kept
	let mut file = fs::OpenOptions::new()
		.write(true)
		.create(true)
		.truncate(!path.exists())
		.open(path)?;
	match file.write_all(bytes) {''')]
DEMO_FILES={"demo.sh":'''#!/bin/bash
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
D=$(mktemp -d); trap 'rm -rf -- "$D"' EXIT
mkdir -p "$D/p/src"
cat > "$D/p/Cargo.toml" <<X
[package]
name = "p"
version = "0.0.0"
edition = "2021"
[dependencies]
smd_core = { path = "$PWD/smd-core", package = "$(sed -n 's/^name *= *"\\(.*\\)"/\\1/p' smd-core/Cargo.toml | head -1)" }
[workspace]
X
cp Cargo.lock "$D/p/"
cat > "$D/p/src/main.rs" <<'X'
fn main() {
    let p = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    for (old, new) in [(300, 20), (20, 300), (5, 5), (70000, 1), (1, 0)] {
        std::fs::write(&p, vec![b'o'; old]).unwrap();
        let bytes = vec![b'n'; new];
        smd_core::fs::write_bytes(&p, &bytes).unwrap();
        if std::fs::read(&p).unwrap() != bytes { println!("{old} then {new}: not what was written"); std::process::exit(1) }
    }
}
X
cargo build --offline -q --manifest-path "$D/p/Cargo.toml" --target-dir "$D/t" 2>"$D/err" || { tail -5 "$D/err"; exit 2; }
"$D/t/debug/p" "$D/f"
'''}
