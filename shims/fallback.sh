#!/bin/bash
# Builds webapi when the interface refers to what is private to the library, and can't be compiled
# outside of it: with a copy of the library where the interface is public. The argument is the
# directory of the program (this one, or that for WebAssembly), and the rest is the command.
set -eu
dir=$1
shift
copy="$dir/target/copy"
mkdir -p "$copy/repo" "$copy/program"
cp -a /repo/Cargo.toml /repo/Cargo.lock /repo/README.md "$copy/repo/"
cp -r /repo/packages "$copy/repo/"
cp -a "$dir/src" "$dir/Cargo.toml" "$dir/Cargo.lock" "$copy/program/"
sed -i 's/^\(pub(crate) \)\?mod wasm_bindings;/#[allow(missing_docs)] pub mod wasm_bindings;/' "$copy/repo/packages/optivorbis/src/lib.rs"
sed -i 's/^crate-type = .*/crate-type = ["lib"]/' "$copy/repo/packages/optivorbis/Cargo.toml"
sed -i -e "s#\"/repo/packages/optivorbis\"#\"$copy/repo/packages/optivorbis\"#" \
	-e '/^optivorbis/s/default-features = false/&, features = ["wasm-bindings"]/' -e 's/, features = \["wasm-bindings"\], features = \[/, features = ["wasm-bindings", /' "$copy/program/Cargo.toml"
find "$copy/program/src" -name '*.rs' -exec sed -i -e '/^#\[path = .*wasm_bindings.rs"\]$/d' -e 's/^mod wasm_bindings;/use optivorbis::wasm_bindings;/' {} +
"$@" --manifest-path "$copy/program/Cargo.toml"
