#!/bin/bash
# Builds the WebAssembly interface for WebAssembly. The standard library has to be built, too, and
# nothing can be fetched, so the sources that are here are put in one directory.
# Fails if that is not possible.
set -eu
dir=$(cd "$(dirname "$0")" && pwd)
out="$dir/target"
std="$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library/vendor"
mkdir -p "$out"
python3 - "$dir/Cargo.lock" "$std" "$out/vendor" "${CARGO_HOME:-$HOME/.cargo}/registry" <<'P'
import glob, json, os, re, sys, tarfile
lock, std, vendor, registry = sys.argv[1:]
os.makedirs(vendor, exist_ok=True)
for d in os.listdir(std):
    to = os.path.join(vendor, d)
    if not os.path.lexists(to):
        os.symlink(os.path.join(std, d), to)
for name, version, checksum in re.findall(r'\[\[package\]\]\nname = "(.*?)"\nversion = "(.*?)"\nsource = .*\nchecksum = "(.*?)"', open(lock).read()):
    to = os.path.join(vendor, f"{name}-{version}")
    if os.path.exists(to):
        continue
    src = glob.glob(f"{registry}/src/*/{name}-{version}")
    if src:
        os.makedirs(to)
        for f in os.listdir(src[0]):
            os.symlink(os.path.join(src[0], f), os.path.join(to, f))
    else:
        crate = glob.glob(f"{registry}/cache/*/{name}-{version}.crate")
        tarfile.open(crate[0]).extractall(vendor, filter="data")
    sums = os.path.join(to, ".cargo-checksum.json")
    if os.path.lexists(sums):
        os.remove(sums)
    json.dump({"files": {}, "package": checksum}, open(sums, "w"))
P
export RUSTFLAGS='--cfg getrandom_backend="custom"'
build="cargo +nightly build --release --offline --target-dir $out --target wasm32-unknown-unknown -Zbuild-std=std,panic_abort
	--config source.crates-io.replace-with=\"here\" --config source.here.directory='$out/vendor'"
$build --locked --manifest-path "$dir/Cargo.toml" >&2 || bash "$dir/../shims/fallback.sh" "$dir" $build >&2
test -f "$out/wasm32-unknown-unknown/release/wasm.wasm"
