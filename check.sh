#!/bin/bash
# Usage: check.sh <property> quick|thorough
#        check.sh <property> replay <space> <choices>
#        check.sh setup
# Builds the model checker against /repo's working tree, and runs it.
set -u
dir=$(cd "$(dirname "$0")" && pwd)
unset MC_WASM SOURCE_DATE_EPOCH RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUST_BACKTRACE CARGO_BUILD_RUSTFLAGS
export CARGO_NET_OFFLINE=true MC_VERIF="$dir" CARGO_TERM_COLOR=never
id=${1:?property}
build() {
	# A build that fails for want of a resource is tried once more
	local log="$dir/mc/target/build.log"
	mkdir -p "$dir/mc/target"
	"$@" >"$log" 2>&1 || "$@" >"$log" 2>&1 || {
		cat "$log" >&2
		echo "check.sh: cannot build; no verdict" >&2
		exit 2
	}
}
case $id in C25) ;; *)
	build cargo build --release --offline --locked --manifest-path "$dir/mc/Cargo.toml" --target-dir "$dir/mc/target"
	;;
esac
case $id in C04 | setup)
	build cargo build --release --offline --locked --manifest-path "$dir/nostd/Cargo.toml" --target-dir "$dir/nostd/target"
	;;
esac
case $id in C12 | setup)
	build cargo build --release --offline --locked --manifest-path "$dir/shims/Cargo.toml" --target-dir "$dir/shims/target" --bin nofeature
	build env RUSTFLAGS='--cfg getrandom_backend="custom"' cargo build --release --offline --locked --manifest-path "$dir/shims/Cargo.toml" \
		--target-dir "$dir/shims/target/entropy" --bin entropy --features epoch
	;;
esac
case $id in C24 | C25 | setup)
	web="--release --offline --target-dir $dir/shims/target --bin webapi"
	cargo build $web --locked --manifest-path "$dir/shims/Cargo.toml" 2>/dev/null || build bash "$dir/shims/fallback.sh" "$dir/shims" cargo build $web
	;;
esac
case $id in C24 | setup)
	# The same for WebAssembly. What the rest of the check needs is above
	mkdir -p "$dir/wasm/target"
	if bash "$dir/wasm/build.sh" >"$dir/wasm/target/build.log" 2>&1; then
		export MC_WASM="$dir/wasm/target/wasm32-unknown-unknown/release/wasm.wasm"
	fi
	;;
esac
case $id in C17 | setup)
	# The command line tool with the profile that builds in the least time
	build env CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_PROFILE_RELEASE_PANIC=unwind \
		cargo build --release --offline --locked --manifest-path /repo/Cargo.toml -p optivorbis_cli --target-dir "$dir/target"
	;;
esac
case $id in C22 | setup)
	# The model checker itself, with every atomic operation turned into a call of mc/src/hooks.rs
	build env RUSTFLAGS="--cfg mc_sched -Cpasses=function(tsan) -Cllvm-args=-tsan-instrument-func-entry-exit=0" \
		cargo build --release --offline --locked --manifest-path "$dir/mc/Cargo.toml" --target-dir "$dir/mc/target/sched" \
		--target x86_64-unknown-linux-gnu
	export MC_SCHED="$dir/mc/target/sched/x86_64-unknown-linux-gnu/release/mc"
	;;
esac
export MC_NOFEATURE="$dir/shims/target/release/nofeature" MC_ENTROPY="$dir/shims/target/entropy/release/entropy" MC_WEBAPI="$dir/shims/target/release/webapi"
export MC_NOSTD="$dir/nostd/target/release/nostd" MC_CLI="$dir/target/release/optivorbis"
[ "$id" = setup ] && exit 0
if [ "$id" = C25 ]; then
	exec node "$dir/webui/main.js" "${@:2}"
fi
exec "$dir/mc/target/release/mc" "$@"
