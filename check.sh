#!/bin/bash
# check.sh PROPERTY quick|thorough: decides one property on the current tree of /repo
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
prop=$1; tier=${2:-quick}; shift; shift
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR
mkdir -p build evidence
# the analyser
(cd engine && cargo build --offline --locked --release --target-dir "$V/build/engine") >build/engine.log 2>&1 &
engine=$!
# the compiler's intermediate representation of the current tree
ir() {
	rm -rf "$V/build/$1"
	flags=$(printf -- '--emit=llvm-ir\x1f-Cno-vectorize-loops\x1f-Cno-vectorize-slp\x1f-Ccodegen-units=1')
	for f in "${@:2}"; do flags=$(printf -- '%s\x1f%s' "$flags" "$f"); done
	(cd "$V/harness" && CARGO_ENCODED_RUSTFLAGS=$flags cargo build --offline --locked --release --target x86_64-unknown-linux-gnu --target-dir "$V/build/$1") >"$V/build/$1.log" 2>&1
}
ir ir-rel & p1=$!
if [ "$prop" = P14 ]; then ir ir-ovf -Coverflow-checks=on -Cdebug-assertions=on & p2=$!; else p2=$p1; fi
wait $engine || { tail -20 build/engine.log; echo "the analyser does not build"; exit 2; }
wait $p1 || { tail -20 build/ir-rel.log; echo "the library does not build"; exit 2; }
[ $p2 = $p1 ] || wait $p2 || { tail -20 build/ir-ovf.log; echo "the library does not build"; exit 2; }
exec "$V/build/engine/release/engine" --verif "$V" --prop "$prop" --tier "$tier" "$@"
