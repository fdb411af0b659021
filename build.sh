#!/bin/bash
# Builds the harness against /repo's working tree. Usage: build.sh [ID]
# Prints the binary to run. A check that does not use some library crate still builds
# when an interface of that crate has changed.
export CARGO_TERM_COLOR=never CARGO_TERM_QUIET=true
root="$(cd "$(dirname "$0")" && pwd)"
id="$1"
log="$root/out/build.log"
mkdir -p "$root/out"
build() { # target directory, further arguments
    local t="$root/target/$1"
    shift
    cargo build --locked --offline --manifest-path "$root/harness/Cargo.toml" --target-dir "$t" "$@" >"$log" 2>&1 || return 1
    echo "$t/debug/vharness"
}
build h && exit 0
case "$id" in
"") ;;
C03|C04) build h-lexer --no-default-features --features lexer && exit 0 ;;
C14|C15|C26) build h-parser --no-default-features --features parser && exit 0 ;;
C16|C17|C18) build h-input --no-default-features --features input && exit 0 ;;
C25) build h-codegen --no-default-features --features codegen && exit 0 ;;
*) build h-public --no-default-features && exit 0 ;;
esac
tail -40 "$log" >&2
exit 2
