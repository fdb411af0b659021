#!/bin/bash
# check.sh ID [--replay FILE] [--cases N]
root="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$root"
id="$1"
bin="$(bash "$root/build.sh" "$id")" || { echo "check error: the harness does not build against /repo"; exit 2; }
case "$id" in
C19|C20|C23|C24|C27|C29)
    CARGO_TERM_COLOR=never cargo build --locked --offline -q --manifest-path /repo/lapex-cli/Cargo.toml --target-dir "$root/target/cli" >"$root/out/cli.log" 2>&1 || {
        tail -40 "$root/out/cli.log" >&2
        echo "check error: the command line tool does not build"
        exit 2
    } ;;
esac
export LAPEX_CLI="$root/target/cli/debug/lapex-cli"
cd "$root/out" && exec "$bin" "$@"
