#!/bin/bash
# Builds everything the checks need from the committed files and /repo.
root="$(cd "$(dirname "$0")" && pwd)"
bash "$root/build.sh" >/dev/null || exit 1
cargo build --locked --offline -q --manifest-path /repo/lapex-cli/Cargo.toml --target-dir "$root/target/cli" >"$root/out/cli.log" 2>&1 || { tail -40 "$root/out/cli.log"; exit 1; }
