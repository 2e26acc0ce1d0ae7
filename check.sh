#!/bin/bash
# check.sh ID quick|thorough [--replay FILE] [--only SCENARIO] [--threads N]
# Builds the checks from /repo's current tree and runs one of them.
# check.sh --build builds everything.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$root"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$root/target"
export RUSTFLAGS="--cfg rexecutor_verif --cfg tokio_unstable"
export CARGO_NET_OFFLINE=true
build() {
  local log="$root/target/build-$1.log"
  mkdir -p "$root/target"
  if [ "$1" = pg ]; then
    # Cargo does not notice files which are added here.
    local sum
    sum="$(cd /repo/rexecutor-sqlx && find migrations .sqlx -type f 2>/dev/null | LC_ALL=C sort | xargs -r sha256sum | sha256sum)"
    if [ -e "$root/target/migrations.sum" ] && [ "$sum" != "$(cat "$root/target/migrations.sum")" ]; then
      (cd "$root/pg" && cargo clean --offline --locked -p rexecutor-sqlx) >/dev/null 2>&1
    fi
    echo "$sum" >"$root/target/migrations.sum"
  fi
  if ! (cd "$root/$1" && cargo build --offline --locked) >"$log" 2>&1; then
    cat "$log"
    echo "the checks can not be built"
    exit 2
  fi
}
case "${1:-}" in
  --build)
    build core
    [ -d "$root/pg" ] && build pg
    exit 0
    ;;
  C20|C21|C22|C23|C24|C26|C27) crate=pg ;;
  *) crate=core ;;
esac
build "$crate"
ulimit -v 26000000
exec "$root/target/debug/mc-$crate" "$@"
