#!/bin/bash
# usage: check.sh <property>        build from /repo's working tree and run one check (VERIF_SEED, VERIF_TIER)
#        check.sh replay <file>     re-execute a replay file with its trace
#        check.sh show <property> <run>   trace one seeded run
#        check.sh build             only build
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
export DST_ROOT=${DST_ROOT:-$here}
export RUSTC_WRAPPER=$here/sim/rustc-wrap.sh
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
unset CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
mkdir -p "$here/build"

# Cargo looks at time stamps; a changed tree is recognised by content here.
source_hash() {
  (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum
   cd "$here/sim" && find . -type f \( -name '*.rs' -o -name '*.sh' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1
}
build() { # $1: hooks on (1) or off (0), $2: -le for the library's little-endian option
  export DST_HOOKS=$1 CARGO_TARGET_DIR=$here/build/target-$1$2
  local le=(); [ -n "$2" ] && le=(--features le)
  bin=$CARGO_TARGET_DIR/debug/dst
  local h; h=$(source_hash)
  if [ "$(cat "$CARGO_TARGET_DIR/.sources" 2>/dev/null)" != "$h" ] || [ ! -x "$bin" ]; then
    (cd "$here/sim" && cargo clean --offline -q -p lcms2 -p sut -p dst 2>/dev/null
     cargo build --offline --locked -q "${le[@]}") >"$here/build/build-$1$2.log" 2>&1 || { rm -f "$CARGO_TARGET_DIR/.sources"; return 1; }
    echo "$h" >"$CARGO_TARGET_DIR/.sources"
  fi
}
exec 9>"$here/build/.lock"
flock 9
make_one() { # $1: as $2 of build
  build 1 "$1" && return
  echo "check.sh: the build with hooks fails, trying without (see build/build-1$1.log)" >&2
  build 0 "$1" && return
  grep -E -A8 '^error' "$here/build/build-0$1.log" | head -40 >&2
  echo "check.sh: /repo does not build" >&2
  exit 2
}
# C20 is about the library built with its little-endian option.
case "$1 $2" in
  build*) make_one ""; make_one -le ;;
  C20*|"show C20") make_one -le ;;
  replay*) if grep -q '^property C20' "$2"; then make_one -le; else make_one ""; fi ;;
  *) make_one "" ;;
esac
flock -u 9
exec 9>&-
case "$1" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  show) exec "$bin" show "$2" "$3" ;;
  *) exec "$bin" check "$1" ;;
esac
