#!/bin/bash
# ./check.sh <property> <quick|thorough>: build against /repo's current tree and decide one property.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-quick}"
export VERIF_ROOT="$here" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/mc/target"
cd "$here/mc" || exit 2
mkdir -p "$here/replay" "$here/evidence"
log="$here/replay/$id-build.log"
case "$id" in
  C17) pkg=opts ;;
  C21) pkg=forms ;;
  *) pkg=checks ;;
esac
feat=()
[ "$tier" = thorough ] && feat=(--features wide)
if ! cargo build --offline -p "$pkg" "${feat[@]}" >"$log" 2>&1; then
  # C17: the derives have to compile for every legal combination of options
  if [ "$pkg" = opts ] && cargo build --offline -p mcore >>"$log" 2>&1 && grep -q "could not compile .opts" "$log"; then
    grep -E "^error" -A6 "$log" | head -40
    echo "VIOLATION property=$id replay=$log"
    exit 1
  fi
  # C15: types that borrow have to compile, whatever their lifetimes
  if [ "$id" = C15 ] && cargo build --offline -p mcore >>"$log" 2>&1 && grep -q "could not compile .checks" "$log" &&
    grep -qE "^error.*(lifetime|borrow|reference|outlive)|^error: lifetime" "$log" && grep -q "derive macro .FromXml" "$log"; then
    grep -E "^error" -A6 "$log" | head -40
    echo "VIOLATION property=$id replay=$log"
    exit 1
  fi
  tail -40 "$log"
  echo "check error: build failed, see $log"
  exit 2
fi
exec "$here/mc/target/debug/$pkg" "$id" "$tier"
