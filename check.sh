#!/bin/bash
# check.sh <property> [quick|thorough]   builds the explorer against /repo's current tree and runs one check
# check.sh replay <file>                 shows what the crate and the model say about the text of a replay file
# check.sh build                         builds only
cd /verif/mc || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p target /verif/evidence
exec 9>target/.lock
flock 9
# cargo goes by time stamps; this goes by content
sum=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$sum" != "$(cat target/.sum 2>/dev/null)" ]; then
  rm -f target/.sum
  cargo clean --release --offline -p nom-sparql >/dev/null 2>&1
fi
if ! cargo build --release --offline >target/.log 2>&1; then
  grep -E '^error' -A8 target/.log | head -60
  echo "HARNESS-ERROR the explorer does not build against /repo"
  exit 2
fi
echo "$sum" >target/.sum
flock -u 9
exec 9>&-
case "$1" in
  build) exit 0 ;;
  replay) exec python3 /verif/tools/replay.py "$2" ;;
  *) exec target/release/mc check "$1" "${2:-quick}" ;;
esac
