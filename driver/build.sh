#!/bin/bash
# builds the MIR dumper with the installed nightly; output in /verif/driver/target (git-ignored)
set -e
cd "$(dirname "$0")"
mkdir -p target
SYS=$(rustc +nightly --print sysroot)
STAMP="$(rustc +nightly -V) $(sha256sum main.rs | cut -d' ' -f1)"
[ -x target/mirdump ] && [ "$(cat target/stamp 2>/dev/null)" = "$STAMP" ] && exit 0
rustc +nightly --edition 2021 -O -o target/mirdump.$$ main.rs -C link-arg=-Wl,-rpath,"$SYS/lib"
mv target/mirdump.$$ target/mirdump
echo "$STAMP" > target/stamp
