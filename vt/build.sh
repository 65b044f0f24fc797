#!/bin/bash
# Builds /repo's working tree with the repository's own Makefile in a synchronised copy under
# /verif/.build (git-ignored), with AddressSanitizer, and links the fork-server harness against
# the same objects.  Usage: vt/build.sh [asan]   Prints nothing on success.
set -eu
export HOME=/root LC_ALL=C.UTF-8 PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
V=$(cd "$(dirname "$0")/.." && pwd)
R=${VT_REPO:-/repo}
VARIANT=${1:-asan}
D=${VT_BUILD:-$V/.build}/$VARIANT
B=$D/src-copy-with-a-rather-long-directory-name
mkdir -p "$B"
exec 9>"$D/lock"; flock 9
rsync -rlpc --delete \
    --exclude=/.git --exclude=/_build --exclude=/.depend --exclude=/make.conf \
    --exclude=/src/parser.h --exclude=/src/parser.c --exclude=/src/parser.output --exclude=/src/parser.tab.\* \
    --exclude='/src/*.o' --exclude='/src/*.d' --exclude='/miniz/*.o' --exclude='/miniz/*.d' \
    --exclude=/jsrun --exclude=/jsrun.o --exclude=/apiops.o --exclude=/optcmd.o --exclude=/jsish --exclude=/jsish_ --exclude=/jsimin \
    --exclude=/libjsi.\* --exclude=/.stamp --exclude=/jsrun.stamp \
    "$R/" "$B/"
cd "$B"
sed -e 's/^WITH_EXT_WEBSOCKET=1/WITH_EXT_WEBSOCKET=0/' \
    -e 's/^BUILDIN_\(.*\)=1/BUILDIN_\1=0/' \
    -e 's/-DJSI__WEBSOCKET=1/-DJSI__WEBSOCKET=0/' \
    Configs/make_default.conf > make.conf.new
cmp -s make.conf.new make.conf || cp make.conf.new make.conf
rm make.conf.new
echo '-include $(wildcard src/*.d miniz/*.d)' > .depend
case $VARIANT in
asan)  CC=clang; SAN="-fsanitize=address -fno-omit-frame-pointer -O1 -Wno-everything";;
plain) CC=gcc;   SAN="-O1 -w";;
*) echo "unknown variant $VARIANT"; exit 2;;
esac
rm -f zhash.txt jsish jsish_ jsishs jsimin
export CFLAGS="-MMD -MP"
export ASAN_OPTIONS=detect_leaks=0
MK="make CC=$CC SQLITELIB= EXTRALD=-lsqlite3"
if ! { $MK OPTS="$SAN" src/parser.c && $MK -j8 OPTS="$SAN" libjsi.so && $MK OPTS="$SAN" all; } >"$D/log" 2>&1; then
    tail -30 "$D/log" | cut -c1-300; exit 2
fi
test -x jsish
# the harness
L="-Wl,--export-dynamic -rdynamic -Wl,--wrap=gettimeofday,--wrap=usleep,--wrap=sleep -lsqlite3 -lm -lz -ldl -lpthread"
if ! { $CC $SAN -g -w -I src -DJSI__SQLITE=1 -c "$V/harness/jsrun.c" -o jsrun.o &&
  $CC $SAN -g -w -I src -c "$V/harness/apiops.c" -o apiops.o &&
  $CC $SAN -g -w -I src -c "$V/harness/optcmd.c" -o optcmd.o &&
  $CC $SAN -g -o jsrun.new jsrun.o apiops.o optcmd.o $(ls src/*.o miniz/miniz.o | grep -vxF -e src/main.o -e src/jsi.o) $(echo $L | sed s/-lz//) ; } >>"$D/log" 2>&1; then
    tail -30 "$D/log" | cut -c1-300; exit 2
fi
cat > "$D/env" <<X
DIR=$B
X
# same module archive as jsish carries, so that lib/ modules are found the same way
if [ -d zipdir/lib ]; then
  mv jsrun.new jsrun
  ./jsimin lib/Zip.jsi create jsrun zipdir lib >>"$D/log" 2>&1 || { tail -5 "$D/log"; exit 2; }
else
  mv jsrun.new jsrun
fi
