# sourced by demo.sh; cwd is the repository, $here the demo's folder
set -e
B="$PWD/_build"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
CXXF="-std=c++20 -g -O1 -pthread -DFMT_CONSTEVAL= -DASIO_STANDALONE -DPERF_COUNT -w"
for h in algorithm functional iomanip map memory optional set sstream string tuple unordered_map unordered_set vector; do
  CXXF="$CXXF -include $h"
done
INC="-I$B/overlay/include -I$B/overlay -I$B/overlay/src -I$PWD/src -I$PWD/include -I/usr/share/verilator/include/vltstd -I/usr/src/googletest/googletest/include -I$B/src -I$here"
# the demo together with the library's sources; the demo's definitions of DebugServer::send win
build() {  # demo source, sanitizer ("" for none)
  local san="" i=0 pids="" objs=""
  [ -n "$2" ] && san="-fsanitize=$2"
  for s in "$1" src/*.cc tests/vpi_dummy.cc; do
    case "$s" in
      src/db.cc|src/symbol.cc) s="$B/overlay/$s" ;;
    esac
    i=$((i + 1))
    ${CXX:-clang++-18} $CXXF $san $INC -c "$s" -o "$T/$i.o" &
    pids="$pids $!"; objs="$objs $T/$i.o"
  done
  for p in $pids; do wait $p; done
  clang++-18 $san -pthread -Wl,-z,muldefs $objs -o "$T/demo" -lfmt -lsqlite3
}
