# sourced by demo.sh: compiles the demonstration against the built library
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
INC="-I$REPO/buildcc"
for d in $(find "$REPO/buildcc" -type d -name include -not -path '*/mock/*'); do INC="$INC -I$d"; done
compile() { # compile <src> <out> [extra]
  g++ -std=gnu++17 -w -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB $INC \
    "$HERE/$1" "${@:3}" "$REPO/_build/buildcc/libbuildcc.a" -lfmt -lspdlog -pthread -o "$2" || { echo "cannot compile the demonstration"; exit 2; }
}
fail() { echo "FAIL: $*"; exit 1; }
