#!/bin/sh
# sh check.sh check P01 | replay FILE | seed P N | det P FROM N | build
# Rebuilds the simulator against /repo's working tree and runs it.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
. "$here/env.sh"
unset VIRTUAL_ENV PYO3_PYTHON PYTHONPATH RUSTC_WRAPPER
export PYO3_PYTHON=/usr/bin/python3 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
make() {
    (cd "$here/$1" && cargo build --offline --locked -q) || { echo "the simulator does not build" >&2; exit 2; }
}
case "$1" in
build) make sim && make simdf && make simpy; exit ;;
replay) p=$(sed -n 's/.*"property": *"\(P[0-9]*\)".*/\1/p' "$2" | head -1) ;;
*) p=$2 ;;
esac
case "$p" in
P11) crate=simdf bin=hsimdf ;;
P20) crate=simpy bin=hsimpy ;;
*) crate=sim bin=hsim ;;
esac
make $crate
export HSIM_HOME="$here"
cd "$here" && exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
