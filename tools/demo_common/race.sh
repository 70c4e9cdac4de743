# Builds core/ (and modules/) of the tree in $PWD with yields at atomic operations and links demo.c.
# usage: . race.sh; race_build
race_build() {
    W=$(mktemp -d) && trap 'rm -rf "$W"' EXIT
    ls core/*.c modules/*.c | xargs -P 8 -I{} sh -c 'gcc -c -O1 -g -w -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -DCONFIG_FAST_DISPATCH -D_DEFAULT_SOURCE -D_POSIX_C_SOURCE=200112L -Iinc "$1" -o "$2/$(echo $1 | tr / _).o"' _ {} "$W" &&
    gcc -c -O1 -w "$HERE/yield_rt.c" -o "$W/yield_rt.o" &&
    gcc -c -O1 -g -w -DCONFIG_FAST_DISPATCH -I. "$HERE/demo.c" -o "$W/demo.o" &&
    gcc -o "$W/demo" "$W"/*.o -lpthread -ldl -lm || exit 3
}
