# Sourced by demo.sh, with cwd = the facebook/wdt checkout.  Compiles what a demo needs
# against the small folly stand-in beside it, inside a scratch directory.
R=$PWD
T=$(mktemp -d /tmp/wdtdemo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" "$T/gen/wdt" "$T/obj"
ln -s "$R" "$T/src/wdt"
sed -e 's/@WDT_VERSION_MAJOR@/1/; s/@WDT_VERSION_MINOR@/32/; s/@WDT_VERSION_PATCH@/1910230/; s/@WDT_VERSION@/1.32.1910230/; s/#cmakedefine \([A-Z0-9_]*\).*/#define \1 1/' "$R/WdtConfig.h.in" > "$T/gen/wdt/WdtConfig.h"
CXXF="-std=c++17 -O0 -g1 -w -pthread -include $H/shim/prelude.h -I$T/gen -I$T/src -I$H/shim $EXTRA"
# demo_build: all of core (except main programs) + $H/demo.cpp -> $T/demo
demo_build() {
  ls "$R"/*.cpp "$R"/util/*.cpp | grep -v wdtCmdLine | xargs -P 8 -I{} sh -c 'g++ '"$CXXF"' -c {} -o '"$T"'/obj/$(basename {}).o || exit 255' || { echo "demo: build failed"; exit 3; }
  g++ $CXXF "$H/demo.cpp" "$T"/obj/*.o -o "$T/demo" $EXTRA -lglog -lgflags -lcrypto -lssl -ldl || { echo "demo: link failed"; exit 3; }
}
# cli_build: the wdt program -> $T/wdt
cli_build() {
  ls "$R"/*.cpp "$R"/util/*.cpp | xargs -P 8 -I{} sh -c 'g++ '"$CXXF"' -DSTANDALONE_APP -c {} -o '"$T"'/obj/$(basename {}).o || exit 255' || { echo "demo: build failed"; exit 3; }
  g++ $CXXF "$T"/obj/*.o -o "$T/wdt" $EXTRA -lglog -lgflags -lcrypto -lssl -ldl || { echo "demo: link failed"; exit 3; }
}
# demo_run SECONDS args...: a crash, a hang and a non-zero exit all count as failing
demo_run() { local t=$1; shift; GLOG_minloglevel=3 GLOG_logtostderr=1 timeout -k 5 "$t" "$@"; }
