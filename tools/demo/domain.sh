# Starts a small application in a scratch directory. To be sourced; needs R (repository) and D (this folder).
# server SRC NAME: compiles a server; boot "ubb text": loads and boots; then run clients; stop is automatic
T=$(mktemp -d) || exit 99
export TUXDIR=$T/tux TUXCONFIG=$T/tuxconfig
mkdir -p "$T/tux/bin" "$T/app"
B=$R/_build/src
export LD_LIBRARY_PATH=$B/.libs:$B
for t in BBL TMS tmboot tmshutdown tmipcrm tmloadcf; do
  x=$B/.libs/$t; [ -x "$x" ] || x=$B/$t
  printf '#!/bin/bash\nexec "%s" "$@"\n' "$x" > "$T/tux/bin/$t"; chmod +x "$T/tux/bin/$t"
done
export PATH=$T/tux/bin:$PATH
KEY=$((20000 + $$ % 40000))
cc1() { g++ -std=gnu++17 -g -w -I"$R/include" -I"$R/src" -I"$R/third_party" -I"$R/_build/src" -o "$2" "$D/$1" $3 "$B/.libs/libfuxedo.a" -lstdc++fs -lpthread -ldl || exit 98; }
cleanup() {
  cd "$T/app"
  timeout 20 tmshutdown -y > /dev/null 2>&1
  pkill -9 -f "$T/" 2>/dev/null
  for p in $(pgrep -f "^BBL -g" 2>/dev/null); do [ "$(readlink /proc/$p/cwd)" = "$T/app" ] && kill -9 $p; done
  for p in $(ps -eo pid= ); do [ "$(readlink /proc/$p/cwd 2>/dev/null)" = "$T/app" ] && [ $p != $$ ] && [ $p != $BASHPID ] && kill -9 $p 2>/dev/null; done
  timeout 20 tmipcrm -y > /dev/null 2>&1
  cd /
  rm -rf "$T"
}
trap cleanup EXIT
boot() {
  cd "$T/app"
  printf '%s\n' "*RESOURCES" "MASTER tux1" "MODEL SHM" "IPCKEY $KEY" "$RES" "*MACHINES" "\"host\" LMID=tux1 TUXCONFIG=\"$TUXCONFIG\" TUXDIR=\"$TUXDIR\" APPDIR=\"$T/app\"" "*GROUPS" "$GRP" "*SERVERS" "$SRV" "*SERVICES" | sed '/^$/d' > ubb
  tmloadcf -y ubb || exit 97
  timeout 60 tmboot -y > boot.log 2>&1 || { cat boot.log; exit 96; }
}
