#!/bin/bash
# cwd: the repository, built with build.sh. Builds demo.cpp against it and runs it; exit 0 = behaves, 1 = broken.
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
INC=(-I "$R/iceoryx_posh/include" -I "$R/iceoryx_posh/experimental/include" -I "$R/iceoryx_binding_c/include"
     -I "$R/iceoryx_posh/roudi_env/include" -I "$R/iceoryx_posh/testing/include" -I "$R/iceoryx_hoofs/testing/include"
     -I "$R/iceoryx_platform/linux/include" -I "$R/iceoryx_platform/generic/include")
while read -r i; do INC+=(-I "$i"); done < <(find "$R/iceoryx_hoofs" "$R/_build/generated" -type d -name include -not -path '*/test/*' -not -path '*/testing/*')
LIBS=()
for l in posh/roudi_env/libiceoryx_posh_roudi_env.a posh/libiceoryx_posh_roudi.a posh/libiceoryx_posh_config.a iceoryx_binding_c/libiceoryx_binding_c.a posh/libiceoryx_posh_gateway.a posh/libiceoryx_posh.a hoofs/libiceoryx_hoofs.a platform/libiceoryx_platform.a; do
    [ -f "$R/_build/$l" ] && LIBS+=("$R/_build/$l")
done
g++ -std=c++17 -O2 -g -pthread $DEMO_FLAGS "${INC[@]}" "$D/demo.cpp" -o "$W/demo" -Wl,--start-group "${LIBS[@]}" -Wl,--end-group -lacl -lrt -lpthread -latomic || exit 2
cd "$W" && timeout 240 ./demo
