#!/bin/bash
# Builds the simulator against /repo's current working tree into /verif/build/<flavour>.
# usage: build.sh [plain|san ...]   (default: both)
set -u
export LC_ALL=C
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${SIM_REPO:-/repo}
OUT=${SIM_BUILD:-$(dirname "$HERE")/build}
mkdir -p "$OUT"
exec 9>"$OUT/.lock"
flock 9
FLAVOURS=${*:-plain san}
hash=$( { cat "$HERE"/*.[ch]pp "$HERE"/*.[ch] "$HERE/build.sh" "$HERE"/stub/*.h "$HERE"/stub/*/*.h; find "$REPO/src/embedDB" "$REPO/src/spline" "$REPO/src/query-interface" "$REPO/lib/EmbedDB-Utility" "$REPO/lib/Desktop-File-Interface" "$REPO/lib/Distribution" "$REPO/lib/SD-File-Interface" "$REPO/lib/SD-Wrapper" "$REPO/lib/SdFat/src/FatLib" "$REPO/lib/SdFat/src/common" "$REPO/lib/SdFat/src/SdFatConfig.h" "$REPO/lib/Serial-Wrapper" "$REPO/lib/Dataflash-File-Interface" "$REPO/lib/Dataflash-Wrapper" \( -name '*.[ch]' -o -name '*.cpp' \) | sort | xargs -I{} sh -c 'echo {}; cat {}'; } | sha256sum | cut -d' ' -f1)
LIBC="malloc calloc realloc free printf puts putchar fprintf fopen fclose fread fwrite fseek fseeko ftell rewind fflush ferror feof clearerr"
REDEF=""
for f in $LIBC; do REDEF="$REDEF --redefine-sym $f=sim_$f"; done
REDEF="$REDEF --redefine-sym _Znwm=sim_new --redefine-sym _ZdlPv=sim_delete --redefine-sym _ZdlPvm=sim_delete2 --redefine-sym millis=sim_millis --redefine-sym yield=sim_yield --redefine-sym serial_printf_c=sim_serial_printf"
for fl in $FLAVOURS; do
    D=$OUT/$fl
    if [ "$(cat "$D/stamp" 2>/dev/null)" = "$hash" ] && [ -x "$D/sim" ]; then continue; fi
    T=$OUT/.tmp.$fl
    rm -rf "$T"
    mkdir -p "$T"
    case $fl in
        plain) F="-O1 -g" ; L="-static";;
        san) F="-O1 -g -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=undefined -fno-omit-frame-pointer" ; L="-fsanitize=address,undefined" ;;
        cov) F="-O0 -g --coverage" ; L="--coverage" ;;
        *) echo "unknown flavour $fl"; exit 2 ;;
    esac
    CF="$F -w -U_FORTIFY_SOURCE -fno-builtin-printf -fno-common -std=gnu11 -fno-strict-aliasing"
    fail=0
    build_variant() { # name, include dirs, defines, sources...
        local v=$1 inc=$2 def=$3 objs="" ; shift 3
        local pids=""
        for s in "$@"; do
            o=$T/$v.$(echo "$s" | tr '/' '_').o
            case $s in
                *.cpp) g++ ${CF/-std=gnu11/-std=gnu++17} $inc $def -I"$HERE" -c "$s" -o "$o" & ;;
                *) gcc $CF $inc $def -I"$HERE" -c "$s" -o "$o" & ;;
            esac
            pids="$pids $!"
            objs="$objs $o"
        done
        for p in $pids; do wait $p || return 1; done
        ld -r --force-group-allocation -o "$T/$v.rel.o" $objs || return 1
        objcopy $REDEF "$T/$v.rel.o" "$T/$v.ren.o" || return 1
        objcopy --keep-global-symbol=simapi_$v "$T/$v.ren.o" "$T/$v.o"
    }
    SRCS=$(find "$REPO/src/embedDB" "$REPO/src/spline" "$REPO/src/query-interface" "$REPO/lib/EmbedDB-Utility" "$REPO/lib/Desktop-File-Interface" -name '*.c' | sort)
    SI="-I$REPO/src -I$REPO/src/embedDB -I$REPO/src/spline -I$REPO/src/query-interface -I$REPO/lib/EmbedDB-Utility -I$REPO/lib/Desktop-File-Interface"
    DSRC=$(find "$REPO/lib/Distribution" "$REPO/lib/Desktop-File-Interface" -name '*.c' | sort)
    DI="-I$REPO/lib/Distribution -I$REPO/lib/Desktop-File-Interface"
    ( build_variant src "$SI" "-DPRINT_ERRORS" $SRCS "$HERE/adapter.c" ) & p1=$!
    ( build_variant dist "$DI" "-DDIST" $DSRC "$HERE/adapter.c" ) & p2=$!
    SDSRC=$(ls "$REPO"/lib/SD-File-Interface/*.c "$REPO"/lib/SD-Wrapper/*.cpp "$REPO"/lib/SdFat/src/FatLib/*.cpp "$REPO"/lib/SdFat/src/common/*.cpp | grep -v FatDbg)
    SDI="-I$HERE/stub -I$REPO/lib/SD-File-Interface -I$REPO/lib/SD-Wrapper -I$REPO/lib/SdFat/src -I$REPO/lib/Serial-Wrapper -I$REPO/src/embedDB"
    ( build_variant sd "$SDI" "-DARDUINO=100" $SDSRC "$HERE/drv_sd.cpp" ) & p3=$!
    DFSRC=$(ls "$REPO"/lib/Dataflash-File-Interface/*.c "$REPO"/lib/Dataflash-Wrapper/*.cpp)
    DFI="-I$HERE/stub -I$REPO/lib/Dataflash-File-Interface -I$REPO/lib/Dataflash-Wrapper -I$REPO/lib/Serial-Wrapper"
    ( build_variant df "$DFI" "" $DFSRC "$HERE/drv_df.c" ) & p4=$!
    pids="$p1 $p2 $p3 $p4"
    SF="$F"
    [ $fl = cov ] && SF="-O1 -g"
    [ $fl = san ] && SF="$F -fno-sanitize=nonnull-attribute"
    for s in main exec exec_query exec_drv gen disk; do
        g++ $SF -std=gnu++17 -Wall -Wno-format-truncation -c "$HERE/$s.cpp" -o "$T/$s.o" & pids="$pids $!"
    done
    for p in $pids; do wait $p || fail=1; done
    [ $fail = 0 ] || { echo "build of $fl failed"; exit 2; }
    g++ $L -o "$T/sim" "$T"/main.o "$T"/exec.o "$T"/exec_query.o "$T"/exec_drv.o "$T"/gen.o "$T"/disk.o "$T/src.o" "$T/dist.o" "$T/sd.o" "$T/df.o" || { echo "link of $fl failed"; exit 2; }
    mkdir -p "$D"
    mv -f "$T/sim" "$D/sim"
    [ $fl = cov ] && cp -f "$T"/*.gcno "$D/" 2>/dev/null
    echo "$hash" > "$D/stamp"
    [ $fl = cov ] || rm -rf "$T"
done
exit 0
