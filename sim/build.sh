#!/bin/bash
# Builds the simulator and the library under test from REPO's working tree
# into OUT.  usage: build.sh REPO OUT
set -e
REPO=$1; OUT=$2; SIM=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/obj"
S=$REPO/src
INC="-I$S -I$S/noise_xk/include -I$S/noise_xk/include/karmel -I$S/noise_xk/include/karmel/minimal -I$SIM"
SAN="-fsanitize=address,signed-integer-overflow,bounds -fno-sanitize-recover=all -fno-omit-frame-pointer"
BASE="-O1 -g1 -w -fno-common -fPIC"
pids=()
run() { "$@" & pids+=($!); }
for f in "$S"/*.c; do
  run gcc -c $BASE $SAN $INC "$f" -o "$OUT/obj/lib_$(basename "$f" .c).o"
done
for f in "$S"/noise_xk/src/*.c; do
  run gcc -c $BASE -fsanitize=address -fno-omit-frame-pointer -std=c11 -fwrapv -DWITH_SODIUM -D_DEFAULT_SOURCE -D_BSD_SOURCE $INC "$f" -o "$OUT/obj/noise_$(basename "$f" .c).o"
done
run gcc -c -O1 -g1 -fPIC -Wall "$SIM/pyseam.c" -o "$OUT/pyseam.o"
for f in "$SIM"/*.c; do case "$f" in */pyseam.c|*/pylibc.c) continue;; esac; run gcc -c -O1 -g1 -fsanitize=address -Wall -Wno-misleading-indentation $INC "$f" -o "$OUT/obj/sim_$(basename "$f" .c).o"; done
for f in "$SIM"/*.cpp; do run g++ -std=c++17 -c -O1 -g1 -fsanitize=address -Wall -Wno-misleading-indentation $INC "$f" -o "$OUT/obj/simxx_$(basename "$f" .cpp).o"; done
for p in "${pids[@]}"; do wait "$p"; done
# every libsodium entry point the library uses becomes a possible preemption point
WR="time gettimeofday clock_gettime malloc calloc realloc free sodium_mlock sodium_munlock crypto_sign_keypair crypto_sign_seed_keypair crypto_auth Noise_XK_pack_message_with_conf_level"
YL=$(nm -u "$OUT"/obj/lib_*.o "$OUT"/obj/noise_*.o | awk '{print $2}' | grep -E '^(crypto_|sodium_|randombytes)' | sort -u | grep -vxE 'sodium_mlock|sodium_munlock|sodium_malloc|crypto_sign_keypair|crypto_sign_seed_keypair|crypto_auth|sodium_init' || true)
{
  echo '.text'
  for y in $YL; do
    printf '.globl __wrap_%s\n__wrap_%s:\n push %%rbp\n mov %%rsp,%%rbp\n push %%rdi\n push %%rsi\n push %%rdx\n push %%rcx\n push %%r8\n push %%r9\n call seam_yield\n pop %%r9\n pop %%r8\n pop %%rcx\n pop %%rdx\n pop %%rsi\n pop %%rdi\n pop %%rbp\n jmp __real_%s@PLT\n' $y $y $y
  done
  echo '.section .note.GNU-stack,"",@progbits'
} > "$OUT/yield.s"
gcc -c "$OUT/yield.s" -o "$OUT/obj/yield.o"
L=""; for w in $WR $YL; do L="$L -Wl,--wrap=$w"; done
g++ -fsanitize=address,undefined -o "$OUT/sim" "$OUT"/obj/*.o $L -lsodium -lpthread
# the same objects as a shared library for the scripting interface
gcc -shared -fsanitize=address,undefined -o "$OUT/liboprf-sim.so" "$OUT"/obj/lib_*.o "$OUT"/obj/noise_*.o "$OUT/pyseam.o" \
  -Wl,--wrap=time -Wl,--wrap=gettimeofday -Wl,--wrap=clock_gettime -Wl,--wrap=sodium_mlock -Wl,--wrap=sodium_munlock -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free -lsodium
gcc -shared -fPIC -fno-builtin -O1 -g1 -o "$OUT/libc-sim.so" "$SIM/pylibc.c" -L"$OUT" -l:liboprf-sim.so -Wl,-rpath,"$OUT"
gcc -print-file-name=libasan.so > "$OUT/asan.path"
