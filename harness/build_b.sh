#!/bin/bash
# build_b.sh TARGET INCLUDE SOURCE FLAGS... : the scheduler without instrumentation, the harness with it
set -e
T=$1; INC=$2; SRC=$3; shift 3
H=$(cd "$(dirname "$0")" && pwd)
COV=-fsanitize-coverage=trace-pc-guard
clang++ -std=c++17 -O1 -g1 -w -c "$H/ctl.cpp" -o "$T.ctl.o" &
clang++ -std=c++17 -O1 -g1 -w $COV "$@" -I"$INC" -idirafter "$H/../compat" -I"$H" -c "$H/$SRC" -o "$T.main.o"
wait $!
SAN=$(printf '%s\n' "$@" | grep -e '^-fsanitize=' || true)
clang++ $SAN "$T.ctl.o" "$T.main.o" -o "$T" -lpthread -Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_init,--wrap=pthread_mutex_destroy,--wrap=pthread_mutex_timedlock,--wrap=sched_yield,--wrap=nanosleep,--wrap=clock_nanosleep,--wrap=usleep
rm -f "$T.ctl.o" "$T.main.o"
