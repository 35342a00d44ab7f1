#!/bin/bash
# replay.sh FILE: run one recorded counterexample natively against /repo's current headers
f=$(realpath "$1"); cd "$(dirname "$0")"
u=$(sed -n 's/^!unit //p' "$f"); e=$(sed -n 's/^!entry //p' "$f"); d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
fl=$(sed -n 's/^\/\/ vp-\(flags\|native\): //p' harness/$u.cpp | tr '\n' ' ' | sed 's/-fsanitize[^ ]*//g; s/-DVP_UB//; s#\$REPO#/repo#g')
clang++ -O1 -g -std=gnu++17 -fno-exceptions -w -DBOOST_ENABLE_ASSERT_HANDLER -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -include harness/vp.h $fl -Iharness -I/repo/include -I/opt/vp/guard harness/$u.cpp harness/vp_native.cpp -rdynamic -ldl -o $d/r && ASAN_OPTIONS=detect_leaks=0 $d/r $e "$f"
