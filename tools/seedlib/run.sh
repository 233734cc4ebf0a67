#!/bin/bash
# compiles demo.cpp against the headers in the current directory and runs it; scratch files only in its own mktemp folder
H="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; D="$(mktemp -d)"; trap 'rm -rf "$D"' EXIT
python3 "$H/ov.py" "$R" "$D" || exit 3
A=""; for t in BOOL CHAR CHAR16_T CHAR32_T WCHAR_T SHORT INT LONG LLONG POINTER; do A="$A -D__GCC_ATOMIC_${t}_LOCK_FREE=2"; done
I=""; for h in cmath cstring cstdint cstdlib ctime climits array vector string memory functional algorithm numeric mm_malloc.h; do I="$I -include $h"; done
clang++-18 -std=c++17 -O0 -g -w -pthread -fno-strict-aliasing -fms-extensions -fms-compatibility -fms-compatibility-version=19 -fdelayed-template-parsing $A -D__GCC_ATOMIC_TEST_AND_SET_TRUEVAL=1 -ivfsoverlay "$D/ov.yaml" $I -D__cdecl= -I"$H" -I"$R" "$H/demo.cpp" -o "$D/demo" -lm > "$D/log" 2>&1 || { tail -30 "$D/log"; echo "demo does not compile"; exit 4; }
timeout 120 "$D/demo"
