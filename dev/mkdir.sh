# usage: mkdir.sh DIFF DIR : unpack /repo HEAD into DIR and apply DIFF
rm -rf "$2"; mkdir -p "$2"; git -C /repo archive HEAD -- "*.cc" "*.h" "*.py" "*.imp" "*.1" docs | tar x -C "$2"; patch -s -p1 -d "$2" -i "$1"
