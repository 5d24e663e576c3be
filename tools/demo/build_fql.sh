#!/bin/bash
# build_fql.sh DIR: compile fql from the current directory's sources into DIR/fql (nothing is
# written to the source tree); csv.c/csv.h stand in for libcsv, antlr_compat.h for the runtime version
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=$PWD
out=$1
mkdir -p "$out/o"
inc="-I$here -I/usr/include/antlr4-runtime -I$repo/lib -I$repo/lib/include -I$repo/lib/antlr -I$repo/lib/antlr/gen -I$repo/util -I$repo"
cat > "$out/cc.sh" <<X
f=\$1
o=$out/o/\$(basename \$f).o
case \$f in
*/gen/*.cpp) exec g++ -std=c++17 -O0 -w -include $here/antlr_compat.h $inc -c \$f -o \$o;;
*.cpp) exec g++ -std=c++17 -O0 -w $inc -c \$f -o \$o;;
*) exec gcc -std=gnu11 -g -O1 -w -pthread -DSCHEMA_DATADIR=$repo/lib/schema $inc -c \$f -o \$o;;
esac
X
{ ls -S "$repo"/lib/antlr/gen/*.cpp "$repo"/lib/antlr/*.cpp; ls "$repo"/util/*.c "$repo"/lib/*.c "$repo"/src/fql.c "$here"/csv.c; } |
	xargs -P 8 -n 1 bash "$out/cc.sh" || exit 99
g++ "$out"/o/*.o -o "$out/fql" -lantlr4-runtime -lpcre2-8 -lreadline -pthread || exit 99
