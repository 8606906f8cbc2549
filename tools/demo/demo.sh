#!/bin/bash
# Builds demo.c against the libraries that build.sh made and runs it in a scratch folder. Run with cwd /repo.
here=$(cd "$(dirname "$0")" && pwd); work=$(mktemp -d) || exit 3
trap 'find "$work" -delete' EXIT
inc="-IDFABuilder/include -IDFABuilder/interface -IJSONPathParser -IJSONQuery -I_build/JSONPathParser"
gcc -std=gnu99 -O1 -g -w -mcmodel=medium -D_GNU_SOURCE -DJPS_VERIF $inc -I"$here" -c "$here/demo.c" -o "$work/demo.o" || exit 3
g++ -mcmodel=medium "$work/demo.o" -L_build/lib -lJSONQueryEngine -lDFABuilder -lJSONPathParser -lpthread -o "$work/demo" || exit 3
cd "$work" && timeout 120 ./demo > out.txt 2> err.txt; rc=$?
cat err.txt >&2; exit $rc
