#!/bin/bash
# try.sh BUG: (in a scratch copy) does the planted bug apply, build, pass the tests, and does its demo tell?
b=$(realpath "$1"); t=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo"; cd "$t/repo"
mkdir "$t/demo"; cp "$b"/demo* "$t/demo"
bash "$t/demo/demo.sh" >"$t/out" 2>&1; echo "demo on the unchanged tree: $?"; tail -3 "$t/out"
git apply "$b/patch.diff" || { echo "DOES NOT APPLY"; exit 1; }
bash "$t/demo/demo.sh" >"$t/out" 2>&1; echo "demo with the patch: $?"; tail -3 "$t/out"
