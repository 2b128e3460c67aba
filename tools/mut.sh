#!/bin/bash
# mut.sh "<sed expr>" <file under /repo> <check ids...>: apply a one-off change, run checks, undo
e="$1"; f="$2"; shift 2
cd /repo && cp "$f" /tmp/mut.orig && sed -i -E "$e" "$f"
if cmp -s "$f" /tmp/mut.orig; then echo "NO CHANGE: $e"; exit 3; fi
git diff -U0 | grep '^[+-] ' | head -8
for c in "$@"; do python3 /verif/tools/check.py $c 2>&1 | grep -v "^RUN" | cut -c1-330; done
git checkout -- .
