#!/bin/bash
# mut.sh <property> <file under /repo/packages> <sed expression>: does the check notice this one-off edit?
f=/repo/packages/$2; cp "$f" /tmp/mut.bak; sed -i -E "$3" "$f"
if cmp -s "$f" /tmp/mut.bak; then echo "NO CHANGE $*"; else node /verif/harness/run.mjs $1 > /tmp/mut.out 2>&1; rc=$?; echo "rc=$rc $1 $2 $3"; [ $rc = 2 ] && tail -5 /tmp/mut.out; fi
cp /tmp/mut.bak "$f"
