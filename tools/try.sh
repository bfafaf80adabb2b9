#!/bin/bash
# try.sh harness set variant [args]: build and run by hand, short output
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:exitcode=99:detect_stack_use_after_return=0
b=$(python3 /verif/tools/build.py $1 $2 $3 | tail -1); shift 3; mkdir -p /tmp/try; cd /tmp/try
"$b" --out /tmp/try/o.json "$@" 2>&1 | grep -aE "cases|VIOLATION|FAIL|case:|FINDING|message|why|error" | cut -c1-700
