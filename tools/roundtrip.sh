#!/bin/bash
# roundtrip.sh EXE COUNT PROP...: runs made in-process and the same plans read back from a file must have one hash
exe=$1; n=$2; shift 2
t=$(mktemp -d)
for P in "$@"; do
  bad=0
  for i in $(seq 0 $((n-1))); do
    a=$($exe hash $P 1 $i 8 1 | cut -d' ' -f2)
    $exe plan $P 1 $i > $t/f
    b=$($exe replay $t/f | sed 's/.*"hash":"\([0-9a-f]*\)".*/\1/')
    [ "$a" = "$b" ] || { bad=$((bad+1)); last=$i; }
  done
  echo "$P mismatches $bad of $n ${last:+last $last}"; unset last
done
rm -rf "$t"
