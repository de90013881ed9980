#!/bin/bash
# usage: determinism.sh COUNT PROPS...   every seed twice, in different processes and company; the histories must be identical
here="$(cd "$(dirname "$0")/.." && pwd)"; cd "$here/.build" || exit 3
n=$1; shift; rc=0
[ ca.pem -nt sim ] || ./sim ca -prop C01
e="env -i HOME=/home/u TZ=UTC SSL_CERT_FILE=$PWD/ca.pem SSL_CERT_DIR=/nonexistent"
for p in "$@"; do
  $e ./sim worker -prop $p -count $n -log -secs 3000 2>/dev/null | python3 -c "import json,sys;[print(l) for l in json.loads(sys.stdin.readline())['log']]" | sort >a.$p
  ( $e ./sim worker -prop $p -from 1 -stride 2 -count $((n/2)) -log -secs 3000 2>/dev/null; $e ./sim worker -prop $p -from 0 -stride 2 -count $(((n+1)/2)) -log -secs 3000 2>/dev/null ) | python3 -c "
import json,sys
for x in sys.stdin: [print(l) for l in json.loads(x)['log']]" | sort >b.$p
  if cmp -s a.$p b.$p; then echo "$p: $n seeds, identical"; else echo "$p: DIFFERENT"; diff a.$p b.$p | head -4; rc=1; fi
  rm -f a.$p b.$p
done
exit $rc
