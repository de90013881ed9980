#!/bin/bash
# developer helper: tabulate violations of one property:  run.sh PROP COUNT [extra flags]
cd "$(dirname "$0")/.build"
p=$1; n=$2; shift 2
[ ca.pem -nt sim ] || ./sim ca -prop C01
HOME=/home/u TZ=UTC SSL_CERT_FILE=$PWD/ca.pem SSL_CERT_DIR=/nonexistent timeout 300 ./sim worker -prop $p -count $n -k -secs 250 "$@" 2>$PWD/err.txt | cut -c1-330 | awk '{k=$0; sub(/run [0-9]+ \(-from [0-9]+\) /,"",k); k=substr(k,1,60); if(!(k in s)){s[k]=$0; n++} c[k]++} END{for(k in s) print c[k], s[k]}' | sort -rn | head -${TOP:-14}
head -c 1500 err.txt
