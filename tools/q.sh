#!/bin/sh
# short summary: tools/q.sh C02 [args]
cd /verif; ELLSYM_TB=1 timeout 800 ./run.sh "$@" --keep-going -v > /tmp/q.txt 2>&1
grep -E "^also|wall" /tmp/q.txt | cut -c1-420 | head -${A:-14}
grep -E "PARTIAL|NO RESULT" /tmp/q.txt | cut -c1-${W:-170} | head -${P:-8}; echo "partial: $(grep -cE 'PARTIAL|NO RESULT' /tmp/q.txt)"
grep -E "Error:|NeedConcrete:" /tmp/q.txt | cut -c1-150 | sort | uniq -c | sort -rn | head -${E:-8}
grep -E "^ +(notes|und):" /tmp/q.txt | cut -c1-${W:-170} | head -${N:-6}
