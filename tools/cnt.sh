#!/bin/sh
# summary of what left the fragment / was not decided in one property
cd /verif; ELLSYM_TB=1 ./run.sh "$@" -v > /tmp/cnt.txt 2>&1
grep -E "quick:|thorough:|VIOLATION|FAILS|  inputs|^also" /tmp/cnt.txt | cut -c1-600
grep -B6 "NeedConcrete:\|^[A-Za-z]*Error" /tmp/cnt.txt | grep -E "props/|NeedConcrete:|repo/|Error" | sort | uniq -c | sort -rn | head -${TOP:-25}
grep -B1 -E "^ +(notes|und):" /tmp/cnt.txt | cut -c1-${W:-260} | head -40
grep -E "PARTIAL|NO RESULT" /tmp/cnt.txt | cut -c1-${W:-200} | head -${PART:-10}
