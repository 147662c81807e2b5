#!/bin/sh
# scratch copy with a planted bug: tools/seedrepo.sh ID -> /tmp/sr/ID
mkdir -p /tmp/sr; rm -rf /tmp/sr/$1; cp -a /repo /tmp/sr/$1; cd /tmp/sr/$1 && git apply /verif/seeded/$1/patch.diff && echo /tmp/sr/$1
