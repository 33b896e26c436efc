#!/bin/sh
# tryseed.sh <patch> <property>...: runs the checks on a scratch copy of /repo with the patch.
cd "$(dirname "$0")/.."
p=$(readlink -f "$1"); shift
d=/tmp/seedrepo-$$
mkdir -p $d && cp -a /repo/hpack /repo/huffman /repo/protos /repo/Cargo.toml /repo/Cargo.lock $d/
(cd $d && git init -q . 2>/dev/null; git apply --unsafe-paths "$p" || patch -s -p1 < "$p") || exit 3
for i in "$@"; do VERIF_REPO=$d python3 tools/check.py $i quick 2>&1 | grep -v '^\[.*search' | cut -c1-400; done
rm -rf "$d"
