#!/bin/bash
# builds the analyser (offline) into build/, which git ignores
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p build
sum=$(cat xpxcheck/*.go xpxcheck/go.mod | sha256sum)
[ -x build/xpxcheck ] && [ "$(cat build/sum 2>/dev/null)" = "$sum" ] && exit 0
(cd xpxcheck && go build -o ../build/xpxcheck.new . ) && mv build/xpxcheck.new build/xpxcheck && echo "$sum" > build/sum
