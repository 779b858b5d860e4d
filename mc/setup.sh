#!/bin/bash
# builds everything once, to warm the Go build cache and to show that it builds
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/vmc.XXXXXX)
trap 'rm -rf "$w"' EXIT
"$here/build.sh" "$w" plain && "$here/build.sh" "$w" race
